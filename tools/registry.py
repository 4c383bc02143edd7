#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the one place where properties and claims are listed.

usage: python3 tools/registry.py     (from /verif; rewrites both files)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SB = 'stream2py/stream_buffer.py'
BR = 'stream2py/buffer_reader.py'
SS = 'stream2py/stream_source.py'
SR = 'stream2py/source_reader.py'
LD = 'stream2py/utility/locked_sorted_deque.py'
RW = 'stream2py/utility/reader_writer_lock.py'
SC = 'stream2py/utility/sorted_collection.py'
SD = 'stream2py/utility/sorted_deque.py'
SI = 'stream2py/simply.py'
UT = 'stream2py/util.py'
HT = 'stream2py/sources/http.py'

SCHED = (
    'Threads of the code under test and of the program run in a deterministic scheduler (virtual time; switches at '
    'lock operations, sleeps, source lines and sometimes byte-code instructions of the package), not on real parallel '
    'threads.'
)
SEQ = 'The source thread is real code under a virtual clock; the history itself is sequential.'


def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(
        prop=dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
        ),
        technique=technique,
        note=note,
    )


ALL = [
    P(
        'C01',
        'Every reader gets every item, once and in order',
        'A buffer reader that consumes a stream one after the other (by iterating, next, read of one or several items, '
        'blocking or polling, or ranges of new items) gets every item the source produced that was not pushed out of '
        'the window before it could be read, exactly once and in increasing key order. This holds for any number of '
        'concurrent readers and under every interleaving of their threads with the thread that reads the source. An '
        'item is never skipped, repeated, reordered or altered, and a reader made later starts with the oldest item '
        'that is still buffered.',
        ['schedules', 'inputs', 'programs'],
        'All interleavings of the source thread with any set of readers, all item and key types, window sizes and ways '
        'of consuming.',
        'The tests sample one timing of one reader on the real clock, usually with the source far ahead; a window of a '
        'few instructions between the reader and the source never opens there.',
        [BR, SB, LD],
        [('cursor by key, next = first item with a greater key', f'{BR} read'), ('append under the writer lock', f'{SB} _SourceBuffer.append')],
        'randomised schedule exploration (deterministic scheduler, Hypothesis-generated programs), list oracle',
        SCHED,
    ),
    P(
        'C02',
        'End of stream: everything is delivered, then the end, never earlier',
        'When a stream ends, because it was stopped or because its source failed, a reader that waits for data (by '
        'iterating, next until StopIteration, or blocking reads) is still given everything that was taken from the '
        'source before the end and is still buffered, and only then ends. The end is signalled (iteration finishes, '
        'StopIteration, None from a blocking read) only if the stream is stopped and nothing is left; it is always '
        'signalled eventually, and stays signalled.',
        ['schedules', 'histories', 'fault_sequences'],
        'All interleavings of the last items, the stop and the waiting readers; all ways the stream can end and all '
        'ways a reader can wait.',
        'Tests stop the stream while everybody is idle; items that arrive between a look at the data and a look at the '
        'stopped flag need a particular interleaving.',
        [BR, SB],
        [('stopped flag looked at before reading', f'{BR} __iter__, __next__, read(blocking)'), ('stop event per run', f'{SB} _run')],
        'randomised schedule exploration (deterministic scheduler, Hypothesis-generated programs), list oracle',
        SCHED,
    ),
    P(
        'C03',
        'read and next return exactly the documented items for every option',
        'A read returns the oldest buffered item whose key is greater than the cursor, or with n > 1 the list of the up '
        'to n oldest such items, and moves the cursor to the last item returned unless it peeks. If there is none it '
        'raises ValueError, or returns None when no item found is to be ignored, and a strict read of several items '
        'raises ValueError exactly when fewer than n are available; failed reads and peeks leave the cursor alone. '
        "Options not given are the reader's defaults, explicit options win, and next(reader) is a read with the "
        'defaults that gives None while there is nothing and raises StopIteration once the stream is stopped.',
        ['inputs', 'histories', 'configurations'],
        'All sequences of reads with all option combinations and reader defaults, over all window contents, cursors, '
        'key and item types (also items that are falsy or cannot be compared).',
        'The tests read a handful of items with single options; combinations of defaults, boundaries (exactly n left) '
        'and dropped cursors are not reached.',
        [BR],
        [('option defaults', f'{BR} defaulted_values'), ('read', f'{BR} read'), ('next', f'{BR} __next__')],
        'property-based testing: generated histories against a reference model',
        SEQ,
    ),
    P(
        'C04',
        'range returns exactly the items between its bounds',
        'A range call returns every buffered item with start <= key <= stop, thinned to every step-th one, where '
        'rounding the start down widens it to the nearest key at or below, asking for a stop that is reached narrows '
        'to the nearest key at or above or fails if there is none, and only new items restricts it to keys behind the '
        'cursor. The cursor moves to the last item returned unless it peeks. Nothing found gives an empty list when '
        'peeking, and otherwise ValueError or IndexError, or None if that is to be ignored, with the cursor unchanged.',
        ['inputs', 'histories', 'configurations'],
        'All bounds (on, between and beyond keys, crossing), steps and options over all window contents, cursors and '
        'key types.',
        'The tests call range with a few bounds that lie on keys of a full window.',
        [BR, SD],
        [('range', f'{BR} range'), ('bisection by key', f'{SD} range, find_le, find_ge, find_gt')],
        'property-based testing: generated histories against a reference model',
        SEQ,
    ),
    P(
        'C05',
        'head, tail and the cursor: oldest, newest, and where the reader stands',
        'head returns the oldest and tail the newest buffered item; tail restricted to new items only succeeds if the '
        'newest one is behind the cursor. The cursor of a reader (last item and its key, always consistent) is the last '
        'item it returned without peeking, can be set to any item or cleared, and all later reads continue from it even '
        'if that item has left the buffer. On an empty buffer, or without new items, they raise ValueError (head may '
        'raise IndexError) or return None if that is to be ignored, leaving the cursor alone.',
        ['inputs', 'histories'],
        'All histories of head, tail, cursor assignments and reads over all window contents, key and item types.',
        'Tests look at the cursor after a few calls on a full buffer only.',
        [BR],
        [('tail, head', f'{BR} tail, head'), ('cursor', f'{BR} last_item, last_key')],
        'property-based testing: generated histories against a reference model',
        SEQ,
    ),
    P(
        'C06',
        'Readers do not influence each other or the buffer',
        'Each reader of a stream has its own cursor and defaults: no call on one reader changes the cursor, the '
        'defaults or the results of another one. Reading of any kind, or closing a reader, never adds, removes or '
        'changes buffered items or stops the stream, and what a caller does with a returned list affects nobody else.',
        ['histories', 'programs'],
        'All interleaved call sequences over several readers with different defaults.',
        'Tests use at most two readers and compare two or three values.',
        [BR, SB, SD],
        [('cursor per reader', f'{BR} __init__'), ('results are copies', f'{SD} range_by_index')],
        'property-based testing: generated histories against one reference model per reader',
        SEQ,
    ),
    P(
        'C07',
        'The buffer is the window of the most recent maxlen items',
        'With automatic dropping the buffer holds, whenever the source has been quiet for a moment, exactly the most '
        'recent maxlen items the source produced (all of them when maxlen is None, 100 when not given), in key order '
        'and unaltered. The buffer keeps taking in data no matter how slow or absent readers are.',
        ['inputs', 'histories', 'configurations'],
        'All burst patterns, window sizes from 1 to unbounded, key and item types and ways to construct the buffer.',
        'Tests use one or two window sizes and do not compare the whole content.',
        [SB, SD, SR],
        [('bounded deques of keys and items', f'{SD} __init__, append'), ('maxlen handed down', f'{SB} _open')],
        'property-based testing: generated histories against a list model',
        SEQ,
    ),
    P(
        'C08',
        'Without automatic dropping nothing is lost and the source waits',
        'With auto_drop off the buffer never holds more than maxlen items, nothing leaves it except the oldest n items '
        'on drop(n), and every item the source produced is eventually available in order. While the buffer is full the '
        'source is not read; after a drop reading resumes by itself, and with maxlen None it never pauses. This holds '
        'with readers and the dropping thread running concurrently.',
        ['histories', 'schedules', 'configurations'],
        'All interleavings of bursts, drops and reads, all window sizes.',
        'One test drops by hand in lockstep with the reader on the real clock.',
        [SB, SD],
        [('full check before reading the source', f'{SB} _run'), ('drop under the writer lock', f'{SB} drop')],
        'model-based testing of generated histories plus randomised schedule exploration',
        SCHED,
    ),
    P(
        'C09',
        'A source is opened, read and closed in strict alternation',
        'Whatever sequence of starting, stopping, restarting and leaving with-blocks a program performs, also from two '
        'threads at once, the source is opened once per start, read only while it is open, and closed exactly once '
        'after every successful opening. Calls to the source never overlap each other, even if opening, reading or '
        'closing takes long. Once the stream is stopped and things have settled the source is closed and no longer read; '
        'a source that is not busy with a call is closed by the time stop returns, however long its configured pause.',
        ['histories', 'schedules', 'fault_sequences'],
        'All command sequences and their interleavings with slow or failing sources.',
        'Tests start and stop streams one after the other with sources that react at once.',
        [SB],
        [('start waits for the previous run', f'{SB} start, _set_read_to_buffer_thread_and_source_buffer'), ('close in finally', f'{SB} _run')],
        'stateful testing: generated histories under generated schedules, automaton over the log of source calls',
        SCHED,
    ),
    P(
        'C10',
        'A failing source stops its stream cleanly and can be restarted',
        'If reading the source fails with any exception, or it delivers an item whose key fails or does not exceed the '
        'previous one, the stream stops by itself: it is no longer running, its readers see it as stopped, the source is '
        'closed exactly once and the items taken before stay readable. If starting fails the error reaches the caller, '
        'the stream is not running and an opened source is closed again. A failing close is contained, and in all '
        'cases the stream can be started again and then works normally.',
        ['fault_sequences', 'histories', 'schedules'],
        'Every point of failure (open, info, read, key, out of order item, close), kinds of exceptions including '
        'KeyboardInterrupt and SystemExit, over histories of restarts.',
        'No test makes a source fail.',
        [SB],
        [('finally of the run loop', f'{SB} _run'), ('failed start', f'{SB} start, _open')],
        'fault injection: generated fault sequences under generated schedules against a session model',
        SCHED,
    ),
    P(
        'C11',
        'A restart never mixes old and new sessions',
        'Every start opens a fresh session with an empty buffer and the source information of that opening: readers '
        'made during it, next(buffer) and the information shown belong to it alone. Readers of earlier sessions stay '
        'stopped, keep delivering exactly the data and information of their own session and never see newer items. Two '
        'readers report the same buffer exactly if they belong to the same session.',
        ['histories', 'schedules'],
        'All histories of restarts with readers kept across them, sessions producing equal keys.',
        'One doctest restarts once and compares is_same_buffer.',
        [SB, BR],
        [('buffer and stop event per run', f'{SB} _open'), ('info of the session', f'{SB} source_reader_info')],
        'stateful testing: generated histories of sessions with distinguishable items',
        SCHED,
    ),
    P(
        'C12',
        'Every reader call sees one consistent state of the buffer',
        'Concurrently with the source (and with manual drops) every single reader call returns what its definition '
        'gives for one state the buffer had between the start and the end of the call, never a mixture of several, and '
        'never a state older than one the same reader has already seen. An item or a failure that no such state '
        'explains never occurs, and the cursor afterwards is the one that goes with the result.',
        ['schedules', 'histories'],
        'All interleavings of readers with appends and drops, all calls and options.',
        'Tests run calls against a buffer at rest; torn reads need an append between two steps of one call.',
        [BR, LD, RW, SB],
        [('one reader-locked section per call', f'{BR} read, range, tail, head'), ('writer lock', f'{SB} append, drop')],
        'linearizability checking of generated concurrent histories against the reference model',
        SCHED,
    ),
    P(
        'C13',
        'No call blocks forever',
        'Whatever calls readers, droppers and controllers make concurrently, including calls that raise, every call '
        'returns within bounded time, the stream keeps taking in data, and stopping it (a source may do so itself '
        'while it is read) ends all waiting readers. No failing or repeated call leaves the buffer locked for others.',
        ['schedules', 'programs', 'fault_sequences'],
        'All interleavings of programs over the whole reader and buffer interface.',
        'Tests have one thread calling and no writer waiting at the wrong moment.',
        [BR, SB, LD, RW],
        [('reader-writer lock', f'{RW} RWLock'), ('locks released by with-blocks', f'{LD} reader_lock, writer_lock')],
        'randomised schedule exploration with deadlock and no-progress detection',
        SCHED + ' A hang is reported after a generous bound of virtual time and scheduling steps.',
    ),
    P(
        'C14',
        'Buffer lock: writers are exclusive, nothing leaks, everybody gets in',
        'The reader-writer lock of the buffer never lets a writer in together with anybody else. A section entered is '
        'always left again, also when it raises (the exception reaches the caller and the lock is free afterwards), and '
        'every thread that wants in gets in if all sections end. Data written in a writer section is completely visible '
        'in later sections.',
        ['schedules', 'programs', 'fault_sequences'],
        'All schedules of up to five threads with any mix of read and write sections that may raise.',
        'The one test of the lock runs on real threads with long sleeps.',
        [RW, LD],
        [('RWLock', RW), ('context managers', f'{LD} reader_lock, writer_lock')],
        'randomised schedule exploration with an exclusion invariant, deadlock detection',
        SCHED,
    ),
    P(
        'C15',
        'Buffer lock: readers share, a waiting writer goes first',
        'Readers enter the lock together as long as no writer is inside or waiting. A waiting writer holds back new '
        'readers, enters as soon as those inside have left, and writers come one at a time; when no writer is left all '
        'waiting readers enter.',
        ['histories', 'schedules'],
        'All sequences of requests and releases of up to seven threads.',
        'The test has one pattern of arrival.',
        [RW],
        [('writer count closes the door for readers', f'{RW} writer_acquire, reader_acquire')],
        'model-based testing: generated request sequences, state compared at every settled point',
        SCHED,
    ),
    P(
        'C16',
        'Sorted containers answer every query like a sorted list',
        'For any items, key function and maximum length, the sorted collection and sorted deque hold the items sorted '
        'by key, items with equal keys in the order given, and never compare items themselves. Finding (equal, below, '
        'at or below, above, at or above, last above), index, count, membership, item access, iteration forwards and '
        'backwards, and ranges by key and by index give what a linear scan of that list gives, with ValueError or '
        'IndexError when there is nothing.',
        ['inputs', 'histories'],
        'All contents with equal keys and all probes on, between and beyond the keys.',
        'The doctests use distinct keys and comparable items.',
        [SC, SD],
        [('bisection over parallel keys', SC), ('deque variants', SD)],
        'property-based testing: differential against brute force',
        'Equality of items is by value and type; sizes up to about 120 (900 in the thorough tier).',
    ),
    P(
        'C17',
        'Sorted containers stay sorted under every mutation',
        'Inserting puts an item left (or right) of those with equal keys, appending accepts exactly items whose key is '
        'greater than the last (ValueError otherwise), removing takes out the first equal item (ValueError if there is '
        'none), and dropping takes the oldest n. A full bounded deque gives up its oldest item on append. A rejected or '
        'failing call changes nothing, and all key lookups stay correct after every call.',
        ['inputs', 'histories'],
        'All sequences of mutations, valid and invalid, over all contents and key functions.',
        'The tests append a few times.',
        [SC, SD],
        [('insert, remove', SC), ('append, drop', SD)],
        'model-based stateful testing against a list',
        'Inserting into the middle of a full deque may be rejected or drop the oldest; both are accepted.',
    ),
    P(
        'C18',
        'Copies, pickles, new keys and new sizes of sorted containers are faithful',
        'A copy or an unpickled pickle of a sorted collection or deque has the same items, key and maximum length and '
        'is independent of the original. Assigning another key re-sorts the same items by it and keeps the maximum '
        'length; shrinking the maximum length keeps the newest items; clearing keeps key and maximum length.',
        ['histories', 'inputs'],
        'All sequences of copying, pickling, re-keying, resizing and clearing mixed with mutations.',
        'Tests never pickle, re-key or resize.',
        [SC, SD],
        [('copy, clear, pickling', SC), ('key and maxlen properties', SD)],
        'model-based stateful testing against a list',
        'Pickling is claimed for key functions that can be pickled and for no key function.',
    ),
    P(
        'C19',
        'A stream source runs while it has open readers, and can be reopened',
        'A stream source is opened when its first reader is opened, stays open while at least one reader is open, '
        'and is closed exactly once when the last one is closed, however often a reader is closed and whichever way '
        '(close, exit or leaving its with-block). Opening a reader afterwards opens the source again as a new session '
        'with fresh data, and an opening that fails reaches the caller and counts for nothing. All readers of a session '
        'see the same data independently, and sources of one class do not influence each other.',
        ['histories'],
        'All histories of opening, reading and closing readers, repeated closing included.',
        'Tests open and close one or two readers once.',
        [SS, BR],
        [('count of open readers', f'{SS} open_reader, _handle_reader_closed'), ('close notification', f'{BR} close')],
        'model-based stateful testing: automaton over the log of source calls',
        SEQ + ' Readers are opened and closed by one thread.',
    ),
    P(
        'C20',
        'Stream source settings reach the buffer and its readers',
        'The window length, dropping mode and pause configured on a stream source before its first reader apply to its '
        'buffer in every session and to no other source, and configuring it after it was started (even if it is stopped again) raises ValueError. Read size, strictness and '
        'ignoring given when opening a reader are the defaults of that reader, and a reader class given to the source '
        'is the class of its readers. The timestamp helper gives the current time in microseconds.',
        ['configurations', 'histories'],
        'All combinations of settings, observed through the behaviour of buffer and readers.',
        'Tests never configure a stream source.',
        [SS],
        [('settings', f'{SS} configure_buffer'), ('reader options', f'{SS} open_reader')],
        'property-based testing: generated configurations against the reference model',
        SEQ,
    ),
    P(
        'C21',
        'Wrong use fails with the documented error and harms nothing',
        'Making or attaching a reader before a stream was ever started raises the not-started error, giving a buffer '
        'something that is not a source fails at construction, and dropping by hand while dropping is automatic raises '
        'RuntimeError; none of these changes state. Before the first start there is no source information and the '
        'stream is not running; it reports running exactly from a successful start until it is stopped or its source '
        'fails.',
        ['histories', 'inputs'],
        'All positions of misuse in histories of use.',
        'Tests check one misuse on a fresh buffer.',
        [SB, 'stream2py/exceptions.py'],
        [('guards', f'{SB} mk_reader, attach_reader, drop, __init__')],
        'model-based stateful testing of generated histories with misuse',
        SEQ,
    ),
    P(
        'C22',
        'An idle source is polled at the configured pace',
        'When the source has no data (returns None) the stream waits the configured time before it asks again: the one '
        "given to the buffer, else the source's own, else 0.3 seconds. It does not wait after an item, so a burst is "
        'taken in without pauses. While waiting, stopping the stream is not delayed by the pause.',
        ['inputs', 'configurations', 'histories'],
        'All pauses (integers, fractions, zero), all patterns of items and None, all sources of the setting.',
        'Tests on the real clock cannot observe when a source is asked.',
        [SB, SR],
        [('choice of the pause', f'{SB} __init__'), ('wait on None', f'{SB} _run')],
        'property-based testing: timing of source calls on a virtual clock against a model',
        SEQ,
    ),
    P(
        'C23',
        'The all-in-one helper behaves like a source and buffer written by hand',
        'A stream buffer made from plain functions opens once on entering, reads and closes exactly once on leaving with '
        'the opened instance, also if the body raises, and hands errors through. Its readers get exactly the data the read '
        'function returned (numbered from 0 in pairs unless that is switched off), ordered by the given key or the data '
        'itself, and None from the read function means that there is no data yet. Length, pause, dropping mode and '
        'information given apply.',
        ['inputs', 'configurations', 'fault_sequences'],
        'All read scripts, option combinations and exits from the body.',
        'There is no test of it.',
        [SI],
        [('source built from functions', f'{SI} mk_stream_buffer')],
        'property-based testing: generated functions and options against a model',
        SEQ,
    ),
    P(
        'C24',
        'Source readers open, close and iterate as documented',
        'A source reader used as a context manager is opened on entering and closed on leaving, once each, also if the '
        'body raises, and tells whether it is closed. Iterating it yields exactly the data that is not None, in order, '
        'and pauses the configured time where there is none. The quick source reader needs only a read function: it '
        'additionally filters iteration by its validity test, calls its no-data hook with each rejected value, and '
        'is keyed by the data itself.',
        ['inputs', 'histories'],
        'All scripts of data and gaps, nestings of contexts and exceptions.',
        'Tests use one list of numbers.',
        [SR],
        [('context and iteration', f'{SR} SourceReader'), ('validity filter', f'{SR} QuickSourceReader')],
        'property-based testing against a model',
        SEQ,
    ),
    P(
        'C25',
        'The HTTP source delivers the response exactly, then nothing more',
        'Reading an HTTP source in chunks of any size gives the body of the response: the chunks in order, none empty, '
        'add up to it byte for byte, or with an encoding to exactly its text even if a character is cut by a chunk '
        'boundary, and afterwards reads give None. The request sent is the one configured (method, headers, body), '
        'a reopened source reads the response from the start, and its information shows the settings and the right count of bytes read.',
        ['inputs', 'configurations'],
        'All bodies, encodings, chunk sizes, methods and headers.',
        'There is no test of it.',
        [HT],
        [('request and chunks', f'{HT} HTTPResponseReader')],
        'property-based testing against a loopback HTTP server (round trip)',
        'Real time and sockets on the loopback interface; one server per worker.',
    ),
    P(
        'C26',
        'A contextualized callable calls, enters and exits the right things',
        'Wrapping a callable gives a callable with the same results, exceptions and attributes that is also a context '
        'manager: entering and leaving call exactly the given enter and exit functions once with the wrapped callable '
        '(and the exception), return what they return, so an exit function can swallow an exception. A bound method '
        'wrapped with its instance enters and leaves that instance. Wrapping something wrapped works the same way, and '
        'unsuitable arguments are rejected with TypeError when wrapping.',
        ['inputs', 'programs'],
        'All callables, nestings of wrappers, enter/exit functions and exceptions.',
        'One test wraps one bound method.',
        [UT],
        [('wrapper', f'{UT} ContextualizeCall'), ('validation', f'{UT} EnterFunctionValidation, ExitFunctionValidation')],
        'property-based testing: generated wrappings against a model',
        'Plain deterministic Python, no threads.',
    ),
    P(
        'C27',
        'A stream buffer is itself an iterator over its current session',
        'Asking the buffer itself for the next item, or calling it, gives the items of the running session one after '
        'the other from the oldest one buffered at the first request, without repeating or skipping any that is still '
        'buffered, None while there is no new one, and StopIteration after the end. Iterating the buffer is iterating a '
        'new reader of it and independent of that. Neither influences other readers, and after a restart it begins '
        'with the new session.',
        ['histories', 'inputs'],
        'All histories of requests, bursts, other readers, stops and restarts.',
        'There is no test of it.',
        [SB],
        [('next reader', f'{SB} __next__, __iter__, __call__')],
        'model-based stateful testing of generated histories',
        SEQ,
    ),
    P(
        'C28',
        'Attaching a reader moves it to the running session of a buffer',
        'A reader attached to a running stream reads the data of that stream from its cursor on: items with keys behind '
        'the cursor, in order, and nothing of its former stream any more. It is stopped when that stream is, shows its '
        'information, and counts as being on the same buffer as readers made there. Its defaults stay, and readers that '
        'were not attached are not affected.',
        ['histories'],
        'All histories of attaching readers across streams and sessions with reads in between.',
        'There is no test of it.',
        [SB, BR],
        [('attach', f'{SB} attach_reader')],
        'model-based stateful testing of generated histories',
        SEQ,
    ),
    P(
        'C29',
        'Packaging helpers: configs, versions, urls and templates come out right',
        'A section written to a configuration file is read back as given (texts and lists of texts), other sections '
        'staying as they are, alone or with all sections. The version after one increases its last number, and the '
        'current version of a package is its numerically highest release. Joining url parts puts exactly one slash '
        'between them and keeps outer ones. Templates in a dictionary are filled in completely however they refer to '
        'each other, and missing or circular references raise ValueError.',
        ['inputs', 'histories'],
        'All configurations, releases, url parts and template dictionaries.',
        'The doctests show one example each.',
        ['pack.py'],
        [('configuration files', 'pack.py write_configs, read_configs'), ('versions', 'pack.py current_pypi_version, increment_version'), ('templates', 'pack.py format_str_vals_of_dict')],
        'property-based testing: round trips and reference models, loopback index server',
        'Keys of lower-case letters; texts without percent signs, line breaks or leading comment signs; at most 9 levels of templates.',
    ),
    P(
        'C30',
        'A waiting reader is served within its pause',
        'A reader that waits for data, by iterating, with a blocking read, or as the buffer itself is iterated, gives an '
        'item at the latest one pause after the stream took it in, and notices the end of the stream within one pause. The '
        'pause is 0.1 seconds unless another one was set on the reader, at any time and for that reader alone.',
        ['inputs', 'schedules'],
        'All pauses, arrival times and ways of waiting, also changed while waiting and after a restart.',
        'Tests on the real clock cannot tell a pause from a slow machine, so nothing checks it.',
        [BR, SB],
        [('iteration', f'{BR} __iter__'), ('blocking reads', f'{BR} read'), ('setting', f'{BR} set_sleep_time_on_iter_none')],
        'property-based testing of generated timings on a virtual clock against arrival times',
        SCHED,
    ),
    P(
        'C31',
        'Starting is atomic for everybody else',
        'Making a reader, attaching one, or asking whether the stream is running while another thread starts or restarts '
        'the stream gives what it would give before or after the start: never an error on a stream that was running '
        'before and is running afterwards, never a running stream before its source is open or if opening fails, and '
        'never a reader that mixes the data and the information of two sessions.',
        ['schedules', 'histories'],
        'All interleavings of starts, restarts and stops, also failing or taking long to open, with concurrent clients.',
        'The tests start a stream before anybody uses it; nothing runs while a source is opening.',
        [SB],
        [('start lock', f'{SB} start, mk_reader, attach_reader, is_running')],
        'property-based testing of generated concurrent histories against the interval model of the starts',
        SCHED,
    ),
    P(
        'C32',
        'Several streams in one program do not influence each other',
        'Any number of streams, sources, readers and sorted containers can be used in one program, also several of the '
        'same source class, with equal settings, keys and items: each of them behaves exactly as it would alone, '
        'whether they are used one after the other or at the same time from different threads. Data, cursors, '
        'settings, pauses, counts of open readers, stopping and failing of one never show in another.',
        ['histories', 'schedules', 'inputs'],
        'All pairs and triples of histories of streams, in sequence or under all interleavings.',
        'The tests use one stream at a time, and look at what is shared between two of them nowhere.',
        [SB, BR, SS, SR, SD],
        [
            ('one buffer per stream and session', f'{SB} _SourceBuffer'),
            ('settings and cursor of a reader', f'{BR} BufferReader.__init__'),
            ('reader count and buffer settings of a source', f'{SS} StreamSource'),
        ],
        'property-based testing of complete generated histories side by side, each against its own model',
        SCHED,
    ),
    P(
        'C33',
        'A stream holds on to its window and to nothing else',
        'However long a stream runs and whatever its readers do, the only items (and keys of items) it keeps are those '
        'in the window of its running or last session, and those under the cursor of a reader that somebody still '
        'has: items that were pushed out or dropped are released. The window of a finished session is released once '
        'the stream is started again and no reader of that session is left; readers that nobody refers to any more are '
        'released whether they were closed or not; and a stopped stream that nobody refers to is released as a whole. '
        'A stream has at most one thread, and restarting does not add any.',
        ['histories', 'inputs'],
        'All histories of data, reading in every form, drops, closings, failures, stops and restarts.',
        'The tests run for seconds and never look at what is kept.',
        [SB, BR, SS, SD],
        [
            ('bounded containers', f'{SD} SortedDeque'),
            ('buffer of a session', f'{SB} StreamBuffer._set_read_to_buffer_thread_and_source_buffer'),
            ('cursor', f'{BR} last_item'),
        ],
        'property-based testing of generated histories with weak references to every item, key and reader',
        SEQ + ' A few items more are tolerated (on their way between source and buffer).',
    ),
    P(
        'C34',
        'A program ends although streams are left running',
        'A program that uses streams ends when its own work is done, with its own exit status: neither a stream that was '
        'never stopped, nor a source that waits forever in a read or in its closing, nor readers that wait for data in '
        'daemon threads keep the process alive or turn its ending into a crash, whether it returns, exits, is interrupted '
        'or fails with an error, inside or outside of the contexts of its streams.',
        ['programs', 'schedules'],
        'All small programs with streams in any state and all ways to end.',
        'Tests stop their streams, and a test run ends whatever a single test leaves behind.',
        [SB, SI, SS],
        [('daemon thread', f'{SB} _set_read_to_buffer_thread_and_source_buffer'), ('cleaning up', f'{SB} __del__')],
        'property-based testing of generated programs as real processes',
        'Real threads and clock; a program of one to three streams is given 40 s to end.',
    ),
]

# ids whose check is not built (yet): reason
NOT_APPLICABLE = {}


def main():
    import importlib
    import sys

    claimed = [p for p in ALL if os.path.isfile(os.path.join(HERE, 'props', p['prop']['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in ALL:
            assert len(p['prop']['title']) <= 80, p['prop']['title']
            f.write(json.dumps(p['prop']) + '\n')
    manifest = dict(
        version=1,
        setup_cmd='python3-vt tools/selftest.py',
        checks=[
            dict(
                property=p['prop']['id'],
                quick_cmd=f'python3-vt check.py {p["prop"]["id"]} --tier quick',
                thorough_cmd=f'python3-vt check.py {p["prop"]["id"]} --tier thorough',
                evidence_file=f'evidence/{p["prop"]["id"]}.json',
                technique=p['technique'],
                level='exploration',
                level_note=p['note'],
            )
            for p in claimed
        ],
        not_applicable=[
            dict(
                property=p['prop']['id'],
                reason=NOT_APPLICABLE.get(p['prop']['id'], 'the check for this property is not built yet'),
            )
            for p in ALL
            if p not in claimed
        ],
        notes='No hooks in /repo: the package is loaded unchanged into a deterministic scheduler. See DESIGN.md.',
    )
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
