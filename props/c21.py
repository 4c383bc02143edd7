"""Wrong use fails with the documented error and harms nothing; is_running tells the truth."""
from hypothesis import strategies as st

import gen
import vworld as V
from harness import HarnessError, Violation
from streams import Book, FAULTS, call_reader, mk_source_class, window_after

ID = 'C21'
RULE = (
    'A case is an attempt to make a buffer of something (a source, a duck-typed source, or an object that lacks part of '
    'the interface) and a history of start, stop, failures, data and misuse; state and content are compared with a model '
    'after every step. Non-trivial if misuse happened in at least 2 different states, or the construction was rejected.'
)
CASES = {'quick': 3000, 'thorough': 60000}

PARTS = ['open', 'read', 'close', 'key', 'info', 'sleep_time_on_read_none_s']
JUNK = ['None', 'object', 'int', 'str', 'list', 'dict', 'lambda', 'class', 'iterator']


@st.composite
def strategy(draw, tier):
    what = draw(gen.weighted((8, st.just(['source'])), (3, st.just(['falsy'])), (4, st.just(['duck'])), (1, st.sampled_from(PARTS).map(lambda p: ['lacks', p])), (1, st.sampled_from(JUNK).map(lambda j: ['junk', j]))))
    cmd = gen.weighted(
        (2, st.sampled_from([['start'], ['stop'], ['enter'], ['exit']])),
        (2, st.integers(1, 4).map(lambda n: ['feed', n])),
        (1, st.sampled_from(['Fault', 'StopIteration', 'KeyboardInterrupt', 'SystemExit']).map(lambda f: ['fault', f])),
        (4, st.sampled_from([['mk'], ['attach'], ['next'], ['iter'], ['call']])),
        (3, st.integers(-1, 3).map(lambda n: ['drop', n])),
        (1, st.just(['look'])),
        (1, st.sampled_from([['busy', 'stop'], ['busy', 'exit'], ['busy', 'start']])),
    )
    return {
        'what': what,
        'ktype': draw(gen.ktypes),
        'kind': draw(st.sampled_from(['tuple', 'dict', 'array', 'falsy'])),
        'maxlen': draw(st.sampled_from([None, 2, 5, 100])),
        'auto_drop': draw(st.sampled_from([True, True, True, False])),
        'open_faults': draw(st.lists(st.sampled_from([None, None, 'Fault', 'OSError']), max_size=2)),
        'cmds': draw(st.lists(cmd, min_size=4, max_size=16 if tier == 'quick' else 40)),
    }


def duck(src, lacks=None):
    """An object that is not a SourceReader, with the interface of one (or nearly)."""
    ns = {
        'open': lambda self: src.open(),
        'read': lambda self: src.read(),
        'close': lambda self: src.close(),
        'key': lambda self, data: src.key(data),
        'info': property(lambda self: src.info),
        'sleep_time_on_read_none_s': property(lambda self: src.sleep_time_on_read_none_s),
    }
    ns.pop(lacks, None)
    return type('Duck', (), ns)()


def run(case, rec):
    from stream2py import StreamBuffer
    from stream2py.exceptions import StreamNotStartedError

    book = Book(case['ktype'], case['kind'])
    maxlen, auto = case['maxlen'], case['auto_drop']
    states = set()

    def main():
        kind = case['what'][0]
        cls = mk_source_class()
        if kind == 'falsy':  # a source that is an empty collection too

            class cls(cls):
                __len__ = lambda self: 0

        src = cls(book, [], sleep=0.2, open_faults=case['open_faults'], tagged=False)
        if kind in ('lacks', 'junk'):
            bad = duck(src, case['what'][1]) if kind == 'lacks' else {
                'None': None, 'object': object(), 'int': 3, 'str': 'source', 'list': [1], 'dict': {'open': 1},
                'lambda': lambda: None, 'class': object, 'iterator': iter([1, 2]),
            }[case['what'][1]]
            try:
                StreamBuffer(bad, maxlen=maxlen, auto_drop=auto)
            except Exception:
                if src.log:
                    raise Violation('a rejected source was used')
                rec.label('rejected')
                return
            raise Violation(f'a StreamBuffer of {case["what"]} was accepted')
        obj = duck(src) if kind == 'duck' else src
        buf = StreamBuffer(obj, maxlen=maxlen, auto_drop=auto)
        spare_src = mk_source_class()(Book(case['ktype'], case['kind']), [], sleep=5)
        spare = StreamBuffer(spare_src, maxlen=3)
        spare.start()
        reader = spare.mk_reader()
        state = 'new'  # new, running, over; 'none' after a failed restart
        taken = []

        def check(what):
            if buf.is_running is not (state == 'running'):
                raise Violation(f'{what}: is_running is {buf.is_running} ({state})')
            info = buf.source_reader_info
            if state in ('running', 'over') and info != {'session': src.session}:
                raise Violation(f'{what}: source info is {info}')
            if state == 'new' and info is not None:
                raise Violation(f'{what}: source info is {info} before the first start')
            if state in ('running', 'over'):
                got = call_reader(book, buf.mk_reader(), ['range', {'start': -5, 'stop': 10**6, 'peek': True}])
                want = window_after(taken, maxlen) if auto else taken[:maxlen]
                if got != ('val', want):
                    raise Violation(f'{what}: the buffer holds {got}, expected {want}')

        for i, cmd in enumerate(case['cmds']):
            what = f'step {i} {cmd} ({state})'
            k = cmd[0]
            if k == 'busy':  # while the source is in the middle of a long read that gives nothing
                if state == 'running':
                    src.feed.extend([['s', 4.0], ['n']])
                    V.vsleep(0.7)
                k = cmd[1]
            if k in ('start', 'enter'):
                src.feed.clear()
                src.end = None
                n = src.session + 1
                fails = n < len(case['open_faults']) and case['open_faults'][n]
                try:
                    buf.start() if k == 'start' else buf.__enter__()
                except tuple(FAULTS.values()) as e:
                    if not fails or type(e) is not FAULTS[fails]:
                        raise
                    state = 'new' if state == 'new' else 'none'
                else:
                    if fails:
                        raise Violation(f'{what}: start succeeded although opening failed')
                    state = 'running'
                    taken = []
            elif k in ('stop', 'exit'):
                if state in ('running', 'over'):
                    buf.stop() if k == 'stop' else buf.__exit__(None, None, None)
                    state = 'over'
            elif k == 'feed':
                if state == 'running':
                    new = list(range(len(taken) + len(src.feed), len(taken) + len(src.feed) + cmd[1]))
                    src.feed.extend(['i', p] for p in new)
                    V.vsleep(2)
                    taken += new
            elif k == 'fault':
                if state == 'running' and (auto or maxlen is None or len(taken) < maxlen):
                    src.end = cmd[1]
                    V.vsleep(2)
                    state = 'over'
            elif k in ('mk', 'attach', 'next', 'iter', 'call'):
                if state == 'none':
                    continue
                fn = {
                    'mk': lambda: buf.mk_reader(),
                    'attach': lambda: buf.attach_reader(reader),
                    'next': lambda: next(buf),
                    'iter': lambda: next(iter(buf)),
                    'call': lambda: buf(),
                }[k]
                if state == 'new':
                    states.add('new')
                    try:
                        out = fn()
                    except StreamNotStartedError:
                        pass
                    else:
                        raise Violation(f'{what}: gave {out!r} before the first start')
                    if reader.is_stopped or reader.source_reader_info != {'session': 0}:
                        raise Violation(f'{what}: a reader that could not be attached has changed')
                elif k == 'mk':
                    fn()
            elif k == 'drop':
                if auto:
                    states.add(state)
                    try:
                        buf.drop() if cmd[1] < 0 else buf.drop(cmd[1])
                    except RuntimeError:
                        pass
                    else:
                        raise Violation(f'{what}: dropping by hand was accepted')
            elif k != 'look':
                raise HarnessError(k)
            check(what)

    V.Scheduler({'gran': 'sync'}, max_steps=1_000_000, max_time=1e6).run(main)
    rec.label(*['misuse-' + s for s in states], case['what'][0])
    rec.nontrivial = len(states) >= 2 or 'rejected' in rec.labels
