"""Sources, reference model and interpreter used by the stream properties.

Items are identified by integer *positions*. Every key type maps positions to keys monotonically, so
the reference model works on positions only and never looks at the code under test.
"""
import datetime
import functools
import itertools
import operator
from collections import deque
from fractions import Fraction

import vworld as V
from harness import Violation, HarnessError

# ---- keys -------------------------------------------------------------------------------------


@functools.total_ordering
class OrdKey:
    """A key that is only comparable (to its own kind); comparing is a scheduling point."""

    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __lt__(self, other):
        if not isinstance(other, OrdKey):
            return NotImplemented
        V.yield_()
        return self.p < other.p

    def __eq__(self, other):
        if not isinstance(other, OrdKey):
            return NotImplemented
        return self.p == other.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return f'OrdKey({self.p})'


_DT0 = datetime.datetime(2021, 3, 4, 5, 6, 7)

KEYS = {
    'int': lambda p: p,
    'bigint': lambda p: p * 1_000_003 + 1_600_000_000_000_000,
    'float': lambda p: p / 8,
    'str': lambda p: f'{p + 10**7:09d}',
    'bytes': lambda p: (p + 2**31).to_bytes(5, 'big'),
    'tuple': lambda p: ('plc', p // 4, p % 4),
    'datetime': lambda p: _DT0 + datetime.timedelta(milliseconds=p * 37),
    'fraction': lambda p: Fraction(p, 3),
    'ord': OrdKey,
}


# ---- items ------------------------------------------------------------------------------------
class Ambiguous:
    """Result of comparing array-like items: has no truth value."""

    def __bool__(self):
        raise ValueError('The truth value of an array is ambiguous')


class Obj:
    def __init__(self, k, p):
        self.k = k
        self.p = p

    def __repr__(self):
        return f'{type(self).__name__}#{self.p}'


class ArrayLike(Obj):
    def __eq__(self, other):
        return Ambiguous()

    def __ne__(self, other):
        return Ambiguous()

    def __bool__(self):
        raise ValueError('The truth value of an array is ambiguous')

    def __len__(self):
        return 3

    __hash__ = None


class Falsy(Obj):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


ITEMS = {
    # name: (make(key, pos), key function)
    'tuple': (lambda k, p: (k, f'data-{p}'), operator.itemgetter(0)),
    'ident': (lambda k, p: k, lambda d: d),
    'dict': (lambda k, p: {'k': k, 'v': p}, operator.itemgetter('k')),
    'obj': (Obj, operator.attrgetter('k')),
    'array': (ArrayLike, operator.attrgetter('k')),
    'falsy': (Falsy, operator.attrgetter('k')),
}


class Fault(Exception):
    """Raised by generated sources."""


class FaultBase(BaseException):
    """Raised by generated sources: not an Exception."""


class Odd:
    """A key that cannot be ordered, as NaN"""

    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = lambda self, other: False
    __hash__ = None


FAULTS = {
    'Fault': Fault,
    'StopIteration': StopIteration,
    'ValueError': ValueError,
    'TypeError': TypeError,
    'OSError': OSError,
    'KeyboardInterrupt': KeyboardInterrupt,
    'SystemExit': SystemExit,
    'FaultBase': FaultBase,
    'GeneratorExit': GeneratorExit,
}
# kinds of errors a source may raise (subclasses: an error of the code under test is none of them)
for _base in (
    TimeoutError, BlockingIOError, InterruptedError, ConnectionError, KeyError, IndexError, EOFError, AttributeError,
    RuntimeError, AssertionError, StopAsyncIteration, ArithmeticError, MemoryError,
):
    FAULTS[_base.__name__] = type('Fault' + _base.__name__, (_base,), {})
OTHER_FAULTS = sorted(FAULTS)


# values a read function may return as data
ATOMS = ['text', '', 0, 7.5, False, (), {}, object(), 'x']


class Book:
    """All items of a case: creates them and recognises them again."""

    def __init__(self, ktype='int', kind='tuple'):
        self.key = KEYS[ktype]
        self.make, self.keyfn = ITEMS[kind]
        self.kind = kind
        self.items = {}
        self.ids = {}
        self.vals = {}

    def item(self, pos):
        it = self.items.get(pos)
        if it is None:
            it = self.items[pos] = self.make(self.key(pos), pos)
            self.ids[id(it)] = pos
        return it

    def tagged(self, tag, pos):
        """The item of one of several sessions that produce the same keys."""
        ident = (tag, pos)
        it = self.items.get(ident)
        if it is None:
            it = self.items[ident] = self.make(self.key(pos), ident)
            self.ids[id(it)] = ident
        return it

    def pos(self, obj):
        """Position of an item returned by the code under test."""
        p = self.ids.get(id(obj))
        if p is not None and self.items[p] is obj:
            return p
        if self.kind == 'ident':
            for p in list(self.items)[len(self.vals) :]:
                self.vals.setdefault(self.items[p], []).append(p)
            if getattr(type(obj), '__hash__', None) is not None:
                for p in self.vals.get(obj, ()):
                    if type(self.items[p]) is type(obj):
                        return p
        raise Violation(f'returned something that is not an item of the source: {obj!r}')

    def norm(self, result):
        """Canonical form of a reader's return value."""
        if result is None:
            return None
        if type(result) is list:
            return [self.pos(x) for x in result]
        return self.pos(result)


# ---- reference model of one reader -------------------------------------------------------------
NONE = ('val', None)


def _gt(window, cursor):
    return [p for p in window if cursor is None or p > cursor]


def model_read(window, cursor, n, peek, ignore, strict):
    """-> (outcome, cursor)"""
    c = _gt(window, cursor)
    if not c:
        return (NONE if ignore else ('raise', 'ValueError')), cursor
    if n > 1:
        if strict and len(c) < n:
            return ('raise', 'ValueError'), cursor
        got = c[:n]
        return ('val', got), (cursor if peek else got[-1])
    return ('val', c[0]), (cursor if peek else c[0])


NO_ITEM = 'ValueError|IndexError'


def model_head(window, cursor, peek):
    if not window:
        return ('raise', NO_ITEM), cursor
    return ('val', window[0]), (cursor if peek else window[0])


def model_tail(window, cursor, peek, ignore, only_new):
    if only_new:
        ok = window and (cursor is None or window[-1] > cursor)
    else:
        ok = bool(window)
    if not ok:
        return (NONE if ignore else ('raise', 'ValueError')), cursor
    return ('val', window[-1]), (cursor if peek else window[-1])


def model_range(window, cursor, start, stop, step, peek, ignore, only_new, start_le, stop_ge):
    if only_new and cursor is not None:
        c = _gt(window, cursor)
        if not c:
            return (NONE if ignore else ('raise', 'ValueError')), cursor
        start = max(start, c[0])
    if start_le:
        le = [p for p in window if p <= start]
        if le:
            start = le[-1]
    if stop_ge:
        ge = [p for p in window if p >= stop]
        if not ge:
            return (NONE if ignore else ('raise', 'ValueError')), cursor
        stop = ge[0]
    items = [p for p in window if start <= p <= stop][:: step or 1]
    if peek:
        return ('val', items), cursor
    if not items:
        return (NONE if ignore else ('raise', NO_ITEM)), cursor
    return ('val', items), items[-1]


DEFAULTS = dict(read_size=1, peek=False, strict_n=False, ignore_no_item_found=False)


class ReaderModel:
    def __init__(self, cfg=None):
        self.cfg = dict(DEFAULTS, **(cfg or {}))
        self.cursor = None

    def _read_args(self, kw):
        cfg = self.cfg

        def pick(name, dflt):
            v = kw.get(name)
            return dflt if v is None else v

        return dict(
            n=pick('n', cfg['read_size']),
            peek=pick('peek', cfg['peek']),
            ignore=pick('ignore_no_item_found', cfg['ignore_no_item_found']),
            strict=pick('strict_n', cfg['strict_n']),
        )

    def outcome(self, op, window, stopped=False):
        """-> (outcome, new cursor) of `op` on `window`, not applied"""
        name = op[0]
        kw = dict(op[1]) if len(op) > 1 and isinstance(op[1], dict) else {}
        cur = self.cursor
        if name == 'read':
            a = self._read_args(kw)
            if kw.get('blocking'):
                a['ignore'] = True  # with nothing left to wait for there is None
            return model_read(window, cur, **a)
        if name == 'next':
            a = self._read_args({})
            a['ignore'] = True
            out, c = model_read(window, cur, **a)
            if out == NONE and stopped:
                out = ('raise', 'StopIteration')
            return out, c
        if name == 'dnext':
            a = dict(
                n=kw.get('n', 1),
                peek=kw.get('peek', False),
                ignore=kw.get('ignore_no_item_found', False),
                strict=kw.get('strict_n', False),
            )
            return model_read(window, cur, **a)
        if name == 'head':
            return model_head(window, cur, kw.get('peek', False))
        if name == 'tail':
            return model_tail(
                window,
                cur,
                kw.get('peek', False),
                kw.get('ignore_no_item_found', False),
                kw.get('only_new_items', False),
            )
        if name == 'range':
            ignore = kw.get('ignore_no_item_found')
            if ignore is None:
                ignore = self.cfg['ignore_no_item_found']
            return model_range(
                window,
                cur,
                kw['start'],
                kw['stop'],
                kw.get('step'),
                kw.get('peek', False),
                ignore,
                kw.get('only_new_items', False),
                kw.get('start_le', False),
                kw.get('stop_ge', False),
            )
        if name == 'close':
            return NONE, cur
        if name == 'del':
            return NONE, None
        if name == 'seek':
            return NONE, op[2]
        raise HarnessError(f'unknown op {op}')


def call_reader(book, reader, op, mutate=True):
    """Apply an op to the real reader. -> canonical outcome"""
    name = op[0]
    kw = dict(op[1]) if len(op) > 1 and isinstance(op[1], dict) else {}
    try:
        if name == 'read':
            r = reader.read(**kw)
        elif name == 'next':
            r = next(reader)
        elif name == 'dnext':
            r = reader.next(**kw)
        elif name == 'head':
            r = reader.head(**kw)
        elif name == 'tail':
            r = reader.tail(**kw)
        elif name == 'range':
            start, stop = book.key(kw.pop('start')), book.key(kw.pop('stop'))
            if 'step' in kw and kw['step'] is None:
                kw.pop('step')
            step = kw.pop('step', None)
            r = reader.range(start, stop, step, **kw) if step is not None else reader.range(
                start=start, stop=stop, **kw
            )
        elif name == 'close':
            if kw.get('how') == 'with':
                with reader:
                    pass
            elif kw.get('how') == 'exit':
                reader.exit()
            else:
                reader.close()
            r = None
        elif name == 'del':
            del reader.last_item
            r = None
        elif name == 'seek':
            reader.last_item = book.item(op[2])
            r = None
        else:
            raise HarnessError(f'unknown op {op}')
    except (ValueError, IndexError, StopIteration, TypeError, AttributeError, KeyError, RuntimeError) as e:
        return ('raise', type(e).__name__, str(e)[:120])
    out = ('val', book.norm(r))
    if mutate and type(r) is list:
        # what a caller does with a returned list is its own business
        r.reverse()
        r.append(None)
    return out


def agrees(actual, expected):
    if actual[0] != expected[0]:
        return False
    if actual[0] == 'raise':
        return actual[1] in expected[1].split('|')
    return actual[1] == expected[1]


def cursor_of(book, reader):
    """The cursor as a user sees it: (position of last_item, and last_key must match it)"""
    item = reader.last_item
    key = reader.last_key
    if item is None:
        if key is not None:
            raise Violation(f'last_item is None but last_key is {key!r}')
        return None
    p = book.pos(item)
    if not (type(key) is type(book.key(p)) and key == book.key(p)):
        raise Violation(f'last_key {key!r} is not the key of last_item {item!r}')
    return p


# ---- sources ------------------------------------------------------------------------------------
SHARED_CLASSES = None  # a dict while several histories use the same source classes


def mk_source_class(base='SourceReader'):
    if SHARED_CLASSES is None:
        return _mk_source_class(base)
    if base not in SHARED_CLASSES:
        SHARED_CLASSES[base] = _mk_source_class(base)
    return SHARED_CLASSES[base]


def _mk_source_class(base):
    import stream2py

    Base = getattr(stream2py, base) if base == 'SourceReader' else stream2py.stream_source.StreamSource

    class ScriptSource(Base):
        """Executes a script of read actions per session and logs what it is asked to do.

        actions: ['i', pos]       an item
                 ['n']            None (no data yet)
                 ['y', k]         the next action takes k scheduling steps
        ['s', dt]        the next action takes dt (virtual) seconds
                 ['x', name]      raise
                 ['c', name]      call self.calls[name]
                 ['k', pos]       an item whose key function raises when it is appended
                 ['z', pos]       an item whose key is not greater than any other one, and not less either
        After the script: None forever, or raise if `end` names a fault.
        """

        def __init__(self, book, scripts=((),), end=None, sleep=None, open_faults=(), close_faults=(),
                     info_faults=(), open_time=0.0, close_time=0.0, tagged=False, **base_kw):
            Base.__init__(self, **base_kw)
            self.book = book
            self.scripts = [deque(s) for s in scripts]
            self.feed = deque()
            self.end = end
            self._sleep = sleep
            self.open_faults = list(open_faults)
            self.close_faults = list(close_faults)
            self.info_faults = list(info_faults)
            self.open_time = open_time
            self.close_time = close_time
            self.tagged = tagged
            self.fixed_info = None  # the same in every session
            self.gives = True  # what open and close return is of no importance
            self.session = -1
            self.log = []  # (event, session, clock, payload)
            self.produced = {}  # session -> positions returned by read
            self.reads_begun = {}
            self.returned = {}
            self.bad_keys = set()
            self.odd_keys = set()
            self.calls = {}
            self.call_errors = []
            self.idle = 0
            self.idle_session = None
            self.last_event = None  # 'item' from returning an item until the next read begins

        def _ev(self, name, payload=None):
            self.log.append((name, self.session, V.vnow(), payload))

        def open(self):
            self.session += 1
            self.produced[self.session] = []
            self.reads_begun[self.session] = 0
            self._ev('open')
            V.yield_()
            if self.open_time:
                V.vsleep(self.open_time)
            if self.session < len(self.open_faults) and self.open_faults[self.session]:
                self._ev('open_failed')
                raise FAULTS[self.open_faults[self.session]]('open')
            self._ev('opened')
            return self.gives

        def close(self):
            self._ev('close')
            V.yield_()
            if self.close_time:
                V.vsleep(self.close_time)
            self._ev('closed')
            if self.session < len(self.close_faults) and self.close_faults[self.session]:
                raise FAULTS[self.close_faults[self.session]]('close')
            return self.gives

        def read(self):
            ses = self.session
            self._ev('read')
            self.last_event = None
            self.reads_begun[ses] = self.reads_begun.get(ses, 0) + 1
            V.yield_()
            out = self._read(ses)
            self._ev('read_end', None if out is None else self.last_pos)
            return out

        def _read(self, ses):
            if 0 <= ses < len(self.scripts):
                script = self.scripts[ses]
            else:
                script = self.feed
            if not script:
                script = self.feed
            while script:
                act = script.popleft()
                if act[0] == 's':
                    V.vsleep(act[1])
                    continue
                if act[0] == 'y':
                    for _ in range(act[1]):
                        V.yield_()
                    continue
                if act[0] == 'c':  # calls something, the stream it belongs to for instance
                    try:
                        self.calls[act[1]]()
                    except BaseException as e:
                        self.call_errors.append(e)
                    continue
                if act[0] == 'n':
                    return None
                if act[0] == 'x':
                    self._ev('read_failed')
                    raise FAULTS[act[1]]('read')
                pos = act[1]
                self.last_pos = pos
                item = self.book.tagged(ses, pos) if self.tagged else self.book.item(pos)
                if act[0] == 'k':
                    self.bad_keys.add(id(item))
                if act[0] == 'z':
                    self.odd_keys.add(id(item))
                self.produced[ses].append(pos)
                self.last_event = 'item'
                return item
            self.idle += 1
            self.idle_session = ses
            end = self.end
            if isinstance(end, (list, tuple)):
                end = end[ses] if 0 <= ses < len(end) else None
            if end and ses >= 0:
                self._ev('read_failed')
                raise FAULTS[end]('end')
            return None

        @property
        def info(self):
            if self.session < len(self.info_faults) and self.info_faults[self.session]:
                raise FAULTS[self.info_faults[self.session]]('info')
            return {'session': self.session} if self.fixed_info is None else dict(self.fixed_info)

        def key(self, data):
            if id(data) in self.bad_keys:
                raise TypeError('key function fails on this item')
            if id(data) in self.odd_keys:
                k = self.book.keyfn(data)
                return float('nan') if isinstance(k, (int, float)) else Odd()
            return self.book.keyfn(data)

        @property
        def sleep_time_on_read_none_s(self):
            return self._sleep

    return ScriptSource


def window_after(produced, maxlen):
    return list(produced) if maxlen is None else list(produced)[len(produced) - min(maxlen, len(produced)):]


# ---- sequential programs: exact oracle ------------------------------------------------------------
def run_sequential(case, rec, *, check_contents=True):
    """Interpret a sequential history on a real StreamBuffer; compare every step with the model.

    case: ktype, kind, maxlen, auto_drop, steps:
      ['feed', [gap, ...]]   the source produces items, the buffer takes them in (as far as it can)
      ['mk', cfg]            make a reader
      ['op', r, op]          operate on reader r
      ['drop', n]            manual drop (auto_drop False)
      ['stop']               stop the stream (remaining ops work on what is buffered)
    """
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    maxlen = case['maxlen']
    auto = case.get('auto_drop', True)
    Source = mk_source_class()
    stats = dict(ops=0, raised=0, none=0, values=0, lists=0, dropped=0, moved=0, full=0, readers=0, fed=0, waited=0)

    def main():
        src = Source(book, sleep=0.25)
        how = case.get('how', 'kw')
        if how == 'helper':
            buf = src.stream_buffer(maxlen, auto_drop=auto)
        elif how == 'helper_kw':
            buf = src.stream_buffer(maxlen=maxlen, sleep_time_on_read_none_s=0.1, auto_drop=auto)
        elif how == 'helper_default' and auto:
            buf = src.stream_buffer(maxlen)
        elif how == 'default' and auto and maxlen == 100:
            buf = StreamBuffer(src)
        else:
            buf = StreamBuffer(src, maxlen=maxlen, auto_drop=auto)
        buf.start()
        readers = []
        models = []
        window = []
        backlog = []
        pos = case.get('first', 0)
        stopped = False

        total_dropped = [0]

        def settle():
            # until the source has had nothing to give for a while, or is left alone
            while not stopped:
                taken, idle = len(src.produced[0]), src.idle
                V.vsleep(2.0)
                if src.idle > idle + 1 or len(src.produced[0]) == taken:
                    return

        def check_source():
            # auto_drop off: what was read is what is buffered or was dropped by hand, and a full
            # buffer leaves the source alone
            taken = len(src.produced[0])
            if taken != len(window) + total_dropped[0]:
                raise Violation(
                    f'{taken} items were read from the source, {total_dropped[0]} were dropped and '
                    f'{len(window)} should be buffered (maxlen {maxlen})'
                )
            if maxlen is not None and len(window) >= maxlen:
                before = src.reads_begun[0]
                V.vsleep(3.0)
                if src.reads_begun[0] != before:
                    raise Violation('the source is read although the buffer is full')
                stats['full'] += 1

        def intake():
            nonlocal window
            while backlog and (auto or maxlen is None or len(window) < maxlen):
                window.append(backlog.pop(0))
                if auto and maxlen is not None and len(window) > maxlen:
                    window.pop(0)
                    stats['dropped'] += 1

        spies = []

        def check_contents_now():
            if case.get('spy') == 'kept':
                spies or spies.append(buf.mk_reader())
                spy = spies[0]
            else:
                spy = buf.mk_reader()
            got = ('val', []) if not window and not buf_has(spy) else call_reader(
                book,
                spy,
                ['range', {'start': -(10 ** 6), 'stop': 10 ** 6, 'peek': True}],
            )
            if got != ('val', window):
                raise Violation(f'buffer holds {got}, expected {window}')

        def buf_has(spy):
            try:
                return spy.head(peek=True) is not None or True
            except (IndexError, ValueError):
                return False

        last_op = None
        for i, step in enumerate(case['steps']):
            if step[0] == 'again':  # the same call once more
                if last_op is None:
                    continue
                step = last_op
            if step[0] == 'feed':
                if stopped:
                    continue
                for gap in step[1]:
                    src.feed.append(['i', pos])
                    backlog.append(pos)
                    pos += max(1, gap)
                    stats['fed'] += 1
                settle()
                intake()
                if check_contents:
                    check_contents_now()
                if not auto:
                    check_source()
            elif step[0] == 'feedn':
                if stopped:
                    continue
                for _ in range(step[1]):
                    src.feed.append(['i', pos])
                    backlog.append(pos)
                    pos += max(1, step[2])
                    stats['fed'] += 1
                settle()
                intake()
                if check_contents:
                    check_contents_now()
                if not auto:
                    check_source()
            elif step[0] == 'mk':
                cfg = step[1]
                readers.append(buf.mk_reader(**cfg))
                models.append(ReaderModel(cfg))
                stats['readers'] += 1
            elif step[0] == 'drop':
                if auto:
                    continue
                n = min(step[1], len(window))
                if n:
                    buf.drop(n) if n > 1 or step[1] % 2 else buf.drop()
                    window = window[n:]
                    stats['dropped'] += n
                    total_dropped[0] += n
                    settle()
                    intake()
                    if check_contents:
                        check_contents_now()
                    check_source()
            elif step[0] == 'stop':
                if not stopped:
                    buf.stop()
                    stopped = True
            elif step[0] == 'op':
                if not readers:
                    continue
                r = step[1] % len(readers)
                op = step[2]
                last_op = step
                if op[0] == 'seek':
                    cands = window or sorted(book.items)
                    if op[1] >= 50:  # an item that is not buffered: older, in a gap, or newer than all
                        op = ['seek', {}, case.get('first', 0) - 3 + (op[1] * 7) % (pos - case.get('first', 0) + 9)]
                    elif not cands:
                        continue
                    else:
                        op = ['seek', {}, cands[op[1] % len(cands)]]
                if op[0] == 'iter':
                    # a loop that is left after some items
                    m, it = models[r], iter(readers[r])
                    for _ in range(op[2]):
                        exp, cur = m.outcome(['next'], window, stopped)
                        if exp == NONE and not stopped:
                            break  # would wait
                        act = call_reader(book, it, ['next'])
                        stats['ops'] += 1
                        if not agrees(act, exp):
                            raise Violation(
                                f'step {i}: a loop over reader {m.cfg} with cursor {m.cursor} and window {window}: '
                                f'got {act}, expected {exp}'
                            )
                        stats['values'] += exp[0] == 'val'
                        stats['moved'] += cur != m.cursor
                        m.cursor = cur
                        c = cursor_of(book, readers[r])
                        if c != cur:
                            raise Violation(f'step {i}: in a loop over reader {r} its cursor is {c}, expected {cur}')
                        if exp[0] == 'raise':
                            break
                    del it
                    continue
                before = models[r].cursor
                if op[0] == 'read' and op[1].get('blocking') and not stopped and not _gt(window, before):
                    a = models[r]._read_args(op[1])
                    if (a['strict'] and a['n'] > 1) or not (auto or maxlen is None or len(window) < maxlen):
                        continue
                    # the source has the next item while the reader is waiting
                    if before is not None:
                        pos = max(pos, before + 1)
                    src.feed.append(['i', pos])
                    backlog.append(pos)
                    pos += 1
                    stats['fed'] += 1
                    stats['waited'] += 1
                    intake()
                exp, cur = models[r].outcome(op, window, stopped)
                if len(step) > 3 and step[3]:  # within a context of the reader
                    with readers[r] as entered:
                        if entered is not readers[r]:
                            raise Violation(f'step {i}: entering a reader gave {entered!r}')
                        act = call_reader(book, entered, op)
                    del entered
                else:
                    act = call_reader(book, readers[r], op)
                stats['ops'] += 1
                if not agrees(act, exp):
                    raise Violation(
                        f'step {i}: {op} on reader {models[r].cfg} with cursor {before} and window '
                        f'{window}: got {act}, expected {exp}'
                    )
                if exp[0] == 'raise':
                    stats['raised'] += 1
                elif exp[1] in (None, []):
                    stats['none'] += 1
                else:
                    stats['values'] += 1
                    stats['lists'] += type(exp[1]) is list
                if cur != before:
                    stats['moved'] += 1
                models[r].cursor = cur
                for j, m in enumerate(models):
                    c = cursor_of(book, readers[j])
                    if c != m.cursor:
                        raise Violation(
                            f'step {i}: after {op} on reader {r} the cursor of reader {j} is {c}, '
                            f'expected {m.cursor}'
                        )
                if check_contents and (i % 3 == 0 or case.get('every')):
                    check_contents_now()
            else:
                raise HarnessError(f'unknown step {step}')
        if check_contents:
            check_contents_now()
        for j, m in enumerate(models):
            if readers[j].is_stopped is not stopped:
                raise Violation(f'is_stopped of reader {j} is {readers[j].is_stopped}')
        if not stopped:
            buf.stop()
        return stats

    # plenty of room: histories are long but every step terminates quickly
    V.Scheduler(case.get('schedule'), max_steps=3_000_000, max_time=1e6).run(main)
    return stats
