"""A stream holds on to its window and to nothing else."""
import gc
import weakref

from hypothesis import strategies as st

import gen
import vworld as V
from harness import HarnessError, Violation
from streams import FAULTS, call_reader

ID = 'C33'
RULE = (
    'A case is a stream (buffer or stream source, window size, dropping by hand or not, kind of key) and a history of data, '
    'readers that read in all forms and are closed or forgotten, drops, failures, stops and restarts; after every step the '
    'items, keys and readers that still exist are compared with those that somebody may still ask for. Non-trivial if at '
    'least 10 items had to be gone at some moment, or at least 4 forgotten readers.'
)
CASES = {'quick': 3000, 'thorough': 80000}
SLACK = 3  # items on their way, or kept by a variable


@st.composite
def strategy(draw, tier):
    ops = gen.weighted(
        (5, gen.read_ops()), (3, gen.next_ops), (2, gen.tail_ops), (1, gen.head_ops),
        (3, gen.range_ops(st.integers(-2, 60))), (1, gen.del_ops), (1, gen.iter_ops),
    )
    kind = draw(st.sampled_from(['buffer', 'buffer', 'stream_source']))
    auto = draw(st.sampled_from([True, True, False]))
    r = st.integers(0, 5)
    cmd = gen.weighted(
        (6, st.integers(1, 30).map(lambda n: ['feed', n])),
        (2, gen.reader_cfgs(peek=False).map(lambda c: ['mk', c])),
        (6, st.tuples(st.just('op'), r, ops).map(list)),
        (3, st.tuples(st.just('drain'), r).map(list)),
        (4, st.tuples(st.just('pull'), r, st.integers(1, 9)).map(list)),
        (2, st.tuples(st.just('forget'), r).map(list)),
        (2, st.tuples(st.just('close'), r, st.booleans()).map(list)),
        (1, st.integers(3, 8).map(lambda n: ['crowd', n])),
        (2, st.integers(1, 6).map(lambda n: ['bnext', n]) if kind == 'buffer' else st.just(['close_all'])),
        (1, st.tuples(st.just('attach'), r).map(list) if kind == 'buffer' else st.just(['close_all'])),
        (2, st.just(['restart']) if kind == 'buffer' else st.just(['close_all'])),
        (1, st.sampled_from([['stop'], ['fault', 'Fault'], ['fault', 'StopIteration']]) if kind == 'buffer' else st.just(['close_all'])),
        (1, st.tuples(st.just('failing'), st.integers(4, 9), st.sampled_from(['dup', 'dup', 'Fault', 'KeyboardInterrupt'])).map(list) if kind == 'buffer' else st.just(['close_all'])),
        (1, st.just(['hold']) if kind == 'buffer' else st.just(['close_all'])),
        (0 if auto else 5, st.integers(1, 9).map(lambda n: ['drop', n])),
    )
    return {
        'kind': kind,
        'auto': auto if kind == 'buffer' else True,
        'maxlen': draw(gen.weighted((5, st.integers(1, 9)), (1, st.integers(10, 40)), (1, st.none()))),
        'key': draw(st.sampled_from(['int', 'self', 'obj'])),
        'hashable': draw(st.booleans()),
        'cmds': [['mk', {}], ['feed', draw(st.integers(1, 30))]]
        + draw(st.lists(cmd, min_size=4, max_size=18 if tier == 'quick' else 60)),
    }


class Item:
    def __init__(self, pos):
        self.pos = pos

    def __eq__(self, other):
        return isinstance(other, Item) and self.pos == other.pos

    def __lt__(self, other):
        return self.pos < other.pos if isinstance(other, Item) else NotImplemented

    def __gt__(self, other):
        return self.pos > other.pos if isinstance(other, Item) else NotImplemented

    def __le__(self, other):
        return self.pos <= other.pos if isinstance(other, Item) else NotImplemented

    def __ge__(self, other):
        return self.pos >= other.pos if isinstance(other, Item) else NotImplemented

    __hash__ = None


class Hashable(Item):
    def __hash__(self):
        return hash(self.pos)


class Key(Item):
    pass


class HashableKey(Hashable):
    pass


RUNS = [0]


def run(case, rec):
    import stream2py

    RUNS[0] += 1
    if RUNS[0] % 250 == 1:
        gc.collect()
        gc.freeze()
    stats = dict(gone=0, forgotten=0, sessions=0, freed_sessions=0, failed=0, closed=0, drained=0, pulled=0)
    item_cls, key_cls = (Hashable, HashableKey) if case['hashable'] else (Item, Key)
    items = {}  # pos -> weak reference
    keys = []  # weak references
    streamsource = case['kind'] == 'stream_source'
    Base = stream2py.stream_source.StreamSource if streamsource else stream2py.SourceReader

    class Src(Base):
        def __init__(self):
            super().__init__()
            self.session, self.feed, self.fault, self.made = -1, 0, None, []

        def open(self):
            self.session += 1
            self.made.append([])
            self.fault = None
            self.feed = 0

        def read(self):
            if self.feed:
                self.feed -= 1
                pos = len(items)
                x = item_cls(pos)
                items[pos] = weakref.ref(x)
                self.made[-1].append(pos)
                return x
            if self.fault == 'dup':  # an item that does not come after the others
                x = item_cls(-1)
                items[len(items)] = weakref.ref(x)
                return x
            if self.fault:
                raise FAULTS[self.fault]('source')
            return None

        def close(self):
            pass

        def key(self, data):
            if case['key'] == 'int':
                return data.pos
            if case['key'] == 'self':
                return data
            k = key_cls(data.pos)
            keys.append(weakref.ref(k))
            return k

        @property
        def info(self):
            return {'session': self.session}

        sleep_time_on_read_none_s = property(lambda self: 0.25)

    class B:
        """What call_reader needs"""

        norm = staticmethod(lambda x: None)
        key = staticmethod({'int': lambda p: p, 'self': Item, 'obj': Key}[case['key']])

    def main():
        src = Src()
        maxlen, auto = case['maxlen'], case['auto']
        buf = None
        if streamsource:
            src.configure_buffer(maxlen=maxlen)
        else:
            buf = stream2py.StreamBuffer(src, maxlen=maxlen, auto_drop=auto)
            buf.start()
        readers = []  # [reader, session, open]
        forgotten = []  # weak references
        iterators = {}  # id of a reader -> its iterator and the position that gave last
        dropped = {}  # session -> number dropped by hand
        held = 0

        def window(ses):
            made = src.made[ses]
            if auto:
                return made if maxlen is None else made[max(0, len(made) - maxlen):]
            return made[dropped.get(ses, 0):]

        def check(what, last=False):
            V.ACTIVE.thread_errors.clear()  # the scheduler keeps them
            allowed = set()
            for ses in {x[1] for x in readers} | {src.session}:
                if ses >= 0 and not last:
                    allowed.update(window(ses))
            for x in readers:
                it = x[0].last_item
                if it is not None:
                    allowed.add(it.pos)
                del it
                if id(x[0]) in iterators:
                    allowed.add(iterators[id(x[0])][1])  # a variable of the suspended loop
            for attempt in (0, 1):
                more = sorted(p for p, ref in items.items() if ref() is not None and p not in allowed)
                ks = sum(ref() is not None for ref in keys)
                rs = sum(ref() is not None for ref in forgotten)
                if len(more) <= SLACK and not rs and ks <= len(allowed) + len(readers) + SLACK + 2:
                    break
                if not attempt:
                    gc.collect()
            else:
                if rs:
                    raise Violation(f'{what}: {rs} of {len(forgotten)} forgotten readers are still kept')
                raise Violation(
                    f'{what}: {len(more)} items nobody can ask for are still kept (such as {more[:5]} of {len(items)}; '
                    f'{len(allowed)} are buffered or under a cursor), and {ks} keys'
                )
            stats['gone'] = max(stats['gone'], len(items) - len(allowed))
            alive = [t for t in V.ACTIVE.threads if t.state != 'done']
            if len(alive) > 2:
                raise Violation(f'{what}: {len(alive) - 1} threads of the stream are there')

        def settle():
            n = -1
            while n != len(items):
                n = len(items)
                V.vsleep(2.5)

        for i, cmd in enumerate(case['cmds']):
            k = cmd[0]
            if k == 'feed':
                src.feed += cmd[1]
                settle()
            elif k in ('mk', 'crowd'):
                cfgs = [cmd[1]] if k == 'mk' else [{}] * cmd[1]
                for cfg in cfgs:
                    try:
                        reader = src.open_reader(**cfg) if streamsource else buf.mk_reader(**cfg)
                    except stream2py.exceptions.StreamNotStartedError:
                        continue
                    readers.append([reader, src.session, True])
                    del reader
                if k == 'crowd':
                    for _ in cfgs:
                        x = readers.pop()
                        x[0].read(ignore_no_item_found=True)
                        if streamsource:
                            x[0].close()
                        forgotten.append(weakref.ref(x[0]))
                        del x
                    stats['forgotten'] += len(cfgs)
            elif k == 'op':
                if readers:
                    x = readers[cmd[1] % len(readers)]
                    if cmd[2][0] == 'iter':
                        for _ in range(min(cmd[2][2], len(window(x[1])))):
                            try:
                                if x[0].read(n=1, ignore_no_item_found=True) is None:
                                    break
                            except ValueError:
                                break
                    else:
                        call_reader(B, x[0], cmd[2])
                    del x
            elif k == 'drain':
                # (the other checks keep all items, so that no two of them ever have the same address)
                if readers:
                    x = readers[cmd[1] % len(readers)]
                    it = x[0].last_item
                    at = -1 if it is None else it.pos
                    want = [p for p in window(x[1]) if p > at]
                    got = []
                    for _ in range(len(want) + 1):
                        it = x[0].read(n=1, ignore_no_item_found=True, peek=False, strict_n=False, blocking=False)
                        if it is None:
                            break
                        got.append(it.pos)
                        if x[0].last_key != B.key(it.pos):
                            raise Violation(f'step {i}: last_key {x[0].last_key!r} of the item at {it.pos} just read')
                    del it
                    if got != want:
                        raise Violation(f'step {i}: a reader at {at} got {got} one by one instead of {want}')
                    stats['drained'] += len(got)
                    del x
            elif k == 'pull':
                if readers and not readers[cmd[1] % len(readers)][0].peek:
                    x = readers[cmd[1] % len(readers)]
                    for _ in range(cmd[2]):
                        try:
                            if x[0].read(n=1, peek=True, strict_n=False, ignore_no_item_found=True) is None:
                                break
                            if x[0].strict_n and x[0].read_size > len(window(x[1])):
                                break
                            pair = iterators.setdefault(id(x[0]), [iter(x[0]), None])
                            got = next(pair[0])
                        except (ValueError, StopIteration):
                            iterators.pop(id(x[0]), None)
                            break
                        pair[1] = (got if type(got) is not list else got[-1]).pos
                        if type(got) is list:
                            # the loop has a variable with the list
                            iterators.pop(id(x[0]))
                        stats['pulled'] += 1
                        got = None
                    pair = x = None
            elif k in ('forget', 'close'):
                if readers:
                    j = cmd[1] % len(readers)
                    x = readers[j]
                    if k == 'close' or streamsource:
                        x[0].close()
                        stats['closed'] += 1
                    if k == 'forget' or cmd[2]:
                        iterators.pop(id(x[0]), None)
                        readers.pop(j)
                        forgotten.append(weakref.ref(x[0]))
                        stats['forgotten'] += 1
                    del x
            elif k == 'close_all':
                for x in readers:
                    x[0].close()
                iterators.clear()
                while readers:
                    forgotten.append(weakref.ref(readers.pop()[0]))
                    stats['forgotten'] += 1
                x = None
            elif k == 'bnext':
                if src.session >= 0 and window(src.session):
                    for _ in range(min(cmd[1], len(window(src.session)))):
                        got = buf.mk_reader().read(ignore_no_item_found=True)
                        del got
                    try:
                        if held < 1:
                            next(buf)  # its own reader is inside of the buffer
                            held = 1
                    except StopIteration:
                        pass
            elif k == 'hold':
                # a loop over the buffer that was left
                if buf.is_running and window(src.session):
                    for x in buf:
                        break
                    x = None
            elif k == 'attach':
                if readers and src.session >= 0:
                    x = readers[cmd[1] % len(readers)]
                    buf.attach_reader(x[0])
                    x[1] = src.session
                    del x
            elif k in ('restart', 'stop'):
                buf.stop() if k == 'stop' else buf.start()
                held = 0
                stats['sessions'] += k == 'restart'
                settle()
            elif k == 'fault':
                src.fault = cmd[1]
                stats['failed'] += 1
                settle()
            elif k == 'failing':
                # one run after the other fails
                for _ in range(cmd[1]):
                    buf.start()
                    held = 0
                    src.feed += 1
                    settle()
                    full = not auto and maxlen is not None and len(window(src.session)) >= maxlen
                    src.fault = 'Fault' if full else cmd[2]
                    stats['failed'] += 1
                    settle()
            elif k == 'drop':
                if src.session >= 0 and not auto:
                    n = min(cmd[1], len(window(src.session)))
                    if n:
                        buf.drop(n)
                        dropped[src.session] = dropped.get(src.session, 0) + n
                        settle()
            else:
                raise HarnessError(k)
            check(f'after step {i} {cmd}')
        if streamsource:
            for x in readers:
                x[0].close()
            x = None
        else:
            buf.stop()
        settle()
        readers.clear()
        iterators.clear()
        whole = weakref.ref(buf) if buf is not None else weakref.ref(src)
        del buf
        if streamsource:
            src.made.clear()
            src = None
        for _ in range(2):
            if whole() is not None:
                gc.collect()
        if whole() is not None:
            raise Violation('a stopped stream nobody refers to is still kept')
        if src is None:
            src = Src()
        src.session = -1
        check('after the stream is gone', last=True)

    V.Scheduler({'gran': 'sync'}, max_steps=3_000_000, max_time=1e6).run(main)
    rec.label(case['kind'], 'key_' + case['key'], *[n for n, v in stats.items() if v])
    rec.nontrivial = stats['gone'] >= 10 or stats['forgotten'] >= 4
