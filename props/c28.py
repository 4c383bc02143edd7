"""Readers attached to other streams and sessions."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import HarnessError, Violation
from streams import Book, ReaderModel, agrees, call_reader, mk_source_class, window_after

ID = 'C28'
RULE = (
    'A case is two or three streams with the same key type but own windows, and a history of data, readers, reading in '
    'all forms, restarts, stops, failures and attachments (also of a reader that waits); every result, cursor, flag and '
    'information is compared with a model of a movable reader. Non-trivial if an attached reader returned items.'
)
CASES = {'quick': 4000, 'thorough': 60000}


@st.composite
def strategy(draw, tier):
    nb = draw(st.integers(2, 3))
    b = st.integers(0, nb - 1)
    r = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5])
    ops = gen.weighted(
        (5, gen.read_ops()),
        (4, gen.next_ops),
        (1, gen.tail_ops),
        (1, gen.head_ops),
        (2, gen.range_ops(st.integers(-2, 30))),
        (1, gen.del_ops),
        (2, st.just(['pull'])),
    )
    gaps = st.lists(st.integers(1, 4), min_size=1, max_size=5)
    cmd = gen.weighted(
        (5, st.tuples(st.just('feed'), b, gaps).map(list)),
        (2, st.tuples(st.just('mk'), b, gen.reader_cfgs()).map(list)),
        (8, st.tuples(st.just('op'), r, ops).map(list)),
        (5, st.tuples(st.just('attach'), r, b).map(list)),
        (1, st.tuples(st.just('waiting'), r, b, st.integers(1, 3)).map(list)),
        (2, st.tuples(st.just('start'), b).map(list)),
        (1, st.tuples(st.just('stop'), b).map(list)),
        (1, st.tuples(st.just('fault'), b, st.sampled_from(['Fault', 'StopIteration', 'KeyboardInterrupt'])).map(list)),
        (1, st.just(['look'])),
    )
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(st.sampled_from(['tuple', 'dict', 'obj', 'array', 'falsy'])),
        'info': draw(st.sampled_from(['own', 'own', 'same'])),
        'bufs': [
            {
                'maxlen': draw(gen.weighted((1, st.none()), (3, st.integers(1, 6)), (1, st.just(100)))),
                'first': draw(st.integers(0, 12)),
            }
            for _ in range(nb)
        ],
        'cmds': [['start', 0], ['mk', 0, draw(gen.reader_cfgs())]]
        + ([['start', 1], ['feed', 0, draw(gaps)], ['feed', 1, draw(gaps)]] if draw(st.integers(0, 3)) else [])
        + draw(st.lists(cmd, min_size=6, max_size=22 if tier == 'quick' else 60)),
    }


class Tag:
    """What a source needs of a book: items tagged with the stream and the session."""

    def __init__(self, book, b):
        self.book, self.b = book, b
        self.keyfn = book.keyfn

    def tagged(self, ses, pos):
        return self.book.tagged((self.b, ses), pos)


class View:
    """Results in terms of one tag; an item of another stream or session is a violation."""

    def __init__(self, book, tag):
        self.book, self.tag, self.key = book, tag, book.key

    def norm(self, x):
        if x is None:
            return None
        return [self.pos(y) for y in x] if type(x) is list else self.pos(x)

    def pos(self, x):
        tag, p = self.book.pos(x)
        if tag != self.tag:
            raise Violation(f'a reader of stream {self.tag} returned item {p} of stream {tag}')
        return p


def run(case, rec):
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    stats = dict(attached=0, moved_items=0, restarts=0, waited=0, sessions=0, pulled=0, stopped=0, cross=0)

    def main():
        Base = mk_source_class()

        class Src(Base):
            @property
            def info(self):
                if case.get('info') == 'same':
                    return self.same_info  # one object for all sessions
                return {'stream': self.book.b, 'session': self.session}

        bufs = []
        for i, spec in enumerate(case['bufs']):
            src = Src(Tag(book, i), [], sleep=0.2, tagged=True)
            src.same_info = {'stream': i}
            bufs.append(
                dict(
                    src=src, buf=StreamBuffer(src, maxlen=spec['maxlen']), maxlen=spec['maxlen'],
                    ses=-1, running=False, taken={}, next=spec['first'], first=spec['first'],
                )
            )
        readers = []

        def window(tag):
            x = bufs[tag[0]]
            return window_after(x['taken'][tag[1]], x['maxlen'])

        def stopped(tag):
            x = bufs[tag[0]]
            return tag[1] != x['ses'] or not x['running']

        def look(what):
            made = [((i, x['ses']), x['buf'].mk_reader()) for i, x in enumerate(bufs) if x['ses'] >= 0]
            for j, d in enumerate(readers):
                r, tag = d['r'], d['tag']
                if r.is_stopped is not stopped(tag):
                    raise Violation(f'{what}: is_stopped of reader {j}, now of stream {tag}, is {r.is_stopped}')
                if r.source_reader_info != (
                    {'stream': tag[0]} if case.get('info') == 'same' else {'stream': tag[0], 'session': tag[1]}
                ):
                    raise Violation(f'{what}: reader {j}, now of stream {tag}, has info {r.source_reader_info}')
                item, key = r.last_item, r.last_key
                cur = None if item is None else book.pos(item)
                if cur != d['cursor']:
                    raise Violation(f'{what}: the cursor of reader {j} is {cur}, expected {d["cursor"]}')
                want = None if cur is None else book.key(cur[1])
                if type(key) is not type(want) or key != want:
                    raise Violation(f'{what}: last_key of reader {j} is {key!r}, expected {want!r}')
                for tag2, r2 in made:
                    if r.is_same_buffer(r2) is not (tag == tag2) or r2.is_same_buffer(r) is not (tag == tag2):
                        raise Violation(f'{what}: is_same_buffer of reader {j} of stream {tag} and one of {tag2}')
                for k, e in enumerate(readers):
                    if r.is_same_buffer(e['r']) is not (tag == e['tag']):
                        raise Violation(f'{what}: is_same_buffer of readers {j} of {tag} and {k} of {e["tag"]}')

        def attach(d, b):
            x = bufs[b]
            x['buf'].attach_reader(d['r'])
            d['tag'] = (b, x['ses'])
            d['moved'] = True
            stats['attached'] += 1

        for ci, cmd in enumerate(case['cmds']):
            what = f'step {ci} {cmd}'
            k = cmd[0]
            if k == 'start':
                x = bufs[cmd[1]]
                stats['restarts'] += x['ses'] >= 0
                x['src'].feed.clear()
                x['src'].end = None
                x['buf'].start()
                x['ses'] += 1
                x['running'] = True
                x['taken'][x['ses']] = []
                x['next'] = x['first']
                stats['sessions'] += 1
            elif k == 'stop':
                x = bufs[cmd[1]]
                if x['ses'] >= 0:
                    x['buf'].stop()
                    x['running'] = False
                    stats['stopped'] += 1
            elif k == 'fault':
                x = bufs[cmd[1]]
                if x['running']:
                    x['src'].end = cmd[2]
                    V.vsleep(1)
                    x['running'] = False
                    stats['stopped'] += 1
            elif k == 'feed':
                x = bufs[cmd[1]]
                if x['running']:
                    for gap in cmd[2]:
                        x['src'].feed.append(['i', x['next']])
                        x['taken'][x['ses']].append(x['next'])
                        x['next'] += gap
                    V.vsleep(1)
            elif k == 'mk':
                x = bufs[cmd[1]]
                if x['ses'] >= 0 and len(readers) < 6:
                    r = x['buf'].mk_reader(**cmd[2])
                    readers.append(
                        dict(r=r, it=None, model=ReaderModel(cmd[2]), cursor=None, tag=(cmd[1], x['ses']), moved=False)
                    )
            elif k == 'attach':
                if readers and bufs[cmd[2]]['ses'] >= 0:
                    attach(readers[cmd[1] % len(readers)], cmd[2])
            elif k == 'waiting':
                # a reader waits on a stream that has nothing for it while it is attached to another one
                x = bufs[cmd[2]]
                if not readers or x['ses'] < 0:
                    continue
                d = readers[cmd[1] % len(readers)]
                m = d['model']
                m.cursor = None if d['cursor'] is None else d['cursor'][1]
                op = ['read', {'ignore_no_item_found': True, 'strict_n': False, 'n': cmd[3]}]
                here, _ = m.outcome(op, window(d['tag']))
                if stopped(d['tag']) or here != ('val', None):
                    continue
                target = (cmd[2], x['ses'])
                exp, cur = m.outcome(op, window(target))
                if exp == ('val', None) and not stopped(target):
                    continue  # would go on waiting
                out = []

                def wait(d=d, n=cmd[3]):
                    out.append(d['r'].read(n, strict_n=False, blocking=True))

                th = Threads()
                th.go(wait)
                V.vsleep(1.05)
                if out:
                    raise Violation(f'{what}: a blocking read gave {out} on a running stream without new items')
                attach(d, cmd[2])
                V.vsleep(5)
                if th.errors:
                    raise th.errors[0]
                if not out:
                    raise Violation(f'{what}: still waiting after being attached to a stream that has {exp}')
                th.join()
                got = View(book, target).norm(out[0])
                if got != exp[1]:
                    raise Violation(f'{what}: waiting gave {got}, expected {exp}')
                if cur != m.cursor:
                    d['cursor'] = (target, cur)
                stats['waited'] += 1
            elif k == 'op':
                if not readers:
                    continue
                d = readers[cmd[1] % len(readers)]
                m, op = d['model'], cmd[2]
                m.cursor = None if d['cursor'] is None else d['cursor'][1]
                w = window(d['tag'])
                pull = op[0] == 'pull'
                exp, cur = m.outcome(['next'] if pull else op, w, stopped(d['tag']))
                if pull:
                    if exp[0] != 'val' or exp[1] is None:
                        continue
                    if d['it'] is None:
                        d['it'] = iter(d['r'])
                    elif d['moved']:
                        stats['pulled'] += 1
                    act = call_iter(View(book, d['tag']), d['it'])
                else:
                    act = call_reader(View(book, d['tag']), d['r'], op)
                if not agrees(act, exp):
                    raise Violation(
                        f'{what}: reader of stream {d["tag"]} with cursor {d["cursor"]}, defaults {m.cfg}, window {w}: '
                        f'got {act}, expected {exp}'
                    )
                if op[0] == 'del':
                    d['cursor'] = None
                elif cur != m.cursor or (not pull and cur is not None and moved_onto(m, op, exp)):
                    # (same position: an item of this stream may have replaced one of another)
                    d['cursor'] = (d['tag'], cur)
                if d['moved'] and exp[0] == 'val' and exp[1] not in (None, []):
                    stats['moved_items'] += 1
                    stats['cross'] += m.cursor is not None
            elif k != 'look':
                raise HarnessError(k)
            look(what)
        for x in bufs:
            if x['running']:
                x['buf'].stop()

    V.Scheduler({'gran': 'sync'}, max_steps=2_000_000, max_time=1e6).run(main)
    rec.label(*[k for k, v in stats.items() if v])
    rec.nontrivial = stats['moved_items'] >= 1


def moved_onto(m, op, exp):
    """head, tail and range can return (and move to) the position where the cursor is already"""
    if op[0] not in ('head', 'tail', 'range') or exp[0] != 'val' or exp[1] in (None, []):
        return False
    return not (op[1] or {}).get('peek', False)


def call_iter(view, it):
    try:
        return ('val', view.norm(next(it)))
    except (ValueError, IndexError, StopIteration, TypeError, AttributeError, KeyError, RuntimeError) as e:
        return ('raise', type(e).__name__, str(e)[:120])
