"""The stream buffer itself as an iterator."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import HarnessError, Violation
from streams import Book, ReaderModel, agrees, call_reader, mk_source_class, window_after

ID = 'C27'
RULE = (
    'A case is a buffer (window size, dropping by hand or not) and a history of data, requests to the buffer itself '
    '(next, call, iterators of it, from one thread or several), other readers, drops, the end of the source, stops and restarts; every result is '
    'compared with a model. Non-trivial if the buffer itself gave at least 2 items and another reader or a restart came in.'
)
CASES = {'quick': 5000, 'thorough': 100000}


@st.composite
def strategy(draw, tier):
    ops = gen.weighted((4, gen.read_ops()), (3, gen.next_ops), (1, gen.tail_ops), (1, gen.head_ops), (1, gen.range_ops(st.integers(-2, 30))))
    auto = draw(st.sampled_from([True, True, False]))
    cmd = gen.weighted(
        (5, st.lists(st.integers(1, 3), min_size=1, max_size=5).map(lambda g: ['feed', g])),
        (9, st.tuples(st.sampled_from(['next', 'call']), st.integers(1, 4), st.sampled_from([False, False, True])).map(list)),
        (2, st.integers(1, 4).map(lambda n: ['iter', n])),
        (3, st.tuples(st.just('pull'), st.integers(0, 3), st.integers(1, 3)).map(list)),
        (1, gen.reader_cfgs().map(lambda c: ['mk', c])),
        (2, st.tuples(st.just('op'), st.integers(0, 3), ops).map(list)),
        (1, st.tuples(st.just('attach'), st.integers(0, 3)).map(list)),
        (1, st.just(['look'])),
        (1, st.sampled_from(['Fault', 'StopIteration', 'KeyboardInterrupt']).map(lambda f: ['fault', f])),
        (1, st.sampled_from([['stop'], ['start'], ['start'], ['for']])),
        (0 if auto else 3, st.integers(1, 4).map(lambda n: ['drop', n])),
    )
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(st.sampled_from(['tuple', 'dict', 'obj', 'array', 'falsy'])),
        'maxlen': draw(gen.weighted((1, st.none()), (3, st.integers(1, 6)), (1, st.just(100)))),
        'auto': auto,
        'cmds': [['feed', [1, 2]]] + draw(st.lists(cmd, min_size=5, max_size=22 if tier == 'quick' else 60)),
    }


class View:
    def __init__(self, book, ses):
        self.book, self.ses, self.key = book, ses, book.key

    def norm(self, x):
        if x is None:
            return None
        return [self.pos(y) for y in x] if type(x) is list else self.pos(x)

    def pos(self, x):
        ses, p = self.book.pos(x)
        if ses != self.ses:
            raise Violation(f'item {p} of session {ses} was returned, expected one of session {self.ses}')
        return p


def run(case, rec):
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    maxlen, auto = case['maxlen'], case['auto']
    stats = dict(items=0, nones=0, ends=0, others=0, restarts=0, dropped=0, iters=0, whole=0, after_stop=0, elsewhere=0)

    def main():
        src = mk_source_class()(book, [], sleep=0.2, tagged=True)
        buf = StreamBuffer(src, maxlen=maxlen, auto_drop=auto)
        s = dict(state='running', pos=0, backlog=[])
        sessions = []  # windows
        models = []  # candidates for where the iteration of the buffer stands
        iters = []  # dict(it, ses, model)
        readers = []

        def start():
            src.feed.clear()
            src.end = None
            buf.start()
            sessions.append([])
            s.update(state='running', pos=len(sessions) * 3 % 5, backlog=[])
            models[:] = [ReaderModel()]

        def window(ses):
            return window_after(sessions[ses], maxlen) if auto else sessions[ses]

        def intake():
            V.vsleep(2)
            w = sessions[-1]
            while s['backlog'] and (auto or maxlen is None or len(w) < maxlen):
                w.append(s['backlog'].pop(0))
            if auto:
                stats['dropped'] += maxlen is not None and len(w) > maxlen

        def over(ses):
            return ses != len(sessions) - 1 or s['state'] != 'running'

        def one(fn, view, elsewhere=False):
            if elsewhere:  # in a thread of its own
                th, out = Threads(), []
                th.go(lambda: out.append(one(fn, view)))
                th.join()
                stats['elsewhere'] += 1
                return out[0]
            try:
                return ('val', view.norm(fn()))
            except StopIteration:
                return ('raise', 'StopIteration')

        start()
        for ci, cmd in enumerate(case['cmds']):
            what = f'step {ci} {cmd}'
            k = cmd[0]
            now = len(sessions) - 1
            if k == 'feed':
                if s['state'] == 'running':
                    for g in cmd[1]:
                        src.feed.append(['i', s['pos']])
                        s['backlog'].append(s['pos'])
                        s['pos'] += g
                    intake()
            elif k in ('next', 'call'):
                for _ in range(cmd[1]):
                    w = window(now)
                    act = one(buf if k == 'call' else buf.__next__, View(book, now), len(cmd) > 2 and cmd[2])
                    exps = [(m, *m.outcome(['next'], w, over(now))) for m in models]
                    left = [(m, e, c) for m, e, c in exps if agrees(act, e)]
                    if not left:
                        raise Violation(
                            f'{what}: the buffer gave {act}, expected {[e for _, e, _ in exps]} '
                            f'(standing at {[m.cursor for m in models]}, window {w}, {s["state"]})'
                        )
                    for m, _, c in left:
                        m.cursor = c
                    models[:] = [m for m, _, _ in left]
                    stats['items'] += act[0] == 'val' and act[1] is not None
                    stats['nones'] += act == ('val', None)
                    stats['ends'] += act[0] == 'raise'
                    stats['after_stop'] += s['state'] == 'stopped'
            elif k in ('iter', 'pull'):
                if k == 'iter':
                    if len(iters) >= 4 or not window(now):
                        continue
                    d = dict(it=iter(buf), ses=now, model=ReaderModel(), dead=False)
                    iters.append(d)
                    n = cmd[1]
                elif not iters:
                    continue
                else:
                    d, n = iters[cmd[1] % len(iters)], cmd[2]
                for _ in range(n):
                    w = window(d['ses'])
                    exp, cur = d['model'].outcome(['next'], w, over(d['ses']))
                    if exp == ('val', None):
                        break  # would wait
                    if d['dead']:
                        exp = ('raise', 'StopIteration')  # an exhausted iterator stays exhausted
                    act = one(lambda: next(d['it']), View(book, d['ses']))
                    if not agrees(act, exp):
                        raise Violation(
                            f'{what}: an iterator of session {d["ses"]} at {d["model"].cursor} gave {act}, expected {exp} (window {w})'
                        )
                    d['model'].cursor = cur
                    d['dead'] = act[0] == 'raise'
                    stats['iters'] += 1
            elif k == 'for':
                if s['state'] != 'running':
                    got = [View(book, now).pos(x) for x in buf]
                    if got != window(now):
                        raise Violation(f'{what}: iterating the ended buffer gave {got}, expected {window(now)}')
                    stats['whole'] += 1
            elif k == 'mk':
                if len(readers) < 4:
                    readers.append((buf.mk_reader(**cmd[1]), now, ReaderModel(cmd[1])))
            elif k == 'attach':
                if readers:
                    i = cmd[1] % len(readers)
                    buf.attach_reader(readers[i][0])
                    readers[i] = (readers[i][0], now, readers[i][2])
            elif k == 'look':
                if buf.is_running is not (s['state'] == 'running') or buf.source_reader_info != {'session': now}:
                    raise Violation(f'{what}: {buf.is_running}, {buf.source_reader_info} of session {now}, {s["state"]}')
            elif k == 'op':
                if readers:
                    r, ses, m = readers[cmd[1] % len(readers)]
                    w = window(ses)
                    exp, cur = m.outcome(cmd[2], w, over(ses))
                    act = call_reader(View(book, ses), r, cmd[2])
                    if not agrees(act, exp):
                        raise Violation(f'{what}: a reader at {m.cursor} ({m.cfg}) gave {act}, expected {exp} (window {w})')
                    m.cursor = cur
                    stats['others'] += 1
            elif k == 'fault':
                if s['state'] == 'running' and not s['backlog'] and (auto or maxlen is None or len(sessions[-1]) < maxlen):
                    src.end = cmd[1]
                    V.vsleep(2)
                    s['state'] = 'ended'
            elif k == 'stop':
                if s['state'] != 'stopped':
                    buf.stop()
                    s['state'] = 'stopped'
                    # whether the buffer goes on or begins again after stop() is left open
                    models.append(ReaderModel())
            elif k == 'start':
                start()
                stats['restarts'] += 1
            elif k == 'drop':
                n = min(cmd[1], len(sessions[-1]))
                if n:
                    buf.drop(n)
                    del sessions[-1][:n]
                    if s['state'] == 'running':
                        intake()
                    stats['dropped'] += 1
            else:
                raise HarnessError(k)
        if s['state'] == 'running':
            buf.stop()

    V.Scheduler({'gran': 'sync'}, max_steps=2_000_000, max_time=1e6).run(main)
    rec.label(*[k for k, v in stats.items() if v])
    rec.nontrivial = stats['items'] >= 2 and bool(stats['others'] or stats['restarts'] or stats['iters'])
