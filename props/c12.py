"""Every reader call sees one consistent state of the buffer (linearizability against the model)."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import Violation
from streams import Book, ReaderModel, agrees, call_reader, cursor_of, mk_source_class

ID = 'C12'
RULE = (
    'A case is a source script appending into a small window (optionally with a thread dropping by hand), 1-3 '
    'reader threads with generated call sequences, and a thread schedule. The result of each call has to be the '
    'model result for one window state between the states at its start and its end, not older than what the reader '
    'saw before. Non-trivial if the buffer changed during at least one call, or between two calls of a reader, and '
    'at least 3 calls were compared.'
)
CASES = {'quick': 5000, 'thorough': 120000}


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 10 if tier == 'quick' else 24))
    auto = draw(st.integers(0, 2)) > 0
    maxlen = draw(gen.weighted((5, st.integers(1, 4)), (2, st.integers(1, 10)), (1, st.none())))
    script = []
    for p in range(n):
        k = draw(st.integers(0, 9))
        if k <= 3:
            script.append(['y', draw(st.integers(1, 60))])
        elif k == 4:
            script.append(['s', 1e-4])
        script.append(['i', p])
    ops = gen.weighted(
        (5, gen.read_ops()),
        (2, gen.next_ops),
        (5, gen.range_ops(st.integers(-2, n + 2))),
        (3, gen.tail_ops),
        (2, gen.head_ops),
    )
    readers = draw(
        st.lists(
            st.tuples(
                gen.reader_cfgs(),
                st.lists(gen.weighted((8, ops), (1, st.just(['nap']))), min_size=1, max_size=8 if tier == 'quick' else 20),
            ),
            min_size=1,
            max_size=3,
        )
    )
    return {
        'ktype': draw(gen.weighted((1, gen.ktypes), (2, st.just('ord')))),
        'kind': draw(gen.kinds),
        'maxlen': maxlen,
        'auto_drop': auto,
        'drops': [] if auto else draw(st.lists(st.integers(1, 3), max_size=6)),
        'script': script,
        'warm': draw(st.integers(0, 3)),
        'readers': [list(r) for r in readers],
        'schedule': draw(gen.schedules(line=0.9)),
    }


def run(case, rec):
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    maxlen, auto = case['maxlen'], case['auto_drop']
    produced = [a[1] for a in case['script'] if a[0] == 'i']
    stats = dict(ops=0, raced=0, moved=0)
    st_ = dict(begun=[0], done=0)  # cumulative drops: boundaries begun, amount finished

    def main():
        src = mk_source_class()(book, [case['script']], sleep=2e-4)
        buf = StreamBuffer(src, maxlen=maxlen, auto_drop=auto)
        buf.start()

        def lo():
            """items appended for certain (a later read began), drops finished"""
            got = src.produced[0]
            in_flight = 1 if got and src.last_event == 'item' else 0
            return len(got) - in_flight, st_['done']

        def hi():
            return len(src.produced[0]), st_['begun'][-1]

        def windows(low, high, feasible):
            for a in range(low[0], high[0] + 1):
                if auto:
                    ds = [0 if maxlen is None else max(0, a - maxlen)]
                else:
                    ds = [d for d in st_['begun'] if low[1] <= d <= high[1] and d <= a]
                    if maxlen is not None:
                        ds = [d for d in ds if a - d <= maxlen]
                for d in ds:
                    if any(fa <= a and fd <= d for fa, fd in feasible):
                        yield a, d

        def read_all(cfg, ops, name):
            reader = buf.mk_reader(**cfg)
            model = ReaderModel(cfg)
            feasible = {(0, 0)}
            last = None
            for i, op in enumerate(ops):
                if op[0] == 'nap':
                    V.vsleep(2e-4)
                    continue
                low = lo()
                act = call_reader(book, reader, op)
                high = hi()
                stats['ops'] += 1
                stats['raced'] += low != high
                stats['moved'] += last is not None and low != last
                last = high
                new, cur = set(), None
                for a, d in windows(low, high, feasible):
                    exp, c = model.outcome(op, produced[d:a])
                    if agrees(act, exp):
                        new.add((a, d))
                        cur = c
                if not new:
                    shown = [produced[d:a] for a, d in windows(low, high, feasible)][:6]
                    raise Violation(
                        f'{name} call {i}: {op} (defaults {cfg}, cursor {model.cursor}) got {act}, which fits none of '
                        f'the buffer states possible during the call: {shown}'
                    )
                feasible = new
                model.cursor = cur
                c = cursor_of(book, reader)
                if c != cur:
                    raise Violation(f'{name} call {i}: after {op} -> {act} the cursor is {c}, expected {cur}')

        th = Threads()

        def drop_all():
            spy = buf.mk_reader()
            for k in case['drops']:
                if maxlen is not None and k > maxlen:
                    continue
                for _ in range(40):
                    out = call_reader(book, spy, ['range', {'start': -5, 'stop': 1000, 'peek': True}])
                    if out[0] == 'val' and len(out[1]) >= k:
                        break
                    V.vsleep(3e-4)
                else:
                    return
                st_['begun'].append(st_['begun'][-1] + k)
                buf.drop(k)
                st_['done'] = st_['begun'][-1]

        while len(src.produced[0]) < min(case['warm'], len(produced)) and maxlen is None:
            V.vsleep(1e-4)
        if case['drops']:
            th.go(drop_all, name='dropper')
        for i, (cfg, ops) in enumerate(case['readers']):
            th.go(read_all, cfg, ops, f'reader{i}', name=f'reader{i}')
        th.join()
        if not buf.is_running:
            raise Violation('the stream ended by itself')
        buf.stop()

    s = V.Scheduler(case['schedule'], max_steps=300_000, max_time=300.0)
    s.run(main)
    if s.thread_errors:
        raise Violation(f'a thread of the code under test died of {s.thread_errors[0]!r}')
    rec.nontrivial = stats['ops'] >= 3 and (stats['raced'] > 0 or stats['moved'] > 0)
    rec.label(*[k for k, v in stats.items() if v], 'auto' if auto else 'manual')
