"""auto_drop=False: nothing is lost, the buffer never exceeds maxlen, the source waits."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import Violation
from streams import Book, mk_source_class, run_sequential, call_reader

ID = 'C08'
RULE = (
    'A case is either a sequential history of bursts, drop(n) calls and reads checked step by step against a '
    'model, or a producer thread, a consumer that drops what it has read and an observer under a generated '
    'schedule. Non-trivial if the buffer became full and items were dropped by hand.'
)
CASES = {'quick': 2000, 'thorough': 50000}


@st.composite
def conc(draw, tier):
    n = draw(st.integers(1, 14 if tier == 'quick' else 40))
    return {
        'mode': 'conc',
        'ktype': draw(gen.ktypes),
        'kind': draw(gen.kinds),
        'maxlen': draw(st.integers(1, 6)),
        'n': n,
        'pauses': draw(st.lists(st.integers(0, n), max_size=3)),
        'batch': draw(st.integers(1, 4)),
        'readers': draw(st.integers(1, 2)),
        'how': draw(st.sampled_from(['iter', 'next', 'blocking', 'readn'])),
        'observer': draw(st.integers(0, 4)),
        'schedule': draw(gen.schedules()),
    }


def strategy(tier):
    ops = gen.weighted((3, gen.read_ops()), (1, gen.tail_ops), (1, gen.head_ops), (2, gen.next_ops), (1, gen.iter_ops))
    seq = gen.seq_cases(
        ops,
        tier=tier,
        auto_drop=False,
        maxlens=gen.weighted((5, st.integers(1, 6)), (2, st.integers(1, 40)), (1, st.none())),
        max_steps=16,
    )
    hows = st.sampled_from(['kw', 'kw', 'helper', 'helper_kw'])
    seq = st.tuples(seq, hows).map(lambda t: dict(t[0], how=t[1]))
    return gen.weighted((3, seq), (2, conc(tier)))


def big_cases(rnd, tier):
    return gen.big_seq_cases(rnd, tier, ['read', 'tail', 'head', 'next'], auto_drop=False, hows=('kw', 'helper', 'helper_kw'))


def run_conc(case, rec):
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    maxlen = case['maxlen']
    n = case['n']
    batch = min(case['batch'], maxlen)
    seen_full = [0]

    def main():
        script = []
        for p in range(n):
            if p in case['pauses']:
                script.append(['n'])
            script.append(['i', p])
        src = mk_source_class()(book, [script], sleep=0.2, end='Fault')
        buf = StreamBuffer(src, maxlen=maxlen, auto_drop=False)
        buf.start()
        readers = [buf.mk_reader() for _ in range(case['readers'])]
        got = [[] for _ in readers]
        dropped = [0, 0]  # begun, finished
        spy = buf.mk_reader()

        def observe():
            for _ in range(case['observer']):
                d0 = dropped[1]
                out = call_reader(book, spy, ['range', {'start': -5, 'stop': n + 5, 'peek': True}])
                d1 = dropped[0]
                w = out[1] if out[0] == 'val' else []
                if len(w) > maxlen:
                    raise Violation(f'buffer of maxlen {maxlen} holds {w}')
                if w and (w != list(range(w[0], w[-1] + 1)) or not d0 <= w[0] <= d1):
                    raise Violation(f'buffer holds {w} after {d0}..{d1} items were dropped')
                if len(w) == maxlen:
                    seen_full[0] += 1
                V.vsleep(0.05)

        def take(i, k):
            r = readers[i]
            if case['how'] == 'readn' and k > 1:
                out = r.read(k, blocking=True)
                return [] if out is None else [book.pos(x) for x in out]
            out = []
            for _ in range(k):
                if case['how'] in ('blocking', 'readn'):
                    x = r.read(blocking=True)
                elif case['how'] == 'next':
                    while True:
                        try:
                            x = next(r)
                        except StopIteration:
                            x = None
                            break
                        if x is not None:
                            break
                        V.vsleep(0.05)
                else:
                    x = next(iter(r), None)
                if x is None:
                    break
                out.append(book.pos(x))
            return out

        def consume():
            while True:
                first = take(0, batch)
                got[0] += first
                for i in range(1, len(readers)):
                    more = []
                    while len(more) < len(first):
                        part = take(i, len(first) - len(more))
                        if not part:
                            break
                        more += part
                    got[i] += more
                if not first:
                    return
                dropped[0] += len(first)
                if len(first) == 1 and case['batch'] % 2:
                    buf.drop()
                else:
                    buf.drop(len(first))
                dropped[1] += len(first)

        th = Threads()
        th.go(consume, name='consumer')
        if case['observer']:
            th.go(observe, name='observer')
        th.join()
        for i, g in enumerate(got):
            if g != list(range(n)):
                raise Violation(f'reader {i} got {g} of {n} items (auto_drop=False, maxlen {maxlen})')

    s = V.Scheduler(case['schedule'])
    s.run(main)
    rec.label('conc', 'conc-' + case['how'])
    rec.nontrivial = n > maxlen and s.switches > 2


def run(case, rec):
    if case.get('mode') == 'conc':
        return run_conc(case, rec)
    s = run_sequential(case, rec)
    rec.nontrivial = (s['full'] > 0 or case['maxlen'] is None) and s['dropped'] > 0
    rec.label('seq')
    for k, v in s.items():
        if v:
            rec.label(k)
