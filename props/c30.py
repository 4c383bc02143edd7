"""A waiting reader is served within its pause."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import HarnessError, Violation
from streams import Book, FAULTS, mk_source_class

ID = 'C30'
RULE = (
    'A case is a script of items and times at which the source has them, 1 to 3 readers that wait (iterating, blocking '
    'reads of one or several items, the buffer iterated), each with a pause set or not and possibly changed on the way, '
    'and the end of the stream; the virtual times at which items and the end reach the reader are compared with '
    'the times they came up. Non-trivial if at least 2 items were waited for.'
)
CASES = {'quick': 1400, 'thorough': 40000}

PAUSES = [None, None, 'back', 0, 0.02, 0.05, 0.5, 2, 7, 0.1]


@st.composite
def strategy(draw, tier):
    script = []
    for p in range(draw(st.integers(1, 8 if tier == 'quick' else 40))):
        k = draw(st.integers(0, 4))
        if k:
            script.append(['s', draw(st.sampled_from([0.003, 0.04, 0.3, 1.0, 3.3, 8, 30]))])
        script.append(['i', p])
    script.append(['s', draw(st.sampled_from([0.003, 0.3, 5.5]))])
    readers = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    'how': st.sampled_from(['iter', 'blocking', 'blocking_n', 'iter_n', 'buffer']),
                    'pause': st.sampled_from(PAUSES),
                    'then': st.sampled_from([None, None, 0.01, 1.5]),
                    'peek_first': st.booleans(),
                }
            ),
            min_size=1,
            max_size=3,
        )
    )
    # who asks often is not kept waiting for long
    least = min(0.1 if p is None or p == 'back' else p for r in readers for p in (r['pause'], r['then']))
    script = [['s', min(a[1], 0.5 if least == 0 else 300 * least)] if a[0] == 's' else a for a in script]
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(gen.kinds),
        'script': script,
        'end': draw(st.sampled_from(['stop', 'stop', 'stop', 'Fault', 'OSError', 'StopIteration', 'TimeoutError', 'IndexError', 'RuntimeError'])),
        'readers': readers,
        'src_pause': draw(st.sampled_from([0.1, 0.1, 0.02, 2.5])),
        'restart': draw(st.booleans()),
        'schedule': draw(gen.schedules(line=0.3)),
    }


def run(case, rec):
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    n = sum(a[0] == 'i' for a in case['script'])
    stats = dict(waited=0, ends=0, changed=0)
    eps = 0.02

    def main():
        rounds = 2 if case['restart'] else 1
        src = mk_source_class()(
            book,
            [list(case['script']) for _ in range(rounds)],
            sleep=case['src_pause'],
            end=None if case['end'] == 'stop' else case['end'],
            tagged=True,
        )
        buf = StreamBuffer(src, maxlen=n + 1)

        def wait_with(r, spec, ses):
            how = spec['how']
            pause = 0.1
            if spec['pause'] == 'back' and how != 'buffer':
                r.set_sleep_time_on_iter_none(3)
                r.set_sleep_time_on_iter_none()
            elif spec['pause'] is not None and how != 'buffer':
                r.set_sleep_time_on_iter_none(spec['pause'])
                pause = spec['pause']
            got = []
            since = [V.vnow()]

            def came(x):
                now = V.vnow()
                batch = x if type(x) is list else [x]
                first = None
                for v in batch:
                    tag, p = book.pos(v)
                    if tag != ses or got and p <= got[-1]:
                        raise Violation(f'{how} gave item {p} of session {tag} after {got} of session {ses}')
                    got.append(p)
                    first = p if first is None else first
                up = [e[2] for e in src.log if e[0] == 'read_end' and e[1] == ses and e[3] == first][0]
                late = now - max(up, since[0])
                if late > pause + eps:
                    raise Violation(
                        f'{how} gave item {first} {late:.3f}s after it came up, although the pause is {pause}'
                    )
                stats['waited'] += up > since[0]
                since[0] = V.vnow()

            it = iter(r) if how in ('iter', 'iter_n', 'buffer') else None
            if spec['peek_first'] and how == 'blocking':
                x = r.read(peek=True, blocking=True)
                came(x)
                got.clear()
            while True:
                if it is not None:
                    x = next(it, None)
                else:
                    x = r.read(n=2, blocking=True) if how == 'blocking_n' else r.read(blocking=True)
                if x is None:
                    break
                came(x)
                if spec['then'] is not None and how != 'buffer' and len(got) >= n // 2 and pause != spec['then']:
                    pause = spec['then']
                    r.set_sleep_time_on_iter_none(pause)
                    stats['changed'] += 1
            over = [e[2] for e in src.log if e[0] == 'read_failed' and e[1] == ses] or t_stop
            late = V.vnow() - max(over[0], since[0])
            if late > pause + eps:
                raise Violation(f'{how} noticed the end {late:.3f}s late, although the pause is {pause}')
            if got != list(range(n)):
                raise Violation(f'{how} gave {got} of {n} items')
            stats['ends'] += 1

        for ses in range(rounds):
            t_stop = []
            th = Threads()
            buf.start()
            for i, spec in enumerate(case['readers']):
                r = buf if spec['how'] == 'buffer' else buf.mk_reader(**({'read_size': 2} if spec['how'] == 'iter_n' else {}))
                th.go(wait_with, r, spec, ses, name=f'reader{i}-{spec["how"]}')
            if case['end'] == 'stop':
                while src.idle_session != ses:
                    V.vsleep(0.5)
                V.vsleep(0.7)
                t_stop.append(V.vnow())
                buf.stop()
            th.join()
            if case['end'] != 'stop' and ses == rounds - 1:
                V.vsleep(0.5)
                if buf.is_running:
                    raise Violation('the stream runs although its source failed')

    V.Scheduler(case['schedule'], max_steps=4_000_000, max_time=1e5).run(main)
    rec.label(*[k for k, v in stats.items() if v], *{'how-' + r['how'] for r in case['readers']})
    rec.nontrivial = stats['waited'] >= 2
