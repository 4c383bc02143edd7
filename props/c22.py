"""An idle source is polled at the configured pace."""
from hypothesis import strategies as st

import gen
import vworld as V
from harness import Violation
from streams import Book, mk_source_class

ID = 'C22'
RULE = (
    'A case is a pause given to the buffer or the source (or neither), a way to make the buffer, a script of items, '
    'gaps and durations, and a moment to stop; the times of all source calls on the virtual clock are compared with '
    'the model. Non-trivial if at least 2 pauses were timed and at least one item was followed by a read.'
)
CASES = {'quick': 4000, 'thorough': 80000}

pauses = gen.weighted(
    (2, st.none()),
    (3, st.sampled_from([0, 1, 2, 0.05, 0.5, 7.25, 0.001])),
    (2, st.integers(1, 4000).map(lambda i: i / 1000)),
    (1, st.integers(1, 30)),
)


@st.composite
def strategy(draw, tier):
    script = []
    p = 0
    for _ in range(draw(st.integers(1, 14 if tier == 'quick' else 60))):
        k = draw(st.integers(0, 9)) / 2
        if k == 4.5:
            burst = draw(st.integers(2, 12))
            script += [['i', p + i] for i in range(burst)]
            p += burst
        elif k < 2:
            script.append(['n'])
        elif k < 3:
            script.append(['s', draw(st.sampled_from([0.01, 0.4, 2.0]))])
        else:
            script.append(['i', p])
            p += 1
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(gen.kinds),
        'given': draw(pauses),
        'own': draw(pauses),
        'how': draw(st.sampled_from(['buffer', 'buffer', 'helper', 'helper_pos'])),
        'maxlen': draw(st.sampled_from([None, 1, 2, 3, 5, 8, 50])),
        'auto_drop': draw(st.booleans()),
        'restart': draw(st.booleans()),
        'extra': draw(st.sampled_from([0, 0.1, 1.7, 20])),
        'script': script,
        'wall': draw(gen.weighted((5, st.just([])), (1, gen.walls))),
    }


def run(case, rec):
    from stream2py import StreamBuffer

    book = Book(case['ktype'], case['kind'])
    pause = case['given'] if case['given'] is not None else case['own'] if case['own'] is not None else 0.3
    extra = min(case['extra'], pause * 100 + 0.05)
    n_items = sum(a[0] == 'i' for a in case['script'])
    if pause < 0.01:  # a full buffer would be looked at without end
        case['auto_drop'] = True
    auto = case['auto_drop'] or case['maxlen'] is None or n_items < case['maxlen']
    stats = dict(waits=0, flows=0)

    def main():
        src = mk_source_class()(book, [list(case['script']), list(case['script'])], sleep=case['own'])
        if case['how'] == 'buffer':
            kw = {} if case['given'] is None else {'sleep_time_on_read_none_s': case['given']}
            buf = StreamBuffer(src, maxlen=case['maxlen'], auto_drop=case['auto_drop'], **kw)
        elif case['how'] == 'helper':
            buf = src.stream_buffer(
                case['maxlen'], sleep_time_on_read_none_s=case['given'], auto_drop=case['auto_drop']
            )
        else:
            buf = src.stream_buffer(case['maxlen'], case['given'], case['auto_drop'])
        for ses in range(2 if case['restart'] else 1):
            buf.start()
            spent = sum(a[1] for a in case['script'] if a[0] == 's')
            V.vsleep(spent + (pause + 0.002) * sum(a[0] == 'n' for a in case['script']) + extra)
            t_stop = V.vnow()
            buf.stop()
            V.vsleep(5)
            log = [e for e in src.log if e[1] == ses]
            last = None
            for ev, _, clock, payload in log:
                if ev == 'read':
                    if last is not None:
                        wait = clock - last[0]
                        want = max(pause, 0) if last[1] is None else 0.0
                        if not want - 1e-3 <= wait <= want + 0.05 and (auto or wait < want):
                            raise Violation(
                                f'the source was read {wait:.4f}s after it gave {"None" if last[1] is None else "an item"}, '
                                f'expected {want} (given {case["given"]}, own {case["own"]})'
                            )
                        stats['waits' if last[1] is None else 'flows'] += 1
                elif ev == 'read_end':
                    last = (clock, payload)
            end = [e for e in log if e[0] == 'close']
            if len(end) != 1:
                raise Violation(f'the source was closed {len(end)} times')
            # a read that was in progress when the stop came takes as long as it takes
            busy = max([e[2] for e in log if e[0] in ('read', 'read_end')] + [t_stop])
            if end[0][2] > busy + 0.02:
                raise Violation(
                    f'the source was closed {end[0][2] - busy:.3f}s after the stop while it had nothing to do (pause {pause})'
                )

    V.Scheduler({'gran': 'sync', 'wall': case.get('wall', [])}, max_steps=2_000_000, max_time=1e6).run(main)
    rec.nontrivial = stats['waits'] >= 2 and stats['flows'] >= 1
    rec.label(*[k for k, v in stats.items() if v], 'given' if case['given'] is not None else 'own' if case['own'] is not None else 'default')
