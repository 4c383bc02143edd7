"""Starting is atomic for everybody else."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import HarnessError, Violation
from streams import Book, FAULTS, mk_source_class

ID = 'C31'
RULE = (
    'A case is a controller that starts, restarts and stops a stream (opening may take long or fail), 1 to 3 clients '
    'that make readers, attach readers, ask the buffer for its next item and whether it is running meanwhile, and a thread schedule; every result has '
    'to be that of one moment between the beginning and the end of its call. Non-trivial if at least 2 calls of clients '
    'overlapped a start.'
)
CASES = {'quick': 10000, 'thorough': 100000}

NAPS = [0.0, 0.0, 1e-5, 5e-5, 2e-4, 0.01, 0.3, 0.9, 1.0]


@st.composite
def strategy(draw, tier):
    # streams that end by themselves, so that a start takes no time
    ends = draw(st.integers(0, 2)) == 0
    naps = [t for t in NAPS if t < 0.01] if ends else NAPS
    ctl = st.lists(
        gen.weighted((5, st.just(['start'])), (2, st.just(['stop'])), (3, st.sampled_from(naps).map(lambda t: ['wait', t]))),
        min_size=1,
        max_size=7,
    )
    ops = st.lists(
        gen.weighted(
            (4, st.just(['mk'])),
            (3, st.just(['running'])),
            (2, st.just(['attach'])),
            (8 if ends else 2, st.just(['next'])),
            (4, st.sampled_from(naps).map(lambda t: ['wait', t])),
        ),
        min_size=1,
        max_size=(14 if ends else 8) if tier == 'quick' else 20,
    )
    faults = draw(st.integers(0, 2)) == 0
    return {
        'ktype': draw(gen.ktypes),
        'kind': draw(st.sampled_from(['tuple', 'dict', 'obj', 'array', 'falsy'])),
        'ends': ends,
        'early': draw(st.booleans()),
        'ctl': draw(ctl) + [['start']],
        'clients': draw(st.lists(ops, min_size=1, max_size=3)),
        'open_time': 0.0 if ends else draw(st.sampled_from([0.0, 0.0, 1e-4, 0.4])),
        'close_time': 0.0 if ends else draw(st.sampled_from([0.0, 0.0, 0.3])),
        'open_faults': [draw(st.sampled_from([None, None, 'Fault', 'OSError', 'KeyboardInterrupt'])) if faults else None for _ in range(9)],
        'schedule': draw(gen.schedules()),
    }


def run(case, rec):
    from stream2py import StreamBuffer
    from stream2py.exceptions import StreamNotStartedError

    book = Book(case['ktype'], case['kind'])
    stats = dict(calls=0, overlapping=0, refused=0, readers=0, attached=0, nexts=0, up=0, down=0)

    def main():
        src = mk_source_class()(
            book,
            [[['i', 1], ['i', 2]] for _ in range(9)],
            sleep=0.05,
            open_faults=case['open_faults'],
            open_time=case['open_time'],
            close_time=case['close_time'],
            tagged=True,
            end='Fault' if case.get('ends') else None,
        )
        buf = StreamBuffer(src, maxlen=5)
        other = StreamBuffer(mk_source_class()(book, [], sleep=0.05), maxlen=5)
        clock = [0]

        def tick():
            clock[0] += 1
            return clock[0]

        BIG = 10 ** 9
        starts = []  # dict(b, e, session or None)
        stops = []  # [b, e]

        def control():
            for c in case['ctl']:
                if c[0] == 'wait':
                    V.vsleep(c[1])
                elif c[0] == 'stop':
                    if any(s['e'] < BIG for s in starts):
                        s = [tick(), BIG]
                        stops.append(s)
                        buf.stop()
                        s[1] = tick()
                elif src.session + 1 < 9:
                    s = dict(b=tick(), e=BIG, ses=src.session + 1)
                    starts.append(s)
                    try:
                        buf.start()
                    except tuple(FAULTS.values()):
                        s['ses'] = None
                    s['e'] = tick()
                    want = None if case['open_faults'][src.session] else src.session
                    if s['ses'] != want:
                        raise Violation(f'start of session {src.session}: error is {case["open_faults"][src.session]}, got {s}')

        # readers that never belonged to this stream
        other.start()
        strangers = [other.mk_reader() for _ in case['clients']]
        other.stop()
        verdicts = []

        def of_next():
            try:
                x = next(buf)
            except StopIteration:
                return 'ended'
            return None if x is None else book.pos(x)[0]

        def client(ops, stranger):
            for o in ops:
                if o[0] == 'next' and stranger is not strangers[0]:  # (it has one cursor)
                    continue
                if o[0] == 'wait':
                    V.vsleep(o[1])
                    continue
                t0 = tick()
                r = None
                try:
                    if o[0] == 'mk':
                        r = buf.mk_reader()
                        out = r.source_reader_info['session']
                    elif o[0] == 'attach':
                        del stranger.last_item
                        buf.attach_reader(stranger)
                        r = stranger
                        out = r.source_reader_info['session']
                    elif o[0] == 'next':
                        out = of_next()
                    else:
                        out = buf.is_running
                except StreamNotStartedError:
                    out = 'not started'
                t1 = tick()
                verdicts.append((o[0], t0, t1, out))
                if r is not None:
                    # (a running session may have been replaced by now, its data stay)
                    for _ in range(3):
                        x = r.read(ignore_no_item_found=True)
                        if x is not None and book.pos(x)[0] != out:
                            raise Violation(f'a reader with the information of session {out} reads items of session {book.pos(x)[0]}')
                    if o[0] == 'mk' and not r.is_same_buffer(r):
                        raise Violation('a reader is not on the same buffer as itself')
                stats['calls'] += 1

        th = Threads()
        if not case['early']:
            s = dict(b=tick(), e=BIG, ses=0)
            starts.append(s)
            try:
                buf.start()
            except tuple(FAULTS.values()):
                s['ses'] = None
            s['e'] = tick()
        th.go(control, name='controller')
        for i, ops in enumerate(case['clients']):
            th.go(client, ops, strangers[i], name=f'client{i}')
        th.join()
        t0 = tick()
        try:
            out = of_next()
        except StreamNotStartedError:
            out = 'not started'
        verdicts.append(('next', t0, tick(), out))
        for what, t0, t1, out in verdicts:
            during = [s for s in starts if s['b'] <= t1 and s['e'] >= t0]
            stats['overlapping'] += bool(during)
            before = [s for s in starts if s['e'] < t0]
            last = before[-1] if before else None
            cand = ([last] if last else []) + during
            if what == 'running':
                up = bool(during and any(s['ses'] is not None for s in during))
                down = not before or bool(during) or bool(case.get('ends'))
                if last is not None and last['ses'] is not None:
                    halted = [s for s in stops if last['e'] < s[0] and s[0] <= t1]
                    done = [s for s in halted if s[1] < t0]
                    down = down or bool(halted)
                    up = up or not done
                elif last is not None:
                    down = True
                # a failing start of a running stream: it may still have been running at first
                if out is True and not up or out is False and not down or type(out) is not bool:
                    raise Violation(
                        f'is_running gave {out!r} between {t0} and {t1}; starts {starts}, stops {stops}'
                    )
                stats['up' if out else 'down'] += 1
            else:
                allowed = {s['ses'] for s in cand if s['ses'] is not None}
                refuse = not before or any(s['ses'] is None for s in cand)
                if out == 'not started':
                    stats['refused'] += 1
                    if not refuse:
                        raise Violation(f'{what} between {t0} and {t1} was refused as not started; starts {starts}')
                elif what == 'next' and out in (None, 'ended'):
                    halted = last is None or during or case.get('ends') or any(last['e'] < s[0] and s[0] <= t1 for s in stops)
                    if not allowed or out == 'ended' and not halted:
                        raise Violation(
                            f'next(buffer) between {t0} and {t1} gave {out}; starts {starts}, stops {stops}'
                        )
                    stats['nexts'] += 1
                elif out not in allowed:
                    raise Violation(f'{what} between {t0} and {t1} gave session {out}, possible {allowed}; starts {starts}')
                else:
                    stats[{'mk': 'readers', 'attach': 'attached', 'next': 'nexts'}[what]] += 1
        if any(s['ses'] is not None or s['e'] < BIG for s in starts):
            buf.stop()

    V.Scheduler(case['schedule'], max_steps=600_000, max_time=5000.0).run(main)
    rec.label(*[k for k, v in stats.items() if v])
    rec.nontrivial = stats['overlapping'] >= 2
