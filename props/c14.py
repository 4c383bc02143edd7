"""Reader-writer lock: mutual exclusion and progress under any schedule, release on exceptions."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import Violation
from streams import FAULTS

ID = 'C14'
RULE = (
    'A case is 2-5 threads, each with a list of read/write sections (length, optional exception raised inside, '
    'plain acquire/release, with-blocks or operations of the locked deque) and a thread schedule. Non-trivial if '
    'at least one thread had to wait for another section and both kinds of sections occurred.'
)
CASES = {'quick': 6000, 'thorough': 200000}


# exceptions that leave a section
RAISE = ['Fault', 'KeyboardInterrupt', 'ValueError', 'StopIteration', 'GeneratorExit', 'FaultBase']


def strategy(tier):
    section = st.tuples(
        st.sampled_from(['r', 'r', 'w']),
        st.sampled_from(['plain', 'with', 'with_item', 'plain', 'with', 'with_item'] + ['raise-' + e for e in RAISE]),
        st.integers(0, 6),  # scheduling steps inside
        st.sampled_from([0, 0, 0, 0, 0, 0.001, 0.001, 2, 15, 100]),  # sleep inside
        st.integers(0, 3),  # steps before
    ).map(list)
    threads = st.lists(
        st.lists(section, min_size=1, max_size=4 if tier == 'quick' else 10), min_size=2, max_size=5
    )
    return st.fixed_dictionaries(
        {
            'threads': threads,
            # many readers that are inside at once, for different times
            'crowd': gen.weighted((11, st.just(0)), (1, st.integers(8, 40))),
            'repeat': st.sampled_from([1, 1, 1, 3]),
            'schedule': gen.schedules(line=0.9),
        }
    )


def run(case, rec):
    from stream2py.utility.locked_sorted_deque import RWLockSortedDeque

    seen = dict(waited=0, r=0, w=0)

    def main():
        lock = RWLockSortedDeque([], key=lambda x: x, maxlen=None)
        active = {'r': 0, 'w': 0}
        expect = []
        ctr = [0]

        def enter(kind):
            active[kind] += 1
            seen[kind] += 1
            if active['w'] > 1 or (active['w'] and active['r']):
                raise Violation(f'{active["w"]} writers and {active["r"]} readers are inside at the same time')

        def inside(kind, steps, nap):
            for _ in range(steps):
                V.yield_()
                if active['w'] > 1 or (active['w'] and active['r']):
                    raise Violation(f'{active["w"]} writers and {active["r"]} readers are inside at the same time')
            if nap:
                V.vsleep(nap)

        def section(kind, how, steps, nap, before):
            for _ in range(before):
                V.yield_()
            if active['w'] or (kind == 'w' and active['r']):
                seen['waited'] += 1
            if how == 'plain':
                (lock.reader_acquire if kind == 'r' else lock.writer_acquire)()
                enter(kind)
                inside(kind, steps, nap)
                active[kind] -= 1
                (lock.reader_release if kind == 'r' else lock.writer_release)()
                return
            boom = FAULTS[how[6:]]('raised in the section') if how.startswith('raise-') else None
            try:
                with lock.reader_lock() if kind == 'r' else lock.writer_lock() as d:
                    enter(kind)
                    try:
                        if how == 'with_item':
                            if kind == 'w':
                                ctr[0] += 1
                                d.append(ctr[0])
                                expect.append(ctr[0])
                            elif list(d) != expect:
                                raise Violation(f'a reader saw {list(d)} instead of {expect}')
                        inside(kind, steps, nap)
                        if boom is not None:
                            raise boom
                    finally:
                        active[kind] -= 1
            except BaseException as e:
                if boom is None or e is not boom:
                    raise
            else:
                if boom is not None:
                    raise Violation('the exception raised in the section was swallowed')

        def worker(sections):
            for _ in range(case['repeat']):
                for s in sections:
                    section(*s)

        th = Threads()
        for i, sections in enumerate(case['threads']):
            th.go(worker, sections, name=f'worker{i}')
        for i in range(case.get('crowd', 0)):
            th.go(section, 'r', 'with' if i % 2 else 'plain', 0, 0.002 if i % 3 else 5, 0, name=f'reader{i}')
        if case.get('crowd'):
            V.vsleep(0.001)
            th.go(section, 'w', 'with_item', 0, 0.001, 0, name='writer')
        th.join()
        # and the lock is free again
        lock.writer_acquire()
        lock.writer_release()
        lock.reader_acquire()
        lock.reader_release()
        with lock.writer_lock() as d,_nothing():
            if list(d) != expect or len(lock) != len(expect):
                raise Violation(f'the deque holds {list(d)} instead of {expect}')

    s = V.Scheduler(case['schedule'], max_steps=200_000, max_time=1e5)
    s.run(main)
    rec.nontrivial = seen['waited'] > 0 and seen['r'] > 0 and seen['w'] > 0
    rec.label(*[k for k, v in seen.items() if v])


class _nothing:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return None
