"""Reader-writer lock: who may enter, at every settled point (readers share, writers have priority)."""
from hypothesis import strategies as st

import gen
import vworld as V
from conc import Threads
from harness import Violation

ID = 'C15'
RULE = (
    'A case is a sequence of requests and releases over up to 7 agents, each its own thread; after each command '
    'everything runs until nothing can move and the set of agents inside the lock is compared with the model. '
    'Non-trivial if some agent had to wait and at some point several readers shared the lock.'
)
CASES = {'quick': 9000, 'thorough': 120000}


def strategy(tier):
    cmd = gen.weighted(
        (4, st.just(['r'])), (3, st.just(['w'])), (6, st.integers(0, 6).map(lambda i: ['rel', i])),
        (4, st.lists(st.sampled_from(['r', 'w', 'w']), min_size=2, max_size=5).map(lambda k: ['both', k])),
    )
    crowd = st.integers(8, 40).map(lambda n: ['both', ['r'] * n])
    cmds = st.tuples(st.integers(0, 15), crowd, st.lists(cmd, min_size=3, max_size=16 if tier == 'quick' else 40))
    return st.fixed_dictionaries(
        {
            'cmds': cmds.map(lambda t: [t[1], *t[2]] if t[0] == 5 else t[2]),
            'via': st.sampled_from(['lock', 'lock', 'deque']),
            'schedule': gen.schedules(line=0.9),
        }
    )


def run(case, rec):
    from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
    from stream2py.utility.reader_writer_lock import RWLock

    flags = dict(wait=0, share=0, behind=0)

    def main():
        t = V.thread_module()
        via = case.get('via', 'lock')
        lock = RWLock() if via == 'lock' else RWLockSortedDeque()
        th = Threads()
        inside, waiting = {}, {}  # agent -> kind, by observation
        go = {}
        ids = [0]

        def agent(i, kind):
            if via == 'deque':
                with (lock.reader_lock if kind == 'r' else lock.writer_lock)():
                    waiting.pop(i)
                    inside[i] = kind
                    go[i].wait()
                    inside.pop(i)
                return
            (lock.reader_acquire if kind == 'r' else lock.writer_acquire)()
            waiting.pop(i)
            inside[i] = kind
            go[i].wait()
            inside.pop(i)
            (lock.reader_release if kind == 'r' else lock.writer_release)()

        def request(kind):
            ids[0] += 1
            i = ids[0]
            waiting[i] = kind
            go[i] = t.Event()
            th.go(agent, i, kind, name=f'{kind}{i}')
            return i

        def settle():
            V.vsleep(1.0)
            if th.errors:
                raise th.errors[0]

        def check(what, before_in, before_wait):
            """the state before the command is known; the state now has to be a settled successor"""
            n_in = {k: sum(v == k for v in inside.values()) for k in 'rw'}
            n_wait = {k: sum(v == k for v in waiting.values()) for k in 'rw'}
            shown = f'after {what}: inside {inside}, waiting {waiting}; before: inside {before_in}, waiting {before_wait}'
            if n_in['w'] > 1 or (n_in['w'] and n_in['r']):
                raise Violation('no mutual exclusion ' + shown)
            if n_wait['w'] and not inside:
                raise Violation('a writer waits for a free lock ' + shown)
            if n_wait['r'] and not n_in['w'] and not n_wait['w']:
                raise Violation('a reader waits although no writer is active or waiting ' + shown)
            # writers first: no reader that waited or arrived may enter while a writer was and is waiting
            entered = [i for i, k in inside.items() if k == 'r' and i not in before_in]
            if entered and any(before_wait.get(i) == 'w' for i in waiting):
                raise Violation('a reader entered while a writer was waiting ' + shown)
            flags['wait'] |= bool(waiting)
            flags['share'] |= n_in['r'] > 1
            flags['behind'] |= bool(n_in['r'] and n_wait['r'])

        for cmd in case['cmds']:
            b_in, b_wait = dict(inside), dict(waiting)
            if cmd[0] == 'rel':
                if not inside:
                    continue
                i = sorted(inside)[cmd[1] % len(inside)]
                was = inside[i]
                go[i].set()
                settle()
                if i in inside:
                    raise Violation(f'{was}{i} could not leave the lock')
                b_in.pop(i)
                # a writer waiting at the release goes before every waiting reader
                if was == 'w' and 'w' in b_wait.values():
                    if not any(b_wait.get(j) == 'w' for j in inside):
                        raise Violation(f'after {was}{i} left, {inside} entered although a writer was waiting: {b_wait}')
                check(f'{was}{i} left', b_in, b_wait)
            else:
                kinds = cmd[1] if cmd[0] == 'both' else [cmd[0]]
                if len(waiting) + len(inside) + len(kinds) > max(7, len(kinds)):
                    continue
                for k in kinds:
                    request(k)
                settle()
                if len(kinds) > 1:
                    b_wait = {i: k for i, k in b_wait.items()}
                check(f'request {kinds}', b_in, b_wait)
        while inside:
            for i in list(inside):
                go[i].set()
            settle()
        if waiting:
            raise Violation(f'{waiting} never entered')
        th.join()

    s = V.Scheduler(case['schedule'], max_steps=200_000, max_time=1000.0)
    s.run(main)
    rec.nontrivial = bool(flags['wait'] and flags['share'])
    rec.label(*[k for k, v in flags.items() if v])
