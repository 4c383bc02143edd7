"""A deterministic world for multi-threaded Python code.

The code under test is imported through ``load_package`` which gives every one of its modules a
private ``__import__``: ``threading``, ``time``, ``queue``, ``_thread`` and ``concurrent.futures``
resolve to copies of the standard library modules that are built on the primitives of this file.
Inside ``Scheduler.run`` exactly one thread runs at a time, time is virtual, and every place where
another thread could be scheduled (lock operations, sleeps, thread starts, explicit yields of the
harness and - in 'line' granularity - every source line of the code under test) consults a schedule
that is plain data. A run is therefore a pure function of (code, program, schedule), so schedules are
generated, shrunk and replayed exactly like any other generated value.
"""
import _thread as _rt
import builtins
import gc
import heapq
import importlib
import importlib.abc
import importlib.util
import os
import random
import sys
import time as _real_time
import types

REPO = os.environ.get('VERIF_REPO', '/repo')

_STEP_COST = 2e-6  # virtual seconds charged per scheduling step: keeps spinning code from freezing time
_ZERO_SLEEP = 1e-3  # a sleep of <= 0 seconds still lets a little time pass
_QUANTUM = 4000  # steps after which a thread that never blocks is preempted

ACTIVE = None  # the Scheduler that is running, if any


class Killed(BaseException):
    """Raised inside threads that outlive their case."""


class Deadlock(Exception):
    """Every live thread waits for something that can no longer happen."""


class Hang(Exception):
    """The main program did not finish within the step / virtual time budget."""


class VThread:
    __slots__ = ('id', 'sem', 'state', 'wake', 'timed_out', 'sentinel', 'on', 'name', 'seq')

    def __init__(self, id_):
        self.id = id_
        self.sem = _rt.allocate_lock()
        self.sem.acquire()
        self.state = 'ready'
        self.wake = None
        self.timed_out = False
        self.sentinel = None
        self.on = None
        self.name = None
        self.seq = 0


class Scheduler:
    """Runs a program under one schedule.

    schedule: dict(gran='sync'|'line'|'instr', preempt=[[gap, pick], ...], picks=[int, ...], walk=[seed, k])
      walk:    optional, switch to a pseudo-random ready thread about every k scheduling steps
      preempt: after `gap` further scheduling steps (with another thread ready) switch to another one
      wall:    [[moment, seconds], ...], time.time() jumps by so much at these moments
      picks:   which ready thread continues when the current one blocks (default: round robin)
    """

    def __init__(self, schedule=None, *, max_steps=400_000, max_time=20_000.0):
        schedule = schedule or {}
        self.instr = schedule.get('gran') == 'instr'
        self.line = self.instr or schedule.get('gran') == 'line'
        self.preempt = [(int(g), int(p)) for g, p in schedule.get('preempt', [])]
        self.preempt.reverse()
        self.picks = [int(p) for p in schedule.get('picks', [])]
        self.picks.reverse()
        self.countdown = self.preempt[-1][0] if self.preempt else None
        self.wall = [(float(at), float(by)) for at, by in schedule.get('wall', [])]
        walk = schedule.get('walk')  # [seed, k]: additionally switch at random about every k steps
        self.rng = random.Random(int(walk[0])) if walk else None
        self.rate = 1.0 / max(1, int(walk[1])) if walk else 0.0
        self.max_steps = max_steps
        self.max_time = max_time
        self.clock = 0.0
        self.steps = 0
        self.run_len = 0
        self.switches = 0
        self.preemptions = 0
        self.threads = []
        self.cur = None
        self.sleepers = []  # heap of (wake, seq, vthread)
        self.seq = 0
        self.killing = False
        self.kill_steps = 0
        self.ctrl = _rt.allocate_lock()
        self.ctrl.acquire()
        self.outcome = None
        self.thread_errors = []

    # ---- running -------------------------------------------------------------------------
    def run(self, fn):
        global ACTIVE
        if ACTIVE is not None:  # a history that is part of a larger one: the outer schedule decides
            return fn()
        result = {}

        def main():
            try:
                result['value'] = fn()
            except Killed:
                raise
            except BaseException as e:  # handed to the controller
                result['error'] = e

        gc_was = gc.isenabled()
        gc.disable()
        _watch_instructions(self.instr)
        ACTIVE = self
        try:
            main_vt = self._spawn(main)
            main_vt.name = 'main'
            self.cur = main_vt
            main_vt.sem.release()
            self.ctrl.acquire()
            # main is done, or the run was aborted: unwind whatever is left
            self.killing = True
            for vt in list(self.threads):
                n = 0
                while vt.state != 'done' and n < 50:
                    n += 1
                    self.cur = vt
                    vt.sem.release()
                    self.ctrl.acquire()
        finally:
            ACTIVE = None
            self.cur = None
            if gc_was:
                gc.enable()
        if self.outcome is not None:
            kind, info = self.outcome
            raise {'deadlock': Deadlock, 'hang': Hang}[kind](info)
        if 'error' in result:
            try:
                raise result['error']
            finally:
                result.clear()
        return result.get('value')

    def _spawn(self, fn):
        vt = VThread(len(self.threads) + 1)
        self.threads.append(vt)

        def bootstrap():
            vt.sem.acquire()
            try:
                if not self.killing:
                    fn()
            except Killed:
                pass
            except SystemExit:
                pass
            except BaseException as e:
                if not self.killing:
                    self.thread_errors.append(e)
            finally:
                self._finish(vt)

        _rt.start_new_thread(bootstrap, ())
        return vt

    def _finish(self, vt):
        vt.state = 'done'
        if vt.sentinel is not None and vt.sentinel._locked:
            vt.sentinel._unlock()
        if self.killing or vt.id == 1:
            self.ctrl.release()
            return
        nxt = self._next_ready(vt)
        if nxt is None:
            self.ctrl.release()
        else:
            self._resume(nxt)

    # ---- choosing ------------------------------------------------------------------------
    def _ready(self):
        return [t for t in self.threads if t.state == 'ready']

    def _wake_due(self):
        while self.sleepers and self.sleepers[0][0] <= self.clock:
            wake, seq, vt = heapq.heappop(self.sleepers)
            if vt.state == 'blocked' and vt.seq == seq:
                vt.state = 'ready'
                vt.timed_out = True

    def _next_ready(self, me):
        """The thread to run when `me` cannot go on; None (with outcome set) if there is none."""
        while True:
            ready = self._ready()
            if ready:
                if len(ready) == 1:
                    return ready[0]
                pick = self.picks.pop() if self.picks else 0
                ready.sort(key=lambda t: (t.id <= me.id, t.id))  # round robin from me on
                return ready[pick % len(ready)]
            while self.sleepers and not (
                self.sleepers[0][2].state == 'blocked'
                and self.sleepers[0][2].seq == self.sleepers[0][1]
            ):
                heapq.heappop(self.sleepers)
            if not self.sleepers:
                if self.outcome is None:
                    self.outcome = ('deadlock', self._describe())
                return None
            self.clock = max(self.clock, self.sleepers[0][0])
            if self.clock > self.max_time:
                if self.outcome is None:
                    self.outcome = ('hang', f'virtual time {self.clock:.0f}s; ' + self._describe())
                return None
            self._wake_due()

    def _describe(self):
        return '; '.join(
            f'thread {t.name or t.id}: {t.state}' + (f' on {t.on}' if t.on else '')
            for t in self.threads
            if t.state != 'done'
        )

    def _resume(self, vt):
        self.switches += 1
        self.run_len = 0
        self.cur = vt
        vt.sem.release()

    def _switch(self, me, target):
        if target is not me:
            self._resume(target)
            me.sem.acquire()
        if self.killing:
            raise Killed

    def _abort(self, me, kind, info):
        if self.outcome is None:
            self.outcome = (kind, info)
        self.ctrl.release()
        me.sem.acquire()
        raise Killed

    # ---- scheduling points ---------------------------------------------------------------
    def step(self):
        """A place where the running thread may be preempted."""
        if self.killing:
            self.kill_steps += 1
            if self.kill_steps > 2000:
                raise Killed
            return
        me = self.cur
        self.steps += 1
        self.run_len += 1
        if self.steps > self.max_steps:
            self._abort(me, 'hang', f'{self.steps} steps; ' + self._describe())
        self.clock += _STEP_COST
        if self.sleepers and self.sleepers[0][0] <= self.clock:
            self._wake_due()
        self._consider(me)

    def instr_step(self):
        """A byte code instruction of the code under test is about to run ('instr' granularity)."""
        if not self.killing:
            self._consider(self.cur)

    def _consider(self, me):
        rng = self.rng
        if rng is not None and rng.random() < self.rate:
            ready = [t for t in self.threads if t.state == 'ready' and t is not me]
            if ready:
                self.preemptions += 1
                self._switch(me, ready[int(rng.random() * len(ready))])
                return
        if self.countdown is None and self.run_len < _QUANTUM:
            return
        ready = [t for t in self.threads if t.state == 'ready' and t is not me]
        if not ready:
            return
        if self.countdown is not None:
            self.countdown -= 1
            if self.countdown < 0:
                pick = self.preempt.pop()[1]
                self.countdown = self.preempt[-1][0] if self.preempt else None
                self.preemptions += 1
                ready.sort(key=lambda t: (t.id <= me.id, t.id))
                self._switch(me, ready[pick % len(ready)])
                return
        if self.run_len >= _QUANTUM:
            ready.sort(key=lambda t: (t.id <= me.id, t.id))
            self._switch(me, ready[0])

    def line_step(self):
        """A source line of the code under test is about to run."""
        if self.line:
            self.step()
            return
        if self.killing:
            self.kill_steps += 1
            if self.kill_steps > 20000:
                raise Killed
            return
        # 'sync' granularity: lines only count against the budget (and rule out frozen spins)
        self.steps += 1
        self.run_len += 1
        self.clock += _STEP_COST
        if self.steps > self.max_steps:
            self._abort(self.cur, 'hang', f'{self.steps} steps; ' + self._describe())
        if self.run_len >= _QUANTUM:
            self.steps -= 1
            self.step()

    def block(self, on, timeout=None):
        """Block the running thread until woken or timed out. True if it timed out."""
        if self.killing:
            raise Killed
        me = self.cur
        me.state = 'blocked'
        me.on = on
        me.timed_out = False
        self.seq += 1
        me.seq = self.seq
        if timeout is not None:
            heapq.heappush(self.sleepers, (self.clock + max(timeout, 0.0), self.seq, me))
        nxt = self._next_ready(me)
        if nxt is None:
            self.ctrl.release()
            me.sem.acquire()
            raise Killed
        self._switch(me, nxt)
        me.on = None
        return me.timed_out

    def wake(self, vt):
        if vt.state == 'blocked':
            vt.state = 'ready'
            vt.timed_out = False

    def sleep(self, seconds):
        if self.killing:
            raise Killed
        self.block(f'sleep({seconds})', float(seconds) if seconds > 0 else _ZERO_SLEEP)


# ---- helpers for harness code running inside a scheduler -----------------------------------
def yield_():
    if ACTIVE is not None:
        ACTIVE.step()


def vsleep(seconds):
    ACTIVE.sleep(seconds)


def vnow():
    return ACTIVE.clock


# ---- primitives: the fake `_thread` ---------------------------------------------------------
class VLock:
    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if not blocking and timeout not in (-1, None):
            raise ValueError("can't specify a timeout for a non-blocking call")
        if s is None:
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError('lock contention outside a scheduler')
            self._locked = True
            return True
        if s.killing:
            self._locked = True
            return True
        s.step()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else s.clock + timeout
        while self._locked:
            me = s.cur
            self._waiters.append(me)
            try:
                out = s.block(f'lock@{id(self) & 0xFFFF:x}', None if deadline is None else deadline - s.clock)
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
            if out and self._locked:
                return False
        self._locked = True
        return True

    def _unlock(self):
        self._locked = False
        s = ACTIVE
        if s is not None:
            for vt in self._waiters:
                s.wake(vt)

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._unlock()
        s = ACTIVE
        if s is not None and not s.killing:
            s.step()

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    def __repr__(self):
        return f'<{"locked" if self._locked else "unlocked"} VLock>'


def _start_new_thread(function, args, kwargs=None):
    s = ACTIVE
    if s is None:
        raise RuntimeError('thread started outside a scheduler')
    vt = s._spawn(lambda: function(*args, **(kwargs or {})))
    s.step()
    return vt.id


def _get_ident():
    s = ACTIVE
    return 1 if s is None or s.cur is None else s.cur.id


def _set_sentinel():
    lock = VLock()
    if ACTIVE is not None:
        ACTIVE.cur.sentinel = lock
    return lock


def _excepthook(args):
    if args.exc_type is SystemExit or (args.exc_type and issubclass(args.exc_type, Killed)):
        return
    if ACTIVE is not None and not ACTIVE.killing:
        ACTIVE.thread_errors.append(args.exc_value)


_fake_thread = types.ModuleType('_thread')
_fake_thread.__dict__.update(
    start_new_thread=_start_new_thread,
    start_new=_start_new_thread,
    daemon_threads_allowed=lambda: True,
    allocate_lock=VLock,
    allocate=VLock,
    LockType=VLock,
    _set_sentinel=_set_sentinel,
    get_ident=_get_ident,
    _is_main_interpreter=lambda: True,
    error=RuntimeError,
    TIMEOUT_MAX=_rt.TIMEOUT_MAX,
    _local=_rt._local,
    stack_size=lambda size=0: 0,
    interrupt_main=lambda signum=2: None,
    _excepthook=_excepthook,
    _ExceptHookArgs=_rt._ExceptHookArgs,
)


# ---- the fake `time` ------------------------------------------------------------------------
_EPOCH = 1_700_000_000.0


def _t_sleep(seconds):
    if seconds < 0:
        raise ValueError('sleep length must be non-negative')
    if ACTIVE is not None:
        ACTIVE.sleep(seconds)


def _t_clock(offset, real):
    return lambda: real() if ACTIVE is None else offset + ACTIVE.clock


_fake_time = types.ModuleType('time')
for _k in dir(_real_time):
    if not _k.startswith('__'):
        setattr(_fake_time, _k, getattr(_real_time, _k))
_fake_time.sleep = _t_sleep


def _t_time():
    if ACTIVE is None:
        return _real_time.time()
    return _EPOCH + ACTIVE.clock + sum(by for at, by in ACTIVE.wall if at <= ACTIVE.clock)


_fake_time.time = _t_time
_fake_time.monotonic = _t_clock(1000.0, _real_time.monotonic)
_fake_time.perf_counter = _t_clock(1000.0, _real_time.perf_counter)
_fake_time.time_ns = lambda: int(_fake_time.time() * 1e9)
_fake_time.monotonic_ns = lambda: int(_fake_time.monotonic() * 1e9)
_fake_time.perf_counter_ns = lambda: int(_fake_time.perf_counter() * 1e9)


# ---- shadow standard library ----------------------------------------------------------------
_SHADOW_SRC = {  # pure Python modules re-executed on top of the fakes
    'threading': 'threading',
    '_threading_local': '_threading_local',
    'queue': 'queue',
    'sched': 'sched',
    'concurrent.futures': 'concurrent.futures',
    'concurrent.futures._base': 'concurrent.futures._base',
    'concurrent.futures.thread': 'concurrent.futures.thread',
}
_shadow = {'_thread': _fake_thread, 'time': _fake_time}


def _load_shadow(name):
    if name in _shadow:
        return _shadow[name]
    if '.' in name:
        parent_name = name.rpartition('.')[0]
        if parent_name in _SHADOW_SRC:
            _load_shadow(parent_name)
            if name in _shadow:
                return _shadow[name]
    spec = importlib.util.find_spec(name)
    mod = types.ModuleType(name)
    mod.__file__ = spec.origin
    mod.__package__ = name if spec.submodule_search_locations else name.rpartition('.')[0]
    if spec.submodule_search_locations:
        mod.__path__ = list(spec.submodule_search_locations)
    mod.__builtins__ = _BUILTINS
    mod.__spec__ = spec
    _shadow[name] = mod
    with open(spec.origin, 'rb') as f:
        exec(compile(f.read(), spec.origin, 'exec'), mod.__dict__)
    if name == 'threading':
        mod.excepthook = _excepthook
    if name == 'queue':
        simple = getattr(mod, '_PySimpleQueue', None)
        if simple is not None:
            mod.SimpleQueue = simple
    return mod


class _SimpleQueueModule(types.ModuleType):
    pass


def _shadow_import(name, globals=None, locals=None, fromlist=(), level=0):
    absname = name
    if level:
        pkg = (globals or {}).get('__package__') or ''
        absname = importlib.util.resolve_name('.' * level + name, pkg)
    if absname in _SHADOW_SRC or absname in _shadow:
        mod = _load_shadow(absname)
        if fromlist or '.' not in absname:
            if fromlist:
                for sub in fromlist:
                    full = f'{absname}.{sub}'
                    if full in _SHADOW_SRC and not hasattr(mod, sub):
                        setattr(mod, sub, _load_shadow(full))
            return mod
        top = types.ModuleType(absname.partition('.')[0])
        cur = top
        parts = absname.split('.')
        for i in range(1, len(parts)):
            full = '.'.join(parts[: i + 1])
            nxt = _load_shadow(full) if full in _SHADOW_SRC else types.ModuleType(full)
            setattr(cur, parts[i], nxt)
            cur = nxt
        return top
    return _orig_import(name, globals, locals, fromlist, level)


_orig_import = builtins.__import__
_BUILTINS = dict(builtins.__dict__)
_BUILTINS['__import__'] = _shadow_import

# ---- loading the code under test ------------------------------------------------------------
_TOOL = 4
_mon = sys.monitoring
LINE_HITS = set()
_ALL_LINES = {}
_loaded_codes = []


_FREE_LINES = [0]
FREE_BUDGET = 10_000_000  # lines of the code under test a case may run outside of a scheduler


def _on_line(code, line):
    s = ACTIVE
    LINE_HITS.add((code.co_filename, line))
    if s is not None:
        if s.cur is not None:
            s.line_step()
        return
    _FREE_LINES[0] += 1
    if _FREE_LINES[0] > FREE_BUDGET:
        raise Hang(f'{FREE_BUDGET} lines of the code under test without an end')


def _on_instr(code, offset):
    s = ACTIVE
    if s is not None and s.cur is not None and s.instr:
        s.instr_step()


_watching = [False]


def _watch_instructions(on):
    if on != _watching[0]:
        _watching[0] = on
        events = _mon.events.LINE | _mon.events.INSTRUCTION if on else _mon.events.LINE
        for code in _loaded_codes:
            _mon.set_local_events(_TOOL, code, events)


_mon.use_tool_id(_TOOL, 'vworld')
_mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
_mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _on_instr)


def _instrument(code):
    _loaded_codes.append(code)
    _mon.set_local_events(
        _TOOL, code, _mon.events.LINE | _mon.events.INSTRUCTION if _watching[0] else _mon.events.LINE
    )
    lines = _ALL_LINES.setdefault(code.co_filename, set())
    if code.co_name != '<module>':
        lines.update(l for _, _, l in code.co_lines() if l)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _instrument(c)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            code = compile(f.read(), self.path, 'exec', dont_inherit=True)
        module.__builtins__ = _BUILTINS
        _instrument(code)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    """Finds stream2py (and pack) in /repo's working tree; never a cached byte code file."""

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.partition('.')[0]
        if top not in ('stream2py', 'pack'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            file = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, file, loader=_Loader(file), submodule_search_locations=[base]
            )
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, base + '.py', loader=_Loader(base + '.py')
            )
        if os.path.isdir(base):  # namespace package (stream2py/examples)
            return importlib.machinery.PathFinder.find_spec(
                fullname, [os.path.dirname(base)]
            )
        return None


sys.dont_write_bytecode = True
sys.meta_path.insert(0, _Finder())


def thread_module():
    return _load_shadow('threading')


def reset_shadow_state():
    """Called between cases: nothing of a finished case may reach the next one."""
    _FREE_LINES[0] = 0
    t = _shadow.get('threading')
    if t is None:
        return
    main = t._main_thread
    t._active.clear()
    t._active[1] = main
    t._limbo.clear()
    t._shutdown_locks.clear()
    for lock in (t._active_limbo_lock, t._shutdown_locks_lock):
        if hasattr(lock, '_block'):
            lock._block._locked = False
            lock._block._waiters = []
            lock._owner = None
            lock._count = 0
        else:
            lock._locked = False
            lock._waiters = []


def coverage_summary():
    out = {}
    for file, lines in sorted(_ALL_LINES.items()):
        if '/tests/' in file or not lines:
            continue
        hit = {l for f, l in LINE_HITS if f == file} & lines
        if hit:
            out[os.path.relpath(file, REPO)] = f'{len(hit)}/{len(lines)}'
    return out
