"""
Deterministic cooperative scheduler over real (parked) threads.

Every thread of the code under test is a real OS thread, but at most one of
them runs at any instant: all the others are parked on a private lock.  Who
runs next is decided at *scheduling points* (lock release, contended lock
acquire, thread start/join/exit, sleeps, reads of a simulated source, and -
when line-level preemption is on - before individual source lines of the
library) by a policy driven from one seeded PRNG, or by a recorded list of
overrides when replaying.

The seam is the lowest one Python offers: `threading.Lock`, `threading.RLock`,
the lock factory used inside `threading.Condition`, and `threading.Thread`.
Condition, Event, Semaphore, Barrier, Timer and `queue.Queue` are the real
standard library code running over those simulated primitives.  `time` is a
virtual clock: it only advances by sleeping, stalling or waiting.
"""
import _thread
import sys
import threading
import time as _time_mod
import random

_real_allocate = _thread.allocate_lock
_get_ident = _thread.get_ident
_RealThread = threading.Thread
COMPREHENSIONS = ('<listcomp>', '<genexpr>', '<dictcomp>', '<setcomp>')
_real_current_thread = threading.current_thread

RUNNABLE, BLOCKED, DONE = 0, 1, 2
TICK = 1e-6

SIM = None          # the active simulation, if any


class Killed(BaseException):
    """Unwinds the simulated threads of a finished run."""


class HarnessError(Exception):
    pass


class Task(object):
    __slots__ = ('tid', 'name', 'park', 'state', 'deadline', 'timed_out',
                 'thread', 'fn', 'joiners', 'exc', 'kills', 'client', 'prio',
                 'ident', 'waiting_on', 'stalled', 'parent', 'tag', 'preempts',
                 'pending_exc')

    def __init__(self, tid, name, fn, thread, client):
        self.tid = tid
        self.name = name
        self.park = _real_allocate()
        self.park.acquire()
        self.state = RUNNABLE
        self.deadline = None
        self.timed_out = False
        self.thread = thread
        self.fn = fn
        self.joiners = []
        self.exc = None
        self.kills = 0
        self.client = client
        self.prio = 0.0
        self.ident = None
        self.waiting_on = None
        self.stalled = False
        self.parent = None
        self.tag = None
        self.preempts = 0
        self.pending_exc = None


class Policy(object):
    """
    Decides who runs.  `spec` is a JSON-able dict:

    kind     'random' | 'pct' | 'fifo' | 'starve' | 'burst' | 'default'
    seed     PRNG seed
    p        switch probability at voluntary points (random)
    line_p   probability of a preemption at a traced source line
    stall_p  probability that a scheduling point stalls the running thread
             for a long virtual time
    """

    def __init__(self, spec):
        self.spec = spec
        self.rng = random.Random(spec.get('seed', 0))
        self.kind = spec.get('kind', 'default')
        self.p = spec.get('p', 0.5)
        self.line_p = spec.get('line_p', 0.0)
        self.stall_p = spec.get('stall_p', 0.0)
        self.change = spec.get('change', 0.02)
        self.burst = 0

    def new_task(self, task):
        if self.kind == 'pct':
            task.prio = self.rng.random()
        elif self.kind == 'starve':
            # A few workers get to run only when nobody else can.
            task.prio = 1.0 if self.rng.random() < 0.7 else 0.0

    def choose(self, current, runnable):
        """Return the task to run.  `current` may be None."""
        k = self.kind
        rng = self.rng
        if k == 'random':
            if current is not None and rng.random() >= self.p:
                return current
            return runnable[int(rng.random() * len(runnable))]
        if k == 'pct':
            if rng.random() < self.change:
                t = runnable[int(rng.random() * len(runnable))]
                t.prio = rng.random() * 0.5
            best = runnable[0]
            for t in runnable:
                if t.prio > best.prio:
                    best = t
            return best
        if k == 'starve':
            if rng.random() < self.change:
                t = runnable[int(rng.random() * len(runnable))]
                t.prio = 1.0 - t.prio
            top = [t for t in runnable if t.prio >= 0.5] or runnable
            return top[int(rng.random() * len(top))]
        if k == 'burst':
            if current is not None and self.burst > 0:
                self.burst -= 1
                return current
            self.burst = int(rng.random() * 40)
            return runnable[int(rng.random() * len(runnable))]
        if k == 'fifo':
            # Round robin: the runnable task with the next higher id.
            if current is not None:
                for t in runnable:
                    if t.tid > current.tid:
                        return t
            return runnable[0]
        return current if current is not None else runnable[0]


class ReplayPolicy(object):
    """Replays a recorded sparse schedule: {decision number: task id}."""
    kind = 'replay'

    def __init__(self, overrides, stalls, lines):
        self.overrides = overrides
        self.stalls = stalls
        self.lines = lines

    def new_task(self, task):
        pass


class Sim(object):
    """One simulated execution."""

    def __init__(self, sched, max_steps=400000, trace_root=None,
                 max_lines=20000000):
        self.sched = sched
        self.replay = None
        if 'overrides' in sched:
            self.replay = {int(k): v for k, v in sched['overrides'].items()}
            self.replay_stalls = {int(k): v for k, v
                                  in sched.get('stalls', {}).items()}
            self.replay_lines = set(sched.get('lines', ()))
            self.policy = Policy({'kind': 'default'})
        else:
            self.policy = Policy(sched)
        self.now = 0.0
        self.steps = 0
        self.decisions = 0
        self.lines = 0
        self.max_steps = max_steps
        self.max_lines = max_lines
        self.tasks = []
        self.live = 0
        self.running = None
        self.done_lock = _real_allocate()
        self.done_lock.acquire()
        self.killing = False
        self.outcome = None           # 'done' | 'deadlock' | 'steplimit'
        self.rec_overrides = {}
        self.rec_stalls = {}
        self.rec_lines = []
        self.switches = 0
        self.events = []              # (step, task id, text)
        self.digest = 0
        self.by_ident = {}
        self.uncaught = []
        self.trace_root = trace_root
        self.use_trace = bool(trace_root) and (
            (self.replay is None and self.policy.line_p > 0) or
            (self.replay is not None and bool(self.replay_lines)) or
            bool(sched.get('force_trace')))
        self.spawn_hook = None
        self.quiesce_clients = 0
        self.stall_count = 0
        self.preemptions = 0
        self.deadlocked = None
        self.active_ids = None
        self.cur_runnable = 0
        self.time_jumps = 0
        self.interrupts = []      # [{'at': step, 'client': task}]
        self.on_interrupt = None

    # -- task management -------------------------------------------------

    def spawn(self, fn, name, thread=None, client=False):
        task = Task(len(self.tasks), name, fn, thread, client)
        task.parent = self.running
        if task.parent is not None:
            task.tag = task.parent.tag
        self.tasks.append(task)
        self.live += 1
        self.policy.new_task(task)
        _thread.start_new_thread(self._bootstrap, (task,))
        return task

    def _bootstrap(self, task):
        task.park.acquire()
        task.ident = _get_ident()
        self.by_ident[task.ident] = task
        registered = False
        if task.thread is not None:
            threading._active[task.ident] = task.thread
            task.thread._sim_ident = task.ident
            registered = True
        try:
            if self.killing:
                raise Killed()
            if self.use_trace:
                sys.settrace(self._tracer)
            try:
                task.fn()
            finally:
                if self.use_trace:
                    sys.settrace(None)
        except Killed:
            task.exc = None
        except BaseException as e:
            task.exc = e
            self.uncaught.append((task.name, e))
        if registered:
            threading._active.pop(task.ident, None)
        self._exit(task)

    def _exit(self, task):
        task.state = DONE
        task.fn = None
        self.live -= 1
        self.by_ident.pop(task.ident, None)
        if self.killing:
            self.done_lock.release()
            return
        self.log('exit')
        for j in task.joiners:
            if j.state == BLOCKED and j.waiting_on is task:
                self.wake(j)
        task.joiners = []
        self.running = None
        self._dispatch(None)

    # -- scheduling ------------------------------------------------------

    def _runnable(self):
        return [t for t in self.tasks if t.state == RUNNABLE]

    def _expire(self):
        now = self.now
        for t in self.tasks:
            if t.state == BLOCKED and t.deadline is not None and \
                    t.deadline <= now:
                t.timed_out = True
                t.deadline = None
                t.state = RUNNABLE

    def _interrupt(self):
        for it in self.interrupts:
            t = it['task']
            if self.steps >= it['at'] and t.state == BLOCKED and \
                    t.waiting_on != 'sleep' and it['ok'](t):
                self.interrupts.remove(it)
                t.pending_exc = it['exc']
                self.wake(t)
                if self.on_interrupt is not None:
                    self.on_interrupt(it)
                return

    def _choose(self, current):
        """Pick the next task among the runnable ones (None: none left)."""
        self.now += TICK
        if self.interrupts:
            self._interrupt()
        self._expire()
        runnable = [t for t in self.tasks if t.state == RUNNABLE]
        if not runnable:
            deadlines = [t.deadline for t in self.tasks
                         if t.state == BLOCKED and t.deadline is not None]
            if not deadlines:
                return None
            self.now = max(self.now, min(deadlines))
            self.time_jumps += 1
            self._expire()
            runnable = [t for t in self.tasks if t.state == RUNNABLE]
        self.cur_runnable = len(runnable)
        if current is not None and current.state != RUNNABLE:
            current = None
        default = current if current is not None else runnable[0]
        if len(runnable) == 1:
            return runnable[0]
        n = self.decisions
        self.decisions += 1
        if self.replay is not None:
            tid = self.replay.get(n)
            if tid is not None and tid < len(self.tasks) and \
                    self.tasks[tid].state == RUNNABLE:
                return self.tasks[tid]
            return default
        choice = self.policy.choose(current, runnable)
        if choice is not default:
            self.rec_overrides[n] = choice.tid
        return choice

    def _dispatch(self, current):
        """Hand the baton on; `current` is parked by the caller (or dead)."""
        nxt = self._choose(current)
        if nxt is None:
            if self.live == 0:
                self._finish('done')
            else:
                self._finish('deadlock')
            return None
        self.running = nxt
        if nxt is not current:
            self.switches += 1
            self.digest = (self.digest * 1000003 ^ (nxt.tid + 1)) & 0xffffffffffff
            nxt.park.release()
        return nxt

    def _finish(self, outcome):
        self.outcome = outcome
        self.killing = True
        self.running = None
        self.done_lock.release()

    def _park(self, task):
        task.park.acquire()
        if self.killing:
            self._die(task)
        if task.pending_exc is not None:
            exc, task.pending_exc = task.pending_exc, None
            raise exc

    def _die(self, task):
        task.kills += 1
        if task.kills > 200:
            # The code under test swallows everything: abandon the thread.
            task.state = DONE
            self.done_lock.release()
            while True:
                task.park.acquire()
        raise Killed()

    def me(self):
        """The running task if the caller is a simulated thread."""
        t = self.running
        if t is not None and t.ident == _get_ident():
            return t
        return self.by_ident.get(_get_ident())

    def point(self, what=None):
        """A scheduling point of the running task."""
        task = self.running
        if task is None or self.killing:
            task = self.by_ident.get(_get_ident())
            if task is not None and self.killing:
                self._die(task)
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self._abort_run(task, 'steplimit')
        n = self.steps
        if self.replay is not None:
            d = self.replay_stalls.get(n)
        else:
            d = None
            sp = self.policy.stall_p
            if sp and self.policy.rng.random() < sp:
                d = 10.0 ** (self.policy.rng.random() * 8 - 4)
                self.rec_stalls[n] = d
        if d is not None:
            self.stall_count += 1
            self._sleep(task, d)
            return
        nxt = self._choose(task)
        if nxt is task:
            return
        self.running = nxt
        self.switches += 1
        self.digest = (self.digest * 1000003 ^ (nxt.tid + 1)) & 0xffffffffffff
        nxt.park.release()
        self._park(task)

    def _abort_run(self, task, outcome):
        self._finish(outcome)
        self._park_dead(task)

    def _park_dead(self, task):
        task.park.acquire()
        self._die(task)

    def block(self, task, on, timeout=None):
        """Block `task` until woken; return False on timeout."""
        self.steps += 1
        if self.steps > self.max_steps:
            self._abort_run(task, 'steplimit')
        task.state = BLOCKED
        task.waiting_on = on
        task.timed_out = False
        task.deadline = None if timeout is None else self.now + timeout
        nxt = self._dispatch(task)
        if nxt is not task:
            self._park(task)
        elif task.pending_exc is not None:
            exc, task.pending_exc = task.pending_exc, None
            raise exc
        task.waiting_on = None
        task.deadline = None
        return not task.timed_out

    def _sleep(self, task, d):
        self.block(task, 'sleep', d)

    def sleep(self, d):
        task = self.running
        if self.killing:
            self._die(self.by_ident[_get_ident()])
        self._sleep(task, max(d, 0.0))

    def wake(self, task):
        if task.state == BLOCKED:
            task.state = RUNNABLE
            task.deadline = None
            task.timed_out = False

    # -- line level preemption -------------------------------------------

    def _tracer(self, frame, event, arg):
        code = frame.f_code
        if event != 'call' or \
                not code.co_filename.startswith(self.trace_root) or \
                code.co_name in COMPREHENSIONS:
            return None
        # How often PyPy reports a line of a loop which consists of just
        # that line depends on its JIT compiler, i.e. on what has been
        # executed before; so only changes of the line count.
        last = frame.f_lineno

        def local(frame, event, arg):
            nonlocal last
            if event == 'line' and frame.f_lineno != last and \
                    not self.killing:
                last = frame.f_lineno
                self._line()
            return local
        return local

    def _line(self):
        self.lines += 1
        n = self.lines
        if n > self.max_lines:
            task = self.running
            self._abort_run(task, 'steplimit')
        if self.replay is not None:
            if n in self.replay_lines:
                self.preemptions += 1
                self.point('line')
        elif self.policy.rng.random() < self.policy.line_p:
            self.rec_lines.append(n)
            self.preemptions += 1
            self.point('line')

    # -- run -------------------------------------------------------------

    def log(self, text):
        t = self.running
        self.events.append((self.steps, -1 if t is None else t.tid, text))

    def run(self):
        """Run to completion; afterwards no simulated thread is left."""
        global SIM
        if SIM is not None:
            raise HarnessError('nested simulation')
        SIM = self
        try:
            self._dispatch(None)
            self.done_lock.acquire()
            self.blocked_at_end = [
                (t.tid, t.name, t.client) for t in self.tasks
                if t.state != DONE]
            # Unwind whatever is left, one thread at a time.
            for t in self.tasks:
                if t.state != DONE:
                    t.park.release()
                    self.done_lock.acquire()
        finally:
            SIM = None
        return self.outcome

    def recorded(self):
        """The schedule of this run in replayable form."""
        if self.replay is not None:
            out = dict(self.sched)
            return out
        return {'overrides': {str(k): v for k, v
                              in sorted(self.rec_overrides.items())},
                'stalls': {str(k): v for k, v
                           in sorted(self.rec_stalls.items())},
                'lines': list(self.rec_lines)}


# -- simulated primitives ---------------------------------------------------

class SimLock(object):
    def __init__(self):
        self._locked = False
        self._waiters = []
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout not in (-1, None):
            raise ValueError("can't specify a timeout for a non-blocking call")
        if not self._locked:
            self._locked = True
            return True
        sim = SIM
        if sim is None:
            if not blocking or timeout >= 0:
                return False
            raise HarnessError('blocking acquire outside of a simulation')
        if sim.killing:
            task = sim.by_ident.get(_get_ident())
            if task is None:
                return True
            sim._die(task)
        if not blocking:
            sim.point('tryacquire')
            if not self._locked:
                self._locked = True
                return True
            return False
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = sim.now + timeout
        task = sim.running
        while self._locked:
            left = None
            if deadline is not None:
                left = deadline - sim.now
                if left < 0:
                    return False
            self._waiters.append(task)
            try:
                ok = sim.block(task, self, left)
            finally:
                if task in self._waiters:
                    self._waiters.remove(task)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            if SIM is not None and SIM.killing:
                return
            raise RuntimeError('release unlocked lock')
        self._locked = False
        sim = SIM
        if sim is None:
            return
        for t in self._waiters:
            sim.wake(t)
        if not sim.killing:
            sim.point('release')

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != _get_ident():
            if SIM is not None and SIM.killing:
                return
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __exit__(self, *args):
        self.release()

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return state

    def _is_owned(self):
        return self._owner == _get_ident()

    def _at_fork_reinit(self):
        self.__init__()


class SimThread(_RealThread):
    """threading.Thread whose scheduling belongs to the active simulation."""

    _sim_task = None
    _sim_ident = None

    def start(self):
        sim = SIM
        if sim is None or sim.killing:
            if sim is None:
                raise HarnessError('thread started outside of a simulation')
            sim._die(sim.by_ident[_get_ident()])
        if self._sim_task is not None:
            raise RuntimeError('threads can only be started once')
        if sim.spawn_hook is not None:
            sim.spawn_hook(self)       # may raise: "can't start new thread"
        self._sim_task = sim.spawn(self._sim_run, self._name, self)
        sim.log('start %d' % self._sim_task.tid)
        sim.point('start')

    def _sim_run(self):
        self._started._flag = True
        try:
            self.run()
        except Killed:
            raise
        except SystemExit:
            pass
        except BaseException as e:
            SIM.uncaught.append((self._name, e))
            SIM.log('uncaught %s' % type(e).__name__)
        finally:
            self._is_stopped = True

    def join(self, timeout=None):
        sim = SIM
        task = self._sim_task
        if task is None:
            raise RuntimeError('cannot join thread before it is started')
        if sim is None:
            return
        me = sim.me()
        if me is task:
            raise RuntimeError('cannot join current thread')
        if sim.killing:
            sim._die(me)
        deadline = None if timeout is None else sim.now + max(timeout, 0)
        if task.state == DONE:
            sim.point('join')
        while task.state != DONE:
            left = None
            if deadline is not None:
                left = deadline - sim.now
                if left < 0:
                    return
            task.joiners.append(me)
            ok = sim.block(me, task, left)
            if not ok:
                return

    def is_alive(self):
        t = self._sim_task
        if SIM is not None and not SIM.killing:
            SIM.point('is_alive')
        return t is not None and t.state != DONE

    isAlive = is_alive

    @property
    def ident(self):
        return self._sim_ident


# -- clock -----------------------------------------------------------------

_rt = {}
EPOCH = 1.5e9


def _clock(name, base=0.0):
    real = getattr(_time_mod, name)
    _rt[name] = real

    def virtual():
        sim = SIM
        if sim is not None and _get_ident() in sim.by_ident:
            return base + sim.now
        return real()
    virtual.__name__ = name
    return virtual


def real_time():
    return _rt['time']()


def install():
    """Put the simulated primitives in place (before biggus is imported)."""
    if getattr(threading, '_biggus_sim', False):
        return
    threading._biggus_sim = True
    import queue
    import logging      # noqa: grabs its module level locks as real ones
    import concurrent.futures.thread    # noqa
    for name, base in (('time', EPOCH), ('monotonic', 0.0),
                       ('perf_counter', 0.0)):
        setattr(_time_mod, name, _clock(name, base))
    real_sleep = _time_mod.sleep

    def sleep(d):
        sim = SIM
        if sim is not None and _get_ident() in sim.by_ident:
            sim.sleep(d)
        else:
            real_sleep(d)
    _rt['sleep'] = real_sleep
    _time_mod.sleep = sleep
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = None
    threading.Thread = SimThread
    threading._time = _time_mod.monotonic
    queue.time = _time_mod.monotonic

    class Timer(SimThread):
        __init__ = threading.Timer.__init__
        cancel = threading.Timer.cancel
        run = threading.Timer.run
    threading.Timer = Timer
    queue.SimpleQueue = queue._PySimpleQueue
