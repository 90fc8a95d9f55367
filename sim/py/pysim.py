"""A deterministic simulator for threaded and asyncio Python code.

Every thread is a real thread, but only the one that holds the baton runs; who holds it next, how long things take and
what fails is decided by a seeded generator, or by a recording. Time is simulated: it only passes when no thread can run.
"""
import _thread
import asyncio
import asyncio.base_events
import collections
import concurrent.futures
import contextvars
import heapq
import random
import sys
import types

NS = 1_000_000_000


class SimExit(BaseException):
    """Ends a simulated thread when the world ends."""


class Stuck(Exception):
    pass


class Task:
    def __init__(self, w, name):
        self.w, self.id, self.name = w, len(w.tasks), name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "run"  # run, wait, done
        self.deadline = None
        self.is_loop = False
        self.ident = None
        self.ended = _thread.allocate_lock()
        self.ended.acquire()


class World:
    """One simulated execution."""

    def __init__(self, seed, replay=None, tracing=False):
        self.seed = seed
        self.replay = replay
        self.tracing = tracing
        self.rngs = {}
        self.rec = {}  # stream -> values
        self.sched = []  # [step, choice] where not the default
        self.stalls_rec = []
        self.rcur = {}
        self.rsched = dict(map(tuple, replay["sched"])) if replay else None
        self.rstall = dict(map(tuple, replay["stall"])) if replay else None
        self.now = 0
        self.seq = 0
        self.hash = 1469598103934665603
        self.switch_hash = 1469598103934665603
        self.switches = self.preempts = self.steps = self.stalls = 0
        self.trace = []
        self.tasks = []
        self.cur = None
        self.dead = False
        self.stuck = None
        self.p_switch = 0.0
        self.p_stall = 0.0
        self.fine = False  # preemption within statements as well
        self.on = False
        self.max_steps = 400_000

    # -- choices
    def rng(self, stream):
        r = self.rngs.get(stream)
        if r is None:
            r = self.rngs[stream] = random.Random(f"{self.seed}/{stream}")
        return r

    def choose(self, stream, n):
        """A number below n; the recording holds it."""
        if n <= 1:
            return 0
        if self.replay is not None:
            l = self.replay["streams"].get(stream, ())
            k = self.rcur.get(stream, 0)
            self.rcur[stream] = k + 1
            v = l[k] % n if k < len(l) else 0
        else:
            v = self.rng(stream).randrange(n)
        self.rec.setdefault(stream, []).append(v)
        return v

    def chance(self, stream, p):
        """True with probability p; the recorded default is False."""
        if self.replay is not None:
            return self.choose(stream, 2) == 1
        v = 1 if self.rng(stream).random() < p else 0
        self.rec.setdefault(stream, []).append(v)
        return v == 1

    def recorded(self):
        return {"streams": self.rec, "sched": self.sched, "stall": self.stalls_rec}

    # -- events
    def mix(self, s):
        h = self.hash
        for b in s.encode():
            h = ((h ^ b) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        self.hash = h

    def event(self, fmt):
        self.seq += 1
        line = f"{self.now / NS:.6f}s #{self.seq} [{self.cur.name if self.cur else '-'}] {fmt}"
        self.mix(line)
        if self.tracing and len(self.trace) < 4000:
            self.trace.append(line)
        return self.seq

    # -- scheduling
    def adopt(self, name):
        """Makes the current OS thread the first task."""
        t = Task(self, name)
        t.ident = _thread.get_ident()
        self.tasks.append(t)
        self.cur = t
        return t

    def me(self):
        i = _thread.get_ident()
        for t in self.tasks:
            if t.ident == i:
                return t
        return None

    def spawn(self, name, fn):
        t = Task(self, name)
        self.tasks.append(t)

        def body():
            t.ident = _thread.get_ident()
            t.lock.acquire()
            try:
                if not self.dead:
                    fn()
            except SimExit:
                pass
            finally:
                t.state = "done"
                if not self.dead:
                    self.handover(t)
                t.ended.release()

        _thread.start_new_thread(body, ())
        return t

    def runnable(self):
        return [t for t in self.tasks if t.state == "run"]

    def advance(self):
        """Lets time pass until somebody can run."""
        dl = [t.deadline for t in self.tasks if t.state == "wait" and t.deadline is not None]
        if not dl:
            return False
        at = min(dl)
        if at > self.now:
            self.now = at
        for t in self.tasks:
            if t.state == "wait" and t.deadline is not None and t.deadline <= self.now:
                t.state, t.deadline = "run", None
        return True

    def pick(self, me, preempt):
        """Who runs next. preempt: me could go on."""
        while True:
            run = self.runnable()
            if run:
                break
            if not self.advance():
                self.fail("nothing can run any more")
                return None
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail("too many steps")
            return None
        step = self.steps
        if preempt:
            order = [me] + [t for t in run if t is not me]
        else:
            order = run
        if len(order) == 1:
            return order[0]
        if self.rsched is not None:
            k = self.rsched.get(step, 0)
            if k >= len(order):
                k = 0
        elif preempt:
            r = self.rng("sched")
            k = r.randrange(1, len(order)) if r.random() < self.p_switch else 0
        else:
            k = self.rng("sched").randrange(len(order))
        if k:
            self.sched.append([step, k])
            if preempt:
                self.preempts += 1
        return order[k]

    def fail(self, why):
        if self.stuck is None:
            self.stuck = why
        self.dead = True

    def handover(self, me, preempt=False):
        """Passes the baton on; returns when me has it again."""
        nxt = self.pick(me, preempt)
        if nxt is None:  # the world is dead: the first task cleans up
            nxt = self.tasks[0]
        if nxt is me:
            if self.dead:
                raise SimExit
            return
        self.switches += 1
        h = self.switch_hash
        for v in (me.id, nxt.id, self.steps):
            h = ((h ^ v) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        self.switch_hash = h
        self.mix(f"switch {me.id} {nxt.id}")
        self.cur = nxt
        nxt.lock.release()
        if me.state == "done":
            return
        me.lock.acquire()
        if self.dead:
            raise SimExit

    def yield_(self):
        """A point at which the current task may be preempted."""
        me = self.cur
        if self.dead:
            raise SimExit
        if not me.is_loop:
            step = self.steps + 1
            d = 0
            if self.rstall is not None:
                d = self.rstall.get(step, 0)
            elif self.p_stall and self.rng("stall").random() < self.p_stall:
                d = self.rng("stall").choice((1, 20, 400, 3000)) * (NS // 1000)
            if d:
                self.stalls_rec.append([step, d])
                self.stalls += 1
                self.event(f"thread stalled for {d / NS:.3f}s")
                self.sleep(d)
                return
        self.handover(me, True)

    def wait(self, deadline=None):
        """Blocks the current task until woken or the deadline."""
        me = self.cur
        if self.dead:
            raise SimExit
        me.state, me.deadline = "wait", deadline
        self.handover(me)

    def sleep(self, ns):
        end = self.now + ns
        if ns <= 0:
            self.yield_()
            return
        while self.now < end:
            self.wait(end)

    def wake(self, t):
        if t.state == "wait":
            t.state, t.deadline = "run", None

    def end(self):
        """Ends all other tasks; called by the first one."""
        self.on = False
        self.dead = True
        for t in self.tasks[1:]:
            if t.state != "done":
                self.cur = t
                t.lock.release()
            t.ended.acquire()
        self.cur = self.tasks[0]

    # -- preemption points, which the loader puts into the code under test
    def point_s(self):
        if self.on and self.cur.ident == _thread.get_ident():
            self.yield_()

    def point_e(self, v):
        if self.on and self.fine and self.cur.ident == _thread.get_ident():
            self.yield_()
        return v


class WaitQ:
    """Tasks waiting for something."""

    def __init__(self, w):
        self.w, self.q = w, []

    def wait(self, deadline=None):
        me = self.w.cur
        self.q.append(me)
        self.w.wait(deadline)
        if me in self.q:
            self.q.remove(me)
            return False
        return True

    def wake_one(self):
        while self.q:
            t = self.q.pop(0)
            if t.state == "wait":
                self.w.wake(t)
                return

    def wake_all(self):
        while self.q:
            self.wake_one()


# The world of this process. The modules below find it here.
W = None


def _dl(timeout):
    return None if timeout is None or timeout < 0 else W.now + int(timeout * NS)


class Lock:
    def __init__(self):
        self.held, self.owner, self.n, self.q = False, None, 0, WaitQ(W)

    def acquire(self, blocking=True, timeout=-1):
        W.yield_()
        end = _dl(timeout)
        while self.held:
            if not blocking or (end is not None and W.now >= end):
                return False
            self.q.wait(end)
        self.held, self.owner = True, W.cur
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held, self.owner = False, None
        self.q.wake_one()
        W.yield_()

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def acquire(self, blocking=True, timeout=-1):
        if self.held and self.owner is W.cur:
            self.n += 1
            return True
        r = Lock.acquire(self, blocking, timeout)
        if r:
            self.n = 1
        return r

    def release(self):
        if not self.held or self.owner is not W.cur:
            raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if self.n == 0:
            Lock.release(self)

    __enter__ = acquire


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.q = WaitQ(W)

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        n = self.lock.n
        self.lock.n = 0
        self.lock.held, self.lock.owner = False, None
        self.lock.q.wake_one()
        r = self.q.wait(_dl(timeout))
        while self.lock.held:
            self.lock.q.wait()
        self.lock.held, self.lock.owner, self.lock.n = True, W.cur, n
        return r

    def wait_for(self, predicate, timeout=None):
        end = _dl(timeout)
        r = predicate()
        while not r:
            left = None if end is None else (end - W.now) / NS
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        for _ in range(n):
            self.q.wake_one()

    def notify_all(self):
        self.q.wake_all()


class Event:
    def __init__(self):
        self.on, self.q = False, WaitQ(W)

    def is_set(self):
        W.yield_()
        return self.on

    def set(self):
        self.on = True
        self.q.wake_all()
        W.yield_()

    def clear(self):
        self.on = False

    def wait(self, timeout=None):
        W.yield_()
        end = _dl(timeout)
        while not self.on and (end is None or W.now < end):
            self.q.wait(end)
        return self.on


class Semaphore:
    def __init__(self, value=1):
        self.v, self.q = value, WaitQ(W)

    def acquire(self, blocking=True, timeout=None):
        W.yield_()
        end = _dl(timeout)
        while self.v <= 0:
            if not blocking or (end is not None and W.now >= end):
                return False
            self.q.wait(end)
        self.v -= 1
        return True

    __enter__ = acquire

    def release(self, n=1):
        self.v += n
        for _ in range(n):
            self.q.wake_one()
        W.yield_()

    def __exit__(self, *a):
        self.release()


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._t, self._a, self._k = target, args, kwargs or {}
        self.name, self.daemon, self.task, self._q = name or "Thread", daemon, None, WaitQ(W)
        self.fin = False

    def run(self):
        if self._t:
            self._t(*self._a, **self._k)

    def start(self):
        ctx = contextvars.copy_context()

        def body():
            try:
                ctx.run(self.run)
            except Exception as e:
                W.event(f"thread {self.name} ended with {e!r}")
            finally:
                self.fin = True
                self._q.wake_all()

        self.task = W.spawn(f"thread{len(W.tasks)}", body)
        W.yield_()

    def is_alive(self):
        return self.task is not None and not self.fin

    def join(self, timeout=None):
        end = _dl(timeout)
        while not self.fin and (end is None or W.now < end):
            self._q.wait(end)


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize, self.l, self.q, self.full_q, self.unfinished, self.jq = maxsize, collections.deque(), WaitQ(W), WaitQ(W), 0, WaitQ(W)

    def _get(self):
        return self.l.popleft()

    def _put(self, x):
        self.l.append(x)

    def put(self, item, block=True, timeout=None):
        W.yield_()
        end = _dl(timeout)
        while 0 < self.maxsize <= len(self.l):
            if not block or (end is not None and W.now >= end):
                raise sys.modules["queue"].Full
            self.full_q.wait(end)
        self._put(item)
        self.unfinished += 1
        self.q.wake_one()

    def get(self, block=True, timeout=None):
        W.yield_()
        end = _dl(timeout)
        while not self.l:
            if not block or (end is not None and W.now >= end):
                raise sys.modules["queue"].Empty
            self.q.wait(end)
        x = self._get()
        self.full_q.wake_one()
        return x

    def put_nowait(self, x):
        self.put(x, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return len(self.l)

    def empty(self):
        return not self.l

    def full(self):
        return 0 < self.maxsize <= len(self.l)

    def task_done(self):
        self.unfinished -= 1
        if self.unfinished <= 0:
            self.jq.wake_all()

    def join(self):
        while self.unfinished > 0:
            self.jq.wait()


class LifoQueue(Queue):
    def _get(self):
        return self.l.pop()


class PriorityQueue(Queue):
    def __init__(self, maxsize=0):
        Queue.__init__(self, maxsize)
        self.l = []

    def _put(self, x):
        heapq.heappush(self.l, x)

    def _get(self):
        return heapq.heappop(self.l)


class Executor(concurrent.futures.Executor):
    """A thread pool: first in, first out, threads started as needed."""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        self.max = max_workers or 12
        self.items, self.q, self.idle, self.n = collections.deque(), WaitQ(W), 0, 0
        self.prefix, self.initializer, self.initargs, self.closed = thread_name_prefix or "worker", initializer, initargs, False
        self.live = []

    def submit(self, fn, /, *args, **kwargs):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = concurrent.futures.Future()
        self.items.append((f, contextvars.copy_context(), fn, args, kwargs))
        if self.idle > 0:
            self.q.wake_one()
        elif self.n < self.max:
            self.n += 1
            self.live.append(W.spawn(f"{self.prefix}{len(W.tasks)}", self._work))
        return f

    def _work(self):
        if self.initializer:
            self.initializer(*self.initargs)
        while True:
            while not self.items:
                if self.closed:
                    return
                self.idle += 1
                self.q.wait()
                self.idle -= 1
            f, ctx, fn, args, kwargs = self.items.popleft()
            if not f.set_running_or_notify_cancel():
                continue
            try:
                r = ctx.run(fn, *args, **kwargs)
            except SimExit:
                raise
            except BaseException as e:
                f.set_exception(e)
            else:
                f.set_result(r)
            W.yield_()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for it in self.items:
                it[0].cancel()
        self.q.wake_all()
        while wait and any(t.state != "done" for t in self.live):
            W.sleep(NS // 1000)


_real_result = concurrent.futures.Future.result
_real_exception = concurrent.futures.Future.exception


def _fut_wait(f, timeout):
    if W is not None and W.me() is not None and not f.done():
        q = WaitQ(W)
        f.add_done_callback(lambda _: q.wake_all())
        end = _dl(timeout)
        while not f.done():
            if end is not None and W.now >= end:
                raise concurrent.futures.TimeoutError()
            q.wait(end)


def _result(self, timeout=None):
    _fut_wait(self, timeout)
    return _real_result(self, 0)


def _exception(self, timeout=None):
    _fut_wait(self, timeout)
    return _real_exception(self, 0)


class _Selector:
    def __init__(self, loop):
        self.loop, self.q, self.woken = loop, WaitQ(W), False

    def select(self, timeout=None):
        w = W
        if timeout is not None and timeout <= 0:
            w.yield_()
        elif not self.woken:
            self.q.wait(None if timeout is None else w.now + max(1, int(timeout * NS + 0.999)))
        self.woken = False
        return []

    def close(self):
        pass


class Loop(asyncio.base_events.BaseEventLoop):
    """asyncio's own loop on simulated time; waiting for I/O becomes waiting for other threads."""

    def __init__(self, executor):
        super().__init__()
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.sim_executor = executor

    def time(self):
        return W.now / NS

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        self._selector.woken = True
        self._selector.q.wake_all()

    def run_in_executor(self, executor, func, *args):
        return super().run_in_executor(self.sim_executor if executor is None else executor, func, *args)


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def _time_mod():
    import time as real

    m = _mod("time")
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
    epoch = 1_700_000_000
    m.sleep = lambda s: W.sleep(int(s * NS))
    m.time = lambda: epoch + W.now / NS
    m.time_ns = lambda: epoch * NS + W.now
    m.monotonic = m.perf_counter = lambda: W.now / NS
    m.monotonic_ns = m.perf_counter_ns = lambda: W.now
    return m


def make_modules():
    """The modules the code under test gets instead of the real ones."""
    import queue as rq
    import threading as rt
    import random as rr

    th = _mod("threading")
    th.__dict__.update({k: v for k, v in rt.__dict__.items() if not k.startswith("__")})
    th.__dict__.update(Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Semaphore=Semaphore, BoundedSemaphore=Semaphore, Thread=Thread)
    q = _mod("queue")
    q.__dict__.update({k: v for k, v in rq.__dict__.items() if not k.startswith("__")})
    q.__dict__.update(Queue=Queue, SimpleQueue=Queue, LifoQueue=LifoQueue, PriorityQueue=PriorityQueue)
    cf = _mod("concurrent.futures")
    cf.__dict__.update({k: getattr(concurrent.futures, k) for k in ("Future", "Executor", "CancelledError", "TimeoutError", "InvalidStateError", "FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED")})
    cf.ThreadPoolExecutor = Executor
    cft = _mod("concurrent.futures.thread", ThreadPoolExecutor=Executor)
    cf.thread = cft
    conc = _mod("concurrent", futures=cf)
    rnd = _mod("random")
    rnd.__dict__.update({k: v for k, v in rr.__dict__.items() if not k.startswith("__")})
    r = rr.Random(W.seed)
    for k in ("random", "randrange", "randint", "uniform", "choice", "choices", "shuffle", "sample", "getrandbits"):
        setattr(rnd, k, getattr(r, k))
    return {"threading": th, "queue": q, "concurrent.futures": cf, "concurrent.futures.thread": cft, "concurrent": conc, "time": _time_mod(), "random": rnd}


def patch_process():
    """Blocking calls that reach the real library block in the simulation instead."""
    import time

    concurrent.futures.Future.result = _result
    concurrent.futures.Future.exception = _exception
    real = time.sleep
    time.sleep = lambda s: W.sleep(int(s * NS)) if W is not None and W.me() is not None else real(s)
