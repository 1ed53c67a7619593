"""Simulated processes: multiprocessing.Process/Queue/Event/... and joblib.Parallel replaced by objects of one simulated world in
which a seeded scheduler decides who runs, when queue items arrive, which process is killed and where.  Each simulated process
is a thread, but exactly one thread runs at any time (it holds the baton) and the baton moves only at the operations below.
Arguments are copied when a process starts and items when they are queued, as they are between real processes."""
import copy
import itertools
import pickle
import queue as _queue
import threading

from .core import Violation

WORLD = None


class Killed(BaseException):
    pass


class Deadlock(BaseException):
    pass


def isolated(x):
    """A copy that shares nothing mutable with x (functions and basis objects that cannot be copied stay shared)."""
    if isinstance(x, (list, tuple)):
        return type(x)(isolated(y) for y in x)
    try:
        return copy.deepcopy(x)
    except Exception:
        return x


class Task:
    ids = itertools.count()

    def __init__(self, world, name):
        self.world, self.name = world, name
        self.sem = threading.Semaphore(0)
        self.ready = None        # predicate while blocked
        self.deadline = None
        self.state = "run"
        self.die = False
        self.exitcode = None
        self.kill_at = None
        self.steps = 0


class World:
    def __init__(self, ctx, kill=0.0, fork_fail=0.0, limit=4000, stay=0.5):
        self.ctx = ctx
        self.kill_prob = kill
        self.fork_fail = fork_fail
        self.limit = limit
        self.stay = stay
        self.now = 0.0
        self.steps = 0
        self.tasks = []
        self.main = self.current = Task(self, "main")
        self.tasks.append(self.main)
        self.delivered = []      # pending queue items: (due step, queue, payload, owner)
        self.killed = 0
        self.trace = []
        self.started = 0
        self.stopping = False
        self.fail = None

    # -------------------------------------------------------------- scheduling
    def runnable(self):
        out = []
        for t in self.tasks:
            if t.state == "run":
                out.append(t)
            elif t.state == "blocked" and (t.die or t.ready() or (t.deadline is not None and self.now >= t.deadline)):
                out.append(t)
        return out

    def deliver(self, force=False):
        """Queue items whose feeder has run become visible."""
        rest = []
        for due, q, data, owner in self.delivered:
            if force or due <= self.steps:
                q.items.append(data)
            else:
                rest.append((due, q, data, owner))
        self.delivered = rest

    def switch(self):
        """A point where another process may run."""
        me = self.current
        if self.stopping:
            if me is not self.main:
                raise Killed()
            return
        self.steps += 1
        self.ctx.count("steps")
        if self.steps > self.limit:
            self.endless(me)
        self.deliver()
        if me is not self.main:
            me.steps += 1
            if me.kill_at is not None and me.steps >= me.kill_at and not me.die:
                me.die = True
                self.killed += 1
                self.ctx.count("fault:process_killed")
                self.trace.append("kill %s" % me.name)
            if me.die:
                raise Killed()
        r = [t for t in self.runnable()]
        others = [t for t in r if t is not me]
        if me.state == "run":
            cands = [me] + others
            t = cands[self.ctx.choose(len(cands), self.stay if others else 1.0)]
        else:
            raise AssertionError
        self.pass_to(t)

    def block(self, ready, timeout=None):
        """Wait until ready() or the timeout; True when ready."""
        me = self.current
        if self.stopping:
            if me is not self.main:
                raise Killed()
            return bool(ready())
        self.switch()
        if ready():
            return True
        me.state, me.ready = "blocked", ready
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        while True:
            self.steps += 1
            if self.steps > self.limit:
                self.endless(me)
            self.deliver()
            r = self.runnable()
            if r:
                break
            if self.delivered:
                self.deliver(True)
                continue
            dl = [t.deadline for t in self.tasks if t.state == "blocked" and t.deadline is not None]
            if not dl:
                if self.fail is None:
                    self.fail = ("deadlock", "no simulated process can run any more: %s" % ", ".join("%s %s" % (t.name, t.state) for t in self.tasks))
                if me is self.main:
                    self.broken()
                r = [self.main]
                break
            self.now = min(dl)
            self.ctx.count("virtual_timeouts")
        t = r[self.ctx.choose(len(r))]
        self.pass_to(t)
        me.state = "run"
        ok = bool(ready())
        me.ready = me.deadline = None
        return ok

    def endless(self, me):
        if self.fail is None:
            self.fail = ("no-progress", "more than %d operations of the simulated processes without an end" % self.limit)
        if me is self.main:
            self.broken()
        raise Killed()

    def broken(self):
        """Called by the main process: unwind the others and report."""
        self.main.state = "run"
        f = self.fail
        self.stop_all(self.main)
        raise Violation(*f)

    def pass_to(self, t):
        me = self.current
        if t is not me:
            self.trace.append(t.name)
            self.current = t
            t.sem.release()
            me.sem.acquire()
        if me is self.main and self.fail is not None:
            self.broken()
        if me.die and me is not self.main:
            me.state = "run"
            raise Killed()

    def finish(self, me):
        """The current task ends; somebody else goes on."""
        me.state = "done"
        if self.stopping:
            self.current = self.main
            self.main.sem.release()
            return
        self.deliver()
        r = self.runnable() if self.fail is None else [self.main]
        while not r:
            if self.delivered:
                self.deliver(True)
            else:
                dl = [t.deadline for t in self.tasks if t.state == "blocked" and t.deadline is not None]
                if not dl:
                    if self.fail is None:
                        self.fail = ("deadlock", "no simulated process can run any more: %s" % ", ".join("%s %s" % (t.name, t.state) for t in self.tasks))
                    r = [self.main]
                    break
                self.now = min(dl)
            r = self.runnable()
        t = r[self.ctx.choose(len(r))]
        self.current = t
        t.sem.release()

    def spawn(self, name, fn):
        t = Task(self, name)
        self.started += 1

        def body():
            t.sem.acquire()
            try:
                if not t.die:
                    fn()
                t.exitcode = 0 if t.exitcode is None else t.exitcode
            except Killed:
                t.exitcode = -9
            except SystemExit as e:
                t.exitcode = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                t.exitcode = 1
            # items still in the feeder of a killed process are lost, those of one that ended are flushed
            keep = []
            for x in self.delivered:
                if x[3] is t and t.exitcode == -9:
                    x[1].space += 1
                else:
                    keep.append((0,) + x[1:] if x[3] is t else x)
            self.delivered = keep
            self.finish(t)

        t.thread = threading.Thread(target=body, daemon=True)
        if self.kill_prob and self.ctx.choose(1000, 1 - self.kill_prob):
            t.kill_at = 1 + self.ctx.choose(14)
        self.tasks.append(t)
        t.thread.start()
        return t

    def stop_all(self, me):
        """Unwind every other simulated process."""
        self.stopping = True
        for t in self.tasks:
            if t is self.main or t.state == "done":
                continue
            if t is me:
                continue
            t.die = True
            self.current = t
            t.sem.release()
            self.main.sem.acquire()
        self.current = me

    def leftover(self):
        return [t for t in self.tasks if t is not self.main and t.state != "done"]

    def close(self):
        global WORLD
        if not self.stopping:
            self.stop_all(self.main)
        for t in self.tasks:
            if t is not self.main:
                t.thread.join(10)
        WORLD = None


def start(ctx, **kw):
    global WORLD
    WORLD = World(ctx, **kw)
    return WORLD


# ------------------------------------------------------------------ multiprocessing
class Process:
    n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        Process.n += 1
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self.daemon = daemon
        self.task = None
        self.name = name or "P%d" % len(WORLD.tasks)
        self.authkey = b""
        self.world = WORLD

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        w = self.world
        w.switch()
        if w.fork_fail and w.ctx.choose(1000, 1 - w.fork_fail):
            w.ctx.count("fault:fork_failed")
            raise BlockingIOError(11, "Resource temporarily unavailable")
        shared = [x for x in self._args if isinstance(x, (Queue, Event, Lock, Semaphore))]
        keep = {id(x) for x in shared}
        self._args = tuple(x if id(x) in keep else isolated(x) for x in self._args)
        self._kwargs = {k: v if isinstance(v, (Queue, Event, Lock, Semaphore)) else isolated(v) for k, v in self._kwargs.items()}
        self.task = w.spawn("worker%d" % (w.started + 1), self.run)
        w.switch()

    def is_alive(self):
        if self.task is None:
            return False
        self.world.switch()
        return self.task.state != "done"

    def join(self, timeout=None):
        self.world.block(lambda: self.task.state == "done", timeout)

    def terminate(self):
        if self.task is not None and self.task.state != "done":
            self.task.die = True
        self.world.switch()

    kill = terminate

    def close(self):
        pass

    @property
    def exitcode(self):
        return None if self.task is None or self.task.state != "done" else self.task.exitcode

    @property
    def pid(self):
        return None if self.task is None else 1000 + self.world.tasks.index(self.task)

    ident = pid

    @property
    def sentinel(self):
        return self


class Queue:
    def __init__(self, maxsize=0, **kw):
        self.w = WORLD
        self.space = maxsize if maxsize > 0 else 1 << 60
        self.items = []
        self.closed = False

    def put(self, obj, block=True, timeout=None):
        w = self.w
        if self.closed:
            raise ValueError("Queue is closed")
        if not block:
            timeout = 0
        if not w.block(lambda: self.space > 0, timeout):
            raise _queue.Full
        self.space -= 1
        try:
            data = pickle.dumps(obj)
        except Exception:
            # the feeder thread prints the error and drops the item
            self.space += 1
            w.ctx.count("unpicklable_item_dropped")
            return
        delay = w.ctx.choose(6, 0.6)
        if delay:
            w.ctx.count("fault:queue_delay")
        # items of one process arrive in order
        due = max([w.steps + delay] + [x[0] for x in w.delivered if x[1] is self and x[3] is w.current])
        w.delivered.append((due, self, data, w.current))
        w.switch()

    def get(self, block=True, timeout=None):
        w = self.w
        if not block:
            timeout = 0
        if not w.block(lambda: len(self.items) > 0, timeout):
            raise _queue.Empty
        self.space += 1
        return pickle.loads(self.items.pop(0))

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        self.w.switch()
        return not self.items

    def full(self):
        self.w.switch()
        return self.space <= 0

    def qsize(self):
        return len(self.items)

    def close(self):
        self.closed = True

    def join_thread(self):
        pass

    cancel_join_thread = join_thread


class SimpleQueue(Queue):
    def __init__(self, **kw):
        Queue.__init__(self)


class Event:
    def __init__(self, **kw):
        self.w = WORLD
        self.flag = False

    def is_set(self):
        self.w.switch()
        return self.flag

    def set(self):
        self.w.switch()
        self.flag = True
        self.w.switch()

    def clear(self):
        self.w.switch()
        self.flag = False
        self.w.switch()

    def wait(self, timeout=None):
        return self.w.block(lambda: self.flag, timeout)


class Semaphore:
    def __init__(self, value=1, **kw):
        self.w = WORLD
        self.v = value

    def acquire(self, block=True, timeout=None):
        if not self.w.block(lambda: self.v > 0, timeout if block else 0):
            return False
        self.v -= 1
        return True

    def release(self):
        self.v += 1
        self.w.switch()

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class Lock(Semaphore):
    def __init__(self, **kw):
        Semaphore.__init__(self, 1)


# ------------------------------------------------------------------ joblib
class WorkerDied(RuntimeError):
    pass


class Parallel:
    def __init__(self, n_jobs=None, **kw):
        self.n_jobs = n_jobs

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, tasks):
        tasks = list(tasks)
        w = WORLD
        if self.n_jobs in (None, 1) or w is None:
            return [f(*a, **k) for f, a, k in tasks]
        n = len(tasks)
        ctx = w.ctx
        order = list(range(n))
        # the order in which the tasks are started and finished by the workers
        for i in range(n - 1):
            j = i + ctx.choose(n - i)
            order[i], order[j] = order[j], order[i]
        res = [None] * n
        err = None
        for i in order:
            w.steps += 1
            ctx.count("steps")
            if w.kill_prob and ctx.choose(1000, 1 - w.kill_prob):
                ctx.count("fault:process_killed")
                w.killed += 1
                raise WorkerDied("A worker process managed by the executor was unexpectedly terminated.")
            f, a, k = tasks[i]
            try:
                res[i] = isolated(f(*isolated(a), **{x: isolated(y) for x, y in k.items()}))
            except Exception as e:
                err = e
                break
        ctx.count("parallel_tasks", n)
        if err is not None:
            raise err
        return res


def install():
    """Before quspin is imported."""
    import multiprocessing
    import multiprocessing.queues
    import joblib
    for m in (multiprocessing,):
        m.Process, m.Queue, m.Event, m.Lock, m.Semaphore, m.SimpleQueue, m.JoinableQueue = Process, Queue, Event, Lock, Semaphore, SimpleQueue, Queue
        m.RLock = Lock
        m.BoundedSemaphore = Semaphore
    joblib.Parallel = Parallel
