"""A controlled scheduler: threads of the code under test run as greenlets.

threading and queue are replaced while a run lasts, so that every operation on
them (and every extra point the driver announces) asks the scheduler who goes
next.  explore() enumerates all choices depth first; a state is the sequence of
operations and results each thread has seen (plus what the driver adds), and a
state already expanded is not expanded again.
"""

import collections
import concurrent.futures.thread  # noqa: makes locks when imported
import queue as real_queue
import sys
import threading as real_threading
import time as real_time

import greenlet


class Pruned(BaseException):
    pass


class Killed(BaseException):
    pass


class Deadlock(Exception):
    pass


class Livelock(Exception):
    pass


class Sched:
    """One execution under a prefix of choices."""

    MAX_OPS = 20000
    EARLY = 2       # waits that may run out while others could still go on

    def __init__(self, prefix=(), visited=None, extra_key=None):
        self.prefix = list(prefix)
        self.visited = visited
        self.extra_key = extra_key
        self.policy = None         # index into the threads ready, or prefix
        self.taken = []
        self.alternatives = []     # prefixes still to run
        self.threads = []
        self.current = None
        self.nops = 0
        self.early = 0
        self.new_states = 0
        self.killing = False

    # -- called by threads ------------------------------------------------
    def op(self, name, enabled=None, timeout=False):
        """Lets the scheduler choose; returns False if a timeout fired."""
        me = self.current
        if me is None:
            return True
        if self.killing:
            raise Killed()
        me.waiting = (name, enabled, timeout)
        fired = self.hub.switch()
        if self.killing:
            raise Killed()
        me.waiting = None
        me.log.append((name, fired))
        return fired

    def note(self, result):
        """Adds a result to what the running thread has seen."""
        if self.current is not None:
            self.current.log.append(result)

    def spawn(self, fn, name="t", daemon=False):
        t = Task(self, fn, name, len(self.threads))
        t.daemon = daemon
        self.threads.append(t)
        return t

    # -- the hub -----------------------------------------------------------
    def run(self, main):
        self.hub = greenlet.getcurrent()
        root = self.spawn(main, "main")
        try:
            self._loop(root)
        finally:
            self.killing = True
            for t in self.threads:
                while not t.done:
                    self.current = t
                    try:
                        t.g.switch(False)
                    except BaseException:
                        break
                    if t.done or not t.g:
                        break
            self.current = None
        if root.error is not None:
            raise root.error.with_traceback(root.tb)
        return root.result

    def _loop(self, root):
        last = root
        # The process ends when all threads but daemons have.
        while any(not t.done and not t.daemon for t in self.threads):
            self.nops += 1
            if self.nops > self.MAX_OPS:
                raise Livelock("no end after %d operations" % self.MAX_OPS)
            ready, late = [], []
            for t in self.threads:
                if t.done:
                    continue
                w = t.waiting
                if w is None or w[1] is None or w[1]():
                    ready.append(t)
                elif w[2]:
                    late.append(t)
            if not ready:
                # Time passes when nobody can do anything.
                if not late:
                    raise Deadlock(("after the end: " if root.done else "") +
                                   "; ".join(
                        "%s waits in %s" % (t.name, t.waiting[0])
                        for t in self.threads if not t.done))
                ready, late, fires = late, [], late
            else:
                # Work may also take longer than others are ready to wait.
                fires = late if self.early < self.EARLY else []
            # Default: go on with the same thread.
            if last in ready:
                ready.remove(last)
                ready.insert(0, last)
            slow = [t for t in fires if t not in ready]
            if len(ready) + len(slow) > 1:
                ready = [ready[0]] + sorted(ready[1:], key=lambda t: t.index)
                ready += slow
                n = len(self.taken)
                if self.policy is not None:
                    c = self.policy(ready)
                elif n < len(self.prefix):
                    c = min(self.prefix[n], len(ready) - 1)
                else:
                    if self.visited is not None:
                        key = self._key(last)
                        if key in self.visited:
                            raise Pruned()
                        self.visited.add(key)
                        self.new_states += 1
                    c = 0
                    for alt in range(1, len(ready)):
                        self.alternatives.append(self.taken + [alt])
                self.taken.append(c)
                last = ready[c]
            else:
                last = ready[0]
            if last in slow:
                self.early += 1
            self.current = last
            last.g.switch(last not in fires)
            self.current = None

    def _key(self, last):
        return (last.index, tuple(
            (t.done, t.waiting and t.waiting[0], tuple(t.log))
            for t in self.threads),
            self.extra_key() if self.extra_key else None)


class Task:
    def __init__(self, sched, fn, name, index):
        self.sched = sched
        self.name = name
        self.index = index
        self.waiting = None
        self.log = []
        self.done = False
        self.error = None
        self.tb = None
        self.result = None

        def body(*_):
            try:
                if not sched.killing:
                    self.result = fn()
            except (Killed, greenlet.GreenletExit):
                pass
            except BaseException as e:
                self.error = e
                self.tb = sys.exc_info()[2]
            self.done = True

        self.g = greenlet.greenlet(body, parent=greenlet.getcurrent()
                                   if index == 0 else sched.hub)


# --- stand-ins ------------------------------------------------------------

_active = Sched()     # one in which nobody runs: no operation waits


def active():
    return _active


def point(name):
    """A scheduling point announced by the driver."""
    if _active is not None:
        _active.op(name)


class FakeThread:
    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, *, daemon=None):
        self._target, self._args = target, args
        self._kwargs = kwargs or {}
        self.name = name or "thread"
        self.daemon = bool(daemon)
        self._task = None

    def setDaemon(self, d):
        self.daemon = d

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._task is not None:
            raise RuntimeError("threads can only be started once")
        self._task = _active.spawn(self.run, self.name, self.daemon)

    def is_alive(self):
        return self._task is not None and not self._task.done

    def join(self, timeout=None):
        if self._task is None:
            raise RuntimeError("cannot join thread before it is started")
        _active.op("join", lambda: self._task.done, timeout is not None)

    @property
    def ident(self):
        return self._task and self._task.index + 1000


class FakeTimer(FakeThread):
    def __init__(self, interval, function, args=(), kwargs=None):
        super().__init__(target=function, args=args, kwargs=kwargs)

    def cancel(self):
        pass


class FakeLock:
    _reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = s.current
        if self._reentrant and self.owner is me and me is not None:
            self.depth += 1
            return True
        if not blocking:
            s.op("try-lock")
            if self.owner is not None:
                return False
        elif not s.op("lock", lambda: self.owner is None, timeout >= 0):
            return False
        self.owner = me or self
        self.depth = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class FakeRLock(FakeLock):
    _reentrant = True


class FakeCondition:
    def __init__(self, lock=None):
        self.lock = lock or FakeRLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        token = [False]
        self.waiters.append(token)
        depth, self.lock.depth = self.lock.depth, 0
        self.lock.owner = None
        ok = _active.op("wait", lambda: token[0] and self.lock.owner is None,
                        timeout is not None)
        if not ok:
            if token in self.waiters:
                self.waiters.remove(token)
            _active.op("relock", lambda: self.lock.owner is None)
        self.lock.owner = _active.current or self
        self.lock.depth = depth
        return ok

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout):
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        for token in self.waiters[:n]:
            token[0] = True
            self.waiters.remove(token)

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class FakeEvent:
    def __init__(self):
        self._set = False

    def is_set(self):
        if _active:
            _active.op("is_set")
            _active.note(self._set)
        return self._set

    isSet = is_set

    def set(self):
        if _active:
            _active.op("set")
        self._set = True

    def clear(self):
        self._set = False

    def wait(self, timeout=None):
        return _active.op("event", lambda: self._set, timeout is not None)


class FakeSemaphore:
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking:
            _active.op("try-sem")
            if self.value <= 0:
                return False
        elif not _active.op("sem", lambda: self.value > 0,
                            timeout is not None):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class FakeQueue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.items = collections.deque()
        self.unfinished = 0

    def _pop(self):
        return self.items.popleft()

    def qsize(self):
        _active.op("qsize")
        _active.note(len(self.items))
        return len(self.items)

    def empty(self):
        return self.qsize() == 0

    def full(self):
        return 0 < self.maxsize <= self.qsize()

    def _room(self):
        return self.maxsize <= 0 or len(self.items) < self.maxsize

    def put(self, item, block=True, timeout=None):
        if not block:
            _active.op("put?")
            if not self._room():
                _active.note("full")
                raise real_queue.Full
        elif not _active.op("put", self._room, timeout is not None):
            raise real_queue.Full
        me = _active.current
        self.items.append((item, me and (me.index, len(me.log))))
        self.unfinished += 1

    def put_nowait(self, item):
        self.put(item, False)

    def get(self, block=True, timeout=None):
        if not block:
            _active.op("get?")
            if not self.items:
                _active.note("empty")
                raise real_queue.Empty
        elif not _active.op("get", lambda: bool(self.items),
                            timeout is not None):
            raise real_queue.Empty
        item, origin = self._pop()
        _active.note(origin)
        return item

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        if self.unfinished <= 0:
            raise ValueError("task_done() called too many times")
        self.unfinished -= 1

    def join(self):
        _active.op("qjoin", lambda: not self.unfinished)


class FakeLifo(FakeQueue):
    def _pop(self):
        return self.items.pop()


class FakePriority(FakeQueue):
    def _pop(self):
        x = min(self.items, key=lambda y: y[0])
        self.items.remove(x)
        return x


def fake_sleep(secs):
    if _active is None or _active.current is None:
        return _sleep(secs)
    # Sleeping ends at any time (see EARLY).
    _active.op("sleep", lambda: False, True)


_sleep = real_time.sleep
_PATCH = [
    (real_threading, "Thread", FakeThread),
    (real_threading, "Timer", FakeTimer),
    (real_threading, "Lock", FakeLock),
    (real_threading, "RLock", FakeRLock),
    (real_threading, "Condition", FakeCondition),
    (real_threading, "Event", FakeEvent),
    (real_threading, "Semaphore", FakeSemaphore),
    (real_threading, "BoundedSemaphore", FakeSemaphore),
    (real_queue, "Queue", FakeQueue),
    (real_queue, "SimpleQueue", FakeQueue),
    (real_queue, "LifoQueue", FakeLifo),
    (real_queue, "PriorityQueue", FakePriority),
    (real_time, "sleep", fake_sleep),
]


class Patched:
    """While entered, new threads, locks and queues are the stand-ins.

    Names that modules imported directly are replaced as well.
    """

    def __init__(self, sched, modules=()):
        self.sched = sched
        self.modules = modules

    def __enter__(self):
        global _active
        self.saved = []
        fakes = {}
        for mod, name, fake in _PATCH:
            fakes[id(getattr(mod, name))] = fake
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, fake)
        for mod in self.modules:
            for name, val in list(vars(mod).items()):
                if id(val) in fakes:
                    self.saved.append((mod, name, val))
                    setattr(mod, name, fakes[id(val)])
        _active = self.sched
        return self

    def __exit__(self, *a):
        global _active
        _active = Sched()
        for mod, name, val in reversed(self.saved):
            setattr(mod, name, val)


def explore(execute, limit=None, extra_key=None, modules=(), seconds=None):
    """Runs execute(sched) under every schedule.

    With seconds, what is not explored in that time is left out, and
    stats["complete"] says so.

    execute runs the program inside Patched and judges it; it returns a
    violation text or None.  Yields (schedule, text) and finally returns
    counts through the dict given by .stats.
    """
    stats = dict(schedules=0, pruned=0, states=0, ops=0, complete=True)
    end = real_time.monotonic() + (seconds or 0)
    visited = set()
    todo = [[]]
    found = []
    while todo:
        if limit and stats["schedules"] + stats["pruned"] >= limit:
            stats["complete"] = False
            break
        if seconds and real_time.monotonic() > end:
            stats["complete"] = False
            break
        prefix = todo.pop()
        s = Sched(prefix, visited, extra_key)
        try:
            text = execute(s)
            stats["schedules"] += 1
        except Pruned:
            stats["pruned"] += 1
            text = None
        stats["ops"] += s.nops
        stats["states"] += s.new_states
        todo.extend(s.alternatives)
        if text:
            found.append((list(s.taken), text))
            if len(found) >= 3:
                stats["complete"] = False
                break
    return found, stats
