"""Deterministic scheduling of real threads.

Only one thread runs at a time. Threads may be exchanged before every line of library code
and around every use of a lock of the library; where this happens is decided by the schedule:
an order of the threads and a list of switches [point, thread]. Locks that the library creates are
replaced by ones known to the scheduler, so deadlocks are found without any timeout.
"""

import _thread
import sys
import threading
import types

from . import boot
from .engine import HarnessError, fail

MAX_POINTS = 100000
_real_rlock = threading.RLock
_real_lock = threading.Lock
_active = None
TOOL = 4


class Abort(BaseException):
    """Unwinds threads that cannot go on."""


def current_task():
    """The scheduled thread that calls this. Identifiers of threads are reused, tasks are not."""
    return _active.by_ident.get(_thread.get_ident()) if _active is not None else None


class SchedLock:
    """A lock, reentrant or not, whose waiting is organized by the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def available(self, me):
        return self.count == 0 or (self.reentrant and self.owner == me)

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        t = current_task()
        me = t or _thread.get_ident()
        if t is not None:
            s.point(t, "lock")
        if not self.available(me):
            if t is None:
                if not blocking or timeout >= 0:
                    return False
                fail("a lock is still held by a thread that has finished its operations")
            if s.aborted:
                return True
            if not blocking or timeout >= 0:
                s.give_way(t)
                if not self.available(me):
                    return False
            else:
                s.wait_for(t, self)
        self.owner = me
        self.count += 1
        if t is not None and self.count == 1:
            s.acquired.append(s.points)
        return True

    __enter__ = acquire

    def release(self):
        s = _active
        t = current_task()
        me = t or _thread.get_ident()
        if self.count == 0 or (self.reentrant and self.owner != me):
            if s is not None and s.aborted:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if t is not None:
            s.point(t, "unlock")

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self.count > 0

    # Used by conditions.
    def _is_owned(self):
        return self.count > 0 and self.owner == (current_task() or _thread.get_ident())

    def _release_save(self):
        count, self.count = self.count, 1
        self.release()
        return count

    def _acquire_restore(self, count):
        self.acquire()
        self.count = count


def _from_library(depth=2):
    f = sys._getframe(depth)
    for _ in range(4):
        if f is None:
            return False
        if boot.is_lib_file(f.f_code.co_filename):
            return True
        if f.f_code.co_filename != threading.__file__:
            return False
        f = f.f_back
    return False


def install():
    """Make the library use locks of the scheduler; imports the library anew."""

    def make(real, reentrant):
        def factory(*args):
            return SchedLock(reentrant) if _from_library() else real(*args)

        return factory

    threading.RLock = make(_real_rlock, True)
    threading.Lock = threading._allocate_lock = make(_real_lock, False)
    boot.reload()
    watch_lines()


def watch_lines():
    """Have every line of library code call the scheduler."""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "vp")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)

    def watch(code):
        mon.set_local_events(TOOL, code, mon.events.LINE)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                watch(c)

    for code in boot.codes():
        watch(code)


def _on_line(code, line):
    s = _active
    if s is not None:
        s.points += 1
        if s.points >= s.stop:
            s.attend(s.current)


class Task:
    def __init__(self, index, fn):
        self.index = index
        self.fn = fn
        self.go = _real_lock()
        self.go.acquire()
        self.waiting_for = None
        self.done = False
        self.done_at = 0
        self.ident = None
        self.result = None
        self.error = None
        self.unwinding = False


class Scheduler:
    def __init__(self, fns, order=None, switches=()):
        self.tasks = [Task(i, fn) for i, fn in enumerate(fns)]
        n = len(fns)
        order = [i % n for i in (order or [])]
        self.order = list(dict.fromkeys(order + list(range(n))))
        self.switches = sorted([p, t % n] for p, t in switches)
        self.next = 0
        self.points = 0
        self.by_ident = {}
        self.aborted = False
        self.deadlock = None
        self.overrun = False
        self.current = None
        self.finished = _real_lock()
        self.finished.acquire()
        self.exchanged = 0
        self.locks = []  # points at locks
        self.acquired = []  # points at which a thread got a lock it did not hold
        self.stop = 0
        self.set_stop()

    # Called by the thread that runs.

    def point(self, t, kind):
        """A point at a lock."""
        self.points += 1
        if not self.aborted:
            self.locks.append(self.points)
        if self.points >= self.stop:
            self.attend(t)

    def attend(self, t):
        """Something is to be done at this point."""
        if self.aborted:
            if not t.unwinding:
                t.unwinding = True
                raise Abort
            return
        if self.points > MAX_POINTS:
            self.overrun = True
            self.abort(t)
        target = self.tasks[self.switches[self.next][1]]
        self.next += 1
        self.set_stop()
        if target is t or not self.runnable(target):
            target = self.pick(t)
        if target is not None and target is not t:
            self.hand_over(t, target)

    def set_stop(self):
        self.stop = self.switches[self.next][0] if self.next < len(self.switches) else MAX_POINTS + 1

    def runnable(self, t):
        return not t.done and (t.waiting_for is None or t.waiting_for.available(t))

    def pick(self, t):
        """The next runnable thread in cyclic order after t."""
        k = self.order.index(t.index)
        for i in self.order[k + 1 :] + self.order[:k]:
            if self.runnable(self.tasks[i]):
                return self.tasks[i]
        return None

    def hand_over(self, t, target):
        self.exchanged += 1
        self.current = target
        target.go.release()
        t.go.acquire()
        if self.aborted and not t.unwinding:
            t.unwinding = True
            raise Abort

    def give_way(self, t):
        target = self.pick(t)
        if target is not None:
            self.hand_over(t, target)

    def wait_for(self, t, lock):
        t.waiting_for = lock
        while not lock.available(t):
            target = self.pick(t)
            if target is None:
                self.deadlock = "; ".join(
                    f"thread {x.index} waits for a lock held by {self.owner(x.waiting_for)}"
                    for x in self.tasks
                    if not x.done
                )
                self.abort(t)
            self.hand_over(t, target)
        t.waiting_for = None

    def owner(self, lock):
        for x in self.tasks:
            if lock is not None and lock.owner is x:
                return f"thread {x.index}" + (", which has finished" if x.done else "")
        return "nobody" if lock is None or lock.count == 0 else "another thread"

    def abort(self, t):
        self.aborted = True
        self.stop = 0
        t.unwinding = True
        raise Abort

    # The threads.

    def body(self, t):
        t.go.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.aborted:
                t.result = t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        finally:
            t.done = True
            t.done_at = self.points
            t.waiting_for = None
            target = self.pick(t)
            if target is None and not self.aborted and not all(x.done for x in self.tasks):
                self.deadlock = "; ".join(
                    f"thread {x.index} waits for a lock held by {self.owner(x.waiting_for)}"
                    for x in self.tasks
                    if not x.done
                )
                self.aborted = True
                self.stop = 0
            if target is None and self.aborted:
                target = next((x for x in self.tasks if not x.done), None)
            if target is not None:
                self.current = target
                target.go.release()
            else:
                self.finished.release()

    def run(self):
        global _active
        if _active is not None:
            raise HarnessError("schedulers cannot be nested")
        threads = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in self.tasks]
        for th in threads:
            th.start()
        _active = self
        try:
            self.current = self.tasks[self.order[0]]
            self.current.go.release()
            if not self.finished.acquire(timeout=120):
                raise HarnessError("threads did not finish")
            for th in threads:
                th.join()
        finally:
            _active = None
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        return [t.result for t in self.tasks]
