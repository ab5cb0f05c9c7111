"""deterministic interleaving of real threads running the real code: one runs at a time, and may be preempted at every bytecode of it

Used only to replay schedules (the proofs use interference at lock acquisitions and unprotected reads)."""
import _thread
import os
import sys
import threading

REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock
ACTIVE = None


class DeadlockFound(Exception):
    pass


class SchedLock(object):
    """a lock the scheduler knows about"""
    re = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = ACTIVE
        if s is not None and me in s.ids:
            s.point()
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking:
                return False
            if s is None or me not in s.ids:
                raise DeadlockFound('waits for a lock nobody will release')
            if timeout is not None and timeout >= 0:
                return False
            s.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SchedRLock(SchedLock):
    re = True

    def _is_owned(self):
        return self.owner == _thread.get_ident()


class Sched(object):
    def __init__(self, rng, fns, where):
        self.rng = rng
        self.p = rng.choice([0.01, 0.03, 0.1, 0.3])
        self.fns = fns
        self.where = where
        self.ids = {}
        self.sems = []
        self.waiting = {}       # index -> lock it is blocked on
        self.done = set()
        self.errors = []
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.steps = 0
        self.dead = False

    def go(self):
        global ACTIVE
        started = _thread.allocate_lock()
        for i, f in enumerate(self.fns):
            l = _thread.allocate_lock()
            l.acquire()
            self.sems.append(l)
        for i, f in enumerate(self.fns):
            started.acquire()
            t = threading.Thread(target=self.body, args=(i, f, started), daemon=True)
            t.start()
            started.acquire()
            started.release()
        ACTIVE = self
        try:
            self.hand(self.rng.randrange(len(self.fns)))
            self.main.acquire()
        finally:
            ACTIVE = None
        if self.errors:
            raise self.errors[0]

    def body(self, i, f, started):
        self.ids[_thread.get_ident()] = i
        started.release()
        self.sems[i].acquire()
        try:
            sys.settrace(self.trace)
            try:
                f()
            finally:
                sys.settrace(None)
        except BaseException as e:    # noqa: B902
            self.errors.append(e)
        self.done.add(i)
        r = self.runnable()
        if self.dead:
            return
        if r:
            self.hand(self.rng.choice(r))
        else:
            if len(self.done) < len(self.fns):
                self.errors.append(DeadlockFound('the remaining threads wait for locks nobody will release'))
            self.main.release()

    def runnable(self):
        return [i for i in range(len(self.fns)) if i not in self.done and
                not (i in self.waiting and self.waiting[i].owner is not None)]

    def hand(self, i):
        self.waiting.pop(i, None)
        self.sems[i].release()

    def me(self):
        return self.ids[_thread.get_ident()]

    def switch(self, me, r):
        n = self.rng.choice(r)
        if n == me:
            self.waiting.pop(me, None)
            return
        self.hand(n)
        self.sems[me].acquire()

    def point(self):
        if ACTIVE is not self:
            return
        self.steps += 1
        if self.rng.random() < self.p:
            self.switch(self.me(), self.runnable())

    def block(self, lock):
        me = self.me()
        self.waiting[me] = lock
        r = self.runnable()
        if not r:
            self.dead = True
            self.errors.append(DeadlockFound('all threads wait for locks'))
            self.main.release()
            _thread.exit()
        self.switch(me, r)

    def trace(self, frame, event, arg):
        if not os.path.abspath(frame.f_code.co_filename).startswith(self.where):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'opcode':
            self.point()
        return self.local


def run(rng, fns, where):
    Sched(rng, fns, os.path.abspath(where)).go()
