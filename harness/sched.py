"""Runs threads one at a time; who runs is decided at every line of the traced files, at every lock and at every wait."""

import sys
import threading
import types

RealThread, RealLock = threading.Thread, threading.Lock


class Kill(BaseException):
    """Ends a managed thread whose execution is over."""


class Busy(Exception):
    """What is sampled is locked."""


class Managed:
    def __init__(self, tid):
        self.tid = tid
        self.sem = threading.Semaphore(0)
        self.cond = None       # what it waits for
        self.timed = False     # it may stop waiting
        self.done = False
        self.ident = None


class Sched:
    now = None                 # the scheduler of the current execution

    def __init__(self, files, preempt, rng, limit=20000):
        self.files, self.preempt, self.rng, self.limit = files, preempt, rng, limit
        self.threads = []
        self.cur = None
        self.main = threading.Semaphore(0)
        self.steps = 0
        self.streak = 0
        self.over = None       # why the execution has ended
        self.sample = lambda: None
        self.ids = {}
        self.timeouts = 0
        self.hold = False      # nobody else runs: something is sampled

    # ---------------------------------------------------------------- who runs
    def me(self):
        return self.ids.get(threading.get_ident())

    def enabled(self):
        return [t for t in self.threads if not t.done and (t.cond is None or t.cond())]

    def stop(self, why):
        self.over = self.over or why
        self.main.release()

    def switch(self, to=None):
        """Gives control to another thread (or the same one)."""
        me = self.me()
        if self.over:
            raise Kill
        en = self.enabled()
        if not en:
            late = [t for t in self.threads if not t.done and t.timed]
            if late and self.timeouts < 6:
                self.timeouts += 1
                t = late[0]
                t.cond = None
                t.expired = True
                en = [t]
            else:
                self.stop("rest")
                if me is None or me.done:
                    return
                me.sem.acquire()
                if self.over:
                    raise Kill
                return
        nxt = to if to in en else self.rng.choice(en)
        self.streak = 0
        self.cur = nxt
        if nxt is me:
            return
        nxt.sem.release()
        if me is not None and not me.done:
            me.sem.acquire()
            if self.over:
                raise Kill

    def point(self):
        me = self.me()
        if me is None or self.hold:
            return
        if self.over:
            raise Kill
        self.sample()
        self.steps += 1
        self.streak += 1
        if self.steps > self.limit:
            self.stop("endless")
            raise Kill
        if self.steps in self.preempt or self.streak > 3000:
            others = [t for t in self.enabled() if t is not me]
            if others:
                self.switch(self.rng.choice(others))
                self.sample()

    def wait(self, cond, timed=False):
        me = self.me()
        self.point()
        me.expired = False
        while not cond():
            me.cond, me.timed = cond, timed
            try:
                self.switch()
            finally:
                me.cond, me.timed = None, False
            if timed and me.expired:
                return False
        return True

    def others(self):
        """Something is polled: let others run."""
        me = self.me()
        o = [t for t in self.enabled() if t is not me]
        if o:
            self.switch(self.rng.choice(o))

    # ---------------------------------------------------------------- threads
    def spawn(self, tid, fn):
        t = Managed(tid)

        def local(frame, event, arg):
            if event == "line":
                self.point()
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename in self.files else None

        def body():
            self.ids[threading.get_ident()] = t
            t.sem.acquire()
            try:
                if not self.over:
                    if self.files:
                        sys.settrace(trace)
                    try:
                        fn()
                    finally:
                        sys.settrace(None)
                        self.sample()
            except Kill:
                pass
            t.done = True
            self.ids.pop(threading.get_ident(), None)
            if not self.over:
                try:
                    self.switch()
                except Kill:
                    pass

        t.real = RealThread(target=body, daemon=True)
        self.threads.append(t)
        t.real.start()
        return t

    def run(self, timeout=20):
        """Until nobody can go on. False: something blocked outside of the scheduler."""
        self.over = None
        self.timeouts = 0
        en = self.enabled()
        if not en:
            self.over = "rest"
            return True
        self.cur = self.rng.choice(en)
        self.cur.sem.release()
        return self.main.acquire(timeout=timeout)

    def resume(self):
        self.over = None
        self.main = threading.Semaphore(0)

    def kill(self):
        self.over = "killed"
        for t in self.threads:
            if not t.done:
                t.sem.release()
        for t in self.threads:
            t.real.join(2)


# -------------------------------------------------------------------- stand-ins for threading
class Lock:
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.now
        me = s.me() if s else None
        who = me or "outside"
        if me is not None and not (self.reentrant and self.owner is me):
            s.point()
            if self.owner is not None:
                if s.hold:
                    raise Busy
                if not blocking:
                    return False
                if not s.wait(lambda: self.owner is None, timed=timeout > 0):
                    return False
        self.owner = who
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s = Sched.now
            if s and s.me() and not s.over:
                s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    reentrant = True


class Thread:
    count = 0
    started = None      # called with (tid, done) of tick threads

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.t = None
        self.daemon = daemon
        self.name = name or "managed"

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        if self.t is not None:
            raise RuntimeError("threads can only be started once")
        s = Sched.now
        s.count += 1
        tid = 9 + s.count

        def body():
            try:
                self.run()
            except Exception as x:
                s.uncaught = repr(x)
            s.note({"e": "exit", "t": tid})
        self.t = s.spawn(tid, body)
        s.point()

    @property
    def ident(self):
        return None if self.t is None else id(self.t)

    def is_alive(self):
        alive = self.t is not None and not self.t.done
        s = Sched.now
        if alive and s.me() and s.me() is not self.t:
            s.others()
            alive = not self.t.done
        return alive

    def join(self, timeout=None):
        if self.t is None:
            raise RuntimeError("cannot join thread before it is started")
        s = Sched.now
        if s.me() is self.t:
            raise RuntimeError("cannot join current thread")
        s.wait(lambda: self.t.done, timed=timeout is not None)


class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        Sched.now.wait(lambda: self.flag, timed=timeout is not None)
        return self.flag


NAMES = {"Lock": Lock, "RLock": RLock, "Thread": Thread, "Event": Event}


def install(*modules):
    fake = types.ModuleType("threading")
    fake.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith("__")})
    fake.__dict__.update(NAMES)
    for m in modules:
        for k, v in NAMES.items():
            if k in m.__dict__:
                setattr(m, k, v)
        if m.__dict__.get("threading") is threading:
            m.threading = fake
