"""Caller threads of one simulated process, switched at source lines.

Only one thread runs; the baton passes at chosen line events of the code under
test (counted over all threads), so a schedule is a list of [line step, thread].
"""
import os
import sys
import threading
from . import sim as S


# a comprehension over one line: how many line events it gives depends on the
# interpreter's loop compiler, so they are not steps
COMPS = ('<listcomp>', '<setcomp>', '<dictcomp>')


_lock = threading.Lock
_rlock = threading.RLock


class CoopLock(object):
    """A lock of the code under test: a thread that has to wait passes the baton."""

    def __init__(self, again):
        self._again, self._owner, self._n = again, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self._again and self._owner == me):
            if not blocking:
                return False
            b = getattr(S._tls, 'baton', None)
            if b is None or not b[0]._pass(b[1]):
                raise S.StepLimit()         # nobody is left to release it
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None or (self._again and self._owner != threading.get_ident()):
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if not self._n:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def install():
    """Locks that ababe makes are cooperative."""
    prefix = os.path.join(S.REPO, 'ababe') + '/'

    def mk(real, again):
        def make():
            if sys._getframe(1).f_code.co_filename.startswith(prefix):
                return CoopLock(again)
            return real()
        return make
    threading.Lock = mk(_lock, False)
    threading.RLock = mk(_rlock, True)


class Baton(object):
    def __init__(self, proc, fns, switches, prefix, limit=3000000, boom=()):
        self.p = proc
        self.fns = fns
        self.sw = {}
        for s, t in switches:
            self.sw.setdefault(s, t)
        self.prefix = prefix
        self.step = self.raw = 0
        self.switched = 0
        self.boom = set(boom)
        self.boomed = 0
        self.limit = limit
        self.locks = [_lock() for _ in fns]
        for l in self.locks:
            l.acquire()
        self.done = [False] * len(fns)
        self.result = [None] * len(fns)
        self.error = [None] * len(fns)
        self.end = _lock()
        self.end.acquire()
        self.local = threading.local()

    def rearm(self):
        """Trace again after an exception came out of a line event."""
        sys.settrace(self.local.trace)

    def run(self):
        ts = [threading.Thread(target=self._main, args=(k,), daemon=True)
              for k in range(len(self.fns))]
        for t in ts:
            t.start()
        self.locks[0].release()
        self.end.acquire()

    def _main(self, k):
        self.locks[k].acquire()
        S._tls.proc = self.p
        S._tls.baton = (self, k)
        self.waits = 0
        me = k
        last = [None, None]

        def trace(frame, event, arg):
            if frame.f_code.co_name in COMPS or \
                    not frame.f_code.co_filename.startswith(self.prefix):
                return None
            return local

        def local(frame, event, arg):
            if event == 'line':
                # PyPy repeats the event of a loop's head or not, as its JIT pleases:
                # a line counts once however often it is announced in a row
                self.raw += 1
                if self.raw > self.limit * 4:
                    raise S.StepLimit()
                if last[0] is frame and last[1] == frame.f_lineno:
                    return local
                last[0], last[1] = frame, frame.f_lineno
                self.step += 1
                here = self.step
                if self.step > self.limit:
                    raise S.StepLimit()
                t = self.sw.get(self.step)
                if t is not None:
                    self._switch(me, t)
                if here in self.boom:
                    self.boom.discard(here)
                    self.boomed += 1
                    raise KeyboardInterrupt()
            return local
        self.local.trace = trace
        try:
            sys.settrace(trace)
            try:
                self.result[k] = self.fns[k]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.error[k] = e
        self.done[k] = True
        S._tls.proc = S._tls.baton = None
        left = [j for j in range(len(self.fns)) if not self.done[j]]
        if left:
            self.locks[left[0]].release()
        else:
            self.end.release()

    def _pass(self, me):
        """Let the next live thread run; False if there is none or all wait."""
        live = [j for j in range(len(self.fns)) if not self.done[j]]
        self.waits += 1
        if len(live) < 2 or self.waits > 20000:
            return False
        self._switch(me, live.index(me) + 1)
        return True

    def _switch(self, me, t):
        live = [j for j in range(len(self.fns)) if not self.done[j]]
        q = live[t % len(live)]
        if q != me:
            self.switched += 1
            self.locks[q].release()
            self.locks[me].acquire()
