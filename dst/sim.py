"""The simulator: simulated processes and every seam they reach the world by.

Import this module FIRST in a worker (before numpy, click, ababe ...): other
modules bind os/random/time functions at import and must bind the seams.

A simulated process (Proc) is a thread that only runs while it holds the
baton; the scheduler hands the baton over at *points* (file-system operations,
standard-output writes, symmetry-library calls) and only there. Everything is
a pure function of the scenario: the preemption list, the fault list, the
random streams.
"""
import sys
import os
import io
import builtins
import time
import threading
import random
import errno
import hashlib
import stat as statmod
import types

REPO = os.environ.get('VERIF_REPO', '/repo')

_real = {}          # name -> original function, for the machinery itself
_tls = threading.local()
ACTIVE = None       # the Sim now running, if any

TYPE_NP = None      # numpy, set by install_np()


class SimKill(BaseException):
    """The simulated process was killed; nothing it does has an effect."""


class StepLimit(BaseException):
    """The simulated process used up its step budget."""


class HarnessError(Exception):
    """A fault of the machinery, never of the code under test."""


# --------------------------------------------------------------------------
# random streams
# --------------------------------------------------------------------------
class Draws(object):
    """The random stream of one simulated process.

    epochs: [[start, length, [values in [0,1)]], ...]: draws whose index lies
    in [start, start+length) are taken from the small pool (low entropy), so
    names collide; outside the epochs the stream is a seeded generator.
    """

    def __init__(self, seed, epochs=()):
        self.n = 0
        self.low = 0
        self.base = RealRandom(seed)
        self.aux = RealRandom('aux%s' % seed)
        self.epochs = [list(e) for e in epochs or ()]
        self.reseeded = False

    def _low(self):
        i = self.n
        self.n += 1
        for start, length, pool in self.epochs:
            if start <= i < start + length:
                self.low += 1
                return pool[i % len(pool)] if len(pool) < 4 else \
                    pool[self.aux.randrange(len(pool))]
        return None

    def random(self):
        v = self._low()
        r = _R_random(self.base)
        return r if v is None else v

    def getrandbits(self, k):
        v = self._low()
        r = _R_getrandbits(self.base, k)
        return r if v is None else int(v * (1 << min(k, 1000))) >> 0

    def seed(self, a=None, version=2):
        if a is None:
            return
        self.reseeded = True
        _R_seed(self.base, a, version)

    def urandom(self, n):
        return bytes(_R_getrandbits(self.base, 8) for _ in range(n))


RealRandom = None
_R_random = _R_getrandbits = _R_seed = None


# --------------------------------------------------------------------------
# processes and the scheduler
# --------------------------------------------------------------------------
class Proc(object):
    def __init__(self, sim, index, name, target, draws=None, np_seed=0,
                 np_draws=None, argv=None, pid=None, faults=(), fdlimit=None,
                 short=None, stderr_fail=None, limit=60000):
        self.sim = sim
        self.index = index
        self.name = name
        self.target = target
        self.argv = argv or ['prog']
        self.pid = pid or (4000 + index)
        self.draws = draws or Draws(index)
        self.np_seed = np_seed
        self.np_draws = np_draws or []
        self._nprs = None
        self.npn = 0
        self.points = 0
        self.ops = []               # op of every point (for choosing faults)
        self.opinfo = []
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f['at'], f)
        self.sticky = None
        self.pending = {}           # path -> failure after a partial write
        self.fired = []
        self.fdlimit = fdlimit
        self.short = short          # (seed, probability) of cut transfers
        self.limit = limit
        self.stderr_fail = stderr_fail
        self.stderr_n = 0
        self.dead = False
        self.killed = False
        self.after_death = 0
        self.done = False
        self.hung = False
        self.status = None
        self.exc = None
        self.result = None
        self.handles = []           # every stream ever opened, strongly held
        self.fds = {}               # real fd -> [path, writable]
        self.nopen = 0
        self.maxopen = 0
        self.created = set()
        self.mutations = []         # (op, path)
        self.refused = []
        self.written = {}           # path -> bytes written since open
        self.out = bytearray()
        self.err = bytearray()
        self.mods = {}
        self.quiet = 0
        self.tempseq = None
        self.lock = threading.Lock()
        self.lock.acquire()
        self.stdout = io.TextIOWrapper(
            io.BufferedWriter(OutRaw(self, 'stdout', self.out), 8192),
            encoding='utf-8', newline='\n')
        self.stderr = ErrStream(self)

    @property
    def nprs(self):
        if self._nprs is None:
            self._nprs = TYPE_NP.random.mtrand.RandomState(self.np_seed)
        return self._nprs


class Sim(object):
    def __init__(self, root, preempt=(), clock_jumps=(), dt=0.0007, list_order=0,
                 monitor=None, trace_files=None):
        self.root = os.path.realpath(root)
        self.procs = []
        self.step = 0
        self.events = []
        self.hash = hashlib.sha1()
        self.preempt = {}
        for s, t in preempt:
            self.preempt.setdefault(s, t)
        self.clock = 1.6e9
        self.start_clock = self.clock
        self.sim_elapsed = 0.0
        self.dt = dt
        self.jumps = {}
        for s, d in clock_jumps:
            self.jumps[s] = d
        self.jumped = 0
        self.list_order = list_order
        self.monitor = monitor      # called before each mutating operation
        self.back = threading.Lock()
        self.back.acquire()
        self.switches = 0
        self.current = None
        self.steps_line = 0
        self.in_monitor = False

    # -- log ---------------------------------------------------------------
    def log(self, proc, op, what=''):
        line = '%d %s %s %s' % (self.step, proc.name if proc else '-', op, what)
        self.hash.update(line.encode('utf-8', 'replace') + b'\n')
        if len(self.events) < 4000:
            self.events.append(line)

    def rel(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return str(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(_real['getcwd'](), p))
        if p == self.root:
            return '.'
        if p.startswith(self.root + '/'):
            return p[len(self.root) + 1:]
        return p

    def inside(self, path):
        r = self.rel(path)
        return not os.path.isabs(r) and not r.startswith('..')

    # -- running -----------------------------------------------------------
    def spawn(self, name, target, **kw):
        p = Proc(self, len(self.procs), name, target, **kw)
        self.procs.append(p)
        return p

    def run(self, procs=None):
        """Run the given processes to their ends, one at a time on the baton."""
        global ACTIVE
        procs = procs if procs is not None else [p for p in self.procs if not p.done]
        if ACTIVE is not None:
            raise HarnessError('nested simulation')
        ACTIVE = self
        saved = (sys.stdout, sys.stderr, sys.argv, sys.stdin)
        try:
            for p in procs:
                p.thread = threading.Thread(target=self._main, args=(p,), daemon=True)
                p.thread.start()
            self.runnable = list(procs)
            self._resume(self.runnable[0])
            self.back.acquire()
        finally:
            ACTIVE = None
            self._swap_out()
            sys.stdout, sys.stderr, sys.argv, sys.stdin = saved
            _purge_mods()
        return procs

    def _swap_out(self):
        p = self.current
        if p is not None:
            p.mods = _take_mods()
        self.current = None

    def _resume(self, p):
        """Make p the current process and hand it the baton."""
        if self.current is not p:
            self._swap_out()
            _put_mods(p.mods)
            self.current = p
            sys.stdout = p.stdout
            sys.stderr = ERRPROXY
            sys.argv = p.argv
            sys.stdin = NOSTDIN
        p.lock.release()

    def _main(self, p):
        p.lock.acquire()
        _tls.proc = p
        try:
            try:
                p.result = p.target(p)
                if p.status is None:
                    p.status = 0
            except SimKill:
                p.status = 'killed'
            except StepLimit:
                p.status = 'hung'
                p.hung = True
            except SystemExit as e:
                c = e.code
                p.status = 0 if c is None else (c & 255 if isinstance(c, int) else 1)
            except KeyboardInterrupt as e:
                p.status, p.exc = 130, e
            except BaseException as e:        # an uncaught exception: traceback, 1
                p.status, p.exc = 1, e
            self._exit(p)
        except BaseException as e:            # pragma: no cover
            p.harness_error = e
        p.done = True
        _tls.proc = None
        if p in self.runnable:
            self.runnable.remove(p)
        self.log(p, 'exit', str(p.status))
        if self.runnable:
            nxt = self.runnable[0]
            self._resume(nxt)
        else:
            self.back.release()

    def _exit(self, p):
        """What the end of a process does to its open streams."""
        if p.killed or p.hung:
            p.dead = True
            if p.killed:
                p.status = 'killed'
        else:
            # a normal end: the interpreter flushes what is still buffered and
            # reports only a failing standard output
            try:
                p.stdout.flush()
            except SimKill:
                p.status = 'killed'
            except BaseException as e:
                if p.status == 0:
                    p.status, p.exc = 1, e
            for h in list(p.handles):
                try:
                    if not h.closed:
                        h.flush()
                except SimKill:
                    p.status = 'killed'
                    break
                except BaseException:
                    pass
            if p.killed:
                p.status = 'killed'
            p.dead = True
        for fd in list(p.fds):
            try:
                _real['close'](fd)
            except OSError:
                pass
        p.fds.clear()

    # -- points ------------------------------------------------------------
    def yield_point(self, p):
        """One schedule point: maybe pass the baton on, then count the step."""
        self.step += 1
        self.clock += self.dt
        self.sim_elapsed += self.dt
        j = self.jumps.get(self.step)
        if j is not None:
            self.clock += j
            self.jumped += 1
            self.log(None, 'clock', '%+g' % j)
        t = self.preempt.get(self.step)
        if t is not None and len(self.runnable) > 1:
            q = self.runnable[t % len(self.runnable)]
            if q is not p:
                self.switches += 1
                self.log(p, 'switch', q.name)
                self._resume(q)
                p.lock.acquire()

    def point(self, p, op, path='', faultable=True):
        """Pass point `op`; return the fault to apply (None: proceed)."""
        if p.dead or p.killed:
            p.after_death += 1
            if p.after_death > 2000:
                self._park(p)
            raise SimKill()
        self.yield_point(p)
        if p.dead or p.killed:
            raise SimKill()
        idx = p.points
        p.points += 1
        if idx > p.limit:
            p.hung = True
            p.dead = True
            if idx > p.limit + 2000:
                self._park(p)
            raise StepLimit()
        p.ops.append(op)
        p.opinfo.append(path)
        self.log(p, op, path)
        f = p.faults.get(idx)
        if f is None and p.sticky is not None and faultable:
            left, kind, ops = p.sticky
            if op in ops:
                if left <= 0:
                    p.sticky = None
                else:
                    p.sticky[0] -= 1
                    return {'kind': kind, 'at': idx, 'sticky_hit': True}
        if f is None:
            return None
        k = f['kind']
        if k == 'kill':
            p.fired.append(('kill', op))
            p.killed = True
            self.log(p, 'KILLED', '')
            raise SimKill()
        if k == 'intr':
            p.fired.append(('intr', op))
            self.log(p, 'SIGINT', '')
            raise KeyboardInterrupt()
        if k == 'mem':
            p.fired.append(('mem', op))
            self.log(p, 'MEMORY', '')
            raise MemoryError('simulated')
        if not faultable:
            return None
        if f.get('sticky') and k in ERRNOS:
            p.sticky = [f['sticky'], k, tuple(f.get('ops') or STICKY_OPS.get(k, ALL_OPS))]
        return f

    def _park(self, p):
        """A dead process that will not end: take the baton away for good."""
        p.done = True
        if p in self.runnable:
            self.runnable.remove(p)
        if p.status is None:
            p.status = 'killed' if p.killed else 'hung'
        self.log(p, 'exit', str(p.status))
        for fd in list(p.fds):
            try:
                _real['close'](fd)
            except OSError:
                pass
        p.fds.clear()
        if self.runnable:
            self._resume(self.runnable[0])
        else:
            self.back.release()
        dead = threading.Lock()
        dead.acquire()
        dead.acquire()


ERRNOS = dict(ENOSPC=errno.ENOSPC, EIO=errno.EIO, EACCES=errno.EACCES,
              EMFILE=errno.EMFILE, EDQUOT=errno.EDQUOT, EPIPE=errno.EPIPE,
              EROFS=errno.EROFS, ENFILE=errno.ENFILE, EBUSY=errno.EBUSY)
ALL_OPS = ('open-r', 'open-w', 'write', 'close', 'mkdir', 'unlink', 'rmdir',
           'rename', 'read', 'scandir', 'stdout', 'fsync')
STICKY_OPS = dict(ENOSPC=('open-w', 'write', 'mkdir', 'rename', 'fsync'),
                  EDQUOT=('open-w', 'write', 'mkdir', 'rename', 'fsync'),
                  EROFS=('open-w', 'write', 'mkdir', 'rename', 'unlink', 'rmdir'),
                  EMFILE=('open-r', 'open-w', 'scandir'),
                  ENFILE=('open-r', 'open-w', 'scandir'),
                  EPIPE=('stdout',))


def pending(p, key, op, path):
    """The failure that follows a partial transfer."""
    q = p.pending.get(key)
    if q:
        q[0] -= 1
        if q[0] <= 0:
            del p.pending[key]
        fail(p, q[1], op, path)


def fail(p, f, op, path=None):
    kind = f['kind']
    no = ERRNOS.get(kind, errno.EIO)
    p.fired.append((kind, op))
    p.sim.log(p, 'FAULT', kind)
    raise OSError(no, os.strerror(no) + ' (simulated)', path)


def cur():
    """The simulated process this call belongs to (None: the machinery)."""
    p = getattr(_tls, 'proc', None)
    if p is None or p.quiet or ACTIVE is None or ACTIVE.in_monitor:
        return None
    return p


def passive(p):
    class _Q(object):
        def __enter__(s):
            p.quiet += 1

        def __exit__(s, *a):
            p.quiet -= 1
    return _Q()


# --------------------------------------------------------------------------
# fresh modules per process
# --------------------------------------------------------------------------
def _take_mods():
    m = {k: v for k, v in list(sys.modules.items())
         if k == 'ababe' or k.startswith('ababe.')}
    for k in m:
        del sys.modules[k]
    return m


def _purge_mods():
    _take_mods()


def _put_mods(m):
    sys.modules.update(m)


class _Loader(object):
    codes = {}

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = self.codes.get(self.path)
        if code is None:
            with _real['open'](self.path, 'rb') as f:
                src = f.read()
            code = compile(src, self.path, 'exec', dont_inherit=True)
            self.codes[self.path] = code
        p = getattr(_tls, 'proc', None)
        if p is not None:
            p.quiet += 1
        try:
            exec(code, module.__dict__)
        finally:
            if p is not None:
                p.quiet -= 1


class _Finder(object):
    """Loads ababe from REPO's working tree, always from source, compiled once."""

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name != 'ababe' and not name.startswith('ababe.'):
            return None
        from importlib.machinery import ModuleSpec
        base = os.path.join(REPO, *name.split('.'))
        init = os.path.join(base, '__init__.py')
        if _real_isfile(init):
            spec = ModuleSpec(name, _Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
        elif _real_isfile(base + '.py'):
            spec = ModuleSpec(name, _Loader(base + '.py'), origin=base + '.py')
        elif _real_isdir(base):
            spec = ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        else:
            return None
        spec.has_location = True
        return spec

    @classmethod
    def find_module(cls, name, path=None):
        return None


def _real_isfile(p):
    try:
        return statmod.S_ISREG(_real['stat'](p).st_mode)
    except OSError:
        return False


def _real_isdir(p):
    try:
        return statmod.S_ISDIR(_real['stat'](p).st_mode)
    except OSError:
        return False


# --------------------------------------------------------------------------
# streams
# --------------------------------------------------------------------------
class OutRaw(io.RawIOBase):
    """Standard output of a simulated process."""

    def __init__(self, proc, op, sink):
        self.p, self.op, self.sink = proc, op, sink

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def write(self, b):
        data = bytes(b)
        p = self.p
        if p.done:
            return len(data)
        f = p.sim.point(p, self.op, str(len(data)))
        if f is not None:
            if f['kind'] == 'short' and len(data) > 1:
                k = max(1, int(len(data) * f.get('frac', 0.5)))
                p.fired.append(('short', self.op))
                self.sink += data[:k]
                return k
            if f['kind'] == 'partial':
                # a short transfer; the rest of the transfer fails
                k = int(len(data) * f.get('frac', 0.5))
                p.pending['stdout'] = [f.get('again', 2), dict(f, kind='ENOSPC')]
                if k:
                    p.fired.append(('short', self.op))
                    self.sink += data[:k]
                    return k
            if f['kind'] in ERRNOS:
                fail(p, f, self.op)
        pending(p, 'stdout', self.op + '-partial', None)
        self.sink += data
        return len(data)


class ErrStream(object):
    """Standard error of a simulated process: recorded, optionally failing."""
    encoding = 'utf-8'
    errors = 'backslashreplace'
    closed = False

    def __init__(self, proc):
        self.p = proc

    def write(self, s):
        p = self.p
        if p.dead or p.killed:
            raise SimKill()
        p.stderr_n += 1
        if p.stderr_fail is not None and p.stderr_n > p.stderr_fail and not p.quiet:
            p.fired.append(('EIO', 'stderr'))
            raise OSError(errno.EIO, 'Input/output error (simulated)')
        if len(p.err) < 20000:
            p.err += str(s).encode('utf-8', 'replace')
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


class _ErrProxy(object):
    """Stands in for sys.stderr; goes to the current process."""
    encoding = 'utf-8'
    errors = 'backslashreplace'
    closed = False

    def write(self, s):
        p = getattr(_tls, 'proc', None)
        if p is None:
            return _real['stderr'].write(s)
        return p.stderr.write(s)

    def flush(self):
        if getattr(_tls, 'proc', None) is None:
            _real['stderr'].flush()

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


ERRPROXY = _ErrProxy()


class _NoStdin(io.RawIOBase):
    def readable(self):
        return True

    def readinto(self, b):
        return 0


NOSTDIN = io.TextIOWrapper(io.BufferedReader(_NoStdin()))


class FileRaw(io.RawIOBase):
    """A real descriptor in the scratch directory behind the simulated disk."""

    def __init__(self, proc, fd, path, readable, writable, append, closefd=True):
        self.p, self.fd, self.path = proc, fd, path
        self._r, self._w, self._a = readable, writable, append
        self.closefd = closefd
        self.name = path
        self._closed_fd = False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        return self.fd

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        p = self.p
        if p.dead:
            raise SimKill()
        if size is None:
            size = self.tell()
        _mutation(p, 'truncate', self.path)
        os.ftruncate(self.fd, size)
        return size

    def readinto(self, b):
        p = self.p
        if p.quiet:
            data = _real['read'](self.fd, len(b))
            b[:len(data)] = data
            return len(data)
        f = p.sim.point(p, 'read', p.sim.rel(self.path))
        n = len(b)
        if f is not None:
            if f['kind'] == 'short':
                p.fired.append(('short', 'read'))
                n = max(1, min(n, int(f.get('n', 7))))
            elif f['kind'] in ERRNOS:
                fail(p, f, 'read', self.path)
        else:
            n = _cut(p, n)
        data = _real['read'](self.fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        p = self.p
        data = bytes(b)
        if p.done:
            return len(data)
        if p.quiet:
            return _real['write'](self.fd, data)
        f = p.sim.point(p, 'write', '%s %d' % (p.sim.rel(self.path), len(data)))
        _mutation(p, 'write', self.path)
        if f is not None:
            if f['kind'] == 'short' and len(data) > 1:
                k = max(1, int(len(data) * f.get('frac', 0.5)))
                p.fired.append(('short', 'write'))
                return self._put(data[:k])
            if f['kind'] in ('partial', 'killpartial'):
                k = int(len(data) * f.get('frac', 0.5))
                if f['kind'] == 'partial':
                    p.pending[self.path] = [f.get('again', 2), dict(f, kind='ENOSPC')]
                    if k:
                        p.fired.append(('short', 'write'))
                        return self._put(data[:k])
                elif k:
                    self._put(data[:k])
                if f['kind'] == 'killpartial':
                    p.fired.append(('kill', 'write-partial'))
                    p.killed = True
                    p.sim.log(p, 'KILLED', 'partial %d' % k)
                    raise SimKill()
            if f['kind'] in ERRNOS:
                fail(p, f, 'write', self.path)
            pending(p, self.path, 'write-partial', self.path)
        else:
            pending(p, self.path, 'write-partial', self.path)
            k = _cut(p, len(data))
            if k < len(data):
                return self._put(data[:k])
        return self._put(data)

    def _put(self, data):
        n = _real['write'](self.fd, data)
        self.p.written[self.path] = self.p.written.get(self.path, 0) + n
        return n

    def close(self):
        if self.closed:
            return
        p = self.p
        try:
            if self._closed_fd or p.done:
                return
            if p.quiet:
                self._close_fd()
                return
            try:
                f = p.sim.point(p, 'close', p.sim.rel(self.path))
            except BaseException:
                if not p.dead:
                    self._close_fd()
                raise
            self._close_fd()
            if f is not None and f['kind'] in ERRNOS and self._w:
                fail(p, f, 'close', self.path)
        finally:
            io.RawIOBase.close(self)

    def _close_fd(self):
        if not self._closed_fd:
            self._closed_fd = True
            self.p.nopen -= 1
            if self.closefd:
                self.p.fds.pop(self.fd, None)
                _real['close'](self.fd)

    def __del__(self):
        pass


def _cut(p, n):
    """Legal short transfers: how many of n bytes this call moves."""
    if p.short and n > 1:
        seed, prob = p.short
        h = hashlib.md5(('%s/%d/%d' % (seed, p.index, p.points)).encode()).digest()
        if h[0] < prob * 256:
            p.fired.append(('short', 'io'))
            return 1 + (h[1] * 256 + h[2]) % (n - 1) if h[3] & 1 else \
                1 + h[1] % min(n - 1, 16)
    return n


def _abs(path, dir_fd=None):
    p = os.fspath(path) if not isinstance(path, int) else path
    if isinstance(p, int):
        return os.readlink('/proc/self/fd/%d' % p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if dir_fd is not None:
        base = os.readlink('/proc/self/fd/%d' % dir_fd)
        p = os.path.join(base, p)
    p = os.path.join(_real['getcwd'](), p)
    d, b = os.path.split(os.path.normpath(p))
    return os.path.join(_realpath(d), b)


def _realpath(d):
    # no symlinks are used in the scratch tree except ones a scenario makes
    p = getattr(_tls, 'proc', None)
    if p is not None:
        p.quiet += 1
    try:
        return os.path.realpath(d)
    finally:
        if p is not None:
            p.quiet -= 1


def _mutation(p, op, path):
    """Record a change to the tree; refuse one outside the scratch root."""
    sim = p.sim
    ap = _abs(path)
    if not (ap == sim.root or ap.startswith(sim.root + '/')):
        p.refused.append((op, ap))
        sim.log(p, 'REFUSED', '%s %s' % (op, ap))
        raise PermissionError(errno.EACCES, 'outside the scratch directory', ap)
    rel = sim.rel(ap)
    p.mutations.append((op, rel))
    if sim.monitor is not None:
        sim.in_monitor = True
        try:
            sim.monitor(p, op, rel)
        finally:
            sim.in_monitor = False
    return ap


class SeamFunc(object):
    """A patched function. An instance, so it never binds as a method."""

    def __init__(self, name, fn, orig):
        self.__name__ = name
        self.fn = fn
        self.orig = orig

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __repr__(self):
        return '<seam %s>' % self.__name__


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    p = cur()
    if p is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    sim = p.sim
    if isinstance(file, int):
        fd = file
        if fd not in p.fds:
            if fd in (1, 2):
                raise OSError(errno.EBADF, 'standard stream by descriptor')
            raise OSError(errno.EBADF, 'Bad file descriptor')
        path, _ = p.fds[fd]
        readable, writable, append = _mode(mode)
        raw = FileRaw(p, fd, path, readable, writable, append, closefd)
    else:
        readable, writable, append = _mode(mode)
        path = _abs(file)
        if not writable and not sim.inside(path):
            return _real['open'](file, mode, buffering, encoding, errors, newline,
                                 closefd, opener)
        op = 'open-w' if writable else 'open-r'
        f = sim.point(p, op, '%s %s' % (sim.rel(path), mode))
        if f is not None and f['kind'] in ERRNOS:
            fail(p, f, op, path)
        if p.fdlimit is not None and p.nopen >= p.fdlimit:
            p.fired.append(('EMFILE', 'limit'))
            raise OSError(errno.EMFILE, 'Too many open files (simulated)', path)
        if opener is not None:
            fd = opener(file, _flags(mode))
            if fd in p.fds:
                p.nopen -= 1        # counted by os.open; counted again below
        else:
            if writable and 'r' not in mode:
                existed = _lexists(path)
                if not existed:
                    _mutation(p, 'create', path)
                elif 'w' in mode:
                    _mutation(p, 'truncate', path)
            elif writable:
                _mutation(p, 'open-rw', path)
            fd = _real['osopen'](path if isinstance(path, str) else file,
                                 _flags(mode) | os.O_CLOEXEC, 0o666)
        if _real_fd_isdir(fd):
            _real['close'](fd)
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        p.fds[fd] = [path, writable]
        p.nopen += 1
        p.maxopen = max(p.maxopen, p.nopen)
        raw = FileRaw(p, fd, path, readable, writable, append, closefd)
    text = 'b' not in mode
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        p.handles.append(raw)
        return raw
    size = buffering if buffering > 1 else 8192
    if readable and writable:
        buf = io.BufferedRandom(raw, size)
    elif writable:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if not text:
        p.handles.append(buf)
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                         line_buffering=(buffering == 1))
    t.mode = mode
    p.handles.append(t)
    if append:
        try:
            t.seek(0, 2)
        except Exception:
            pass
    return t


def _real_fd_isdir(fd):
    try:
        return statmod.S_ISDIR(_real['fstat'](fd).st_mode)
    except OSError:
        return False


def _lexists(path):
    try:
        _real['lstat'](path)
        return True
    except OSError:
        return False


def _mode(mode):
    r = 'r' in mode or '+' in mode
    w = '+' in mode or any(c in mode for c in 'wax')
    return r, w, 'a' in mode


def _flags(mode):
    if '+' in mode:
        fl = os.O_RDWR
    elif any(c in mode for c in 'wax'):
        fl = os.O_WRONLY
    else:
        fl = os.O_RDONLY
    if 'w' in mode:
        fl |= os.O_CREAT | os.O_TRUNC
    elif 'a' in mode:
        fl |= os.O_CREAT | os.O_APPEND
    elif 'x' in mode:
        fl |= os.O_CREAT | os.O_EXCL
    return fl


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = cur()
    if p is None:
        return _real['osopen'](path, flags, mode, dir_fd=dir_fd)
    w = flags & (os.O_WRONLY | os.O_RDWR) != 0
    ap = _abs(path, dir_fd)
    if not w and not p.sim.inside(ap):
        return _real['osopen'](path, flags, mode, dir_fd=dir_fd)
    op = 'open-w' if w else 'open-r'
    f = p.sim.point(p, op, p.sim.rel(ap))
    if f is not None and f['kind'] in ERRNOS:
        fail(p, f, op, ap)
    if p.fdlimit is not None and p.nopen >= p.fdlimit:
        p.fired.append(('EMFILE', 'limit'))
        raise OSError(errno.EMFILE, 'Too many open files (simulated)', ap)
    if w:
        existed = _lexists(ap)
        if not existed and flags & os.O_CREAT:
            _mutation(p, 'create', ap)
        elif existed and flags & os.O_TRUNC and not flags & os.O_EXCL:
            _mutation(p, 'truncate', ap)
    fd = _real['osopen'](ap, flags | os.O_CLOEXEC, mode)
    p.fds[fd] = [ap, w]
    p.nopen += 1
    p.maxopen = max(p.maxopen, p.nopen)
    return fd


def sim_os_close(fd):
    p = cur()
    if p is None or fd not in p.fds:
        return _real['close'](fd)
    path, w = p.fds[fd]
    try:
        f = p.sim.point(p, 'close', p.sim.rel(path))
    finally:
        if not p.dead and fd in p.fds:
            del p.fds[fd]
            p.nopen -= 1
            _real['close'](fd)
    if f is not None and w and f['kind'] in ERRNOS:
        fail(p, f, 'close', path)


def sim_os_write(fd, data):
    p = cur()
    if p is None or fd not in p.fds:
        if p is not None and fd == 1:
            return OutRaw(p, 'stdout', p.out).write(data)
        return _real['write'](fd, data)
    raw = FileRaw(p, fd, p.fds[fd][0], False, True, False, False)
    raw._closed_fd = True
    return raw.write(data)


def sim_os_read(fd, n):
    p = cur()
    if p is None or fd not in p.fds:
        return _real['read'](fd, n)
    f = p.sim.point(p, 'read', p.sim.rel(p.fds[fd][0]))
    if f is not None and f['kind'] in ERRNOS:
        fail(p, f, 'read', p.fds[fd][0])
    return _real['read'](fd, _cut(p, n))


def sim_fsync(fd):
    p = cur()
    if p is None:
        return _real['fsync'](fd)
    path = p.fds.get(fd, ['?'])[0]
    f = p.sim.point(p, 'fsync', p.sim.rel(path))
    if f is not None and f['kind'] in ERRNOS:
        fail(p, f, 'fsync', path)
    p.written.pop(path, None)
    return None


def _patch_os(name, fn):
    orig = getattr(os, name)
    _real.setdefault(name, orig)
    s = SeamFunc(name, fn, orig)
    setattr(os, name, s)
    for sname in ('supports_dir_fd', 'supports_fd', 'supports_follow_symlinks',
                  'supports_effective_ids'):
        st = getattr(os, sname, None)
        if st is not None and orig in st:
            st.add(s)
    return s


def _mk_simple(name, op, nargs=1, mutating=True):
    """A wrapper of a one- or two-path system call."""
    orig = getattr(os, name)
    _real.setdefault(name, orig)

    def fn(*a, **k):
        p = cur()
        if p is None:
            return orig(*a, **k)
        if name in ('rename', 'replace'):
            src = _abs(a[0], k.get('src_dir_fd'))
            dst = _abs(a[1], k.get('dst_dir_fd'))
            f = p.sim.point(p, op, '%s -> %s' % (p.sim.rel(src), p.sim.rel(dst)))
            if f is not None and f['kind'] in ERRNOS:
                fail(p, f, op, dst)
            _mutation(p, 'rename-from', src)
            _mutation(p, 'rename-to', dst)
            return orig(src, dst)
        if name in ('link', 'symlink'):
            dst = _abs(a[1], k.get('dst_dir_fd', k.get('dir_fd')))
            f = p.sim.point(p, op, p.sim.rel(dst))
            if f is not None and f['kind'] in ERRNOS:
                fail(p, f, op, dst)
            _mutation(p, op, dst)
            return orig(*a, **k)
        path = _abs(a[0] if a else k.get('path'), k.get('dir_fd'))
        f = p.sim.point(p, op, p.sim.rel(path))
        if f is not None and f['kind'] in ERRNOS:
            fail(p, f, op, path)
        if mutating and not (op == 'mkdir' and _lexists(path)):
            _mutation(p, op, path)
        r = orig(*a, **k)
        return r
    return _patch_os(name, fn)


def _mk_stat(name):
    orig = getattr(os, name)
    _real.setdefault(name, orig)

    def fn(*a, **k):
        p = cur()
        if p is None:
            return orig(*a, **k)
        path = a[0] if a else k.get('path')
        if not isinstance(path, int) and p.sim.inside(path):
            p.sim.point(p, 'stat', p.sim.rel(path), faultable=False)
        return orig(*a, **k)
    return _patch_os(name, fn)


class _Scan(object):
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _order(sim, names, key):
    names = sorted(names, key=key)
    if sim.list_order == 1:
        names.reverse()
    elif sim.list_order > 1:
        RealRandom(sim.list_order).shuffle(names)
    return names


def _install_fs():
    _real['open'] = io.open
    _real['osopen'] = os.open
    for n in ('close', 'write', 'read', 'fsync', 'fstat', 'getcwd', 'stat', 'lstat',
              'listdir', 'scandir', 'urandom', 'getpid', 'readlink'):
        _real[n] = getattr(os, n)
    _real['stderr'] = sys.stderr
    o = SeamFunc('open', sim_open, _real['open'])
    builtins.open = o
    io.open = o
    _patch_os('open', sim_os_open)
    _patch_os('close', sim_os_close)
    _patch_os('write', sim_os_write)
    _patch_os('read', sim_os_read)
    _patch_os('fsync', sim_fsync)
    for n, op in (('mkdir', 'mkdir'), ('rmdir', 'rmdir'), ('unlink', 'unlink'),
                  ('remove', 'unlink'), ('rename', 'rename'), ('replace', 'rename'),
                  ('link', 'link'), ('symlink', 'link'), ('truncate', 'write'),
                  ('chmod', 'chmod'), ('utime', 'chmod'), ('mkfifo', 'create'),
                  ('mknod', 'create')):
        if hasattr(os, n):
            _mk_simple(n, op)
    for n in ('stat', 'lstat', 'access'):
        _mk_stat(n)

    def listdir(path='.'):
        p = cur()
        if p is None or not (isinstance(path, int) or p.sim.inside(path)):
            return _real['listdir'](path)
        f = p.sim.point(p, 'scandir', p.sim.rel(path) if not isinstance(path, int) else '')
        if f is not None and f['kind'] in ERRNOS:
            fail(p, f, 'scandir')
        return _order(p.sim, _real['listdir'](path), None)
    _patch_os('listdir', listdir)

    def scandir(path='.'):
        p = cur()
        if p is None or not (isinstance(path, int) or p.sim.inside(path)):
            return _real['scandir'](path)
        f = p.sim.point(p, 'scandir', p.sim.rel(path) if not isinstance(path, int) else '')
        if f is not None and f['kind'] in ERRNOS:
            fail(p, f, 'scandir')
        with _real['scandir'](path) as it:
            es = list(it)
        return _Scan(_order(p.sim, es, lambda e: e.name))
    _patch_os('scandir', scandir)

    def getpid():
        p = cur()
        return _real['getpid']() if p is None else p.pid
    _patch_os('getpid', getpid)

    def urandom(n):
        p = cur()
        if p is None:
            return _real['urandom'](n)
        return p.draws.urandom(n)
    _patch_os('urandom', urandom)

    def chdir(path):
        p = cur()
        if p is None:
            return _real['chdir'](path)
        p.sim.point(p, 'chdir', p.sim.rel(path), faultable=False)
        if len(p.sim.procs) > 1:
            raise HarnessError('chdir in a simulation of several processes')
        return _real['chdir'](path)
    _real['chdir'] = os.chdir
    _patch_os('chdir', chdir)
    import shutil
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False


def _install_time():
    _real['time'] = time.time
    _real['sleep'] = time.sleep
    _real['perf'] = time.perf_counter

    def now():
        p = cur()
        if p is None:
            return _real['time']()
        return ACTIVE.clock

    def mono(orig):
        def f():
            p = getattr(_tls, 'proc', None)
            if p is None or ACTIVE is None:
                return orig()
            return ACTIVE.sim_elapsed + 5000.0
        return f

    def wall():
        p = getattr(_tls, 'proc', None)
        if p is None or ACTIVE is None:
            return _real['time']()
        return ACTIVE.clock

    def sleep(s):
        p = cur()
        if p is None:
            return _real['sleep'](s)
        ACTIVE.clock += s
        ACTIVE.sim_elapsed += s
        p.sim.point(p, 'sleep', '%g' % s, faultable=False)
    del now
    time.time = SeamFunc('time', wall, time.time)
    time.monotonic = SeamFunc('monotonic', mono(time.monotonic), time.monotonic)
    time.perf_counter = SeamFunc('perf_counter', mono(time.perf_counter), time.perf_counter)
    time.time_ns = SeamFunc('time_ns', lambda: int(wall() * 1e9), time.time_ns)
    time.monotonic_ns = SeamFunc('monotonic_ns', lambda: int(time.monotonic() * 1e9), None)
    time.perf_counter_ns = SeamFunc('perf_counter_ns',
                                    lambda: int(time.perf_counter() * 1e9), None)
    time.sleep = SeamFunc('sleep', sleep, time.sleep)
    import timeit
    timeit.default_timer = time.perf_counter


def _install_random():
    global RealRandom, _R_random, _R_getrandbits, _R_seed
    Base = random.Random.__mro__[1]       # _random.Random

    class RealRandomC(random.Random):
        """Unpatched generator for the machinery."""
    RealRandom = RealRandomC
    _R_random = Base.random
    _R_getrandbits = Base.getrandbits
    _R_seed = orig_seed = random.Random.seed
    inst = random._inst
    plain = RealRandom(12345)

    def d_random():
        p = cur()
        return plain.random() if p is None else p.draws.random()

    def d_bits(k):
        p = cur()
        return plain.getrandbits(k) if p is None else p.draws.getrandbits(k)

    def d_seed(a=None, version=2):
        p = cur()
        if p is None:
            return plain.seed(a, version)
        return p.draws.seed(a, version)

    inst.random = d_random
    inst.getrandbits = d_bits
    inst.seed = d_seed
    random.random = d_random
    random.getrandbits = d_bits
    random.seed = d_seed
    random._urandom = os.urandom

    def r_seed(self, a=None, version=2):
        p = cur()
        if a is None and p is not None:
            a = p.draws.aux.randrange(1 << 62)
        return orig_seed(self, a, version)
    random.Random.seed = r_seed
    RealRandomC.seed = orig_seed

    import tempfile

    class Names(object):
        characters = 'abcdefghijklmnopqrstuvwxyz0123456789_'

        def __init__(self, p):
            self.p = p

        def __iter__(self):
            return self

        def __next__(self):
            return ''.join(self.characters[int(self.p.draws.random() * 37)]
                           for _ in range(8))

    orig_names = tempfile._get_candidate_names

    def names():
        p = cur()
        if p is None:
            return orig_names()
        if p.tempseq is None:
            p.tempseq = Names(p)
        return p.tempseq
    tempfile._get_candidate_names = names


def install_np():
    """Seams of numpy.random and spglib (imported here, after the others)."""
    global TYPE_NP
    import numpy as np
    TYPE_NP = np
    RS = np.random.mtrand.RandomState
    for name in dir(np.random):
        orig = getattr(np.random, name)
        if name.startswith('_') or not callable(orig) or not hasattr(RS, name):
            continue

        def mk(name, orig):
            def f(*a, **k):
                p = cur()
                if p is None:
                    return orig(*a, **k)
                r = getattr(p.nprs, name)(*a, **k)
                return _np_adversary(p, name, r)
            return SeamFunc(name, f, orig)
        setattr(np.random, name, mk(name, orig))
    import spglib
    _real['spg_db'] = spglib.get_symmetry_from_database
    for name in ('get_symmetry', 'get_symmetry_dataset', 'standardize_cell',
                 'find_primitive', 'get_spacegroup', 'refine_cell', 'niggli_reduce',
                 'delaunay_reduce'):
        orig = getattr(spglib, name, None)
        if orig is None:
            continue
        _real['spg_' + name] = orig

        def mk2(name, orig):
            def f(*a, **k):
                p = cur()
                if p is None:
                    return orig(*a, **k)
                flt = p.sim.point(p, 'spg', name)
                if flt is not None and flt['kind'] == 'spgnone':
                    p.fired.append(('spgnone', name))
                    p.sim.log(p, 'FAULT', 'spgnone')
                    return None
                return orig(*a, **k)
            return SeamFunc(name, f, orig)
        setattr(spglib, name, mk2(name, orig))


def _np_adversary(p, name, r):
    """Replace a draw of numpy.random by a legal but degenerate outcome.

    np_draws: [[index of the draw call, 'zero'|'lo'|'hi'|'alt'], ...]."""
    i = p.npn
    p.npn += 1
    for at, kind in p.np_draws:
        if at == i:
            break
    else:
        return r
    np = TYPE_NP
    arr = np.array(r)
    if name in ('randn', 'standard_normal', 'normal'):
        if kind == 'zero':
            out = np.zeros(arr.shape)
        elif kind == 'axis':
            out = np.zeros(arr.shape)
            if out.size:
                out.reshape(-1)[0] = 1.0
        elif kind == 'tiny':
            out = np.ones(arr.shape) * 1e-200
        else:
            out = arr
    elif name in ('randint', 'random_integers'):
        if kind in ('zero', 'lo'):
            out = np.zeros(arr.shape, dtype=arr.dtype)
        elif kind == 'hi':
            out = np.ones(arr.shape, dtype=arr.dtype)
        elif kind == 'alt':
            out = (np.arange(arr.size) % 2).reshape(arr.shape).astype(arr.dtype)
        else:
            out = arr
        if arr.size and (arr.max() > 1 or arr.min() < 0):
            out = arr
    elif name in ('rand', 'random', 'random_sample', 'ranf', 'sample'):
        v = {'zero': 0.0, 'lo': 0.0, 'hi': 1 - 2.0 ** -53}.get(kind)
        out = arr if v is None else np.zeros(arr.shape) + v
    else:
        return r
    p.fired.append(('draw-' + kind, name))
    if np.ndim(r) == 0 and not isinstance(r, np.ndarray):
        return type(r)(out)
    return out


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import copyreg     # noqa: imported before the seams, so they bind the originals
    _install_fs()
    _install_random()
    _install_time()
    sys.stderr = ERRPROXY        # progressbar keeps the stream it sees at import
    sys.meta_path.insert(0, _Finder)
    for k in [k for k in sys.modules if k == 'ababe' or k.startswith('ababe.')]:
        del sys.modules[k]
    os.environ['PYTHONWARNINGS'] = 'ignore'
    import warnings
    warnings.simplefilter('ignore')
    install_np()
