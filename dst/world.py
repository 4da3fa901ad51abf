"""The scratch tree of one run, and playing command scenarios in it."""
import os
import stat
import hashlib
import shutil
from collections import Counter
from . import sim as S
from . import proc as P

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = None          # set by the worker: its own scratch directory


def real_rmtree(path):
    """Remove a scratch tree (only below BASE) with the unpatched calls."""
    if not BASE or not os.path.realpath(path).startswith(BASE + '/'):
        raise S.HarnessError('refusing to remove %s' % path)
    if not S._lexists(path):
        return
    for e in S._real['listdir'](path):
        f = os.path.join(path, e)
        st = S._real['lstat'](f)
        if stat.S_ISDIR(st.st_mode):
            real_rmtree(f)
        else:
            S._real['unlink'](f)
    S._real['rmdir'](path)


LAST = [None]        # the world of the run in progress


def execute(check, sc):
    """check.execute, where a run whose directory is gone is a violation, not a crash."""
    LAST[0] = None
    try:
        return check.execute(sc)
    except OSError:
        w = LAST[0]
        if w is None or S._real_isdir(w.cwd):
            raise
        r = Result()
        r.fail('directory', 'the working directory itself was removed')
        r.note('directory removed')
        return r
    except Exception as e:
        where = None if isinstance(e, (S.HarnessError, MemoryError)) else raised_in_code(e)
        if where is None:
            raise
        r = Result()
        r.fail('crash', 'a library call that must succeed raised %s: %s (%s)'
               % (type(e).__name__, e, where))
        r.note('crash', type(e).__name__, where)
        return r


def raised_in_code(e):
    """The line of ababe that raised e, or let it out of a library it called; None
    when the exception is the machinery's own (raised in, or handed over by, dst)."""
    tb, where, last = e.__traceback__, None, ''
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if os.sep + 'ababe' + os.sep in last and VERIF not in last:
            where = '%s:%d' % (last.split(os.sep + 'ababe' + os.sep, 1)[1], tb.tb_lineno)
        tb = tb.tb_next
    return None if last.startswith(VERIF) else where


class World(object):
    def __init__(self, cwd='w'):
        LAST[0] = self
        self.root = os.path.join(BASE, 'run')
        S._real['chdir'](BASE)
        real_rmtree(self.root)
        S._real['mkdir'](self.root)
        self.cwdname = cwd
        self.cwd = os.path.join(self.root, cwd)
        self.mkdirs(self.cwd)
        S._real['chdir'](self.cwd)

    def mkdirs(self, path):
        cur = ''
        for part in path.split('/'):
            cur += part + '/'
            if part and not S._real_isdir(cur):
                S._real['mkdir'](cur)

    def put(self, name, data):
        """Write a file (name relative to the working directory)."""
        f = os.path.normpath(os.path.join(self.cwd, name))
        if not f.startswith(self.root + '/'):
            raise S.HarnessError('file outside the scratch tree')
        if name.endswith('/'):
            self.mkdirs(f)
            return
        self.mkdirs(os.path.dirname(f))
        with S._real['open'](f, 'wb') as h:
            h.write(data.encode('utf-8') if isinstance(data, str) else data)

    def get(self, name):
        f = os.path.join(self.cwd, name)
        with S._real['open'](f, 'rb') as h:
            return h.read()

    def snapshot(self):
        """rel path -> digest of every entry of the tree."""
        out = {}

        def walk(d, rel):
            for e in sorted(S._real['listdir'](d)):
                f = os.path.join(d, e)
                r = rel + e
                st = S._real['lstat'](f)
                if stat.S_ISDIR(st.st_mode):
                    out[r] = 'd'
                    walk(f, r + '/')
                elif stat.S_ISLNK(st.st_mode):
                    out[r] = 'l' + S._real['readlink'](f)
                else:
                    with S._real['open'](f, 'rb') as h:
                        out[r] = 'f' + hashlib.md5(h.read()).hexdigest()
        walk(self.root, '')
        return out

    def top(self):
        return set(S._real['listdir'](self.cwd))

    def tear(self, proc, seed):
        """A torn machine: unsynced files of a dead process lose their tails."""
        rng = S.RealRandom('tear%s' % seed)
        n = 0
        for f in sorted(proc.written):
            if S._real_isfile(f) and rng.random() < .7:
                size = S._real['stat'](f).st_size
                S._real['truncate'](f, rng.randrange(0, size + 1))
                n += 1
        return n

    def close(self):
        LAST[0] = None
        S._real['chdir'](BASE)
        real_rmtree(self.root)


def draws_of(d):
    return S.Draws(d.get('seed', 0), d.get('epochs', ()))


def spawn(sim, pd, name=None):
    """A simulated process from its description in a scenario."""
    return sim.spawn(name or 'p%d' % len(sim.procs), P.command(pd['spec']['args']),
                     draws=draws_of(pd.get('draws', {})), np_seed=pd.get('np_seed', 0),
                     np_draws=pd.get('np_draws', []), faults=pd.get('faults', ()),
                     fdlimit=pd.get('fdlimit'), short=pd.get('short'),
                     stderr_fail=pd.get('stderr_fail'), pid=pd.get('pid'))


def new_sim(world, sc, monitor=None):
    return S.Sim(world.root, preempt=sc.get('preempt', ()), clock_jumps=sc.get('jumps', ()),
                 dt=sc.get('dt', 0.0007), list_order=sc.get('order', 0), monitor=monitor)


def own_dirs(world, p):
    """Top-level entries of the working directory that process p put files or
    directories into or created."""
    pre = world.cwdname + '/'
    out = set()
    for op, rel in p.mutations:
        if rel.startswith(pre):
            out.add(rel[len(pre):].split('/')[0])
    return out


class Result(object):
    """What one run reports."""

    def __init__(self):
        self.violation = None
        self.fired = Counter()
        self.probes = Counter()
        self.points = 0
        self.simtime = 0.0
        self.switches = 0
        self.hash = hashlib.sha1()
        self.nontrivial = False
        self.events = []

    def fail(self, cls, msg):
        if self.violation is None:
            self.violation = {'cls': cls, 'msg': str(msg)[:600]}

    def absorb(self, sim):
        for p in sim.procs:
            e = getattr(p, 'harness_error', None)
            if e is not None:
                raise S.HarnessError('in process %s: %r' % (p.name, e))
            if isinstance(p.exc, S.HarnessError):
                raise p.exc
            for k in p.fired:
                self.fired['%s@%s' % k] += 1
            if p.draws.low:
                self.fired['low-entropy draws'] += p.draws.low
            self.points += p.points
        if sim.jumped:
            self.fired['clock jump'] += sim.jumped
        if sim.switches:
            self.fired['preemption'] += sim.switches
        self.simtime += sim.sim_elapsed
        self.switches += sim.switches
        self.hash.update(sim.hash.hexdigest().encode())
        self.events += sim.events

    def note(self, *a):
        self.hash.update(repr(a).encode('utf-8', 'replace'))
