"""C06: exit status 0 means complete output, whatever fails."""
from .. import cmds
from .. import world as W
from . import common as M

ERR = {'open-r': ['EIO', 'EACCES', 'EMFILE', 'ENFILE', 'intr', 'mem'],
       'open-w': ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS', 'intr', 'mem'],
       'read': ['EIO', 'short', 'intr', 'mem'],
       'write': ['ENOSPC', 'EIO', 'EDQUOT', 'partial', 'partial', 'short', 'intr', 'mem'],
       'close': ['EIO', 'ENOSPC', 'EDQUOT', 'intr'],
       'fsync': ['EIO', 'ENOSPC'],
       'mkdir': ['ENOSPC', 'EACCES', 'EROFS', 'EIO', 'intr', 'mem'],
       'rmdir': ['EACCES', 'EBUSY', 'EIO', 'intr'],
       'unlink': ['EACCES', 'EBUSY', 'EIO', 'EROFS', 'intr'],
       'rename': ['ENOSPC', 'EACCES', 'EIO', 'intr'],
       'link': ['ENOSPC', 'EACCES', 'EIO'],
       'chmod': ['EACCES', 'EIO'],
       'create': ['ENOSPC', 'EACCES'],
       'scandir': ['EIO', 'EACCES', 'intr'],
       'stat': ['intr', 'mem'],
       'stdout': ['ENOSPC', 'EIO', 'EPIPE', 'partial', 'short', 'intr'],
       'spg': ['spgnone', 'mem', 'intr']}


def pick_fault(rng, p, kinds=None, last=None):
    """A fault at a point of an undisturbed run of the same process."""
    groups = {}
    for idx, op in enumerate(p.ops):
        if op in ERR:
            groups.setdefault(op, []).append(idx)
    if not groups:
        return None
    # rare kinds of operation as often as frequent ones
    op = rng.choice(sorted(groups))
    if rng.random() < .5:
        op = rng.choice(sorted(k for k in groups if k not in ('stat', 'spg')) or sorted(groups))
    pts = groups[op]
    r = rng.random()
    at = pts[0] if r < .2 else pts[-1] if r < .4 else rng.choice(pts)
    k = rng.choice(kinds or ERR[op])
    f = {'at': at, 'kind': k}
    if k == 'partial':
        f['frac'] = rng.choice([0, .2, .5, .9, .999])
    elif k == 'short':
        f['frac'] = rng.choice([.1, .5, .95])
        f['n'] = rng.choice([1, 7, 100])
    if k in ('ENOSPC', 'EDQUOT', 'EROFS', 'EMFILE', 'ENFILE', 'EPIPE') and rng.random() < .5:
        f['sticky'] = rng.choice([1, 2, 5, 1000])
        if k in ('ENOSPC', 'EDQUOT') and rng.random() < .4:
            f['ops'] = ['write']
    return f


class C06(M.CommandCheck):
    ID = 'C06'
    RUNS = {'quick': 1300, 'thorough': 40000}
    RULE = ('a run is non-trivial if an injected failure was delivered to the command; distinct '
            'by event-log hash (operation, path and fault at every point)')
    ASSUME = ['failures are injected at the simulated disk, standard streams, symmetry library '
              'and as MemoryError/KeyboardInterrupt at I/O points, not inside numpy',
              'stat calls do not fail; the import phase is not faulted',
              'a failing flush of standard output at interpreter exit gives a non-zero status '
              '(as CPython and PyPy do)']

    def gen(self, rng, i, tier):
        cmd = cmds.ALL[i % len(cmds.ALL)]
        sc = M.scenario(rng, cmd, small=True, max_out=12)
        M.decoys(rng, sc, 2)
        M.noise(rng, sc, .2)
        spec = sc['procs'][0]['spec']
        t = cmds.target_name(spec)
        if t and rng.random() < .4:
            if cmd == 'suplat':
                sc['files'][t + '/' + rng.choice(['a.vasp', 'b/c'])] = 'stale\n'
                sc['files'][t + '/SUPLAT_2_AAAA.yaml'] = 'stale\n'
            else:
                sc['files'][t] = 'stale\n' * rng.choice([1, 300])
        pd = sc['procs'][0]
        if rng.random() < .25:
            pd['draws']['epochs'] = M.low_entropy(rng)
        procs, own, files = M.dry(sc)
        fs = []
        for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
            f = pick_fault(rng, procs[0])
            if f:
                fs.append(f)
        pd['faults'] = fs
        if rng.random() < .06:
            pd['stderr_fail'] = rng.randrange(3)
        if rng.random() < .08:
            pd['fdlimit'] = rng.choice([0, 1, 2, 3])
        return sc

    def execute(self, sc):
        res = W.Result()
        w = M.build(sc)
        before = w.top()
        sim = W.new_sim(w, sc)
        spec = sc['procs'][0]['spec']
        p = W.spawn(sim, sc['procs'][0])
        sim.run()
        res.absorb(sim)
        hard = [f for f in p.fired if f[0] != 'short']
        if p.status == 'hung':
            res.fail('hang', 'the command did not end within %d operations' % p.limit)
        elif p.status == 0:
            e = M.output(w, spec, p, before)
            if e:
                res.fail('success-incomplete', 'exit 0 after %s: %s' % (hard[:3], e))
            elif hard:
                res.probes['survived'] += 1
        else:
            res.probes['reported'] += 1
            if not hard:
                res.fail('spurious', 'status %s without a fault: %s' % (p.status, M.why(p)))
        res.nontrivial = bool(hard)
        res.probes[spec['cmd']] += 1
        res.note(p.status, sorted(w.top()))
        w.close()
        return res


CHECK = C06()
