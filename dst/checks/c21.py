"""C21: a killed or failed enumeration leaves only right, distinct structures."""
import os
from collections import Counter
from .. import cmds
from .. import crystal as C
from .. import sim as S
from .. import world as W
from . import common as M
from .c06 import pick_fault

CMDS = cmds.OCC + ('suplat',)
CHANGES = ('write', 'open-w', 'close', 'mkdir', 'unlink', 'rmdir', 'rename')


def partial_occ(spec, cells):
    """None if the cells are distinct members of the expected set."""
    P = cmds.parent_of(spec['cell'])
    o = spec['opt']
    want = cmds.expected_classes(spec)
    if not o['refined']:
        ws = set(want)
        got = Counter()
        for name, c in cells:
            v, err = P.site_vector(c)
            if err:
                return name, err
            v = P.canon(v)
            if v not in ws:
                return name, 'is not one of the structures asked for'
            got[v] += 1
            if got[v] > 1:
                return name, 'repeats a structure that is already there'
        return None
    sh = cmds.shells_of(P)
    w = Counter()
    for v in want:
        fold = P.fold(v)
        rep = dict(lat=P.cell['lat'], pos=P.cell['pos'], num=list(v))
        w[(C.fp_key(sh.prints(rep), fold), round(abs(C.det(P.cell['lat'])) / fold, 0))] += 1
    for name, c in cells:
        vol = abs(C.det(c['lat']))
        if not w:
            return name, 'was not asked for'
        best = min((abs(vol - k[1]), k[1]) for k in w)
        if best[0] > 1.0 + .004 * vol:
            return name, 'refined cell of unexpected volume %.2f' % vol
        k = (C.fp_key(sh.prints(c)), best[1])
        if w[k] <= 0:
            return name, 'is not one of the structures asked for, or one too many'
        w[k] -= 1
    return None


def partial_sup(spec, cells):
    SP = cmds.sup_parent(spec)
    got = Counter()
    for name, c in cells:
        h, err = SP.classify(c)
        if err:
            return name, err
        if h not in SP.classes:
            return name, 'superlattice %s was not asked for' % (h,)
        got[h] += 1
        if got[h] > 1:
            return name, 'repeats a superlattice that is already there'
    return None


class C21(M.CommandCheck):
    ID = 'C21'
    RUNS = {'quick': 1100, 'thorough': 40000}
    RULE = ('a run is non-trivial if the command was killed or failed after at least one '
            'structure file was complete; distinct by event-log hash')
    ASSUME = ['the process dies or an operation fails, the machine does not: what was handed to '
              'the operating system survives',
              'where duplicates by symmetry can only be told apart by the reduced cell, the '
              'structures are compared by shells of neighbours and volume']

    def gen(self, rng, i, tier):
        cmd = CMDS[i % len(CMDS)]
        sc = M.scenario(rng, cmd, small=True, max_out=14, min_out=2 if cmd != 'suplat' else 0)
        M.decoys(rng, sc, 2)
        M.noise(rng, sc, .2)
        spec = sc['procs'][0]['spec']
        t = cmds.target_name(spec)
        if t and rng.random() < .6:
            # an earlier suplat run of the same name
            for k in range(rng.choice([1, 2, 5])):
                nm = 'SUPLAT_%d_%s.%s' % (rng.choice([spec['opt']['v'], 2, 7]),
                                          ''.join(rng.choice('AB01') for _ in range(4)),
                                          rng.choice(['vasp', 'yaml']))
                sc['files'][t + '/' + nm] = 'earlier %d\n' % k
        pd = sc['procs'][0]
        if rng.random() < .5:
            pd['draws']['epochs'] = M.low_entropy(rng)
        if rng.random() < .15:
            pd['fdlimit'] = rng.choice([4, 6])
        procs, own, files = M.dry(sc)
        p = procs[0]
        n = max(1, p.points)
        fs = []
        if rng.random() < .6:
            ws = [k for k, op in enumerate(p.ops) if op in CHANGES]
            r = rng.random()
            at = rng.choice(ws) if ws and r < .7 else rng.randrange(n)
            fs.append({'at': at, 'kind': rng.choice(['kill', 'kill', 'killpartial', 'intr']),
                       'frac': rng.choice([0, .3, .8, .99])})
        elif rng.random() < .5:
            # a disk that stays full or broken from some write on
            ws = [k for k, op in enumerate(p.ops) if op in ('write', 'open-w', 'close')]
            if ws:
                fs.append({'at': rng.choice(ws), 'kind': rng.choice(['ENOSPC', 'EDQUOT', 'EIO']),
                           'sticky': rng.choice([1, 2, 5, 1000])})
                if rng.random() < .6:
                    # (files can be made, their data find no room)
                    fs[-1]['ops'] = rng.choice([['write'], ['close'], ['write', 'close']])
                    wr = [k for k in ws if p.ops[k] in fs[-1]['ops']]
                    fs[-1]['at'] = rng.choice(wr or ws)
                    fs[-1]['sticky'] = rng.choice([2, 5, 1000])
        else:
            for _ in range(rng.choice([1, 1, 2, 3])):
                f = pick_fault(rng, p)
                if f:
                    if rng.random() < .3:
                        f.pop('sticky', None)
                    fs.append(f)
        pd['faults'] = fs
        return sc

    def execute(self, sc):
        res = W.Result()
        w = M.build(sc)
        spec = sc['procs'][0]['spec']
        t = cmds.target_name(spec)
        before = w.top()
        snap = w.snapshot()
        sim = W.new_sim(w, sc)
        p = W.spawn(sim, sc['procs'][0])
        sim.run()
        res.absorb(sim)
        dirs = [t] if t else M.own_new(w, p, before)
        whole = self.judge(res, w, spec, p, dirs, snap)
        ended = p.status != 0
        res.nontrivial = bool(ended and whole)
        res.probes['killed' if p.killed else 'failed' if ended else 'finished'] += 1
        res.probes[spec['cmd']] += 1
        res.probes['whole files left %d' % min(whole, 9)] += 1
        res.note(p.status, sorted(w.top()))
        w.close()
        return res

    def judge(self, res, w, spec, p, dirs, snap):
        if len(dirs) > 1:
            res.fail('dirs', 'it left %d output directories' % len(dirs))
            return 0
        pre = w.cwdname + '/'
        now = w.snapshot()
        cells, broken, old = [], [], []
        for d in dirs:
            path = os.path.join(w.cwd, d)
            if not S._real_isdir(path):
                continue
            for nm in sorted(S._real['listdir'](path)):
                rel = pre + d + '/' + nm
                f = os.path.join(path, nm)
                if rel in snap and now.get(rel) == snap[rel]:
                    old.append(nm)
                    continue
                if not S._real_isfile(f):
                    res.fail('entry', 'unexpected entry %s' % nm)
                    continue
                try:
                    cells.append((nm, C.parse_file(f, spec['opt']['out'])))
                except C.BadFile as e:
                    broken.append((nm, str(e)))
        if len(broken) > 1:
            res.fail('broken', '%d incomplete files were left, after status %s: %s' % (
                len(broken), p.status, broken[:3]))
        if old and (cells or broken):
            res.fail('mixed', 'files of an earlier run (%s) beside new ones' % old[:3])
        part = partial_sup if spec['cmd'] == 'suplat' else partial_occ
        bad = part(spec, cells)
        if bad and not broken:
            # the one that was being written may be the odd one out
            rest = [c for c in cells if c[0] != bad[0]]
            if len(cells) and self.unfinished(w, p, dirs[0], bad[0]) and part(spec, rest) is None:
                res.probes['cut file that parses'] += 1
                bad = None
        if bad:
            res.fail('wrong', '%s: %s' % bad)
        return len(cells)

    def unfinished(self, w, p, d, name):
        """The write of this file was hit by the fault."""
        last = [rel for op, rel in p.mutations if rel.endswith('/' + name)]
        return bool(p.fired) and bool(last) and last[-1] == p.mutations[-1][1]


CHECK = C21()
