"""C10: perturb moves every atom by exactly the requested distance."""
import os
import math
from collections import Counter
from .. import cmds
from .. import gen
from .. import crystal as C
from .. import sim as S
from .. import world as W
from .. import proc as P
from .. import shrink as H
from ..base import Check
from . import common as M

NPK = ['zero', 'zero', 'axis', 'tiny', 'lo', 'hi']


def np_draws(rng, n):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a = rng.randrange(0, n + 2)
        k = rng.choice(NPK)
        for j in range(rng.choice([1, 1, 1, 2, 4])):
            out.append([a + j, k])
    return out


def shifts(lat, delta, d, tol):
    """The displacement with a fractional delta whose length is d, over the
    lattice translations (the plain one first), or None."""
    best = None
    for im in IMAGES:
        v = C.vm([x + k for x, k in zip(delta, im)], lat)
        e = abs(C.norm(v) - d)
        if e <= tol:
            return v, e
        if best is None or e < best[1]:
            best = (None, e)
    return best


IMAGES = sorted([(a, b, c) for a in range(-3, 4) for b in range(-3, 4) for c in range(-3, 4)],
                key=lambda t: abs(t[0]) + abs(t[1]) + abs(t[2]))


class C10(Check):
    ID = 'C10'
    RUNS = {'quick': 1500, 'thorough': 60000}
    RULE = ('a run is non-trivial if the structure has more than one atom or a degenerate draw was '
            'injected; distinct by event-log hash with the displaced coordinates')
    REAL = 'ababe readers, mutable cells, perturb application and writers, numpy, click'
    ASSUME = ['command output: six decimals in fractional coordinates, so the length is compared to '
              '1e-6 times the lattice lengths; library: 1e-8 relative',
              'different atoms must move in different directions only when their draws differ']

    def gen(self, rng, i, tier):
        d = rng.choice([0.2, 0.05, 0.01, 0.5, 1.0, 2.5, round(rng.uniform(.001, 3), 4)])
        if i % 2:
            fmt = rng.choice(['vasp', 'yaml'])
            cell = gen.crystal(rng, 1, 12)
            cell = {k: cell[k] for k in ('lat', 'pos', 'num')}
            name = rng.choice(['in.vasp', 'POSCAR', 'x.yaml.vasp.d/a.vasp', 'c-1.vasp'] if fmt == 'vasp'
                              else ['in.yaml', 'd/A.yaml'])
            st = gen.input_style(rng, fmt)
            st.pop('zoom', None)
            text = gen.input_text(cell, fmt, st)
            if rng.random() < .1:
                d = 0.0
            sc = {'cwd': rng.choice(M.CWDS), 'files': {name: text}, 'cell': cell, 'd': d,
                  'procs': [{'spec': {'args': ['perturb', name, rng.choice(['-r', '--radius']),
                                               repr(d)], 'cmd': 'perturb'},
                             'draws': {'seed': rng.randrange(1 << 30), 'epochs': []},
                             'np_seed': rng.randrange(1 << 30)}]}
            if rng.random() < .25:
                base = os.path.basename(name).split('.')[0]
                sc['files'][base + '_PURB.vasp'] = 'old\n' * rng.choice([1, 400])
            pd = sc['procs'][0]
            if not d and rng.random() < .5:
                del pd['spec']['args'][2:]      # the default is not to move at all
            if rng.random() < .3:
                pd['draws']['epochs'] = M.low_entropy(rng)
            if rng.random() < .4:
                pd['short'] = [rng.randrange(1000), .4]
        else:
            cell = self.libcell(rng)
            sc = {'lib': True, 'cell': cell, 'np_seed': rng.randrange(1 << 30),
                  'how': rng.choice(['gcell', 'direct', 'grown', 'copy']),
                  'ds': [rng.choice([d, None, 0.0, 7.5, 1e-6, round(rng.uniform(.01, 1), 3)])
                         for _ in range(rng.choice([1, 1, 2, 3]))],
                  'edit': rng.random() < .3, 'epochs': M.low_entropy(rng) if rng.random() < .3 else []}
        if rng.random() < .6:
            nd = np_draws(rng, len(cell['num']))
            if sc.get('lib'):
                sc['np_draws'] = nd
            else:
                sc['procs'][0]['np_draws'] = nd
        return sc

    def libcell(self, rng):
        if rng.random() < .5:
            c = gen.crystal(rng, 1, 10)
            return {k: c[k] for k in ('lat', 'pos', 'num')}
        n = rng.choice([1, 2, 3, 5, 8, 20, 60])
        while True:
            lat = [[round(rng.uniform(-9, 9), 3) for _ in range(3)] for _ in range(3)]
            ls = [C.norm(r) for r in lat]
            if min(ls) > 2 and abs(C.det(lat)) > .25 * ls[0] * ls[1] * ls[2]:
                break
        return {'lat': lat, 'pos': [[round(rng.uniform(-1, 2), 5) for _ in range(3)]
                                    for _ in range(n)],
                'num': [rng.choice([1, 6, 14, 0, 79]) for _ in range(n)]}

    def execute(self, sc):
        res = W.Result()
        if sc.get('lib'):
            self.library(sc, res)
        else:
            self.command(sc, res)
        return res

    # -- library ------------------------------------------------------------------
    def library(self, sc, res):
        c = sc['cell']

        def use(p, imp):
            import numpy as np
            scaf = imp('ababe.stru.scaffold')
            site = imp('ababe.stru.site')
            lat, pos, num = np.array(c['lat']), np.array(c['pos']), np.array(c['num'])
            how = sc['how']
            if how == 'gcell':
                m = scaf.ModifiedCell.from_gcell(scaf.GeneralCell(lat, pos, num))
            elif how == 'copy':
                m = scaf.ModifiedCell.from_gcell(
                    scaf.ModifiedCell(lat, pos, num).to_gcell())
            elif how == 'grown':
                m = scaf.ModifiedCell(lat, pos[:1], num[:1])
                for q, z in zip(c['pos'][1:], c['num'][1:]):
                    m.append_site(site.Site(tuple(q), z))
            else:
                m = scaf.ModifiedCell(lat, pos, num)
            snap = lambda x: (np.array(x.lattice).tolist(), np.array(x.positions).tolist(),
                              [int(z) for z in x.numbers])
            out = [snap(m)]
            for k, d in enumerate(sc['ds']):
                n0 = len(p.fired)
                m.perturb() if d is None else m.perturb(d)
                out.append(snap(m) + (len(p.fired) - n0,))
                if sc['edit'] and k + 1 < len(sc['ds']):
                    m.append_site(site.Site((.111, .222, .333), 6))
                    if len(m) > 2:
                        m.remove_site(0)
                    out.append(snap(m))
            g = m.to_gcell()
            return out, snap(g)
        w = W.World('w')
        sim = S.Sim(w.root)
        p = sim.spawn('p0', P.lib(use), np_seed=sc['np_seed'], np_draws=sc.get('np_draws'),
                      draws=W.draws_of({'seed': sc['np_seed'], 'epochs': sc['epochs']}))
        sim.run()
        res.absorb(sim)
        w.close()
        if p.status != 0:
            res.fail('failed', 'perturbing failed: %r' % (p.exc,))
            return
        out, g = p.result
        res.note(p.result)
        res.nontrivial = len(c['num']) > 1 or bool(p.fired)
        prev = None
        ds = list(sc['ds'])
        for s in out:
            if len(s) == 4:
                d = ds.pop(0)
                e = self.moved(prev, s, 0.2 if d is None else d, s[3])
                if e:
                    res.fail('moved', e)
                    return
            prev = s
        last = out[-1]
        a = {'lat': last[0], 'pos': last[1], 'num': last[2]}
        b = {'lat': g[0], 'pos': g[1], 'num': g[2]}
        e = C.same_cell(a, b, tol=1e-9)
        if e:
            res.fail('gcell', 'the perturbed cell converts to another one: %s' % e)

    def moved(self, a, b, d, fired):
        if len(a[1]) != len(b[1]) or a[2] != b[2]:
            return 'number or species of atoms changed'
        if max(abs(x - y) for r, s in zip(a[0], b[0]) for x, y in zip(r, s)) > 1e-12:
            return 'lattice changed'
        vs = []
        tol = 1e-8 * (1 + d) + 1e-10
        for i, (p, q) in enumerate(zip(a[1], b[1])):
            v, e = shifts(a[0], [y - x for x, y in zip(p, q)], d, tol)
            if v is None:
                return 'atom %d of %d moved by a length that differs from %g by %g' % (
                    i, len(a[1]), d, e)
            vs.append(v)
        if d > 1e-5 and not fired:
            return distinct(vs, d, 1e-6 + 1e-9 / d)

    # -- command ------------------------------------------------------------------
    def command(self, sc, res):
        w = M.build(sc)
        pd = sc['procs'][0]
        sim = W.new_sim(w, sc)
        p = W.spawn(sim, pd)
        sim.run()
        res.absorb(sim)
        c = sc['cell']
        res.nontrivial = len(c['num']) > 1 or bool([k for k, _ in p.fired if k != 'short'])
        name = os.path.basename(pd['spec']['args'][1])
        out = os.path.join(w.cwd, name.split('.')[0] + '_PURB.vasp')
        if p.status != 0:
            res.fail('failed', 'perturb ended with %s: %s' % (p.status, M.why(p)))
        elif not S._lexists(out):
            res.fail('failed', 'no output file')
        else:
            try:
                got = C.parse_file(out, 'vasp')
            except C.BadFile as e:
                got = None
                res.fail('failed', 'output is not a complete structure: %s' % e)
            if got:
                res.note(got)
                e = self.written(c, got, sc['d'], [k for k, _ in p.fired if k != 'short'])
                if e:
                    res.fail('moved', e)
        w.close()

    def written(self, c, got, d, fired):
        if max(abs(x - y) for r, s in zip(c['lat'], got['lat']) for x, y in zip(r, s)) > 2e-6:
            return 'lattice changed'
        if Counter(c['num']) != Counter(got['num']):
            return 'number or species of atoms changed'
        tol = 1e-6 * sum(C.norm(r) for r in c['lat']) + 1e-7
        # pair the atoms so that every length is d (augmenting paths)
        n = len(c['num'])
        cand = []
        worst = None
        for z, p in zip(c['num'], c['pos']):
            row = {}
            near = None
            for k in range(n):
                if got['num'][k] != z:
                    continue
                v, e = shifts(c['lat'], [y - x for x, y in zip(p, got['pos'][k])], d, tol)
                if v is not None:
                    row[k] = v
                near = e if near is None else min(near, e)
            if not row:
                return 'an atom moved by a length that differs from %g by at least %g' % (d, near)
            cand.append(row)
        match = {}

        def place(i, seen):
            for k in sorted(cand[i]):
                if k not in seen:
                    seen.add(k)
                    if k not in match or place(match[k], seen):
                        match[k] = i
                        return True
            return False
        for i in range(n):
            if not place(i, set()):
                return 'no pairing of the atoms has all displacements of length %g' % d
        if d > .05 and not fired and all(len(r) == 1 for r in cand):
            vs = [list(r.values())[0] for r in cand]
            return distinct(vs, d, 4 * tol / d)

    def shrinks(self, sc):
        if sc.get('lib'):
            for c in H.lists(sc, ('np_draws',), ('epochs',), ('ds',)):
                if c['ds']:
                    yield c
            n = len(sc['cell']['num'])
            for i in range(n):
                if n > 1:
                    c = H.at(sc, ('cell', 'num', i), H.DEL)
                    yield H.at(c, ('cell', 'pos', i), H.DEL)
        else:
            for c in H.procs(sc):
                if list(c.get('files') or ()) and sc['procs'][0]['spec']['args'][1] in c['files']:
                    yield c


def distinct(vs, d, tol):
    for i in range(len(vs)):
        for j in range(i):
            if max(abs(x - y) for x, y in zip(vs[i], vs[j])) <= tol * d:
                return 'atoms %d and %d moved by the same vector' % (j, i)
    return None


CHECK = C10()
