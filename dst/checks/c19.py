"""C19: mutable cells and grids are plain site sequences; copies are independent."""
import math
import os
from .. import crystal as C
from .. import gen
from .. import sim as S
from .. import world as W
from .. import proc as P
from .. import shrink as H
from ..baton import Baton
from ..base import Check
from . import common as M


class Bad(Exception):
    pass


class Broken(Exception):
    """What a failing source of sites raises."""


SPC = [1, 5, 8, 14, 30, 47, 79, 0]
CELL_OPS = ['append', 'append_site', 'insert', 'insert', 'set', 'set', 'del', 'pop', 'remove_site',
            'remove_sites', 'remove_sites', 'extend', 'append_sites', 'source', 'iadd', 'self',
            'slice_get', 'slice_set', 'slice_del', 'bad_index', 'perturb', 'translate', 'copy',
            'copy', 'copy', 'drop', 'to_gcell', 'to_gcell', 'regcell', 'fromg', 'fromg', 'eq', 'eq', 'reverse',
            'remove', 'index', 'clear', 'clarify', 'near', 'read']
GRID_OPS = ['set', 'set', 'set', 'set', 'copy', 'copy', 'drop', 'array', 'rearray', 'new', 'new', 'eq',
            'eq', 'bad_index', 'read', 'flat', 'flat', 'stru', 'stru', 'stru']
MATS = [[[4, 0, 0], [0, 5, 0], [.5, 0, 6]], [[0, 2, 2], [2, 0, 2], [2, 2, 0]],
        [[3.5, .25, 0], [0, 4, 0], [0, 0, 4.5]]]


class C19(Check):
    ID = 'C19'
    RUNS = {'quick': 1500, 'thorough': 60000}
    RULE = ('a run is non-trivial if a copy and what it was copied from were both edited '
            'afterwards; distinct by hash of schedule, operations and states')
    REAL = 'ababe.stru.scaffold (ModifiedCell, SitesGrid, GeneralCell), site, clarifier, numpy'
    ASSUME = ['each holder is edited by one thread at a time; copies are taken from a shared '
              'cell by several threads at once',
              'a Site object is put into one cell only; editing it through a second cell is the '
              'caller\'s own sharing']

    def gen(self, rng, i, tier):
        kind = 'grid' if i % 4 == 3 else 'cell'
        nth = rng.choice([1, 1, 2, 3])
        progs = []
        for _ in range(nth):
            ops = []
            for _ in range(rng.choice([3, 6, 12, 20])):
                o = [rng.choice(CELL_OPS if kind == 'cell' else GRID_OPS), rng.randrange(8),
                     rng.randrange(1 << 30)]
                ops.append(o)
            progs.append(ops)
        sc = {'kind': kind, 'progs': progs, 'seed': rng.randrange(1 << 30), 'switch': [],
              'boom': [], 'np_draws': [[rng.randrange(8), rng.choice(['zero', 'lo', 'hi'])]
                                       for _ in range(rng.choice([0, 0, 1, 3]))]}
        if kind == 'cell':
            c = gen.crystal(rng, 1, 8)
            sc['cell'] = {k: c[k] for k in ('lat', 'pos', 'num')}
            sc['made'] = rng.choice(['arrays', 'gcell', 'gcell', 'empty', 'default'])
        else:
            sc['size'] = [rng.choice([1, 1, 2, 3]) for _ in range(3)]
            sc['made'] = rng.choice(['sea', 'sea', 'array', 'fill', 'lists'])
            sc['z'] = rng.choice(SPC)
        n = sum(len(o) for o in progs) * 12 + 20
        if nth > 1:
            sc['switch'] = sorted([rng.randrange(1, n), rng.randrange(3)]
                                  for _ in range(rng.choice([2, 5, 12, 40])))
        if rng.random() < .3:
            sc['boom'] = sorted(rng.randrange(1, n) for _ in range(rng.choice([1, 1, 2, 4])))
        return sc

    def execute(self, sc):
        res = W.Result()
        w = W.World('w')
        sim = S.Sim(w.root)
        fn = self.cells if sc['kind'] == 'cell' else self.grids
        p = sim.spawn('p0', P.lib(lambda p, imp: fn(sc, p, imp, res)),
                      np_seed=sc['seed'], np_draws=sc['np_draws'])
        sim.run()
        res.absorb(sim)
        w.close()
        if isinstance(p.exc, Bad):
            res.fail('sites' if 'holds' in str(p.exc) else 'other', str(p.exc))
        elif p.status != 0:
            res.fail('raised', 'raised %r' % (p.exc,))
        return res

    def threads(self, sc, p, res, fns, env):
        b = Baton(p, fns, sc['switch'], os.path.join(S.REPO, 'ababe') + '/', limit=100000,
                  boom=sc['boom'])
        env['baton'] = b
        b.run()
        for e in b.error:
            if isinstance(e, S.StepLimit):
                raise Bad('an edit did not end within %d lines' % b.limit)
            if e is not None:
                raise e
        res.fired['thread switch'] += b.switched
        res.fired['interrupted edit'] += b.boomed
        res.switches += b.switched
        res.note(b.result, b.switched, b.step)

    # -- mutable cells -----------------------------------------------------------------
    def cells(self, sc, p, imp, res):
        sm, site, el = (imp('ababe.stru.scaffold'), imp('ababe.stru.site'),
                        imp('ababe.stru.element'))
        cl = imp('ababe.stru.clarifier')
        np = S.TYPE_NP
        c = sc['cell']
        lat, pos, num = np.array(c['lat']), np.array(c['pos']), np.array(c['num'])
        keep = (lat.tolist(), pos.tolist(), num.tolist())
        parent = None
        if sc['made'] == 'gcell':
            parent = sm.GeneralCell(lat, pos, num)
            root = sm.ModifiedCell.from_gcell(parent)
            pk = (parent.positions.tolist(), parent.numbers.tolist())
            start = [[tuple(q), int(z)] for q, z in zip(*pk)]
        elif sc['made'] == 'default':
            root = sm.ModifiedCell(lat)
            start = [[(0, 0, 0), 0]]
        elif sc['made'] == 'empty':
            root = sm.ModifiedCell(lat, pos[:0], num[:0])
            start = []
        else:
            root = sm.ModifiedCell(lat, pos, num)
            start = [[tuple(q), int(z)] for q, z in zip(c['pos'], c['num'])]
        env = dict(sm=sm, site=site, el=el, cl=cl, np=np, lat=lat, keep=keep, root=root,
                   start=start, res=res, parent=parent)
        look(root, start, 'a new cell', np)
        progs = [Prog(ops, env) for ops in sc['progs']]
        self.threads(sc, p, res, [g.run for g in progs], env)
        look(root, start, 'the cell the copies were made from', np)
        for g in progs:
            g.all('at the end')
        if (lat.tolist(), pos.tolist(), num.tolist()) != keep:
            raise Bad('the arrays a cell was made from were changed')
        if parent is not None and (parent.positions.tolist(), parent.numbers.tolist()) != pk:
            raise Bad('the general cell a mutable cell was made from was changed')
        # a later cell of this process must not remember earlier ones
        again = sm.ModifiedCell(lat)
        look(again, [[(0, 0, 0), 0]], 'a new cell made by default', np)

    # -- grids -------------------------------------------------------------------------
    def grids(self, sc, p, imp, res):
        sm, el = imp('ababe.stru.scaffold'), imp('ababe.stru.element')
        np = S.TYPE_NP
        sp = lambda z: el.GhostSpecie() if z == 0 else el.Specie(C.ELEMENTS[z])
        d, w, l = sc['size']
        z = sc['z']
        G = sm.SitesGrid
        src = None
        if sc['made'] == 'sea':
            root = G.sea(d, w, l, sp(z))
            start = [[[z] * l for _ in range(w)] for _ in range(d)]
        elif sc['made'] == 'fill':
            root = G.random_fill(sp(z), (d, w, l), sp(47))
            start = grid_of(root)
        else:
            rng = S.RealRandom('g%d' % sc['seed'])
            start = [[[rng.choice(SPC) for _ in range(l)] for _ in range(w)] for _ in range(d)]
            if sc['made'] == 'array':
                src = np.array(start)
                root = G.from_array(src)
            else:
                root = G([[[sp(x) for x in r] for r in s] for s in start])
        env = dict(G=G, sp=sp, np=np, root=root, start=start, size=sc['size'], res=res,
                   s2=imp('ababe.stru.scaffold2d'), sm=sm)
        if grid_of(root) != start:
            raise Bad('a new grid holds %s instead of %s' % (grid_of(root), start))
        progs = [GridProg(ops, env) for ops in sc['progs']]
        self.threads(sc, p, res, [g.run for g in progs], env)
        if grid_of(root) != start:
            raise Bad('the grid the copies were made from holds %s instead of %s' % (
                grid_of(root), start))
        if src is not None and src.tolist() != start:
            raise Bad('the array a grid was made from was changed')
        for g in progs:
            g.all('at the end')

    def shrinks(self, sc):
        for k in range(len(sc['progs'])):
            if len(sc['progs']) > 1:
                yield H.at(sc, ('progs', k), H.DEL)
        for c in H.lists(sc, ('switch',), ('boom',), ('np_draws',)):
            yield c
        for k in range(len(sc['progs'])):
            for c in H.lists(sc, ('progs', k)):
                yield c


def grid_of(g):
    return [[[int(g[a, b, c].Z) for c in range(g.length)] for b in range(g.width)]
            for a in range(g.depth)]


def sites_of(cell):
    return [[tuple(float(x) for x in s.position), int(s.element.Z)] for s in cell]


def same(a, b):
    return len(a) == len(b) and all(
        x[1] == y[1] and max(abs(p - q) for p, q in zip(x[0], y[0])) < 1e-9
        for x, y in zip(a, b))


def short(m):
    return [[[round(float(x), 4) for x in q], z] for q, z in m][:6]


def look(cell, m, what, np):
    got = sites_of(cell)
    if len(cell) != len(m) or not same(got, m):
        raise Bad('%s holds %d sites %s instead of %d %s' % (
            what, len(cell), short(got), len(m), short(m)))
    pos, num = cell.positions, cell.numbers
    if len(pos) != len(m) or len(num) != len(m) or not same(
            [[tuple(q), int(z)] for q, z in zip(pos.tolist(), num.tolist())], m):
        raise Bad('%s holds %s, its arrays say otherwise' % (what, short(m)))


def again(env, fn):
    while True:
        try:
            return fn()
        except KeyboardInterrupt:
            env['baton'].rearm()


class Holder(object):
    def __init__(self, cell, m, base=None):
        self.cell = cell
        self.m = [[tuple(q), z] for q, z in m]
        self.base = base
        self.twice = False
        self.edits = 0
        self.latkept = True




class Prog(object):
    """One thread's edits of its own holders, against plain lists."""

    def __init__(self, ops, env):
        self.ops = ops
        self.e = env
        self.hs = []
        self.gs = []
        self.log = []

    def all(self, when):
        for k, h in enumerate(self.hs):
            look(h.cell, h.m, 'holder %d %s' % (k, when), self.e['np'])
            if h.latkept and h.cell.lattice.tolist() != self.e['keep'][0]:
                raise Bad('the lattice of holder %d changed' % k)
        for g, want in self.gs:
            if (g.positions.tolist(), g.numbers.tolist()) != want:
                raise Bad('a general cell holds other sites after a later edit')

    def run(self):
        e = self.e
        self.hs.append(Holder(again(e, e['root'].copy), e['start']))
        for n, (op, who, seed) in enumerate(self.ops):
            rng = S.RealRandom('c19-%d' % seed)
            h = self.hs[who % len(self.hs)]
            before = [list(x) for x in h.m]
            self.alts = self.after = None
            try:
                getattr(self, 'do_' + op)(h, rng)
                h.m = self.after if self.after is not None else h.m
            except KeyboardInterrupt:
                self.e['baton'].rearm()
                # cut short: as before, as after, or one of the states between
                got = again(self.e, lambda: sites_of(h.cell))
                ok = same(got, before) or (self.after is not None and same(got, self.after)) or \
                    (self.alts is not None and self.alts(got))
                if not ok:
                    raise Bad('after an interrupted %s a holder holds %s, before it %s' % (
                        op, short(got), short(before)))
                h.m = [list(x) for x in got]
                if again(self.e, lambda: len(set(id(x) for x in h.cell)) < len(h.cell)):
                    h.twice = True
            if self.after is not None:
                h.edits += 1
                if h.base is not None and h.base.edits and h.edits:
                    e['res'].nontrivial = True
            self.log.append((op, len(h.m)))
            again(self.e, lambda: self.all('after %s (step %d)' % (op, n)))
            h.m = again(self.e, lambda: sites_of(h.cell))
        return self.log

    after = None

    def site(self, rng):
        z = rng.choice(SPC)
        q = tuple(round(rng.random(), 3) for _ in range(3))
        return [q, z]

    def make(self, s):
        el = self.e['el']
        return self.e['site'].Site(s[0], el.GhostSpecie() if s[1] == 0 else C.ELEMENTS[s[1]])

    def index(self, h, rng, n=None):
        n = len(h.m) if n is None else n
        k = rng.randrange(n)
        return k - n if rng.random() < .3 else k

    def fails(self, exc, fn, what):
        try:
            fn()
        except exc:
            return
        raise Bad('%s raised nothing' % what)

    # edits
    def do_append(self, h, rng):
        s = self.site(rng)
        x = self.make(s)
        self.after = h.m + [s]
        h.cell.append(x)

    def do_append_site(self, h, rng):
        s = self.site(rng)
        x = self.make(s)
        self.after = h.m + [s]
        if h.cell.append_site(x) is not h.cell:
            raise Bad('append_site returned something else')

    def do_insert(self, h, rng):
        s = self.site(rng)
        x = self.make(s)
        k = rng.randrange(-len(h.m) - 2, len(h.m) + 3)
        self.after = [list(y) for y in h.m]
        self.after.insert(k, s)
        h.cell.insert(k, x)

    def do_set(self, h, rng):
        if not h.m:
            return self.do_read(h, rng)
        s = self.site(rng)
        x = self.make(s)
        k = self.index(h, rng)
        self.after = [list(y) for y in h.m]
        self.after[k] = s
        h.cell[k] = x

    def do_del(self, h, rng):
        if not h.m:
            return self.do_read(h, rng)
        k = self.index(h, rng)
        self.after = [list(y) for y in h.m]
        del self.after[k]
        del h.cell[k]

    def do_pop(self, h, rng):
        if not h.m:
            self.after = None
            return self.fails(IndexError, h.cell.pop, 'pop from an empty cell')
        last = rng.random() < .3
        k = -1 if last else self.index(h, rng)
        self.after = [list(y) for y in h.m]
        want = self.after.pop(k)
        got = h.cell.pop() if last else h.cell.pop(k)
        if not same([[got.position, int(got.element.Z)]], [want]):
            raise Bad('pop gave another site')

    def do_remove_site(self, h, rng):
        if not h.m:
            return self.do_read(h, rng)
        last = rng.random() < .3
        k = -1 if last else self.index(h, rng)
        self.after = [list(y) for y in h.m]
        self.after.pop(k)
        if (h.cell.remove_site() if last else h.cell.remove_site(k)) is not h.cell:
            raise Bad('remove_site returned something else')

    def do_remove_sites(self, h, rng):
        n = len(h.m)
        ks = [rng.randrange(n) for _ in range(rng.choice([0, 1, 2, n, n + 2]))] if n else []
        self.after = [y for k, y in enumerate(h.m) if k not in ks]
        self.between_removed(h, set(ks))
        arg = ks if rng.random() < .6 else set(ks) if rng.random() < .5 else tuple(ks)
        if h.cell.remove_sites(arg) is not h.cell:
            raise Bad('remove_sites returned something else')

    def between_removed(self, h, ks):
        before = [list(y) for y in h.m]

        def alts(got):
            j = 0
            for k, y in enumerate(before):
                if j < len(got) and same([got[j]], [y]):
                    j += 1
                elif k not in ks:
                    return False
            return j == len(got)
        self.alts = alts

    def between_added(self, h, new):
        before = [list(y) for y in h.m]
        self.alts = lambda got: any(same(got, before + new[:k]) for k in range(len(new) + 1))

    def news(self, rng):
        return [self.site(rng) for _ in range(rng.choice([0, 1, 2, 5]))]

    def do_extend(self, h, rng, name='extend'):
        new = self.news(rng)
        xs = [self.make(s) for s in new]
        self.after = h.m + new
        self.between_added(h, new)
        how = rng.randrange(3)
        r = getattr(h.cell, name)(xs if how == 0 else tuple(xs) if how == 1 else iter(xs))
        if name == 'append_sites' and r is not h.cell:
            raise Bad('append_sites returned something else')

    def do_append_sites(self, h, rng):
        self.do_extend(h, rng, 'append_sites')

    def do_iadd(self, h, rng):
        new = self.news(rng)
        xs = [self.make(s) for s in new]
        self.after = h.m + new
        self.between_added(h, new)
        c = h.cell
        c += xs
        if c is not h.cell:
            raise Bad('+= made another cell')

    def do_self(self, h, rng):
        """A cell extended by its own sites, or by those of another holder's copy."""
        if len(h.m) > 40:
            return self.do_clear(h, rng)
        self.after = h.m + [list(y) for y in h.m]
        self.between_added(h, [list(y) for y in h.m])
        h.twice = True
        r = rng.random()
        if r < .5:
            h.cell.extend(h.cell)
        elif r < .8:
            h.cell.append_sites(h.cell)
        else:
            c = h.cell
            c += h.cell

    def do_source(self, h, rng):
        new = self.news(rng) + [self.site(rng)]
        cut = rng.randrange(len(new))
        xs = [self.make(s) for s in new]
        before = [list(y) for y in h.m]

        def src():
            for x in xs[:cut]:
                yield x
            raise Broken()
        self.after = None
        self.between_added(h, new[:cut])
        self.fails(Broken, lambda: h.cell.extend(src()), 'extending from a failing source')
        got = sites_of(h.cell)
        # nothing, or what the source delivered
        if not (same(got, before) or self.alts(got)):
            raise Bad('after a failed extend a holder holds %s, before it %s' % (
                short(got), short(before)))
        self.after = [list(y) for y in got]

    def do_slice_get(self, h, rng):
        self.after = None
        a, b = sorted([rng.randrange(len(h.m) + 2) for _ in range(2)])
        st = rng.choice([1, 1, 2, -1])
        sl = slice(a, b, st) if st > 0 else slice(b, a, st)
        if not same(sites_of(h.cell[sl]), h.m[sl]):
            raise Bad('a slice holds other sites')

    def do_slice_set(self, h, rng):
        a, b = sorted([rng.randrange(len(h.m) + 1) for _ in range(2)])
        new = self.news(rng)
        xs = [self.make(s) for s in new]
        self.after = h.m[:a] + new + h.m[b:]
        h.cell[a:b] = xs

    def do_slice_del(self, h, rng):
        a, b = sorted([rng.randrange(len(h.m) + 1) for _ in range(2)])
        st = rng.choice([1, 1, 2])
        self.after = list(h.m)
        del self.after[a:b:st]
        del h.cell[a:b:st]

    def do_bad_index(self, h, rng):
        self.after = None
        k = rng.choice([len(h.m), len(h.m) + 3, -len(h.m) - 1])
        x = self.make(self.site(rng))
        fn = rng.choice([lambda: h.cell[k], lambda: h.cell.pop(k), lambda: h.cell.__delitem__(k),
                         lambda: h.cell.__setitem__(k, x), lambda: h.cell.remove_site(k),
                         lambda: h.cell.translate_sites(k, self.e['np'].array([1., 0, 0]))])
        self.fails(IndexError, fn, 'index %d of %d sites' % (k, len(h.m)))

    def moved(self, a, b, d):
        lat = self.e['keep'][0]
        return a[1] == b[1] and abs(C.norm(C.vm([y - x for x, y in zip(a[0], b[0])], lat)) - d) < 1e-6

    def do_perturb(self, h, rng):
        if h.twice or not h.latkept:
            return self.do_read(h, rng)
        d = rng.choice([0.0, .05, .2, .7])
        before = [list(y) for y in h.m]
        self.after = None
        self.alts = lambda got: len(got) == len(before) and all(
            self.moved(a, b, d) or same([a], [b]) for a, b in zip(before, got))
        if d == .2 and rng.random() < .5:
            h.cell.perturb()
        else:
            h.cell.perturb(d)
        got = sites_of(h.cell)
        if len(got) != len(before) or not all(self.moved(a, b, d) for a, b in zip(before, got)):
            raise Bad('perturb by %s left a holder that holds %s, before it %s' % (
                d, short(got), short(before)))
        self.after = got

    def do_translate(self, h, rng):
        if h.twice or not h.m or not h.latkept:
            return self.do_read(h, rng)
        k = self.index(h, rng)
        v = [round(rng.uniform(-2, 2), 3) for _ in range(3)]
        fr = C.vm(v, inv(self.e['keep'][0]))
        self.after = [list(y) for y in h.m]
        self.after[k] = [tuple(x + y for x, y in zip(h.m[k][0], fr)), h.m[k][1]]
        h.cell.translate_sites(k, self.e['np'].array(v))

    def do_copy(self, h, rng):
        self.after = None
        if len(self.hs) >= 6:
            self.hs.pop(rng.randrange(len(self.hs)))
        r = rng.random()
        if r < .25:
            base, c = None, self.e['root'].copy()
            m = self.e['start']
        else:
            base, c = h, h.cell.copy()
            m = h.m
        if c is h.cell or c is self.e['root']:
            raise Bad('copy returned the cell itself')
        n = Holder(c, m, base)
        n.twice = h.twice
        n.latkept = h.latkept or base is None
        if rng.random() < .1 and base is not None and n.latkept:
            # a copy's lattice is its own as well
            c.lattice[rng.randrange(3)] *= 2
            n.latkept = False
        self.hs.append(n)

    def do_drop(self, h, rng):
        self.after = None
        if len(self.hs) > 1:
            self.hs.remove(h)

    def do_to_gcell(self, h, rng):
        self.after = None
        if not h.m:
            return
        g = h.cell.to_gcell()
        a = sorted([tuple(q) + (int(z),) for q, z in zip(g.positions.tolist(), g.numbers.tolist())])
        b = sorted(tuple(q) + (z,) for q, z in h.m)
        if len(a) != len(b) or any(abs(x - y) > 1e-9 for s, t in zip(a, b) for x, y in zip(s, t)):
            raise Bad('as a general cell a holder holds %s instead of %s' % (a[:5], b[:5]))
        self.gs.append((g, (g.positions.tolist(), g.numbers.tolist())))
        self.gs = self.gs[-4:]

    def do_regcell(self, h, rng):
        """A mutable cell made from a general cell that was made from a mutable cell."""
        self.after = None
        if not h.m or not h.latkept:
            return
        g = h.cell.to_gcell()
        want = (g.positions.tolist(), g.numbers.tolist())
        c = self.e['sm'].ModifiedCell.from_gcell(g)
        n = Holder(c, [[tuple(q), z] for q, z in zip(*want)], h)
        self.gs.append((g, want))
        self.gs = self.gs[-4:]
        if len(self.hs) >= 6:
            self.hs.pop(rng.randrange(len(self.hs)))
        self.hs.append(n)

    def do_fromg(self, h, rng):
        """Another mutable cell from a general cell that already gave one."""
        self.after = None
        gs = [g for g, want in self.gs]
        if self.e['parent'] is not None:
            gs.append(self.e['parent'])
        if not gs:
            return
        g = rng.choice(gs)
        if g.lattice.tolist() != self.e['keep'][0]:
            return
        c = self.e['sm'].ModifiedCell.from_gcell(g)
        if len(self.hs) >= 6:
            self.hs.pop(rng.randrange(len(self.hs)))
        self.hs.append(Holder(c, [[tuple(q), int(z)] for q, z in zip(g.positions.tolist(),
                                                                g.numbers.tolist())], h))

    def do_eq(self, h, rng):
        self.after = None
        o = rng.choice(self.hs)
        if not (h.latkept and o.latkept):
            return
        # far from the tolerance of the comparison only
        near = len(h.m) == len(o.m) and all(
            max(abs(p - q) for p, q in zip(x[0], y[0])) < 1e-3 and x[1] == y[1]
            for x, y in zip(h.m, o.m))
        if same(h.m, o.m):
            want = True
        elif not near:
            want = False
        else:
            return
        if bool(h.cell == o.cell) is not want:
            raise Bad('cells that %s sites compare %s' % (
                'hold equal' if want else 'hold different', 'unequal' if want else 'equal'))
        if bool(h.cell != o.cell) is want:
            raise Bad('!= and == agree on cells that hold %s and %s' % (short(h.m), short(o.m)))

    def do_reverse(self, h, rng):
        self.after = [list(y) for y in reversed(h.m)]
        # (the mixin swaps pairs one after another)
        before = [list(y) for y in h.m]
        self.alts = lambda got: len(got) == len(before) and all(
            any(same([g], [b]) for b in before) for g in got)
        h.cell.reverse()

    def do_remove(self, h, rng):
        if not h.m or h.twice:
            return self.do_read(h, rng)
        k = rng.randrange(len(h.m))
        x = h.cell[k]
        first = [i for i, y in enumerate(h.m) if y == h.m[k]][0]
        self.after = [y for i, y in enumerate(h.m) if i != first]
        h.cell.remove(x)

    def do_index(self, h, rng):
        self.after = None
        if not h.m:
            return
        k = rng.randrange(len(h.m))
        x = self.make(h.m[k])
        first = [i for i, y in enumerate(h.m) if y == h.m[k]][0]
        if x not in h.cell or h.cell.index(x) != first or \
                h.cell.count(x) != sum(y == h.m[k] for y in h.m):
            raise Bad('index or count of a site is wrong')
        z = rng.choice([c for c in SPC if c != h.m[k][1]])
        o = self.make([h.m[k][0], z])
        n = sum(y == [h.m[k][0], z] for y in h.m)
        if (o in h.cell) != bool(n) or h.cell.count(o) != n:
            raise Bad('a site is told from one of another species at its place: wrong')
        if x == o or not x != o or x.element == o.element or not x.element != o.element or \
                x.element != self.make(h.m[k]).element:
            raise Bad('sites or species compare wrongly')
        if not same(sites_of(reversed(h.cell)), list(reversed(h.m))):
            raise Bad('reversed iteration holds other sites')

    def do_clear(self, h, rng):
        before = [list(y) for y in h.m]
        self.after = []
        self.alts = lambda got: same(got, before[:len(got)])
        h.cell.clear()
        h.twice = False

    def inside(self, h, centre, r, z):
        """Indices of the sites within r of the centre; None: too close to say."""
        lat = self.e['keep'][0]
        out = []
        reach = min(r, sum(C.norm(x) for x in lat) / 2) + 1e-3
        ims = self.e.setdefault('ims', {})
        if r not in ims:
            ims[r] = C.images(lat, reach)
        for k, (q, zz) in enumerate(h.m):
            d = [x - y - math.floor(x - y) for x, y in zip(q, centre)]
            d = min(C.norm(C.vm([x + t for x, t in zip(d, T)], lat)) for T in ims[r])
            if abs(d - r) < 1e-4:
                return None
            if d < r and (z is None or zz == z):
                out.append(k)
        return out

    def spot(self, h, rng):
        q = list(rng.choice(h.m)[0]) if h.m and rng.random() < .5 else \
            [round(rng.random(), 3) for _ in range(3)]
        if rng.random() < .1:
            q = [x + rng.choice([-2, -1, 0, 1]) for x in q]
        return q, rng.choice([.3, .9, 1.4, 2.3, 3.1, 4.4]), rng.choice([None, rng.choice(SPC[:-1]),
                                                         h.m[0][1] if h.m else None])

    def ele(self, z):
        el = self.e['el']
        return None if z is None else el.GhostSpecie() if z == 0 else el.Specie(C.ELEMENTS[z])

    def do_near(self, h, rng):
        self.after = None
        if not h.latkept:
            return
        q, r, z = self.spot(h, rng)
        want = self.inside(h, q, r, z)
        if want is None:
            return
        got = h.cell.get_points_incell_insphere(self.e['np'].array(q), r, self.ele(z))
        if sorted(got) != want:
            raise Bad('sites %s are within %s of a point, reported are %s' % (
                want, r, sorted(got)))

    def do_clarify(self, h, rng):
        if not h.latkept:
            return self.do_read(h, rng)
        spots = [self.spot(h, rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        r, z = spots[0][1:]
        ks = set()
        for s in spots:
            w = self.inside(h, s[0], r, z)
            if w is None:
                return self.do_read(h, rng)
            ks |= set(w)
        self.after = [y for k, y in enumerate(h.m) if k not in ks]
        self.between_removed(h, ks)
        c = self.e['cl'].AtomRemoveClarifier([s[0] for s in spots], r, self.ele(z))
        c.clarify(h.cell)

    def do_read(self, h, rng):
        self.after = None
        look(h.cell, h.m, 'a holder', self.e['np'])


def inv(a):
    d = C.det(a)
    m = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r = [k for k in range(3) if k != j]
            c = [k for k in range(3) if k != i]
            m[i][j] = (a[r[0]][c[0]] * a[r[1]][c[1]] - a[r[0]][c[1]] * a[r[1]][c[0]]) * \
                (-1) ** (i + j) / d
    return m


class GridProg(object):
    def __init__(self, ops, env):
        self.ops = ops
        self.e = env
        self.hs = []
        self.log = []
        self.st = []

    def stru(self, h, rng):
        """A structure over a grid shows the grid as it is now."""
        e = self.e
        np = e['np']
        C3 = e['sm'].CStru
        cp = lambda m: [[list(r) for r in s] for s in m]
        if not self.st or rng.random() < .5:
            k = rng.randrange(len(MATS))
            mat = [list(r) for r in MATS[k]]
            if rng.random() < .6:
                self.st.append((C3(mat, h[0]), k, h[0], h[1]))
            else:
                a = np.array(h[1])
                s = C3.from_array(mat, a)
                a[0, 0, 0] = 98
                n = [s.sites_grid, cp(h[1]), None, [0]]
                if len(self.hs) < 6:
                    self.hs.append(n)
                self.st.append((s, k, n[0], n[1]))
            del self.st[:-4]
        s, k, g, m = rng.choice(self.st)
        mat = MATS[k]
        d, w, l = e['size']
        at = [(a, b, c) for a in range(d) for b in range(w) for c in range(l)]
        num = [m[a][b][c] for a, b, c in at]
        lat = [[x * n for x in r] for r, n in zip(mat, (d, w, l))]
        pos = [[a / d, b / w, c / l] for a, b, c in at]
        off = lambda A, B: any(abs(x - y) > 1e-9 for r, q in zip(A, B) for x, y in zip(r, q))
        c1 = s.get_cell()
        for c in (c1, (s.get_lattice(), s.get_positions(), s.get_atoms())):
            if [int(x) for x in c[2]] != num:
                raise Bad('the cell of a grid structure holds %s instead of %s' % (
                    c[2].tolist(), num))
            if len(c[1]) != len(pos) or off(c[0].tolist(), lat) or off(c[1].tolist(), pos):
                raise Bad('the cell of a grid of %s sites has the lattice %s and sites %s' % (
                    e['size'], c[0].tolist(), c[1].tolist()))
        if s.get_array().tolist() != m:
            raise Bad('a grid structure holds %s instead of %s' % (s.get_array().tolist(), m))
        if C3.get_id_matrix(c1, d, w, l).tolist() != m:
            raise Bad('the matrix of a cell is not its grid')
        gc = s.get_gcell()
        got = sorted([round(float(x), 6) for x in q] + [int(z)]
                     for q, z in zip(gc.positions, gc.numbers))
        if got != sorted([round(x, 6) for x in q] + [z] for q, z in zip(pos, num)):
            raise Bad('the general cell of a grid holds %s' % (got,))
        # what was given out is the caller's own
        for x in c1:
            x[...] = 77
        if s.m != mat:
            raise Bad('the matrix of a structure became %s' % (s.m,))
        for t, j, _, o in self.st:
            if bool(s == t) is not (mat == MATS[j] and m == o):
                raise Bad('structures over %s and %s compare %s' % (m, o, s == t))
        if s == None:       # noqa: E711
            raise Bad('a structure equals None')

    def all(self, when):
        for k, (g, m, b, ed) in enumerate(self.hs):
            if grid_of(g) != m:
                raise Bad('grid %d %s holds %s instead of %s' % (k, when, grid_of(g), m))
            if (g.depth, g.width, g.length) != tuple(self.e['size']):
                raise Bad('grid %d %s changed its size' % (k, when))

    def flat(self, m, o, z, rng):
        """A layer as a two-dimensional grid."""
        e = self.e
        G2, C2 = e['s2'].SitesGrid2d, e['s2'].CStru2d
        made = []
        for x in (m, o):
            a = e['np'].array(x)
            made.append(G2.from_array(a) if rng.random() < .6 else
                        G2([[e['sp'](v) for v in r] for r in x]))
            a[0, 0] = 99
        w, l = len(m), len(m[0])
        made.append(G2.sea(w, l, e['sp'](z)) if z or rng.random() < .5 else G2.sea(w, l))
        held = [m, o, [[z] * l for _ in range(w)]]
        for g, x in zip(made, held):
            s = C2([[3, 0], [.5, 4]], g)
            for a in (g.get_array(), s.get_array()):
                if a.tolist() != x:
                    raise Bad('a flat grid holds %s instead of %s' % (a.tolist(), x))
                a[0, 0] = 98
            if (g.width, g.length, s.width, s.length) != (w, l, w, l):
                raise Bad('a flat grid of %d by %d sites is %d by %d' % (w, l, g.width, g.length))
        for g, x in zip(made, held):
            for h, y in zip(made, held):
                if bool(g == h) is not (x == y):
                    raise Bad('flat grids that hold %s and %s compare %s' % (x, y, g == h))

    def run(self):
        e = self.e
        cp = lambda m: [[list(r) for r in s] for s in m]
        self.hs.append([again(e, e['root'].deepCopy), cp(e['start']), None, [0]])
        for n, (op, who, seed) in enumerate(self.ops):
            rng = S.RealRandom('c19-%d' % seed)
            h = self.hs[who % len(self.hs)]
            g, m, base, ed = h
            at = tuple(rng.randrange(k) for k in e['size'])
            z = rng.choice(SPC)
            try:
                if op == 'set':
                    old = m[at[0]][at[1]][at[2]]
                    m[at[0]][at[1]][at[2]] = z
                    try:
                        g[at] = e['sp'](z)
                    except KeyboardInterrupt:
                        e['baton'].rearm()
                        m[at[0]][at[1]][at[2]] = again(e, lambda: grid_of(g))[at[0]][at[1]][at[2]]
                        if m[at[0]][at[1]][at[2]] not in (old, z):
                            raise Bad('an interrupted assignment left a third species')
                    ed[0] += 1
                    if base is not None and base[0]:
                        e['res'].nontrivial = True
                elif op == 'copy':
                    if len(self.hs) >= 6:
                        self.hs.pop(rng.randrange(len(self.hs)))
                    if rng.random() < .25:
                        self.hs.append([e['root'].deepCopy(), cp(e['start']), None, [0]])
                    else:
                        self.hs.append([g.deepCopy(), cp(m), ed, [0]])
                elif op == 'drop':
                    if len(self.hs) > 1:
                        self.hs.remove(h)
                elif op == 'array':
                    a = g.to_array()
                    if a.tolist() != m:
                        raise Bad('as an array a grid holds %s instead of %s' % (a.tolist(), m))
                    a[at] = 99
                elif op == 'rearray':
                    a = g.to_array()
                    self.hs.append([e['G'].from_array(a), cp(m), ed, [0]])
                    a[at] = 99
                    if len(self.hs) > 6:
                        self.hs.pop(0)
                elif op == 'new':
                    d, w, l = e['size']
                    how = rng.randrange(3)
                    if how == 0:
                        made, mm = e['G'].sea(d, w, l, e['sp'](z)), [[[z] * l for _ in range(w)]
                                                                  for _ in range(d)]
                    elif how == 1:
                        made = e['G'].random_fill(e['sp'](z), (d, w, l), e['sp'](79))
                        mm = again(e, lambda: grid_of(made))
                    else:
                        made, mm = e['G'].from_array(e['np'].array(m)), cp(m)
                    self.hs.append([made, mm, ed, [0]])
                    if len(self.hs) > 6:
                        self.hs.pop(0)
                elif op == 'eq':
                    o = rng.choice(self.hs)
                    if bool(g == o[0]) is not (m == o[1]):
                        raise Bad('grids that hold %s and %s compare %s' % (m, o[1], g == o[0]))
                elif op == 'stru':
                    self.stru(h, rng)
                elif op == 'flat':
                    self.flat(m[at[0]], rng.choice(self.hs)[1][at[0]], z, rng)
                elif op == 'bad_index':
                    k = rng.randrange(3)
                    bad = tuple(e['size'][j] + 1 if j == k else x for j, x in enumerate(at))
                    try:
                        g[bad] = e['sp'](z)
                    except IndexError:
                        pass
                    else:
                        raise Bad('an assignment outside the grid raised nothing')
            except KeyboardInterrupt:
                pass
            self.log.append((op, at))
            again(self.e, lambda: self.all('after %s (step %d)' % (op, n)))
        return self.log


CHECK = C19()
