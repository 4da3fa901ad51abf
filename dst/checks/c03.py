"""C03: enumeration generators are exact in any consumption order."""
import os
import json
import itertools
from .. import sim as S
from .. import world as W
from .. import proc as P
from .. import gen
from .. import crystal as C
from .. import cmds
from .. import shrink as H
from ..baton import Baton
from ..base import Check

HERE = os.path.dirname(os.path.abspath(__file__))
COLL = None
SPECK = [5, 9, 13, 34, 79, 0]


def collisions():
    global COLL
    if COLL is None:
        with S._real['open'](os.path.join(HERE, '..', 'data', 'collisions.json')) as f:
            COLL = json.load(f)
    return COLL


class Bad(Exception):
    pass


# -- C60 oracle: the automorphisms of the bond graph -----------------------------------
_c60 = {}


def c60_group(pos):
    key = repr([[round(x, 3) for x in p] for p in pos])
    if key in _c60:
        return _c60[key]
    n = len(pos)
    if n != 60:
        raise Bad('C60 with %d sites' % n)
    d2 = [[sum((a - b) ** 2 for a, b in zip(p, q)) for q in pos] for p in pos]
    nb = []
    for i in range(n):
        near = sorted(range(n), key=lambda j: d2[i][j])[1:4]
        nb.append(set(near))
    adj = [[j in nb[i] for j in range(n)] for i in range(n)]
    # spanning order in which each vertex is adjacent to an earlier one
    order, seen = [0], set([0])
    for v in order:
        for u in sorted(nb[v]):
            if u not in seen:
                seen.add(u)
                order.append(u)
    par = {}
    for k, v in enumerate(order[1:], 1):
        par[v] = next(u for u in order[:k] if v in nb[u])
    autos = []
    img = [None] * n
    used = [False] * n

    def rec(k):
        if k == n:
            autos.append(list(img))
            return
        v = order[k]
        for c in (range(n) if k == 0 else sorted(nb[img[par[v]]])):
            if used[c]:
                continue
            if all(img[u] is None or adj[c][img[u]] for u in nb[v]):
                img[v] = c
                used[c] = True
                rec(k + 1)
                img[v] = None
                used[c] = False
    rec(0)
    if len(autos) != 120:
        raise S.HarnessError('%d automorphisms of C60' % len(autos))
    _c60[key] = autos
    return autos


class Canon60(object):
    def __init__(self, pos):
        self.g = c60_group(pos)
        self.memo = {}

    def __call__(self, v):
        v = tuple(v)
        idx = tuple((i, z) for i, z in enumerate(v) if z != 6)
        c = self.memo.get(idx)
        if c is None:
            c = self.memo[idx] = min(tuple(sorted((a[i], z) for i, z in idx)) for a in self.g)
        return c


# -- streams -------------------------------------------------------------------------
class Stream(object):
    """One generator being consumed, with what it may and must yield."""

    def __init__(self, name, it, mode, expected, canon, getv, check=None):
        self.name, self.it, self.mode = name, it, mode
        self.expected = expected          # callable -> set, or a set
        self.canon, self.getv = canon, getv
        self.got = {}
        self.last = None
        self.full = self.shut = False
        self.n = 0

    def want(self):
        if callable(self.expected):
            self.expected = self.expected()
        return self.expected

    def next(self):
        if self.full or self.shut:
            return None
        try:
            x = next(self.it)
        except StopIteration:
            self.full = True
            self.finish()
            return None
        self.n += 1
        if self.n > 60000:
            raise Bad('%s does not end' % self.name)
        self.last = x
        v = self.getv(x)
        k = self.canon(v) if self.mode == 'classes' else tuple(v)
        if k in self.got:
            raise Bad('%s: %s was yielded again as %s' % (self.name, self.got[k], short(v)))
        self.got[k] = short(v)
        if k not in self.want():
            raise Bad('%s: %s is not one of the requested occupations' % (self.name, short(v)))
        return x

    def finish(self):
        miss = [k for k in self.want() if k not in self.got]
        if miss:
            raise Bad('%s: %d of %d occupations never yielded, e.g. %s' % (
                self.name, len(miss), len(self.want()), short(min(miss))))


def short(v):
    v = list(v)
    return str(v) if len(v) <= 24 else str([x for x in enumerate(v) if x[1] != 6][:12])


class Source(object):
    """An iterator over cells that may raise."""

    def __init__(self, items, fail_at=None):
        self.items, self.k, self.fail_at = items, 0, fail_at

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail_at is not None and self.k == self.fail_at:
            self.k += 1
            raise RuntimeError('source')
        if self.k >= len(self.items):
            raise StopIteration
        self.k += 1
        return self.items[self.k - 1]


class C03(Check):
    ID = 'C03'
    RUNS = {'quick': 900, 'thorough': 20000}
    REAL = ('ababe generators and cells, numpy, spglib, xxhash, progressbar; caller threads are '
            'real threads that run one at a time under the baton')
    STUB = 'standard error, clocks'
    RULE = ('a run is non-trivial if at least two generators were open at the same time, a '
            'thread switch happened inside the code under test, a generator was closed or '
            'dropped early, or a source raised; distinct by hash of the operation log')
    ASSUME = ['consumers do not modify yielded cells in place',
              'the speckle species is not already in the parent',
              'crystals whose symmetry depends on the tolerance are not generated',
              'one generator is used by one thread at a time']

    # ---- generation ----------------------------------------------------------------
    def gen(self, rng, i, tier):
        r = i % 10
        if r in (0, 5):
            return self.gen_c60(rng, tier)
        if r == 3:
            return self.gen_coll(rng)
        if i % 40 == 19:
            return self.gen_big(rng, tier)
        if i % 40 in (8, 28, 32):
            return self.gen_grid(rng)
        threads = r in (2, 7)
        for _ in range(100):
            cell = gen.crystal(rng, 2, 6 if threads else 8, single=rng.random() < .4)
            cell = {k: cell[k] for k in ('lat', 'pos', 'num')}
            if cmds.parent_of(cell).ok:
                break
        n = len(cell['num'])
        gens = [self.one_gen(rng, cell) for _ in range(rng.choice([2, 2, 3, 4]))]
        sc = {'cell': cell, 'gens': gens, 'kind': 'threads' if threads else 'inter'}
        if r in (1, 4, 6, 7):
            # further cells in the same process, easily taken for the first
            more = []
            for _ in range(rng.choice([1, 1, 2])):
                c2 = gen.related(rng, cell)
                if c2 is not None and cmds.parent_of(c2).ok:
                    more.append(c2)
            sc['more'] = more
            for w, c2 in enumerate(more, 1):
                for g in gens[:]:
                    if g.get('w', 0) == 0 and rng.random() < .6:
                        # the same request for the other cell, where it can be made
                        h = dict(g, w=w)
                        bad = [z for z in (h['sp'], h.get('sp2')) if z in c2['num']]
                        if bad or h.get('src') or h.get('ele', c2['num'][0]) not in c2['num']:
                            h = dict(self.one_gen(rng, c2), w=w)
                        if 'ele' in h:
                            h['n'] = min(h['n'], sum(z == h['ele'] for z in c2['num']))
                        gens.append(h)
            rng.shuffle(gens)
        for g in gens:
            if rng.random() < .4:
                g['own'] = True
        if threads:
            total = 4000
            r = rng.random()
            nt = len(gens)
            if r < .4:
                sw = [[rng.randrange(1, total), rng.randrange(nt)]
                      for _ in range(rng.randrange(2, 40))]
            elif r < .7:
                d = rng.choice([3, 7, 17, 41])
                sw = [[s, s // d] for s in range(d, total, d)]
            else:
                sw = []
                for _ in range(6):
                    a = rng.randrange(1, total)
                    sw += [[s, s] for s in range(a, a + 60)]
            sc['switch'] = sw
        else:
            sc['ops'] = self.schedule(rng, len(gens))
        return sc

    def gen_big(self, rng, tier):
        """Thousands of labelled occupations of one cell."""
        top = 16 if rng.random() < .3 else 14
        for _ in range(100):
            cell = gen.crystal(rng, 10, top, single=rng.random() < .7)
            cell = {k: cell[k] for k in ('lat', 'pos', 'num')}
            if cmds.parent_of(cell).ok:
                break
        n = len(cell['num'])
        sp = rng.choice([z for z in SPECK if z not in cell['num']])
        k = rng.choice(['unitary', 'unitary', 'levels_u', 'tern'])
        g = {'kind': k, 'sp': sp, 'n': rng.randrange(n // 2 - 1, n // 2 + 2)}
        if k == 'tern':
            g['sp2'] = rng.choice([z for z in SPECK if z not in cell['num'] and z != sp])
            g['n'], g['n2'] = rng.choice([(3, 2), (2, 3), (4, 1), (3, 3)] if n < 12 else [(2, 2)])
        gens = [g, self.one_gen(rng, cell)]
        return {'cell': cell, 'gens': gens, 'kind': 'inter',
                'ops': [['new', 0], ['new', 1], ['next', 0, 5], ['next', 1, 1], ['next', 0, 40],
                        ['end', rng.randrange(1000)]]}

    def gen_grid(self, rng):
        """Speckled grids: several requests that differ in one thing."""
        def lattice():
            r = rng.random()
            if r < .6:
                return rng.choice(['bcc', 'fcc', 'scc', 'triflat'])
            a, b, c = [round(rng.uniform(.8, 2.5), 2) for _ in range(3)]
            if r < .75:
                return [[a, 0, 0], [0, a, 0], [0, 0, c]]
            if r < .9:
                return [[a, 0, 0], [0, b, 0], [0, 0, c]]
            return [[a, 0, 0], [.3, b, 0], [.2, .1, c]]

        def one():
            while True:
                size = [rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8]) for _ in range(3)]
                m = size[0] * size[1] * size[2]
                if 2 <= m <= 12:
                    break
            sea, sp = rng.sample([5, 6, 13, 29, 79], 2)
            if rng.random() < .15:
                sp = 0
            n = rng.randrange(0 if rng.random() < .1 else 1, min(m, 5) + 1)
            return {'kind': 'grid', 'm': lattice(), 'size': size, 'sea': sea, 'sp': sp, 'n': n}
        gens = [one()]
        for _ in range(rng.choice([1, 1, 2, 3])):
            g = dict(gens[0])
            r = rng.random()
            if r < .35:
                g['m'] = lattice()
            elif r < .6:
                g['size'] = rng.sample(g['size'], 3)
            elif r < .7:
                g['sea'], g['sp'] = g['sp'] or 7, g['sea']
            elif r < .8:
                g['n'] = max(1, g['n'] - 1)
            elif r < .9:
                g = one()
            gens.append(g)
        rng.shuffle(gens)
        sc = {'grid': True, 'gens': gens, 'kind': 'inter'}
        sc['ops'] = self.schedule(rng, len(gens))
        return sc

    def one_gen(self, rng, cell):
        n = len(cell['num'])
        species = sorted(set(cell['num']))
        sp = rng.choice([z for z in SPECK if z not in species])
        k = rng.choice(['unitary', 'ele', 'wy', 'tern', 'levels_u', 'levels_e', 'levels_w',
                        'filter', 'add_u', 'add_e', 'add_w'])
        g = {'kind': k, 'sp': sp, 'n': rng.randrange(0 if rng.random() < .1 else 1,
                                                     min(n, 4) + 1)}
        if k in ('ele', 'levels_e', 'add_e'):
            g['ele'] = rng.choice(species)
            m = sum(z == g['ele'] for z in cell['num'])
            g['n'] = min(g['n'], m)
        if k in ('wy', 'levels_w', 'add_w'):
            g['wy'] = rng.randrange(8)
        if k == 'tern':
            g['sp2'] = rng.choice([z for z in SPECK if z not in species and z != sp])
            g['n'] = rng.randrange(1, min(n, 3) + 1)
            g['n2'] = rng.randrange(0, min(n - g['n'], 2) + 1)
        if k in ('filter', 'add_u', 'add_e', 'add_w'):
            vs = []
            for _ in range(rng.randrange(1, 30 if k == 'filter' else 5)):
                v = list(cell['num'])
                for j in rng.sample(range(n), rng.randrange(0, min(n, 4) + 1)):
                    v[j] = sp
                vs.append(v)
            g['src'] = vs
            if rng.random() < .3:
                g['fail'] = rng.randrange(len(vs) + 1)
        return g

    def schedule(self, rng, m):
        ops = [['new', k] for k in range(m)]
        rng.shuffle(ops)
        n = rng.randrange(10, 60)
        for _ in range(n):
            r = rng.random()
            if r < .62:
                op = ['next', rng.randrange(12), rng.choice([1, 1, 1, 2, 5])]
            elif r < .74:
                op = ['level', rng.randrange(m)]
            elif r < .8:
                op = ['close', rng.randrange(12)]
            elif r < .84:
                op = ['drop', rng.randrange(12)]
            elif r < .97:
                op = ['derive', rng.randrange(12), rng.randrange(8)]
            else:
                op = ['again', rng.randrange(m)]
            # operations may come before later generators exist
            ops.insert(rng.randrange(1, len(ops) + 1), op)
        return ops + [['end', rng.randrange(1000)]]

    def gen_c60(self, rng, tier):
        deep = 3
        if tier == 'thorough' and rng.random() < .05:
            deep = 4
        gens = []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice(['c60levels', 'c60levels', 'c60filter', 'c60add', 'c60gen'])
            g = {'kind': k, 'sp': rng.choice([5, 7, 13]), 'n': rng.randrange(1, deep + 1)}
            if k in ('c60filter', 'c60add'):
                vs = []
                for _ in range(rng.randrange(1, 12)):
                    vs.append(sorted(rng.sample(range(60), rng.randrange(0, 6))))
                if k == 'c60add':
                    vs = vs[:2]
                if k == 'c60filter' and rng.random() < .7:
                    g['sp'] = 5
                    for a, b in rng.sample(collisions()['c60'] + collisions()['c60same'], 3):
                        vs += [a, b]
                    rng.shuffle(vs)
                g['src'] = vs
                if rng.random() < .2:
                    g['fail'] = rng.randrange(len(vs) + 1)
            gens.append(g)
        return {'c60': True, 'gens': gens, 'kind': 'inter',
                'ops': self.schedule(rng, len(gens))}

    def gen_coll(self, rng):
        """Occupations of a 24-site cell that agree in a 32-bit hash."""
        pos = []
        while len(pos) < 24:
            p = [round(rng.random(), 4) for _ in range(3)]
            if all(sum(min(abs(a - b), 1 - abs(a - b)) ** 2 for a, b in zip(p, q)) > .01
                   for q in pos):
                pos.append(p)
        pos.sort(key=lambda p: [round(x, 3) for x in p])
        cell = {'lat': [[11.0, 0.0, 0.0], [.3, 12.0, 0.0], [.7, .2, 13.0]], 'pos': pos,
                'num': [29] * 24}
        vs = []
        for a, b in rng.sample(collisions()['cell24'] + collisions()['cell24same'], 5):
            for idx in (a, b):
                vs.append([79 if j in idx else 29 for j in range(24)])
        rng.shuffle(vs)
        g = [{'kind': 'filter', 'sp': 79, 'n': 1, 'src': vs}]
        if rng.random() < .5:
            g.append({'kind': 'unitary', 'sp': 79, 'n': 1})
        return {'cell': cell, 'gens': g, 'kind': 'inter', 'ops': self.schedule(rng, len(g))}

    # ---- execution -----------------------------------------------------------------
    def execute(self, sc):
        res = W.Result()
        log = []
        state = {}

        def target(p, imp):
            if sc.get('c60'):
                obj = C60World(sc, imp)
            elif sc.get('grid'):
                obj = GridWorld(sc, imp)
            else:
                obj = Cells(sc, imp)
            if sc['kind'] == 'threads':
                self.threads(sc, obj, p, res, log)
            else:
                self.inter(sc, obj, res, log)
        sim = S.Sim(os.path.join(W.BASE, 'none'))
        p = sim.spawn('p0', P.lib(target), limit=1 << 60)
        sim.run()
        res.absorb(sim)
        if isinstance(p.exc, Bad):
            res.fail('enumeration', p.exc)
        elif p.status != 0:
            res.fail('exception', '%r' % (p.exc,))
        for k, v in state.items():
            res.probes[k] += v
        res.note(log)
        res.points += len(log)
        return res

    def inter(self, sc, obj, res, log):
        streams, outers = [], {}
        maxopen = 0

        def opens():
            return [s for s in streams if not s.full and not s.shut]

        def guarded(s, f):
            """Consume; an exception of a raising source is expected."""
            try:
                return f()
            except RuntimeError as e:
                if str(e) != 'source':
                    raise
                s.shut = True
                res.fired['raising source'] += 1
                log.append('raised')
                return None
        for op in sc['ops']:
            kind = op[0]
            if kind in ('new', 'again'):
                if kind == 'again' and op[1] not in outers:
                    continue
                new = obj.start(sc['gens'][op[1]])
                outers.setdefault(op[1], []).append(new)
                if new.get('stream'):
                    streams.append(new['stream'])
                log.append(kind)
            elif kind == 'level':
                for o in outers.get(op[1], ())[-1:]:
                    s = obj.level(o)
                    if s:
                        streams.append(s)
                        log.append('level')
            elif kind in ('next', 'close', 'drop', 'derive'):
                cand = [s for s in streams if not s.shut]
                if not cand:
                    continue
                s = cand[op[1] % len(cand)]
                if kind == 'next':
                    for _ in range(op[2]):
                        guarded(s, s.next)
                    log.append((s.name, s.n, str(s.got)[-60:]))
                elif kind == 'close':
                    if hasattr(s.it, 'close') and not s.full:
                        s.it.close()
                        s.shut = True
                        res.fired['closed early'] += 1
                elif kind == 'drop':
                    if not s.full:
                        s.it = None
                        s.shut = True
                        res.fired['abandoned'] += 1
                elif s.last is not None:
                    obj.derive(s.last, op[2])
                    log.append('derive')
            else:
                rng = S.RealRandom(op[1])
                for k in sorted(outers):
                    for o in outers[k]:
                        while True:
                            s = obj.level(o)
                            if not s:
                                break
                            streams.append(s)
                todo = opens()
                rng.shuffle(todo)
                while todo:
                    maxopen = max(maxopen, len(todo))
                    s = rng.choice(todo[:3])
                    for _ in range(rng.choice([1, 3, 1000])):
                        guarded(s, s.next)
                        if s.full or s.shut:
                            break
                    if s.full or s.shut:
                        todo.remove(s)
                log.append([(s.name, s.n, s.full) for s in streams])
            maxopen = max(maxopen, len(opens()))
        res.probes['streams'] += len(streams)
        res.probes['fully drained'] += sum(s.full for s in streams)
        res.nontrivial = maxopen >= 2 or bool(res.fired)

    def threads(self, sc, obj, p, res, log):
        fns = []
        for g in sc['gens']:
            def fn(g=g):
                new = obj.start(g)
                out = []
                s = new.get('stream')
                while True:
                    if s is None:
                        s = obj.level(new)
                        if s is None:
                            break
                    while not s.full:
                        try:
                            if s.next() is None:
                                break
                        except RuntimeError as e:
                            if str(e) != 'source':
                                raise
                            break
                    out.append((s.name, s.n, s.full))
                    if 'stream' in new:
                        break
                    s = None
                return out
            fns.append(fn)
        b = Baton(p, fns, sc['switch'], os.path.join(S.REPO, 'ababe') + '/')
        b.run()
        for e in b.error:
            if e is not None:
                raise e
        log.append((b.result, b.switched, b.step))
        res.fired['thread switch'] += b.switched
        res.switches += b.switched
        res.probes['line steps'] += b.step
        res.nontrivial = b.switched > 0

    def shrinks(self, sc):
        for c in H.lists(sc, ('ops',), ('switch',)):
            if c.get('ops') is not None and not any(o[0] == 'end' for o in c['ops']):
                continue
            yield c
        if len(sc['gens']) > 1 and sc['kind'] == 'threads':
            for c in H.lists(sc, ('gens',)):
                if len(c['gens']) > 1:
                    yield c


class Cells(object):
    """The cells of one run, each with its generators."""

    def __init__(self, sc, imp):
        self.worlds = [CellWorld(c, imp) for c in [sc['cell']] + sc.get('more', [])]

    def start(self, g):
        w = self.worlds[g.get('w', 0) % len(self.worlds)]
        new = w.start(g)
        new['world'] = w
        return new

    def level(self, o):
        return o['world'].level(o)

    def derive(self, x, code):
        self.worlds[0].derive(x, code)
        for w in self.worlds:
            if x.lattice.tolist() == w.cell['lat'] and x.positions.tolist() == w.cell['pos']:
                w.compare(x, code)
                break


class CellWorld(object):
    def __init__(self, c, imp):
        import numpy as np
        self.np = np
        self.imp = imp
        self.sogen = imp('ababe.stru.sogen')
        self.scaffold = imp('ababe.stru.scaffold')
        self.el = imp('ababe.stru.element')
        self.gcell = self.scaffold.GeneralCell(np.array(c['lat']), np.array(c['pos']),
                                               np.array(c['num']))
        # the oracle works on the sites in the order the cell presents them
        got = {'lat': self.gcell.lattice.tolist(), 'pos': self.gcell.positions.tolist(),
               'num': [int(z) for z in self.gcell.numbers]}
        e = C.same_cell(c, got, tol=1e-9)
        if e:
            raise Bad('the cell differs from what it was made of: %s' % e)
        self.cell = got
        # ops give vectors in the scenario's order of sites
        self.map = []
        for q in got['pos']:
            for k, pp in enumerate(c['pos']):
                if max(abs(x) for x in C.frac_delta(q, pp)) < 1e-9:
                    self.map.append(k)
                    break
        self.P = C.Parent(got)
        self._og = None
        self.met = []
        self.letters = [str(x) for x in self.gcell.get_wyckoffs()]

    def spec(self, z):
        return self.el.GhostSpecie() if z == 0 else self.el.Specie(C.ELEMENTS[z])

    def vec(self, x):
        lat = x.lattice.tolist()
        if lat != self.cell['lat']:
            raise Bad('lattice of a yielded cell differs')
        pos = x.positions.tolist()
        if pos != self.cell['pos']:
            raise Bad('sites of a yielded cell differ')
        return [int(z) for z in x.numbers]

    def stream(self, name, it, expected, mode='classes'):
        return Stream(name, it, mode, expected, self.P.canon, self.vec)

    def order(self, v):
        return [v[k] for k in self.map]

    def cells(self, g):
        return [self.scaffold.GeneralCell(self.gcell.lattice, self.gcell.positions,
                                          self.np.array(self.order(v))) for v in g['src']]

    def sites(self, g):
        k = g['kind']
        if 'ele' in g:
            return [i for i, z in enumerate(self.cell['num']) if z == g['ele']]
        if 'wy' in g:
            w = self.wy(g)
            return [i for i, x in enumerate(self.letters) if x == w]
        return list(range(len(self.cell['num'])))

    def wy(self, g):
        ls = sorted(set(self.letters))
        return ls[g['wy'] % len(ls)]

    def start(self, g):
        P = self.P
        og = self._og
        if og is None or g.get('own'):
            og = self.sogen.OccupyGenerator(self.gcell)
            if not g.get('own'):
                self._og = og
        sp = self.spec(g['sp'])
        k = g['kind']
        sites = self.sites(g)
        n = min(g['n'], len(sites))
        exp = lambda: P.classes_binary(sites, n, g['sp'])
        if k == 'unitary':
            return {'stream': self.stream('unitary', og.gen_nodup_unitary(n, sp), exp)}
        if k == 'ele':
            return {'stream': self.stream('of_ele', og.gen_nodup_of_ele(self.spec(g['ele']), n, sp),
                                          exp)}
        if k == 'wy':
            return {'stream': self.stream('wyckoff', og.gen_nodup(self.wy(g), n, sp), exp)}
        if k == 'tern':
            return {'stream': self.stream(
                'trinary', og.gen_nodup_trinary_alloy(sp, g['n'], self.spec(g['sp2']), g['n2']),
                lambda: P.classes_ternary(g['n'], g['sp'], g['n2'], g['sp2']))}
        if k == 'levels_u':
            return {'outer': og.all_speckle_gen_unitary(n, sp), 'k': 0, 'g': g, 'n': n,
                    'sites': sites}
        if k == 'levels_e':
            return {'outer': og.all_speckle_gen_of_ele(n, self.spec(g['ele']), sp), 'k': 0,
                    'g': g, 'n': n, 'sites': sites}
        if k == 'levels_w':
            return {'outer': og.all_speckle_gen(n, self.wy(g), sp), 'k': 0, 'g': g, 'n': n,
                    'sites': sites}
        cells = self.cells(g)
        src = Source(cells, g.get('fail'))
        vs = [tuple(self.order(v)) for v in g['src']]
        if k == 'filter':
            return {'stream': self.stream('filter', og.gen_2nodup_gen(src),
                                          lambda: set(P.canon(v) for v in vs))}
        kids = set()
        for v in vs:
            for i in sites:
                if v[i] != g['sp'] and (k != 'add_e' or v[i] == g['ele']):
                    w = list(v)
                    w[i] = g['sp']
                    kids.add(tuple(w))
        if k == 'add_u':
            it = og.gen_add_one_speckle_unitary(src, sp)
        elif k == 'add_e':
            it = og.gen_add_one_speckle_of_ele(src, self.spec(g['ele']), sp)
        else:
            it = og.gen_add_one_speckle(src, self.wy(g), sp)
        return {'stream': self.stream(k, it, kids, 'raw')}

    def level(self, o):
        if 'outer' not in o:
            return None
        try:
            it = next(o['outer'])
        except StopIteration:
            if o['k'] != o['n']:
                raise Bad('%s: %d levels instead of %d' % (o['g']['kind'], o['k'], o['n']))
            return None
        o['k'] += 1
        m = o['k']
        if m > o['n']:
            raise Bad('%s: more than %d levels' % (o['g']['kind'], o['n']))
        return self.stream('%s/%d' % (o['g']['kind'], m), it,
                           lambda: self.P.classes_binary(o['sites'], m, o['g']['sp']))

    def compare(self, x, code):
        """The generator object's own answer to "are these two equivalent"."""
        og = self._og
        if og is None:
            og = self._og = self.sogen.OccupyGenerator(self.gcell)
        v = [int(z) for z in x.numbers]
        p = self.P.perms[code * 7 % len(self.P.perms)]
        for u in [[v[k] for k in p], v[1:] + v[:1]] + self.met[-3:]:
            y = self.scaffold.GeneralCell(x.lattice, x.positions, self.np.array(u))
            want = self.P.canon(u) == self.P.canon(v)
            if bool(og.is_equivalent(x, y)) is not want:
                raise Bad('%s and %s are %sequivalent, the generator object says otherwise' % (
                    v, u, '' if want else 'not '))
        self.met.append(v)

    def derive(self, x, code):
        """Public operations on a yielded cell; none may influence a generator."""
        if code == 0:
            x.get_symmetry_permutation()
        elif code == 1:
            x.supercell(self.np.diag(self.np.array([1, 2, 1])))
        elif code == 2:
            og = self.sogen.OccupyGenerator(x)
            z = [z for z in SPECK if z not in x.numbers][0]
            for k, y in enumerate(og.gen_nodup_unitary(1, self.spec(z))):
                if k > 1:
                    break
        elif code == 3:
            m = self.scaffold.ModifiedCell.from_gcell(x)
            m.perturb(.1)
            m.remove_site(0)
        elif code == 4:
            x.comment, x.id, x.num_count, x.is_primitive()
        elif code == 5:
            x.get_refined_pcell()
        elif code == 6:
            x.get_wyckoffs(), x.get_spacegroup()
        else:
            str(self.imp('ababe.io.vasp').VaspOutput(x))


class C60World(object):
    def __init__(self, sc, imp):
        import numpy as np
        self.np = np
        self.imp = imp
        self.el = imp('ababe.stru.element')
        self.B = imp('ababe.stru.buckyball').Structure
        self.obj = self.B([6] * 60)
        self.canon = Canon60(self.obj.spg_cell[1].tolist())
        self._lv = {}

    def classes(self, k, z):
        """All classes of k speckles, grown from those of k-1."""
        if k == 0:
            return set([()])
        if (k, z) not in self._lv:
            out = set()
            for c in self.classes(k - 1, z):
                have = set(i for i, _ in c)
                for i in range(60):
                    if i not in have:
                        v = [6] * 60
                        for j, zz in c:
                            v[j] = zz
                        v[i] = z
                        out.add(self.canon(v))
            self._lv[(k, z)] = out
        return self._lv[(k, z)]

    def vec(self, x):
        v = [int(z) for z in x]
        if len(v) != 60:
            raise Bad('%d sites yielded' % len(v))
        return v

    def stream(self, name, it, expected, mode='classes'):
        return Stream(name, it, mode, expected, self.canon, self.vec)

    def start(self, g):
        sp = self.el.Specie(C.ELEMENTS[g['sp']])
        k = g['kind']
        if k == 'c60levels':
            return {'outer': self.B.all_speckle_gen(self.obj, g['n'], sp), 'k': -1, 'g': g,
                    'n': g['n']}
        if k == 'c60gen':
            return {'stream': self.stream(
                'c60gen', self.obj.to_nodup_generator(self.B.gen_speckle(sp, min(2, g['n']))),
                lambda: self.classes(min(2, g['n']), g['sp']))}
        vs = []
        for idx in g['src']:
            v = [6] * 60
            for i in idx:
                v[i] = g['sp']
            vs.append(v)
        src = Source([self.np.array(v) for v in vs], g.get('fail'))
        if k == 'c60filter':
            return {'stream': self.stream('c60filter', self.obj.to_nodup_generator(src),
                                          lambda: set(self.canon(v) for v in vs))}
        kids = set()
        for v in vs:
            for i in range(60):
                if v[i] != g['sp']:
                    w = list(v)
                    w[i] = g['sp']
                    kids.add(tuple(w))
        return {'stream': self.stream('c60add', self.obj.add_one_speckle_generator(src, sp),
                                      kids, 'raw')}

    def level(self, o):
        if 'outer' not in o:
            return None
        try:
            it = next(o['outer'])
        except StopIteration:
            if o['k'] != o['n']:
                raise Bad('%d levels instead of %d' % (o['k'], o['n']))
            return None
        o['k'] += 1
        m = o['k']
        if m > o['n']:
            raise Bad('more than %d levels' % o['n'])
        return self.stream('c60level%d' % m, it, lambda: self.classes(m, o['g']['sp']))

    def derive(self, x, code):
        if code < 4:
            self.B(list(x)).get_speckle_num(self.el.Specie('B'))
        else:
            s = self.B(x.tolist())
            s.get_name()
            for k, _ in enumerate(s.to_gen()):
                pass


class GridWorld(object):
    """Speckled periodic grids (gen_nodup_cstru)."""

    def __init__(self, sc, imp):
        import numpy as np
        self.np = np
        self.sogen = imp('ababe.stru.sogen')
        self.el = imp('ababe.stru.element')
        self.scaffold = imp('ababe.stru.scaffold')
        self._P = {}

    def spec(self, z):
        return self.el.GhostSpecie() if z == 0 else self.el.Specie(C.ELEMENTS[z])

    def parent(self, m, size, sea):
        key = repr((m, size, sea))
        if key not in self._P:
            d, w, l = size
            pos = [[c / float(d), b / float(w), a / float(l)]
                   for c in range(d) for b in range(w) for a in range(l)]
            lat = [[x * k for x in row] for row, k in zip(m, size)]
            self._P[key] = C.Parent({'lat': lat, 'pos': pos, 'num': [sea] * len(pos)})
        return self._P[key]

    def start(self, g):
        m = self.sogen.lat_dict(g['m']) if isinstance(g['m'], str) else g['m']
        want = json.loads(json.dumps(m))
        size = tuple(g['size'])
        Pa = self.parent(want, size, g['sea'])
        if not Pa.ok:
            return {}
        it = self.sogen.gen_nodup_cstru(m, self.spec(g['sea']), size, self.spec(g['sp']), g['n'])

        def vec(x):
            if json.loads(json.dumps(x.m)) != want:
                raise Bad('lattice of a yielded grid differs')
            arr = x.get_array()
            if tuple(arr.shape) != size:
                raise Bad('a grid of size %s was yielded' % (arr.shape,))
            lat, pos, num = x.get_cell()
            v = [int(z) for z in arr.flat]
            got = {'lat': lat.tolist(), 'pos': pos.tolist(), 'num': [int(z) for z in num]}
            e = C.same_cell(dict(Pa.cell, num=v), got, tol=1e-9)
            if e:
                raise Bad('the cell of a yielded grid: %s' % e)
            return v
        return {'stream': Stream('grid', it, 'classes',
                                 lambda: Pa.classes_binary(list(range(Pa.n)), g['n'], g['sp']),
                                 Pa.canon, vec)}

    def level(self, o):
        return None

    def derive(self, x, code):
        """Public operations on a yielded grid; none may influence a generator."""
        if code < 2:
            y = x.sites_grid.deepCopy()
            y[0, 0, 0] = self.spec(47)
        elif code < 4:
            x.get_gcell().get_symmetry_permutation()
        elif code < 6:
            a = x.get_array()
            a[0, 0, 0] = 47
        else:
            self.sogen.is_speckle_disjunct(x, self.spec(int(x.get_array()[0, 0, 0])))


CHECK = C03()
