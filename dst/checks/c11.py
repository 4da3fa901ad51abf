"""C11: a random-walk arrangement is connected, repeat-free and full length."""
import os
from .. import sim as S
from .. import world as W
from .. import proc as P
from .. import shrink as H
from ..baton import Baton
from ..base import Check
from . import common as M


class Bad(Exception):
    pass


def brute(m, size, pos, delta):
    """Sites of a grid within delta of pos, or None if some site is at a tie."""
    dim = len(m)
    cart = lambda q: [sum(q[i] * m[i][k] for i in range(dim)) for k in range(dim)]
    c = cart(pos)
    out = set()
    for q in sites(size):
        if q == pos:
            continue
        d = sum((x - y) ** 2 for x, y in zip(c, cart(q))) ** .5
        if abs(d - delta) < 1e-6 * (1 + delta):
            return None
        if d < delta:
            out.add(q)
    return out


def sites(size):
    if len(size) == 2:
        return [(x, y) for x in range(size[0]) for y in range(size[1])]
    return [(x, y, z) for x in range(size[0]) for y in range(size[1]) for z in range(size[2])]


def connected(m, size, delta):
    start = tuple([s // 2 for s in size])
    seen, todo = set([start]), [start]
    while todo:
        nb = brute(m, size, todo.pop(), delta)
        if nb is None:
            return None
        for q in nb - seen:
            seen.add(q)
            todo.append(q)
    return seen


class C11(Check):
    ID = 'C11'
    RUNS = {'quick': 8000, 'thorough': 120000}
    RULE = ('a run is non-trivial if the walk visits at least three sites; distinct by hash of '
            'problem and path')
    REAL = 'ababe.mlearn.arrange, arrangeAgent and dsutils, ababe.stru.scaffold/scaffold2d grids, scipy'
    ASSUME = ['distances nearer than 1e-6 to the threshold are not judged',
              'a problem never names the start site a neighbour of itself',
              'termination: at most 4 n + 50 calls of each callback for n sites']

    def gen(self, rng, i, tier):
        if i % 12 == 5:
            return self.gen_multi(rng)
        return self.gen_one(rng)

    def gen_multi(self, rng):
        """Several problems in one process, in turn or in caller threads."""
        parts = [self.gen_one(rng)]
        for _ in range(rng.choice([1, 2, 2, 3])):
            a = rng.choice(parts)
            b = self.gen_one(rng)
            r = rng.random()
            if r < .8 and a['kind'] in ('grid', 'nb'):
                # of the same size, or on the same lattice, or with the same threshold
                b = {'kind': 'nb', 'seed': rng.randrange(1 << 30), 'epochs': []}
                b.update(m=[list(v) for v in a['m']], size=list(a['size']), delta=a['delta'])
                dim = len(a['size'])
                if r < .35:
                    f = rng.choice([.4, .7, 1.6, 2.5])
                    k = rng.randrange(dim)
                    b['m'][k] = [round(x * f, 4) for x in b['m'][k]]
                elif r < .5:
                    b['delta'] = round(a['delta'] * rng.choice([.5, .8, 1.3, 2]), 4)
                elif r < .65:
                    b['size'] = rng.sample(b['size'], dim)
                elif r < .72:
                    k = rng.randrange(dim)
                    b['size'][k] = rng.choice([1, 2, 3, 4])
                else:
                    b['seed'] = a['seed']
            elif r < .8 and a['kind'] in ('boron', 'fcc'):
                b = dict(a, goal=rng.choice([1, 2, 3, 4, 5]))
                if rng.random() < .3:
                    b['kind'] = 'fcc' if a['kind'] == 'boron' else 'boron'
            elif r < .8 and a['kind'] == 'graph':
                b = self.gen_one(rng)
                for _ in range(40):
                    if b['kind'] == 'graph' and b['n'] == a['n']:
                        break
                    b = self.gen_one(rng)
                if b['kind'] == 'graph':
                    b['name'] = a['name']
            parts.append(b)
        sc = {'kind': 'multi', 'parts': parts, 'seed': rng.randrange(1 << 30),
              'epochs': M.low_entropy(rng) if rng.random() < .4 else [], 'switch': []}
        if rng.random() < .5:
            n = len(parts)
            d = rng.choice([1, 3, 7, 17, 41])
            sc['switch'] = [[s, s // d] for s in range(d, 3000, d)] if rng.random() < .5 else \
                sorted([rng.randrange(1, 1500), rng.randrange(n)] for _ in range(30))
        return sc

    def gen_one(self, rng):
        kind = rng.choice(['boron', 'fcc', 'grid', 'grid', 'graph', 'graph', 'graph', 'nb', 'nb'])
        sc = {'kind': kind, 'seed': rng.randrange(1 << 30),
              'epochs': M.low_entropy(rng) if rng.random() < .6 else []}
        if kind == 'boron':
            sc['goal'] = rng.choice([1, 2, 3, 4, 5, 7, 9, 12])
        elif kind == 'fcc':
            sc['goal'] = rng.choice([1, 2, 3, 4, 5])
        elif kind in ('grid', 'nb'):
            for _ in range(50):
                two = rng.random() < .5
                dim = 2 if two else 3
                r = rng.random()
                if r < .3:
                    m = [[2, 0], [1, 1.732058]] if two else [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
                else:
                    m = [[round(rng.uniform(-3, 3), 3) for _ in range(dim)] for _ in range(dim)]
                size = [rng.choice([1, 1, 2, 3, 4, 5, 6][:7 if two else 5]) for _ in range(dim)]
                if rng.random() < .2:
                    size = [1] * dim
                    size[rng.randrange(dim)] = rng.choice([1, 2, 3, 6])
                delta = round(rng.choice([.3, .8, 1.3, 2.1, 3.3, 5.7]) * rng.uniform(.8, 1.3), 4)
                if len(set(tuple(round(sum(q[i] * m[i][k] for i in range(dim)), 5)
                                 for k in range(dim)) for q in sites(size))) < len(sites(size)):
                    continue
                sc.update(m=m, size=size, delta=delta)
                if kind == 'nb':
                    break
                reach = connected(m, size, delta)
                if reach is None:
                    continue
                sc['goal'] = rng.choice([1, len(reach), rng.randrange(1, len(reach) + 1)])
                if len(reach) > 2 or rng.random() < .2:
                    break
            else:
                sc['kind'] = 'boron'
                sc['goal'] = 4
        else:
            n = rng.choice([1, 2, 3, 5, 8, 12, 20, 40])
            edges = []
            for v in range(1, n):
                u = rng.randrange(max(0, v - rng.choice([1, 2, 50])), v)
                edges.append([u, v])
                if rng.random() < .7:
                    edges.append([v, u])
            for _ in range(rng.randrange(0, 2 * n)):
                u, v = rng.randrange(n), rng.randrange(n)
                if u != v:
                    edges.append([u, v])
            sc.update(n=n, edges=edges, goal=rng.choice([n, n, rng.randrange(1, n + 1)]),
                      ret=rng.choice(['set', 'list', 'dup', 'gen', 'frozen']),
                      name=rng.choice(['int', 'tuple', 'str']),
                      goalfn=rng.choice(['eq', 'ge']), again=rng.random() < .3)
        return sc

    def execute(self, sc):
        res = W.Result()
        w = W.World('w')
        sim = S.Sim(w.root)
        p = sim.spawn('p0', P.lib(lambda p, imp: self.play(sc, p, imp, res)),
                      draws=W.draws_of({'seed': sc['seed'], 'epochs': sc['epochs']}),
                      np_seed=sc['seed'])
        sim.run()
        res.absorb(sim)
        w.close()
        if isinstance(p.exc, Bad):
            res.fail('walk', str(p.exc))
        elif p.status != 0:
            res.fail('raised', 'raised %r' % (p.exc,))
        return res

    def play(self, sc, p, imp, res):
        arr = imp('ababe.mlearn.arrange')
        k = sc['kind']
        if k == 'multi':
            return self.multi(sc, p, imp, res)
        if k == 'nb':
            return self.neighbours(sc, imp, res)
        base = arr.ArrangeProblem
        calls = {'n': 0, 'g': 0}
        if k in ('boron', 'fcc'):
            ag = imp('ababe.mlearn.arrangeAgent')
            g = sc['goal']
            prob = (ag.Boron2dArrangeProblem if k == 'boron' else ag.FCC3dArrangeProblem)(g)
            m = [[2, 0], [1, 1.732058]] if k == 'boron' else \
                [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
            size = [g] * len(m)
            all_sites = set(sites(size))
            start = tuple([x // 2 for x in size])
            nbs = lambda q: brute(m, size, q, 2.1)
            n = len(all_sites)
        elif k == 'grid':
            bg = self.grid(sc, imp)

            class Grid(base):
                def get_start_position(self):
                    return bg.get_midpoint()

                def is_goal(self, n):
                    return n == sc['goal']

                def get_neighbors(self, q):
                    return bg.get_neighbors(q, sc['delta'])
            prob = Grid()
            all_sites = set(sites(sc['size']))
            start = tuple([x // 2 for x in sc['size']])
            nbs = lambda q: brute(sc['m'], sc['size'], q, sc['delta'])
            n = len(all_sites)
        else:
            n = sc['n']
            nm = {'int': lambda v: v, 'tuple': lambda v: (v % 5, v // 5),
                  'str': lambda v: 's%d' % v}[sc['name']]
            adj = {}
            for u, v in sc['edges']:
                adj.setdefault(nm(u), set()).add(nm(v))
            order = {}
            for u, v in sc['edges']:
                order.setdefault(nm(u), []).append(nm(v))
            start = nm(0)
            all_sites = set(nm(v) for v in range(n))

            class Graph(base):
                def get_start_position(self):
                    return start

                def is_goal(self, len_path):
                    return len_path == sc['goal'] if sc['goalfn'] == 'eq' else len_path >= sc['goal']

                def get_neighbors(self, q):
                    if q not in all_sites:
                        raise Bad('the neighbours of %r, which is no site, are asked for' % (q,))
                    o = order.get(q, [])
                    r = sc['ret']
                    if r == 'dup':
                        return o + o[::-1]
                    if r == 'gen':
                        return (x for x in o)
                    return {'set': set, 'list': list, 'frozen': frozenset}[r](o)
            prob = Graph()
            nbs = lambda q: adj.get(q, set())
        real_n, real_g = prob.get_neighbors, prob.is_goal
        budget = 4 * n + 50

        def count_n(q):
            calls['n'] += 1
            if calls['n'] > budget:
                raise Bad('no end after %d neighbour calls for %d sites' % (budget, n))
            r = real_n(q)
            if k in ('boron', 'fcc', 'grid') and tuple(q) in all_sites:
                r = list(r)
                want = nbs(tuple(q))
                if want is not None and sorted(tuple(x) for x in r) != sorted(want):
                    raise Bad('the neighbours of %r are given as %r' % (q, sorted(r)[:9]))
                r = set(r)
            return r

        def count_g(l):
            calls['g'] += 1
            if calls['g'] > budget:
                raise Bad('no end after %d goal tests for %d sites' % (budget, n))
            return real_g(l)
        prob.get_neighbors, prob.is_goal = count_n, count_g
        for _ in range(2 if sc.get('again') else 1):
            calls['n'] = calls['g'] = 0
            path = arr.random_walk_arrange(prob)
            self.judge(sc, list(path), start, all_sites, nbs)
            res.note(k, [repr(q) for q in path])
            res.nontrivial = len(path) >= 3
            res.probes['walks'] += 1
            res.probes['steps'] += len(path)

    def multi(self, sc, p, imp, res):
        for m in ('ababe.mlearn.arrangeAgent', 'ababe.stru.scaffold2d'):
            imp(m)
        if sc['switch']:
            b = Baton(p, [lambda part=part: self.play(part, p, imp, res)
                          for part in sc['parts']], sc['switch'],
                      os.path.join(S.REPO, 'ababe') + '/')
            b.run()
            for e in b.error:
                if e is not None:
                    raise e
            res.fired['thread switch'] += b.switched
            res.switches += b.switched
        else:
            for part in sc['parts'] + sc['parts'][:1]:
                self.play(part, p, imp, res)
        res.probes['problems in one process'] += len(sc['parts'])
        res.nontrivial = True

    def judge(self, sc, path, start, all_sites, nbs):
        if len(path) != sc['goal']:
            raise Bad('the path has %d sites instead of %d' % (len(path), sc['goal']))
        if path[0] != start:
            raise Bad('the path starts at %r instead of %r' % (path[0], start))
        for k, q in enumerate(path):
            if q not in all_sites:
                raise Bad('%r is no site' % (q,))
            if q in path[:k]:
                raise Bad('%r is visited twice' % (q,))
            if k:
                ok = False
                for r in path[:k]:
                    nb = nbs(r)
                    if nb is None or q in nb:
                        ok = True
                        break
                if not ok:
                    raise Bad('%r is no neighbour of any earlier site' % (q,))

    def grid(self, sc, imp):
        el = imp('ababe.stru.element')
        size = sc['size']
        if len(size) == 2:
            g = imp('ababe.stru.scaffold2d')
            return g.CStru2d(sc['m'], g.SitesGrid2d.sea(size[0], size[1], el.GhostSpecie()))
        g = imp('ababe.stru.scaffold')
        return g.CStru(sc['m'], g.SitesGrid.sea(size[0], size[1], size[2], el.GhostSpecie()))

    def neighbours(self, sc, imp, res):
        bg = self.grid(sc, imp)
        rng = S.RealRandom(sc['seed'])
        qs = sites(sc['size'])
        rng.shuffle(qs)
        log = []
        for q in qs[:6]:
            want = brute(sc['m'], sc['size'], q, sc['delta'])
            got = bg.get_neighbors(q, sc['delta'])
            got = sorted(tuple(int(x) for x in r) for r in got)
            log.append((q, got))
            if want is None:
                continue
            if got != sorted(want):
                raise Bad('the neighbours of %r are given as %s instead of %s' % (
                    q, got[:8], sorted(want)[:8]))
            res.probes['neighbourhoods'] += 1
            if len(want) < 2:
                res.probes['with one or none'] += 1
        res.nontrivial = len(qs) >= 3
        res.note(log, sc['m'], sc['delta'])

    def shrinks(self, sc):
        for c in H.lists(sc, ('epochs',), ('switch',), ('parts',)):
            if c.get('parts') != []:
                yield c
        if sc.get('goal', 1) > 1 and sc['kind'] != 'nb':
            for g in (1, 2, sc['goal'] - 1):
                if g < sc['goal']:
                    yield H.at(sc, ('goal',), g)


CHECK = C11()
