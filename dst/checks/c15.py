"""C15: random filling uses only the two species and can reach every pattern."""
from .. import crystal as C
from .. import sim as S
from .. import world as W
from .. import proc as P
from .. import shrink as H
from ..base import Check
from . import common as M


class Bad(Exception):
    pass


ZS = [0, 1, 5, 6, 13, 14, 26, 38, 47, 56, 72, 79, 86]


class C15(Check):
    ID = 'C15'
    RUNS = {'quick': 1800, 'thorough': 60000}
    RULE = ('a run is non-trivial if a grid of more than one site was filled with two different '
            'species; distinct by hash of the patterns')
    REAL = 'ababe.stru.scaffold.SitesGrid, elements, numpy'
    ASSUME = ['"can reach" is decided by 250 fills of grids with up to 3 sites (all patterns) and '
              '160 fills of grids with up to 16 sites (all combinations of two sites)']

    def gen(self, rng, i, tier):
        many = rng.choice(['none', 'none', 'all', 'pairs'])
        if many == 'all':
            size = rng.choice([[1, 1, 1], [1, 1, 2], [2, 1, 1], [1, 3, 1], [1, 2, 1], [3, 1, 1]])
        elif many == 'pairs':
            size = rng.choice([[2, 2, 2], [1, 4, 4], [2, 3, 2], [4, 2, 2], [1, 1, 7], [5, 1, 3],
                               [2, 1, 8]])
        else:
            size = [rng.choice([1, 1, 2, 3, 4, 7, 12]) for _ in range(3)]
        b, s = rng.choice(ZS), rng.choice(ZS)
        n = rng.choice([1, 2, 3, 6])
        fills = []
        for _ in range(n):
            fills.append({'b': rng.choice([b, b, rng.choice(ZS)]),
                          's': rng.choice([s, s, rng.choice(ZS)]),
                          'size': size if rng.random() < .6 else
                          [rng.choice([1, 2, 3, 5]) for _ in range(3)]})
        return {'fills': fills, 'many': many, 'b': b, 's': s, 'size': size,
                'sized': rng.choice(['tuple', 'tuple', 'list']),
                'seed': rng.randrange(1 << 30),
                'np_draws': [[rng.randrange(n + 1), rng.choice(['lo', 'hi', 'alt', 'zero'])]
                             for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                'epochs': M.low_entropy(rng) if rng.random() < .3 else []}

    def execute(self, sc):
        res = W.Result()
        w = W.World('w')
        sim = S.Sim(w.root)
        p = sim.spawn('p0', P.lib(lambda p, imp: self.play(sc, p, imp, res)),
                      draws=W.draws_of({'seed': sc['seed'], 'epochs': sc['epochs']}),
                      np_seed=sc['seed'], np_draws=sc['np_draws'])
        sim.run()
        res.absorb(sim)
        w.close()
        if isinstance(p.exc, Bad):
            res.fail('fill', str(p.exc))
        elif p.status != 0:
            res.fail('raised', 'raised %r' % (p.exc,))
        return res

    def play(self, sc, p, imp, res):
        el = imp('ababe.stru.element')
        G = imp('ababe.stru.scaffold').SitesGrid
        sp = lambda z: el.GhostSpecie() if z == 0 else el.Specie(C.ELEMENTS[z])
        conv = tuple if sc['sized'] == 'tuple' else list

        def look(g, b, s, size):
            dims = (g.depth, g.width, g.length)
            if dims != tuple(size):
                raise Bad('the grid is %s instead of %s' % (dims, tuple(size)))
            arr = g.to_array()
            if tuple(arr.shape) != tuple(size):
                raise Bad('the array is %s instead of %s' % (arr.shape, tuple(size)))
            out = []
            for d in range(size[0]):
                for w in range(size[1]):
                    for l in range(size[2]):
                        x = g[d, w, l]
                        if not isinstance(x, el.Specie) or x.Z not in (b, s):
                            raise Bad('site %s holds %s, neither %d nor %d' % (
                                (d, w, l), getattr(x, 'Z', x), b, s))
                        if x.name != C.ELEMENTS[x.Z]:
                            raise Bad('species %d is called %s' % (x.Z, x.name))
                        if int(arr[d][w][l]) != x.Z:
                            raise Bad('the array has %s at %s, the grid %s' % (
                                arr[d][w][l], (d, w, l), x.Z))
                        out.append(int(x.Z))
            return tuple(out)
        held = []
        for f in sc['fills']:
            g = G.random_fill(sp(f['b']), conv(f['size']), sp(f['s']))
            v = look(g, f['b'], f['s'], f['size'])
            if f['b'] != f['s'] and len(v) > 1:
                res.nontrivial = True
            for h, v0, f0 in held:
                if look(h, f0['b'], f0['s'], f0['size']) != v0:
                    raise Bad('a later fill changed an earlier grid')
            held.append((g, v, f))
            res.probes['fills'] += 1
        p.np_draws = []
        p.draws.epochs = []
        b, s = sc['b'], sc['s']
        n = sc['size'][0] * sc['size'][1] * sc['size'][2]
        if sc['many'] != 'none' and b != s:
            seen = set()
            times = 250 if sc['many'] == 'all' else 160
            for _ in range(times):
                seen.add(look(G.random_fill(sp(b), conv(sc['size']), sp(s)), b, s, sc['size']))
            if sc['many'] == 'all':
                if len(seen) != 2 ** n:
                    raise Bad('%d fills reached %d of %d patterns' % (times, len(seen), 2 ** n))
                res.probes['all patterns reached'] += 1
            else:
                for i in range(n):
                    for j in range(i):
                        c = set((v[i], v[j]) for v in seen)
                        if len(c) != 4:
                            raise Bad('sites %d and %d show only %s in %d fills' % (
                                i, j, sorted(c), times))
                res.probes['all pairs reached'] += 1
            res.note(sorted(seen)[:40])
        res.note([h[1] for h in held])

    def shrinks(self, sc):
        for c in H.lists(sc, ('np_draws',), ('epochs',), ('fills',)):
            yield c
        if sc['many'] != 'none':
            yield H.at(sc, ('many',), 'none')


CHECK = C15()
