"""C12: RandomPopSet is a set whose random pop removes one present member."""
from .. import sim as S
from .. import world as W
from .. import proc as P
from .. import shrink as H
from ..base import Check
from . import common as M

# members are described by JSON values and made inside the run
KINDS = {
    'int': lambda k: k,
    'big': lambda k: (k - 3) * 10 ** 12,
    'neg': lambda k: -k,
    'str': lambda k: 'site%d' % k,
    'tuple': lambda k: (k % 4, k // 4),
    'tuple3': lambda k: (k % 3, (k // 3) % 3, k // 9),
    'float': lambda k: k / 4.0,
    'mixed': lambda k: [k, float(k) + .5, 'x%d' % k, (k,), frozenset([k]), True, 0, '', ()][k % 9]
             if k < 9 else k,
    'clash': lambda k: Clash(k),
}


class Clash(object):
    """Members that all have one hash value."""

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, Clash) and o.k == self.k

    def __repr__(self):
        return 'Clash(%d)' % self.k

    def __lt__(self, o):
        return self.k < o.k


class Bad(Exception):
    pass


BIN = ['or', 'and', 'sub', 'xor']
IBIN = ['ior', 'iand', 'isub', 'ixor']
CMP = ['le', 'lt', 'ge', 'gt', 'eq', 'ne', 'disj']


class C12(Check):
    ID = 'C12'
    RUNS = {'quick': 11000, 'thorough': 300000}
    RULE = ('a run is non-trivial if members were removed (popped or discarded) and others were '
            'added later; distinct by hash of the operation and result history')
    REAL = 'ababe.mlearn.dsutils with the collections.abc mixins'
    ASSUME = ['members are hashable and not None (None is the answer of an empty set)',
              '"can be drawn" is decided by 60 draws per member, under full-entropy draws']

    def gen(self, rng, i, tier):
        kind = rng.choice(sorted(KINDS))
        dom = rng.choice([2, 3, 4, 6, 8, 14, 40])
        ops = []
        some = lambda: [rng.randrange(dom) for _ in range(rng.choice([0, 1, 2, 4, dom]))]
        for _ in range(rng.choice([3, 6, 12, 24, 48, 90])):
            r = rng.random()
            k = rng.randrange(dom)
            if r < .3:
                ops.append([rng.choice(['add', 'push']), k])
            elif r < .45:
                ops.append(['rpop'])
            elif r < .52:
                ops.append(['rand'])
            elif r < .64:
                ops.append([rng.choice(['discard', 'discard', 'remove']), k])
            elif r < .68:
                ops.append(['pop'])
            elif r < .69:
                ops.append(['clear'])
            elif r < .77:
                ops.append([rng.choice(IBIN), some(), rng.choice(['set', 'self', 'list', 'rps'])])
            elif r < .85:
                ops.append([rng.choice(BIN), some(), rng.choice(['set', 'rps', 'keep'])])
            elif r < .93:
                ops.append([rng.choice(CMP), some(), rng.choice(['set', 'rps'])])
            elif r < .945:
                ops.append(['unhash'])
            elif r < .955:
                ops.append(['copy', rng.randrange(2)])
            elif r < .965:
                ops.append(['swap', rng.randrange(4)])
            elif r < .98:
                ops.append(['in', k])
            else:
                ops.append(['all'])
        if rng.random() < .15:
            ops.append(['drain'])
        return {'kind': kind, 'dom': dom, 'ops': ops, 'seed': rng.randrange(1 << 30),
                'init': rng.choice([None, None, some(), some() + some()]),
                'initk': rng.choice(['list', 'set', 'gen', 'tuple', 'rps']),
                'epochs': M.low_entropy(rng) if rng.random() < .5 else []}

    def execute(self, sc):
        res = W.Result()
        w = W.World('w')
        sim = S.Sim(w.root)
        p = sim.spawn('p0', P.lib(lambda p, imp: self.play(sc, p, imp, res)),
                      draws=W.draws_of({'seed': sc['seed'], 'epochs': sc['epochs']}),
                      np_seed=sc['seed'])
        sim.run()
        res.absorb(sim)
        w.close()
        if isinstance(p.exc, Bad):
            res.fail('set', str(p.exc))
        elif p.status != 0:
            res.fail('raised', 'an operation raised %r (%s)' % (p.exc, getattr(p, 'at_op', 'import')))
        return res

    def play(self, sc, p, imp, res):
        R = imp('ababe.mlearn.dsutils').RandomPopSet
        mk = KINDS[sc['kind']]
        log = []
        p.at_op = 'start'

        def other(ks, how, me):
            v = [mk(k) for k in ks]
            if how == 'self':
                return me, set(me)
            if how == 'list':
                return v, set(v)
            if how == 'rps':
                return R(v), set(v)
            return set(v), set(v)

        def agree(s, m, what):
            n = len(s)
            if n != len(m):
                raise Bad('after %s the length is %d instead of %d' % (what, n, len(m)))
            it = list(s)
            if len(it) != len(m) or set(it) != m:
                raise Bad('after %s iteration gives %r instead of %r' % (what, it[:9],
                                                                       sorted(m, key=repr)[:9]))
            for k in range(sc['dom'] + 1):
                x = mk(k) if k < sc['dom'] else 'absent'
                if (x in s) != (x in m):
                    raise Bad('after %s membership of %r is wrong' % (what, x))
            if bool(s) != bool(m):
                raise Bad('after %s truth value is wrong' % what)
        if sc['init'] is None:
            s, m = R(), set()
        else:
            v = [mk(k) for k in sc['init']]
            m = set(v)
            arg = {'list': v, 'set': set(v), 'tuple': tuple(v)}.get(sc['initk'])
            if arg is None:
                arg = (x for x in v) if sc['initk'] == 'gen' else R(v)
            s = R(arg)
            if sc['initk'] == 'rps':
                agree(arg, m, 'being copied')
        agree(s, m, 'construction')
        # other sets of the history; no operation on one may show in another
        others = []

        def park(t, u):
            others.append((t, u))
            del others[:-4]
        if sc['init'] is not None and sc['initk'] == 'rps':
            park(arg, set(m))
        removed = False
        for op in sc['ops']:
            o = op[0]
            p.at_op = o
            ret = None
            if o in ('add', 'push'):
                getattr(s, o)(mk(op[1]))
                if removed and mk(op[1]) not in m:
                    res.nontrivial = True
                m.add(mk(op[1]))
            elif o in ('rpop', 'rand'):
                ret = s.random_pop() if o == 'rpop' else s.get_random()
                if not m:
                    if ret is not None:
                        raise Bad('%s of an empty set gave %r' % (o, ret))
                elif ret is None or ret not in m:
                    raise Bad('%s gave %r, which is no member' % (o, ret))
                elif o == 'rpop':
                    m.discard(ret)
                    removed = True
            elif o == 'discard':
                removed = removed or mk(op[1]) in m
                s.discard(mk(op[1]))
                m.discard(mk(op[1]))
            elif o == 'remove':
                try:
                    s.remove(mk(op[1]))
                    if mk(op[1]) not in m:
                        raise Bad('removing an absent member raised nothing')
                    m.remove(mk(op[1]))
                    removed = True
                except KeyError:
                    if mk(op[1]) in m:
                        raise Bad('removing a present member raised KeyError')
            elif o == 'pop':
                try:
                    ret = s.pop()
                    if ret not in m:
                        raise Bad('pop gave %r, which is no member' % (ret,))
                    m.remove(ret)
                    removed = True
                except KeyError:
                    if m:
                        raise Bad('pop of a non-empty set raised KeyError')
            elif o == 'clear':
                s.clear()
                m = set()
                removed = True
            elif o in IBIN:
                if op[2] == 'list' and o != 'ior':
                    a, b = other(op[1], 'set', s)
                else:
                    a, b = other(op[1], op[2], s)
                if o == 'ior':
                    s |= a
                    m |= b
                elif o == 'iand':
                    s &= a
                    m &= b
                elif o == 'isub':
                    s -= a
                    m -= b
                else:
                    s ^= a
                    m ^= b
                if op[2] == 'rps':
                    park(a, b)
                removed = True
            elif o in BIN:
                a, b = other(op[1], 'rps' if op[2] == 'keep' else op[2], s)
                if o == 'or':
                    t, u = s | a, m | b
                elif o == 'and':
                    t, u = s & a, m & b
                elif o == 'sub':
                    t, u = s - a, m - b
                else:
                    t, u = s ^ a, m ^ b
                if type(t) is not R:
                    raise Bad('%s gives a %s' % (o, type(t).__name__))
                agree(t, u, o)
                x = t.random_pop()
                if (x is None) != (not u) or (u and x not in u):
                    raise Bad('random_pop of the result of %s gave %r' % (o, x))
                u.discard(x)
                agree(t, u, o + ' and random_pop')
                agree(s, m, o + ' (left side)')
                if op[2] != 'set':
                    park(a, b)
                if op[2] == 'keep':
                    park(s, m)
                    s, m = t, u
                else:
                    park(t, u)
            elif o in CMP:
                a, b = other(op[1], op[2], s)
                got = {'le': lambda: s <= a, 'lt': lambda: s < a, 'ge': lambda: s >= a,
                       'gt': lambda: s > a, 'eq': lambda: s == a, 'ne': lambda: s != a,
                       'disj': lambda: s.isdisjoint(a)}[o]()
                want = {'le': lambda: m <= b, 'lt': lambda: m < b, 'ge': lambda: m >= b,
                        'gt': lambda: m > b, 'eq': lambda: m == b, 'ne': lambda: m != b,
                        'disj': lambda: m.isdisjoint(b)}[o]()
                if got is not want:
                    raise Bad('%s gave %r for %r and %r' % (o, got, sorted(m, key=repr)[:8],
                                                          sorted(b, key=repr)[:8]))
            elif o == 'unhash':
                try:
                    s.add([1])
                    raise Bad('adding an unhashable object raised nothing')
                except TypeError:
                    pass
            elif o == 'copy':
                t = R(s)
                if op[1]:
                    s, t = t, s
                park(t, set(m))
            elif o == 'swap':
                if others:
                    t, u = others.pop(op[1] % len(others))
                    park(s, m)
                    s, m = t, u
            elif o == 'in':
                if (mk(op[1]) in s) != (mk(op[1]) in m):
                    raise Bad('membership of %r is wrong' % mk(op[1]))
            elif o == 'all' and m and len(m) <= 8:
                ep, p.draws.epochs = p.draws.epochs, []
                seen = set()
                for _ in range(60 * len(m)):
                    seen.add(s.get_random())
                p.draws.epochs = ep
                if seen - m:
                    raise Bad('get_random gave %r' % list(seen - m)[:3])
                if m - seen:
                    raise Bad('%r is never drawn from %d members' % (list(m - seen)[:3], len(m)))
            elif o == 'drain':
                got = []
                for _ in range(len(m)):
                    got.append(s.random_pop())
                if set(got) != m or len(got) != len(m) or s.random_pop() is not None:
                    raise Bad('draining %r gave %r' % (sorted(m, key=repr)[:8], got[:8]))
                m = set()
            agree(s, m, o)
            for t, u in others:
                agree(t, u, o + ' on another set')
            log.append((o, len(s), repr(ret)))
        p.at_op = 'end'
        res.probes['operations'] += len(log)
        res.note(log, sorted(map(repr, m)))

    def shrinks(self, sc):
        for c in H.lists(sc, ('ops',), ('epochs',), ('init',)):
            yield c


CHECK = C12()
