"""C13: tree-search statistics stay exact over any game and failing callback."""
import hashlib
import math
from .. import sim as S
from .. import world as W
from .. import proc as P
from .. import shrink as H
from ..base import Check

TOL = 1e-9


class Bad(Exception):
    pass


class Boom(Exception):
    """The injected failure of a callback."""


NAMES = {
    'int': lambda k: k,
    'str': lambda k: 'abcdefg'[k] if k else '',
    'tuple': lambda k: () if k == 0 else (k, 'm'),
    'mixed': lambda k: [0, 'a', (1, 2), -1, None, 2.5, frozenset([3])][k],
}


class Rules(object):
    """A finite game, a pure function of its seed: everything that can be asked
    about a position depends on the moves made so far only."""

    def __init__(self, g):
        self.g = g
        self.memo = {}
        self.name = NAMES[g['names']]

    def num(self, path, what):
        """Uniform in [0, 1)."""
        k = (path, what)
        if k not in self.memo:
            h = hashlib.sha1(repr((self.g['seed'], path, what)).encode()).digest()
            self.memo[k] = int.from_bytes(h[:6], 'big') / float(1 << 48)
        return self.memo[k]

    def moves(self, path):
        g = self.g
        if len(path) >= g['depth']:
            return []
        u = self.num(path, 'n')
        if path and u < g['stop']:
            return []
        return [self.name(k) for k in range(1 + int(u * 7919 % 1 * g['width']))]

    def priors(self, path):
        """A list of (action, probability)."""
        ms = self.moves(path)
        kind = self.g['prior']
        if kind == 'flat':
            return [(m, 1.0 / len(ms)) for m in ms]
        w = [self.num(path, 'p%d' % i) for i in range(len(ms))]
        if kind == 'sharp':
            w = [x ** 6 for x in w]
        elif kind == 'zero':
            w = [0.0 if x < .4 else x for x in w]
        t = sum(w) or 1.0
        out = [(m, x / t) for m, x in zip(ms, w)]
        return out[::-1] if self.num(path, 'r') < .3 else out

    def quick(self, path):
        ms = self.moves(path)
        return [(m, self.num(path, 'q%d' % i)) for i, m in enumerate(ms)]

    def value(self, path):
        v = self.num(path, 'v')
        if self.g['values'] == 'coarse':
            return [-1, 0, 1][int(v * 3)]
        return 2 * v - 1

    def player(self, path):
        return self.g['players'][len(path) % 2]

    def winner(self, path):
        u = self.num(path, 'w')
        return 0 if u < .3 else self.g['players'][0 if u < .65 else 1]


class Node(object):
    def __init__(self, prior):
        self.n = 0
        self.total = 0.0
        self.P = prior
        self.u = prior
        self.kids = {}

    def q(self):
        return self.total / self.n if self.n else 0.0

    def value(self):
        return self.q() + self.u


class Game(object):
    """The state handed to the search; reports every use to the referee."""

    def __init__(self, ref, path, original):
        self.ref = ref
        self.path = path
        self.original = original
        ref.alive.append(self)

    def copy(self):
        self.ref.call('copy', self)
        return Game(self.ref, self.path, False)

    def do_move(self, a):
        self.ref.call('move', self, a)
        if not any(a == m and type(a) is type(m) for m in self.ref.rules.moves(self.path)):
            raise Bad('move %r is made at %r, where it is not legal' % (a, self.path))
        self.path = self.path + (a,)

    def get_current_player(self):
        self.ref.call('player', self)
        return self.ref.rules.player(self.path)

    def get_winner(self):
        self.ref.call('winner', self)
        return self.ref.rules.winner(self.path)


class Referee(object):
    """Watches one search object and keeps the reference tree."""

    def __init__(self, g, M):
        self.rules = Rules(g)
        self.g = g
        self.alive = []
        self.root = Node(1.0)
        self.base = ()
        self.calls = 0
        self.boom = None
        self.cur = None
        self.done = 0
        self.running = False
        self.boomed = False
        self.mcts = M(self.value, self.policy, self.quick, lmbda=g['lmbda'], c_puct=g['c'],
                      rollout_limit=g['limit'], playout_depth=g['L'], n_playout=g['n'])

    # callbacks ---------------------------------------------------------------
    def call(self, what, state, arg=None):
        if not self.running:
            raise Bad('%s outside a search' % what)
        if state.original and what != 'copy':
            raise Bad('%s on the caller\'s own state' % what)
        if what == 'copy':
            self.finish()
            if not state.original:
                raise Bad('a copy of a copy is made')
        self.calls += 1
        if self.boom is not None and self.calls == self.boom[0] and \
                (self.boom[1] is None or self.boom[1] == what):
            self.boomed = True
            raise Boom()
        if what == 'copy':
            self.cur = {'leaf': None, 'state': None}
            return
        if self.cur is None:
            raise Bad('%s before any copy' % what)
        if self.cur['state'] is None:
            self.cur['state'] = state
            if state.path != self.base:
                raise Bad('a playout starts at %r instead of %r' % (state.path, self.base))
        elif self.cur['state'] is not state:
            raise Bad('a playout uses two states')
        if what in ('value', 'quick', 'player'):
            if self.cur['leaf'] is None:
                self.cur['leaf'] = state.path
            if what == 'value' and state.path != self.cur['leaf']:
                raise Bad('the leaf is %r, the value function is asked about %r' % (
                    self.cur['leaf'], state.path))
            if what == 'player' and state.path != self.cur['leaf']:
                raise Bad('the leaf is %r, the player is asked at %r' % (
                    self.cur['leaf'], state.path))

    def value(self, st):
        self.call('value', st)
        return self.rules.value(st.path)

    def policy(self, st):
        self.call('policy', st)
        return self.rules.priors(st.path)

    def quick(self, st):
        self.call('quick', st)
        return self.rules.quick(st.path)

    # the reference -------------------------------------------------------------
    def leaf_value(self, leaf):
        g, r = self.g, self.rules
        v = r.value(leaf) if g['lmbda'] < 1 else 0
        z = 0
        if g['lmbda'] > 0:
            p = leaf
            for _ in range(g['limit']):
                acts = r.quick(p)
                if not acts:
                    break
                p = p + (max(acts, key=lambda t: t[1])[0],)
            w = r.winner(p)
            z = 0 if w == 0 else (1 if w == r.player(leaf) else -1)
        return (1 - g['lmbda']) * v + g['lmbda'] * z

    def finish(self):
        """A playout has ended: follow it in the reference tree."""
        cur, self.cur = self.cur, None
        if cur is None:
            return
        leaf = cur['leaf']
        if leaf is None:
            raise Bad('a playout ended without evaluating a leaf')
        g = self.g
        k = len(self.base)
        steps = leaf[k:]
        if leaf[:k] != self.base:
            raise Bad('a playout left the position')
        if len(steps) > g['L']:
            raise Bad('a playout went %d deep instead of %d' % (len(steps), g['L']))
        if len(steps) < g['L'] and self.rules.moves(leaf):
            raise Bad('a playout stopped after %d of %d moves, the game goes on' % (
                len(steps), g['L']))
        node = self.root
        path = self.base
        nodes = [node]
        for a in steps:
            if not node.kids:
                for b, pr in self.rules.priors(path):
                    node.kids[b] = Node(pr)
            best = max(x.value() for x in node.kids.values())
            if node.kids[a].value() < best - TOL * (1 + abs(best)):
                raise Bad('playout %d takes %r at %r with score %.9f; the best has %.9f' % (
                    self.done, a, path, node.kids[a].value(), best))
            node = node.kids[a]
            nodes.append(node)
            path = path + (a,)
        v = self.leaf_value(leaf)
        up = None
        for x in nodes:
            x.n += 1
            x.total += v
            if up is not None:
                x.u = g['c'] * x.P * math.sqrt(up.n) / (1 + x.n)
            up = x
        self.done += 1

    # operations ------------------------------------------------------------------
    def search(self, boom=None):
        """One get_move; returns the move or None if a callback failed."""
        st = Game(self, self.base, True)
        self.boom = boom
        self.calls = 0
        self.cur = None
        self.boomed = False
        d0 = self.done
        self.running = True
        try:
            m = self.mcts.get_move(st)
            self.finish()
        except Boom:
            self.cur = None
            m = Boom
        finally:
            self.running = False
            self.boom = None
        if st.path != self.base:
            raise Bad('the caller\'s state was moved')
        if m is Boom:
            return Boom
        if self.boomed:
            raise Bad('the failure of a callback was swallowed')
        if self.done - d0 != self.g['n']:
            raise Bad('%d playouts instead of %d' % (self.done - d0, self.g['n']))
        top = max(x.n for x in self.root.kids.values())
        if m not in self.root.kids or self.root.kids[m].n != top:
            raise Bad('%r is returned with %s visits, the most visited action has %d' % (
                m, self.root.kids[m].n if m in self.root.kids else 'no', top))
        return m

    def advance(self, m):
        """Step to a legal move of the position."""
        self.running = False
        self.mcts.update_with_move(m)
        self.root = self.root.kids.get(m) or Node(1.0)
        self.base = self.base + (m,)

    def reset(self, token):
        self.mcts.update_with_move(token)
        self.root = Node(1.0)
        self.base = ()


class C13(Check):
    ID = 'C13'
    RUNS = {'quick': 8000, 'thorough': 100000}
    RULE = ('a run is non-trivial if it has at least two searches with a move between them, a '
            'failing callback, or two searchers in turn; distinct by hash of all moves and scores')
    REAL = 'ababe.mlearn.mcts, numpy'
    STUB = 'the game, value, policy and rollout functions are generated; they are parameters of the code'
    ASSUME = ['actions with scores nearer than 1e-9 count as equal, either may be taken',
              'the exploration bonus of a node is refreshed when it is visited, as the code '
              'documents', 'searches are not started at finished games']

    def gen(self, rng, i, tier):
        if i % 4 == 3:
            return self.gen_tree(rng)
        games = []
        for _ in range(2 if rng.random() < .3 else 1):
            games.append({'seed': rng.randrange(1 << 30), 'depth': rng.choice([1, 2, 3, 4, 6, 9]),
                          'stop': rng.choice([0, .1, .3]), 'width': rng.choice([1, 2, 3, 4, 6]),
                          'prior': rng.choice(['flat', 'any', 'any', 'sharp', 'zero']),
                          'values': rng.choice(['fine', 'fine', 'coarse']),
                          'players': rng.choice([[1, -1], [1, 2], ['X', 'O']]),
                          'names': rng.choice(sorted(NAMES)),
                          'lmbda': rng.choice([0, .25, .5, .5, .9, 1, 0.0, 1.0]),
                          'c': rng.choice([.1, .7, 1, 5, 5, 20]),
                          'limit': rng.choice([1, 2, 3, 500, 500]), 'L': rng.choice([1, 2, 3, 4, 8, 20]),
                          'n': rng.choice([1, 2, 5, 12, 30, 60])})
        ops = []
        for _ in range(rng.choice([1, 2, 4, 6, 9])):
            k = rng.randrange(len(games))
            r = rng.random()
            if r < .5:
                op = ['search', k]
                if rng.random() < .35:
                    op.append([rng.choice([1, 2, 3, 5, 9, 17, 40, 120]),
                               rng.choice([None, None, 'value', 'policy', 'quick', 'move', 'player',
                                           'winner', 'copy'])])
                ops.append(op)
            elif r < .9:
                ops.append(['go', k, rng.choice(['best', 'best', 'any', 'least']),
                            rng.randrange(1000)])
            else:
                ops.append(['reset', k, rng.choice(['x?', -99])])
        return {'mode': 'game', 'games': games, 'ops': ops}

    def gen_tree(self, rng):
        ops = []
        for _ in range(rng.choice([4, 10, 25, 60])):
            r = rng.random()
            if r < .2:
                ops.append(['expand', rng.randrange(50),
                            [[k, round(rng.random(), 3)] for k in
                             rng.sample(range(5), rng.choice([1, 2, 3, 4]))]])
            elif r < .55:
                ops.append(['down', rng.randrange(50)])
            elif r < .8:
                ops.append(['back', rng.randrange(50), round(rng.uniform(-1, 1), 3),
                            rng.choice([.5, 1, 5, 5])])
            elif r < .9:
                ops.append(['update', rng.randrange(50), rng.choice([-1, 0, 1, .25]),
                            rng.choice([1, 5])])
            else:
                ops.append(['walk', round(rng.uniform(-1, 1), 3), 5])
        return {'mode': 'tree', 'ops': ops, 'names': rng.choice(['int', 'str', 'tuple'])}

    def execute(self, sc):
        res = W.Result()
        w = W.World('w')
        sim = S.Sim(w.root)
        fn = self.game if sc['mode'] == 'game' else self.tree
        p = sim.spawn('p0', P.lib(lambda p, imp: fn(sc, imp('ababe.mlearn.mcts'), res)))
        sim.run()
        res.absorb(sim)
        w.close()
        if isinstance(p.exc, Bad):
            res.fail('search', str(p.exc))
        elif p.status != 0:
            res.fail('raised', 'raised %r' % (p.exc,))
        return res

    def game(self, sc, mod, res):
        refs = [Referee(g, mod.MCTS) for g in sc['games']]
        log = []
        seq = []
        for op in sc['ops']:
            r = refs[op[1]]
            if op[0] == 'search':
                if not r.rules.moves(r.base):
                    continue
                m = r.search(op[2] if len(op) > 2 else None)
                log.append(('failed' if m is Boom else repr(m), r.base,
                            sorted((repr(a), x.n, round(x.total, 6))
                                   for a, x in r.root.kids.items())))
                if m is Boom:
                    res.fired['callback raises: %s' % (op[2][1] or 'any')] += 1
                    res.nontrivial = True
                r.best = m
                seq.append(op[1])
                res.probes['searches'] += 1
            elif op[0] == 'go':
                ms = r.rules.moves(r.base)
                if not ms:
                    continue
                m = getattr(r, 'best', Boom)
                if op[2] == 'any' or m is Boom or m not in ms:
                    m = ms[op[3] % len(ms)]
                elif op[2] == 'least' and r.root.kids:
                    m = min(ms, key=lambda a: r.root.kids[a].n if a in r.root.kids else 0)
                r.best = Boom
                r.advance(m)
                if r.root.n:
                    res.probes['moves into a known subtree'] += 1
                if seq:
                    res.nontrivial = True
            else:
                r.reset(op[2])
                r.best = Boom
        res.probes['playouts'] += sum(r.done for r in refs)
        if len(set(seq)) > 1:
            res.nontrivial = True
        res.note(log)

    def tree(self, sc, mod, res):
        """The node interface, driven directly."""
        T = mod.TreeNode
        nm = NAMES[sc['names']]
        # entries: [real node, reference, entry of the parent]
        ent = [[T(None, 1.0), Node(1.0), None]]
        log = []

        def look(e):
            a, b = e[0].get_value(), e[1].value()
            if abs(a - b) > TOL * (1 + abs(b)):
                raise Bad('a node has the score %.9f instead of %.9f' % (a, b))
            if bool(e[0].is_leaf()) != (not e[1].kids):
                raise Bad('is_leaf is wrong')
            if bool(e[0].is_root()) != (e[2] is None):
                raise Bad('is_root is wrong')
            log.append(round(b, 9))

        def down(e):
            """select() and the entry of the chosen child."""
            a, child = e[0].select()
            best = max(x.value() for x in e[1].kids.values())
            if a not in e[1].kids or e[1].kids[a].value() < best - TOL * (1 + abs(best)):
                raise Bad('select takes %r with %.9f, the best has %.9f' % (
                    a, e[1].kids[a].value() if a in e[1].kids else 0, best))
            for x in ent:
                if x[0] is child:
                    if x[1] is not e[1].kids[a]:
                        raise Bad('select returns a node of another action')
                    return x
            if any(x[1] is e[1].kids[a] for x in ent):
                raise Bad('the node of an action changed')
            x = [child, e[1].kids[a], e]
            ent.append(x)
            return x

        def bump(e, v, c):
            x = e[1]
            x.n += 1
            x.total += v
            if e[2] is not None:
                x.u = c * x.P * math.sqrt(e[2][1].n) / (1 + x.n)

        def back(e, v, c):
            if e[2] is not None:
                back(e[2], v, c)
            bump(e, v, c)
        for op in sc['ops']:
            if op[0] == 'walk':
                e = ent[0]
                while e[1].kids:
                    e = down(e)
                e[0].update_recursive(op[1], op[2])
                back(e, op[1], op[2])
            else:
                e = ent[op[1] % len(ent)]
                if op[0] == 'expand':
                    pr = [(nm(k), p) for k, p in op[2]]
                    e[0].expand(pr)
                    for a, p in pr:
                        if a not in e[1].kids:
                            e[1].kids[a] = Node(p)
                elif op[0] == 'down':
                    if e[1].kids:
                        down(e)
                elif op[0] == 'back':
                    e[0].update_recursive(op[2], op[3])
                    back(e, op[2], op[3])
                else:
                    # update() needs the parent to have been counted
                    if e[2] is None or e[2][1].n:
                        e[0].update(op[2], op[3])
                        bump(e, op[2], op[3])
            for x in ent:
                look(x)
        res.nontrivial = len(ent) > 2
        res.probes['nodes'] += len(ent)
        res.note(log)

    def shrinks(self, sc):
        for c in H.lists(sc, ('ops',)):
            yield c
        for k, op in enumerate(sc['ops']):
            if op[0] == 'search' and len(op) > 2:
                yield H.at(sc, ('ops', k), op[:2])
        for k, g in enumerate(sc.get('games', ())):
            for n in (1, 2, 3, 5, 10, 20):
                if n < g['n']:
                    yield H.at(sc, ('games', k, 'n'), n)


CHECK = C13()
