"""C04: an acknowledged structure write reads back as what was written."""
import os
import copy
from collections import Counter
from .. import crystal as C
from .. import sim as S
from .. import world as W
from .. import proc as P
from .. import shrink as H
from ..base import Check

KINDS = ['ENOSPC', 'EIO', 'EACCES', 'EDQUOT', 'EROFS', 'EMFILE', 'partial', 'kill', 'killpartial',
         'killpartial', 'kill', 'intr', 'mem']
PATHS = [('a.vasp', 'vasp'), ('a.yaml', 'yaml'), ('POSCAR', 'vasp'), ('POSCAR_2', 'vasp'),
         ('b.yaml', 'yaml'), ('x.yaml.d/in.vasp', 'vasp'), ('d.vasp/in.yaml', 'yaml'),
         ('UP.VASP', 'vasp'), ('UP.YAML', 'yaml'), ('a b.vasp', 'vasp'), ('conf', 'vasp!'),
         ('conf2', 'yaml!'), ('sub/POSCAR', 'vasp'), ('a.b.c.yaml', 'yaml'), ('a.b.c.vasp', 'vasp'),
         ('POSCAR.yaml', 'yaml'), ('x.yaml.d/POSCAR.bak', 'vasp'), ('.yaml.d/h.vasp', 'vasp')]
WAPI = ['general', 'general', 'general', 'out', 'stru', 'cart', 'scart']
RAPI = ['general', 'general', 'in', 'string']
TOL = 1.2e-4
KNOWN = list(range(1, 57)) + list(range(72, 87))      # the element table of ababe


def cart_ok(c):
    """Whether Cartesian coordinates of six decimals carry the fractional ones."""
    return (all(C.r4(x) == x for r in c['lat'] for x in r)
            and all(sum(abs(x) for x in r) < 2 for r in C.tr(C.inv(c['lat']))))


def some_cell(rng, n=None, ghosts=True):
    if n is None:
        n = rng.choice([1, 1, 2, 3, 4, 6, 9, 14, 30])
    zs = [rng.choice(KNOWN) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    if rng.random() < .3:
        zs[0] = rng.choice([1, 5, 6, 7, 8, 19, 23, 39, 53, 74])      # one-letter symbols
    while True:
        lat = [[round(rng.uniform(-14, 14), rng.choice([0, 1, 3, 6, 9])) for _ in range(3)]
               for _ in range(3)]
        if rng.random() < .4:
            lat = [[lat[i][i] if i == j else 0.0 for j in range(3)] for i in range(3)]
        if rng.random() < .1:
            lat[rng.randrange(3)][rng.randrange(3)] = round(rng.uniform(100, 4000), 4)
        if abs(C.det(lat)) > 5:
            break
    pos = []
    while len(pos) < n:
        r = rng.random()
        p = [round(rng.random(), rng.choice([1, 3, 4, 6, 12])) for _ in range(3)]
        if r < .08:
            p = [x + rng.choice([-1, 0, 1]) for x in p]
        elif r < .12:
            p[rng.randrange(3)] = rng.choice([0.0, -0.0, 1.0, .99999, 1e-7, -1e-7, 3e-5])
        if all(max(abs(x) for x in C.frac_delta(p, q)) > 3 * TOL for q in pos):
            pos.append([float(x) for x in p])
    num = [rng.choice(zs) for _ in range(n)]
    if ghosts and n > 1 and rng.random() < .25:
        for _ in range(rng.choice([1, 1, 2])):
            num[rng.randrange(n)] = 0
    if not any(num):
        num[0] = zs[0]
    return {'lat': lat, 'pos': pos, 'num': num}


def variant(rng, cell):
    """A cell that differs from another one in little."""
    c = copy.deepcopy(cell)
    n = len(c['num'])
    r = rng.random()
    i = rng.randrange(n)
    if r < .3 and n > 1:
        del c['num'][i], c['pos'][i]
    elif r < .5:
        c['num'][i] = rng.choice(KNOWN)
    elif r < .7 and n > 1:
        j = rng.randrange(n)
        c['num'][i], c['num'][j] = c['num'][j], c['num'][i]
    else:
        c['lat'] = [[x * 1.25 for x in r] for r in c['lat']]
    if not any(c['num']):
        c['num'][0] = 6
    return c


def torn_ok(cell, got, ghosts):
    """Is `got` the cell with (at most) one coordinate cut short?"""
    A = [(z, p) for z, p in zip(cell['num'], cell['pos']) if ghosts or z]
    B = list(zip(got['num'], got['pos']))
    if Counter(z for z, p in A) != Counter(z for z, p in B):
        return False
    for r, s in zip(cell['lat'], got['lat']):
        if any(abs(x - y) > TOL for x, y in zip(r, s)):
            return False
    bad = 0
    for z, p in A:
        for k, (zz, q) in enumerate(B):
            if z == zz and max(abs(x) for x in C.frac_delta(p, q)) <= TOL:
                del B[k]
                break
        else:
            bad += 1
    return bad <= 1


class C04(Check):
    ID = 'C04'
    RUNS = {'quick': 1500, 'thorough': 60000}
    RULE = ('a run is non-trivial if a file was written more than once, a write failed or was cut, '
            'a process died after an acknowledged write, or two writers were interleaved; distinct '
            'by event-log hash with all values read')
    REAL = 'ababe readers, writers, cells and elements, numpy, PyYAML, ruamel.yaml'
    ASSUME = ['readers keep four decimals: values are compared to 1.2e-4, positions modulo lattice '
              'translations, sites in any order',
              'process death keeps what was handed to the operating system; power loss is not part '
              'of the claim',
              'after a torn VASP write a single coordinate (the one the file ends in) may be '
              'shorter: the property speaks of the set of atoms',
              'a structure consisting of vacancies only is not written in the VASP format']

    def gen(self, rng, i, tier):
        big = rng.random() < .06
        cells = [some_cell(rng, rng.choice([230, 260]) if big else None)]
        for _ in range(rng.choice([1, 2, 3])):
            cells.append(variant(rng, rng.choice(cells)) if rng.random() < .6 else some_cell(rng))
        paths = rng.sample(range(len(PATHS)), rng.choice([1, 1, 2, 3, 4]))
        rounds = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            procs = []
            k = 2 if len(paths) > 1 and rng.random() < .3 else 1
            split = [paths] if k == 1 else [paths[::2], paths[1::2]]
            for own in split:
                ops = []
                for _ in range(rng.choice([1, 2, 3, 4, 6])):
                    if rng.random() < .62:
                        ops.append(['w', rng.choice(own), rng.randrange(len(cells)),
                                    rng.choice(WAPI), rng.random() < .4, rng.random() < .3])
                    else:
                        ops.append(['r', rng.choice(own), rng.choice(RAPI), rng.random() < .3])
                if rng.random() < .15:
                    # one reader, one name, two structures
                    q, a, api = rng.choice(own), rng.choice(WAPI), rng.choice(RAPI)
                    x = rng.randrange(len(cells))
                    y = rng.choice([c for c in range(len(cells)) if c != x] or [x])
                    rel = rng.random() < .3
                    ops = [['w', q, x, a, False, rel], ['r', q, api, rel],
                           ['w', q, y, a, False, rel], ['r', q, api, rel]]
                pd = {'ops': ops}
                if rng.random() < .55:
                    pd['faults'] = [{'at': rng.randrange(3 * len(ops) + 4),
                                     'kind': rng.choice(KINDS),
                                     'frac': rng.choice([0, .1, .5, .8, .95, .98])}
                                    for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                    if rng.random() < .2:
                        pd['faults'][0]['sticky'] = rng.choice([1, 2, 5])
                if rng.random() < .35:
                    pd['short'] = [rng.randrange(1000), rng.choice([.2, .6])]
                procs.append(pd)
            r = {'procs': procs}
            if k == 2:
                r['preempt'] = sorted(set(rng.randrange(1, 40) for _ in range(rng.choice([2, 6, 14]))))
                r['preempt'] = [[x, rng.randrange(8)] for x in r['preempt']]
            rounds.append(r)
        return {'cells': cells, 'rounds': rounds, 'cwd': rng.choice(['w', 'w', 'in.yaml', 'a.vasp.d'])}

    # -- inside a simulated process ---------------------------------------------
    def session(self, sc, ops, log):
        def use(p, imp):
            import numpy as np
            io = imp('ababe.io.io')
            vm, ym, sm = imp('ababe.io.vasp'), imp('ababe.io.yaml'), imp('ababe.stru.io')
            scaf = imp('ababe.stru.scaffold')
            cells = {}
            writers = {}

            def cell(k):
                if k not in cells:
                    c = sc['cells'][k]
                    cells[k] = scaf.GeneralCell(np.array(c['lat']), np.array(c['pos']),
                                                np.array(c['num']))
                return cells[k]

            def write(pi, ci, api, expl, reuse):
                path, fmt = PATHS[pi]
                f = fmt.rstrip('!')
                cart = api in ('cart', 'scart') and f == 'vasp' and cart_ok(sc['cells'][ci])
                api = {'cart': 'out', 'scart': 'stru'}.get(api, api)
                key = (ci, api, f)
                if reuse and key in writers:
                    wr = writers[key]
                elif api == 'general':
                    wr = io.GeneralIO(cell(ci))
                elif api == 'out':
                    wr = (vm.VaspOutput if f == 'vasp' else ym.YamlOutput)(cell(ci))
                else:
                    wr = (sm.VaspPOSCAR if f == 'vasp' else sm.YamlOutput)(cell(ci))
                writers[key] = wr
                if cart:
                    with open(path, 'w') as h:
                        h.write(wr.get_string(direct=False))
                elif api == 'general':
                    wr.write_file(path, fmt=f) if expl or '!' in fmt else wr.write_file(path)
                elif api == 'out':
                    wr.write_file(path)
                else:
                    wr.write(path)

            def read(pi, api, expl):
                path, fmt = PATHS[pi]
                f = fmt.rstrip('!')
                if api == 'general':
                    c = io.GeneralIO.from_file(path, fmt=f) if expl or '!' in fmt \
                        else io.GeneralIO.from_file(path)
                else:
                    cls = vm.VaspInput if f == 'vasp' else ym.YamlInput
                    if api == 'in':
                        c = cls(path).get_cell()
                    else:
                        with open(path) as h:
                            t = h.read()
                        c = scaf.GeneralCell(*cls.from_string(t))
                return {'lat': [[float(x) for x in r] for r in c.lattice],
                        'pos': [[float(x) for x in r] for r in c.positions],
                        'num': [int(z) for z in c.numbers]}
            for op in ops:
                n = len(p.fired)
                rec = {'op': op, 'ok': None, 'faulted': False}
                log.append(rec)
                try:
                    rec['got'] = write(*op[1:]) if op[0] == 'w' else read(*op[1:])
                    rec['ok'] = True
                except (Exception, KeyboardInterrupt) as e:
                    rec['ok'] = False
                    rec['exc'] = repr(e)[:120]
                rec['faulted'] = any(k != 'short' for k, _ in p.fired[n:])
        return P.lib(use)

    def execute(self, sc):
        res = W.Result()
        w = W.World(sc['cwd'])
        for path, _ in PATHS:
            if '/' in path:
                w.mkdirs(os.path.join(w.cwd, os.path.dirname(path)))
        model = {}
        writes = Counter()
        rounds = sc['rounds'] + [{'procs': [{'ops': [
            ['r', k, a, False] for k in sorted(set(
                op[1] for r in sc['rounds'] for pd in r['procs'] for op in pd['ops']))
            for a in ('general', 'in')]}]}]
        for r in rounds:
            sim = S.Sim(w.root, preempt=r.get('preempt', ()))
            logs = []
            for pd in r['procs']:
                log = []
                logs.append(log)
                sim.spawn('p%d' % len(sim.procs), self.session(sc, pd['ops'], log),
                          faults=pd.get('faults', ()), short=pd.get('short'))
            sim.run()
            res.absorb(sim)
            if sim.switches:
                res.nontrivial = True
            for p, log in zip(sim.procs, logs):
                if not p.killed and p.status != 0:
                    res.fail('died', 'a session ended with %s: %r' % (p.status, p.exc))
                for rec in log:
                    self.judge(sc, res, model, rec, p, writes)
                if p.killed and any(x['ok'] and x['op'][0] == 'w' for x in log):
                    res.nontrivial = True
                res.note([(x['op'], x['ok'], x.get('got'), x.get('exc')) for x in log])
        if max(list(writes.values()) + [0]) > 1:
            res.nontrivial = True
        w.close()
        return res

    def judge(self, sc, res, model, rec, p, writes):
        op = rec['op']
        path, fmt = PATHS[op[1]]
        m = model.setdefault(op[1], {'opts': [], 'torn': [], 'sure': False})
        if op[0] == 'w':
            res.probes['writes'] += 1
            writes[op[1]] += 1
            if rec['ok']:
                m.update(opts=[op[2]], torn=[], sure=True)
                res.probes['acknowledged'] += 1
                return
            if rec['ok'] is False and not rec['faulted']:
                return res.fail('write', 'writing %s failed without a fault: %s' % (
                    path, rec['exc']))
            m['opts'] = m['opts'] + [op[2]]
            m['torn'] = m['torn'] + [op[2]]
            m['sure'] = False
            res.nontrivial = True
            return
        res.probes['reads'] += 1
        if not rec['ok']:
            if rec['ok'] is False and not rec['faulted'] and m['sure']:
                res.fail('lost', 'reading %s, acknowledged as written, failed: %s' % (
                    path, rec['exc']))
            return
        got = rec['got']
        gh = fmt.startswith('yaml')
        if not m['opts']:
            return res.fail('ghost', 'reading %s succeeded though nothing was written' % path)
        why = None
        for k in m['opts']:
            why = C.same_cell(self.seen(sc['cells'][k], gh), got, tol=TOL)
            if why is None:
                if m['sure'] is False and not rec['faulted']:
                    m.update(opts=[k], sure=True, torn=m['torn'])
                return
        for k in m['torn']:
            if torn_ok(sc['cells'][k], got, gh):
                res.probes['torn reads'] += 1
                return
        res.fail('wrong' if m['sure'] else 'mixed',
                 '%s reads as %d atoms %s, which was %s written: %s' % (
                     path, len(got['num']), got['num'][:12],
                     'not' if m['sure'] else 'never', why))

    @staticmethod
    def seen(cell, ghosts):
        if ghosts:
            return cell
        k = [i for i, z in enumerate(cell['num']) if z]
        return {'lat': cell['lat'], 'pos': [cell['pos'][i] for i in k],
                'num': [cell['num'][i] for i in k]}

    def shrinks(self, sc):
        for c in H.lists(sc, ('rounds',)):
            yield c
        for i, r in enumerate(sc['rounds']):
            for c in H.keys(sc, ('rounds', i, 'preempt')):
                yield c
            for c in H.lists(sc, ('rounds', i, 'procs'), ('rounds', i, 'preempt')):
                if c['rounds'][i]['procs']:
                    yield c
            for k in range(len(r['procs'])):
                for c in H.lists(sc, ('rounds', i, 'procs', k, 'ops'),
                                 ('rounds', i, 'procs', k, 'faults')):
                    yield c
                for c in H.keys(sc, ('rounds', i, 'procs', k, 'short')):
                    yield c


CHECK = C04()
