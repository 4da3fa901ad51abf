"""Seeded generation of parent crystals and input files."""
import math
import itertools
from . import sim as S
from . import crystal as C

CATION = [11, 12, 19, 20, 22, 26, 29, 30, 38, 47, 55, 56]
ANION = [7, 8, 9, 16, 17]
SPECK = ['K', 'Cu', 'Ga', 'N', 'Fe', 'B', 'Al', 'C', 'Au', 'Ni']


def rnd(rng, a, b):
    return round(rng.uniform(a, b), 4)


def diag(a, b=None, c=None):
    b = a if b is None else b
    c = a if c is None else c
    return [[a, 0.0, 0.0], [0.0, b, 0.0], [0.0, 0.0, c]]


FCC = [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]


def hexlat(a, c):
    return [[C.r4(a), 0.0, 0.0], [C.r4(-a / 2), C.r4(a * math.sqrt(3) / 2), 0.0],
            [0.0, 0.0, C.r4(c)]]


def proto(rng, kind):
    """One prototype cell (before supercells); None if the kind is unknown."""
    a = rnd(rng, 3.2, 5.6)
    A, B = rng.choice(CATION), rng.choice(ANION)
    A2 = rng.choice([z for z in CATION if z != A])
    if kind == 'sc':
        return dict(lat=diag(a), pos=[[0, 0, 0]], num=[A])
    if kind == 'bcc':
        return dict(lat=diag(a), pos=[[0, 0, 0], [.5, .5, .5]], num=[A, A])
    if kind == 'fcc':
        return dict(lat=diag(a), pos=[list(p) for p in FCC], num=[A] * 4)
    if kind == 'fccp':
        h = C.r4(a / 2)
        return dict(lat=[[0, h, h], [h, 0, h], [h, h, 0]], pos=[[0, 0, 0]], num=[A])
    if kind == 'bccp':
        h = C.r4(a / 2)
        return dict(lat=[[-h, h, h], [h, -h, h], [h, h, -h]], pos=[[0, 0, 0]], num=[A])
    if kind == 'nacl':
        return dict(lat=diag(C.r4(a + 1)), pos=FCC + [[x + .5 if x < .5 else x - .5
                    for x in [p[0]]][0:1] + p[1:] for p in FCC], num=[A] * 4 + [B] * 4)
    if kind == 'naclp':
        h = C.r4((a + 1) / 2)
        return dict(lat=[[0, h, h], [h, 0, h], [h, h, 0]],
                    pos=[[0, 0, 0], [.5, .5, .5]], num=[A, B])
    if kind == 'zb':
        return dict(lat=diag(C.r4(a + 1.2)), pos=FCC + [[x + .25 for x in p] for p in FCC],
                    num=[A] * 4 + [B] * 4)
    if kind == 'zbp':
        h = C.r4((a + 1.2) / 2)
        return dict(lat=[[0, h, h], [h, 0, h], [h, h, 0]],
                    pos=[[0, 0, 0], [.25, .25, .25]], num=[A, B])
    if kind == 'cscl':
        return dict(lat=diag(a), pos=[[0, 0, 0], [.5, .5, .5]], num=[A, B])
    if kind == 'perov':
        return dict(lat=diag(a), pos=[[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5],
                                      [0, .5, .5]], num=[A, A2] + [B] * 3)
    if kind == 'fluor':
        h = C.r4((a + 1.2) / 2)
        return dict(lat=[[0, h, h], [h, 0, h], [h, h, 0]],
                    pos=[[0, 0, 0], [.25, .25, .25], [.75, .75, .75]], num=[A, B, B])
    if kind == 'hcp':
        return dict(lat=hexlat(a, a * 1.62), pos=[[.3333, .6667, .25], [.6667, .3333, .75]],
                    num=[A, A])
    if kind == 'graph':
        return dict(lat=hexlat(a * .8 + .6, 9.0), pos=[[.3333, .6667, .5], [.6667, .3333, .5]],
                    num=[A, A] if rng.random() < .5 else [A, B])
    if kind == 'hexl':
        return dict(lat=hexlat(a, rnd(rng, 3.5, 6.0)), pos=[[0, 0, 0]], num=[A])
    if kind == 'rutile':
        u = rnd(rng, .28, .33)
        if rng.random() < .5:
            u = round(u, 3) + .0005 if u < .325 else u
        u = round(u, 4)
        return dict(lat=diag(C.r4(a + .9), C.r4(a + .9), rnd(rng, 2.9, 3.4)),
                    pos=[[0, 0, 0], [.5, .5, .5], [u, u, 0], [1 - u, 1 - u, 0],
                         [.5 + u, .5 - u, .5], [.5 - u, .5 + u, .5]],
                    num=[A, A] + [B] * 4)
    if kind == 'tetr':
        return dict(lat=diag(a, a, C.r4(a * rng.choice([1.15, .8, 1.4]))), pos=[[0, 0, 0]],
                    num=[A])
    if kind == 'orth':
        return dict(lat=diag(a, C.r4(a * 1.17), C.r4(a * .86)),
                    pos=[[0, 0, 0], [.5, .5, rnd(rng, .2, .4)]], num=[A, A])
    if kind == 'mono':
        return dict(lat=[[a, 0, 0], [0, C.r4(a * 1.1), 0], [C.r4(-a * .3), 0, C.r4(a * 1.2)]],
                    pos=[[0, 0, 0], [.5, .5, rnd(rng, .15, .4)]], num=[A, A])
    if kind == 'tric':
        return dict(lat=[[a, 0, 0], [C.r4(a * .21), C.r4(a * 1.13), 0],
                         [C.r4(a * .33), C.r4(-a * .17), C.r4(a * 1.24)]],
                    pos=[[0, 0, 0]], num=[A])
    if kind == 'p1':
        n = rng.choice([2, 3, 4])
        num = [A] * (n - 1) + [rng.choice([A, B])]
        pos = [[rnd(rng, 0, .9999) for _ in range(3)] for _ in range(n)]
        return dict(lat=[[C.r4(a + 1), 0, 0], [C.r4(a * .21), C.r4(a * 1.13 + 1), 0],
                         [C.r4(a * .33), C.r4(-a * .17), C.r4(a * 1.24 + 1)]],
                    pos=pos, num=num)
    return None


PROTOS = ['sc', 'bcc', 'fcc', 'fccp', 'bccp', 'nacl', 'naclp', 'zb', 'zbp', 'cscl', 'perov',
          'fluor', 'hcp', 'graph', 'hexl', 'rutile', 'tetr', 'orth', 'mono', 'tric', 'p1']


def dbcell(rng, max_sites=10):
    """A cell grown from a space group of the symmetry library's database."""
    hall = rng.randrange(1, 531)
    db = S._real['spg_db'](hall)
    R = db['rotations'].tolist()
    T = db['translations'].tolist()
    if len(R) > 96:
        return None
    # a lattice every rotation keeps: average the metric over the group
    g = [[0.0] * 3 for _ in range(3)]
    M0 = [[rng.uniform(2.5, 6), 0, 0], [rng.uniform(-1.5, 1.5), rng.uniform(2.5, 6), 0],
          [rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5), rng.uniform(2.5, 7)]]
    G0 = [[C.dot(a, b) for b in M0] for a in M0]
    seen = set()
    for r in R:
        k = tuple(map(tuple, r))
        if k in seen:
            continue
        seen.add(k)
        rt = C.tr(r)
        X = C.mm(C.mm(rt, G0), r)
        for i in range(3):
            for j in range(3):
                g[i][j] += X[i][j]
    g = [[x / len(seen) for x in r] for r in g]
    try:
        L = _chol(g)
    except ValueError:
        return None
    s = rng.uniform(.9, 1.6)
    lat = [[C.r4(x * s) for x in r] for r in L]
    pos, num = [], []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        p = []
        for k in range(3):
            c = rng.random()
            if c < .45:
                p.append(rng.choice([0, .5, .25, 0, .5]))
            elif c < .7:
                p.append(round(rng.randrange(0, 1000) / 1000.0 + .0005, 4))
            else:
                p.append(rnd(rng, 0, .9999))
        if rng.random() < .3:
            p[1] = p[0]
        if rng.random() < .2:
            p[2] = p[0]
        orb = []
        for r, t in zip(R, T):
            q = [C.r4(C.wrap(r[k][0] * p[0] + r[k][1] * p[1] + r[k][2] * p[2] + t[k]))
                 for k in range(3)]
            q = [0.0 if x >= 1 else x for x in q]
            if not any(max(abs(x) for x in C.frac_delta(q, o)) < 2.5e-4 for o in orb):
                orb.append(q)
        z = rng.choice(CATION + ANION)
        pos += orb
        num += [z] * len(orb)
        if len(pos) > max_sites:
            return None
    if len(pos) < 1:
        return None
    return dict(lat=lat, pos=pos, num=num)


def _chol(g):
    a = math.sqrt(g[0][0])
    b1 = g[0][1] / a
    q = g[1][1] - b1 * b1
    if q <= 0.5:
        raise ValueError
    b2 = math.sqrt(q)
    c1 = g[0][2] / a
    c2 = (g[1][2] - b1 * c1) / b2
    q = g[2][2] - c1 * c1 - c2 * c2
    if q <= 0.5:
        raise ValueError
    return [[a, 0, 0], [b1, b2, 0], [c1, c2, math.sqrt(q)]]


def supercell(cell, H):
    """The cell of superlattice H (integer rows), positions to 4 decimals."""
    Hi = C.inv([[float(x) for x in r] for r in H])
    m = max(abs(x) for r in H for x in r) * 3
    reps = []
    for t in itertools.product(range(-m, m + 1), repeat=3):
        f = C.vm(t, Hi)
        if all(-1e-9 <= x < 1 - 1e-9 for x in f):
            reps.append(f)
    pos, num = [], []
    for p, z in zip(cell['pos'], cell['num']):
        q = C.vm(p, Hi)
        for f in reps:
            pos.append([C.wrap(C.r4(C.wrap(q[k] + f[k]))) for k in range(3)])
            num.append(z)
    return dict(lat=[[C.r4(x) for x in r] for r in C.mm(H, cell['lat'])], pos=pos, num=num)


def skew(rng, cell, ks=(-2, -1, 1, 2, 3), longest=15):
    """The same crystal over other lattice vectors, often far from the shortest."""
    lat = [list(r) for r in cell['lat']]
    pos = [list(p) for p in cell['pos']]
    for _ in range(rng.choice([1, 1, 2])):
        i, j = rng.sample(range(3), 2)
        k = rng.choice(ks)
        new = [a + k * b for a, b in zip(lat[i], lat[j])]
        if C.norm(new) > longest:
            continue
        lat[i] = [C.r4(x) for x in new]
        for p in pos:
            p[j] = C.wrap(C.r4(C.wrap(p[j] - k * p[i])))
    return dict(lat=lat, pos=pos, num=cell['num'])


DIAGS = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2),
         (3, 1, 1), (1, 1, 3), (4, 1, 1), (2, 2, 2), (1, 1, 4), (3, 2, 1), (5, 1, 1),
         (1, 3, 2), (6, 1, 1), (4, 2, 1), (1, 1, 5), (7, 1, 1)]


def crystal(rng, min_sites=2, max_sites=9, single=False, primitive=False, tries=400,
            thin=False):
    """A clear-cut crystal with min..max sites. Deterministic in rng."""
    for _ in range(tries):
        if rng.random() < .3:
            cell = dbcell(rng, max_sites)
            kind = 'db'
        else:
            kind = rng.choice(PROTOS)
            cell = proto(rng, kind)
        if cell is None:
            continue
        cell['pos'] = [[C.wrap(C.r4(float(x))) for x in p] for p in cell['pos']]
        if primitive:
            H = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        else:
            opts = [d for d in DIAGS
                    if min_sites <= d[0] * d[1] * d[2] * len(cell['num']) <= max_sites]
            if not opts:
                continue
            d = rng.choice(opts)
            if rng.random() < .3:
                k = d[0] * d[1] * d[2]
                H = [list(r) for r in rng.choice(C.hnfs(k))]
            else:
                H = [[d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]]
        if H != [[1, 0, 0], [0, 1, 0], [0, 0, 1]]:
            cell = supercell(cell, H)
        n = len(cell['num'])
        if not min_sites <= n <= max_sites:
            continue
        if single:
            cell['num'] = [cell['num'][0]] * n
        if rng.random() < .12:
            i = rng.randrange(n)
            cell['pos'][i] = [C.wrap(C.r4(x + rng.choice([0, .0213, -.0312, .05])))
                              for x in cell['pos'][i]]
        if rng.random() < .2:
            s = [rnd(rng, 0, 1) for _ in range(3)]
            if rng.random() < .5:
                s = [round(x, 3) + .0005 for x in s]
            cell['pos'] = [[C.wrap(C.r4(C.wrap(x + y))) for x, y in zip(p, s)]
                           for p in cell['pos']]
        if not thin and rng.random() < .15:
            cell = skew(rng, cell)
        order = list(range(n))
        rng.shuffle(order)
        cell = dict(lat=[[float(x) for x in r] for r in cell['lat']],
                    pos=[cell['pos'][i] for i in order], num=[cell['num'][i] for i in order])
        if max(C.norm(r) for r in cell['lat']) > 24:
            continue
        if not C.robust(cell):
            continue
        if primitive:
            pr = S._real['spg_find_primitive'](C.spg(cell), symprec=1e-3)
            if len(pr[2]) != n:
                continue
        cell['kind'] = kind
        return cell
    raise S.HarnessError('no crystal found')


def related(rng, cell, tries=60):
    """Another clear-cut cell easily taken for this one: as many sites, and often the
    same species, space group, positions or lattice. None if none is found."""
    n = len(cell['num'])
    for _ in range(tries):
        c = {'lat': [list(r) for r in cell['lat']], 'pos': [list(p) for p in cell['pos']],
             'num': list(cell['num'])}
        k = rng.randrange(7)
        if k == 0:          # axes turned
            ax = rng.choice([(1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)])
            c['lat'] = [[c['lat'][i][j] for j in ax] for i in ax]
            c['pos'] = [[q[j] for j in ax] for q in c['pos']]
        elif k == 1:        # species on other sites
            rng.shuffle(c['num'])
        elif k == 2:        # a larger or smaller one
            f = rng.choice([.9, 1.1, 1.25, 2])
            c['lat'] = [[C.r4(x * f) for x in r] for r in c['lat']]
        elif k == 3:        # the same sites in a strained lattice
            f = [rng.choice([1, 1, .9, 1.13, 1.31]) for _ in range(3)]
            c['lat'] = [[C.r4(x * f[i]) for x in r] for i, r in enumerate(c['lat'])]
        elif k == 4:        # the origin elsewhere
            s = [rnd(rng, 0, 1) for _ in range(3)]
            c['pos'] = [[C.wrap(C.r4(C.wrap(x + y))) for x, y in zip(q, s)] for q in c['pos']]
        elif k == 5:        # other species
            z = rng.choice(CATION)
            if z in c['num']:
                continue
            a = rng.choice(c['num'])
            c['num'] = [z if x == a else x for x in c['num']]
        else:               # another crystal of as many sites
            c = crystal(rng, n, n, single=len(set(cell['num'])) == 1)
            c = {q: c[q] for q in ('lat', 'pos', 'num')}
            if len(set(cell['num'])) == 1:
                c['num'] = list(cell['num'])
        if c == cell or max(C.norm(r) for r in c['lat']) > 30 or not C.robust(c):
            continue
        return c
    return None


def input_style(rng, fmt, simple=False):
    if fmt == 'vasp':
        st = {'labels': rng.random() < .5, 'blank': rng.random() < .2,
              'blocks': rng.choice([None, None, 'split', 'rev']),
              'case': rng.choice(['Direct', 'direct', 'D', 'Cartesian', 'direct',
                                  'cartesian', 'K'])}
        c = rng.random()
        if c < .15:
            st['zoom'] = rng.choice([-1, -2, -3, -10])
        elif c < .3:
            st['zoom'] = 0.5
        return st
    st = {'flow': rng.random() < .5,
          'order': rng.choice([None, ['zoom', 'comment', 'numbers', 'lattice', 'positions'],
                               ['comment', 'lattice', 'numbers', 'positions', 'zoom']]),
          'comment': rng.choice(['made', 'Na4Cl4', 'x_1'])}
    if rng.random() < .25:
        st['zoom'] = rng.choice([2, 2.5, 0.5, 4.0])
    if rng.random() < .3:
        st['dump'] = rng.choice(['leaf', 'block'])
    return st


def input_text(cell, fmt, style):
    return C.poscar(cell, style) if fmt == 'vasp' else C.yaml_text(cell, style)
