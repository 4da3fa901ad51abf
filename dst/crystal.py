"""Independent crystal arithmetic: generation, files, symmetry orbits, oracles.

Pure Python on lists (no ababe code). A cell is a dict
{'lat': 3x3 row vectors, 'pos': [[x,y,z]...], 'num': [Z...]}.
"""
import math
import itertools
from collections import Counter
from . import sim as S

SYMS = {0: 'G', 1: 'H', 3: 'Li', 5: 'B', 6: 'C', 7: 'N', 8: 'O', 9: 'F', 11: 'Na',
        12: 'Mg', 13: 'Al', 14: 'Si', 16: 'S', 17: 'Cl', 19: 'K', 20: 'Ca', 22: 'Ti',
        26: 'Fe', 28: 'Ni', 29: 'Cu', 30: 'Zn', 31: 'Ga', 38: 'Sr', 47: 'Ag',
        55: 'Cs', 56: 'Ba', 79: 'Au'}
ZOF = {v: k for k, v in SYMS.items()}


# -- linear algebra ----------------------------------------------------------
def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def det(m):
    return dot(m[0], cross(m[1], m[2]))


def norm(a):
    return math.sqrt(dot(a, a))


def vm(v, m):
    return [v[0] * m[0][j] + v[1] * m[1][j] + v[2] * m[2][j] for j in range(3)]


def mm(a, b):
    return [vm(r, b) for r in a]


def tr(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def inv(m):
    d = det(m)
    c = [cross(m[1], m[2]), cross(m[2], m[0]), cross(m[0], m[1])]
    return [[c[j][i] / d for j in range(3)] for i in range(3)]


def wrap(x):
    x = x - math.floor(x)
    return 0.0 if x >= 1.0 - 1e-12 else x


def r4(x):
    y = round(x, 4)
    return 0.0 if y == 0 else y


# -- periodic geometry ---------------------------------------------------------
def images(lat, R):
    """Integer cells whose points can lie within R of points of the home cell
    with fractional differences in (-1, 1)."""
    vol = abs(det(lat))
    rng = []
    for i in range(3):
        h = vol / norm(cross(lat[(i + 1) % 3], lat[(i + 2) % 3]))
        k = int(math.ceil(R / h)) + 1
        rng.append(range(-k, k + 1))
    return list(itertools.product(*rng))


def pair_dist2(lat, d, imgs):
    best = None
    for t in imgs:
        v = vm([d[0] + t[0], d[1] + t[1], d[2] + t[2]], lat)
        q = dot(v, v)
        if best is None or q < best:
            best = q
    return best


def frac_delta(a, b):
    return [x - y - round(x - y) for x, y in zip(a, b)]


def min_dist(cell, R=12.0, sel=None):
    """Smallest distance between different sites (images included)."""
    lat, pos = cell['lat'], cell['pos']
    idx = range(len(pos)) if sel is None else sel
    best = None
    short = min(norm(r) for r in lat)
    imgs = images(lat, min(R, short + 1e-6))
    for a, i in enumerate(idx):
        for j in list(idx)[a:]:
            d = [x - y for x, y in zip(pos[i], pos[j])]
            d = [x - math.floor(x) for x in d]
            for t in imgs:
                if i == j and t == (0, 0, 0):
                    continue
                v = vm([d[0] + t[0], d[1] + t[1], d[2] + t[2]], lat)
                q = dot(v, v)
                if best is None or q < best:
                    best = q
    return None if best is None else math.sqrt(best)


def distances(cell, R):
    """For every site: list of (distance, site) of all neighbours within R."""
    lat, pos = cell['lat'], cell['pos']
    imgs = images(lat, R)
    R2 = R * R
    out = []
    n = len(pos)
    for i in range(n):
        nb = []
        for j in range(n):
            d = frac_delta(pos[j], pos[i])
            for t in imgs:
                a, b, c = d[0] + t[0], d[1] + t[1], d[2] + t[2]
                x = a * lat[0][0] + b * lat[1][0] + c * lat[2][0]
                y = a * lat[0][1] + b * lat[1][1] + c * lat[2][1]
                z = a * lat[0][2] + b * lat[1][2] + c * lat[2][2]
                q = x * x + y * y + z * z
                if 1e-8 < q <= R2:
                    nb.append((math.sqrt(q), j))
        out.append(nb)
    return out


# -- files ----------------------------------------------------------------------
def fmt_num(x, nd=6):
    return '%.*f' % (nd, x)


def poscar(cell, style=None):
    """A POSCAR text. style: {'zoom','labels','blank','blocks','nd','case'}."""
    st = style or {}
    zoom = st.get('zoom', 1.0)
    lat = cell['lat']
    if zoom < 0:
        # negative: the volume; any lattice of this shape
        f = -zoom
        lines_lat = [[x * f for x in r] for r in lat]
        zline = fmt_num(-abs(det(lat)), 6)
    else:
        lines_lat = [[x / zoom for x in r] for r in lat]
        zline = repr(zoom)
    order = sorted(range(len(cell['num'])), key=lambda i: cell['num'][i])
    if st.get('blocks') == 'split' and len(order) > 2:
        k = len(order) // 2
        order = order[1:k] + order[:1] + order[k:]
    elif st.get('blocks') == 'rev':
        order = order[::-1]
    blocks = []
    for i in order:
        z = cell['num'][i]
        if blocks and blocks[-1][0] == z:
            blocks[-1][1].append(i)
        else:
            blocks.append([z, [i]])
    out = [st.get('title', 'made up'), zline]
    for r in lines_lat:
        out.append('  ' + '  '.join(fmt_num(x, 8 if zoom not in (1, 1.0) else 6) for x in r))
    out.append(' '.join(SYMS[b[0]] for b in blocks))
    out.append(' '.join(str(len(b[1])) for b in blocks))
    out.append(st.get('case', 'Direct'))
    cart = st.get('case', 'D')[0] in 'cCkK'
    for z, idx in blocks:
        for i in idx:
            if cart:
                line = ' '.join(fmt_num(x, 10) for x in vm(cell['pos'][i], lines_lat))
            else:
                line = ' '.join(fmt_num(x, st.get('nd', 6)) for x in cell['pos'][i])
            if st.get('labels'):
                line += ' ' + SYMS[z]
            out.append(line)
    if st.get('blank'):
        out = out[:8] + [''] + out[8:] + ['', '   ']
    return '\n'.join(out) + '\n'


def yaml_text(cell, style=None):
    """A YAML settings text. style: {'zoom','flow','order','comment'}."""
    st = style or {}
    zoom = st.get('zoom', 1)
    lat = [[x / zoom for x in r] for r in cell['lat']]
    if st.get('dump'):
        # the layouts PyYAML and ababe's own writers produce
        import yaml
        return yaml.safe_dump(dict(comment=st.get('comment', 'made'), zoom=zoom,
                                   lattice=[[round(x, 10) for x in r] for r in lat],
                                   positions=[[float(x) for x in r] for r in cell['pos']],
                                   numbers=[int(z) for z in cell['num']]),
                              default_flow_style=None if st['dump'] == 'leaf' else False)
    parts = {}
    n = lambda x: ('%.10f' % x).rstrip('0').rstrip('.') if x != int(x) else '%.1f' % x
    if st.get('flow'):
        parts['lattice'] = 'lattice: [%s]\n' % ', '.join(
            '[%s]' % ', '.join(n(x) for x in r) for r in lat)
        parts['positions'] = 'positions: [%s]\n' % ',\n  '.join(
            '[%s]' % ', '.join(n(x) for x in r) for r in cell['pos'])
        parts['numbers'] = 'numbers: [%s]\n' % ', '.join(str(z) for z in cell['num'])
    else:
        parts['lattice'] = 'lattice:\n' + ''.join(
            '- - %s\n  - %s\n  - %s\n' % tuple(n(x) for x in r) for r in lat)
        parts['positions'] = 'positions:\n' + ''.join(
            '- [%s, %s, %s]\n' % tuple(n(x) for x in r) for r in cell['pos'])
        parts['numbers'] = 'numbers:\n' + ''.join('- %d\n' % z for z in cell['num'])
    parts['comment'] = 'comment: %s\n' % st.get('comment', 'made')
    parts['zoom'] = 'zoom: %s\n' % (n(zoom) if isinstance(zoom, float) else zoom)
    order = st.get('order') or ['comment', 'lattice', 'positions', 'numbers', 'zoom']
    return ''.join(parts[k] for k in order)


class BadFile(Exception):
    pass


def parse_poscar(text):
    lines = [l for l in text.split('\n') if l.strip()]
    try:
        zoom = float(lines[1])
        lat = [[float(x) for x in l.split()] for l in lines[2:5]]
        if any(len(r) != 3 for r in lat):
            raise BadFile('lattice')
        if zoom < 0:
            f = (-zoom / abs(det(lat))) ** (1.0 / 3)
        else:
            f = zoom
        lat = [[x * f for x in r] for r in lat]
        names = lines[5].split()
        counts = [int(x) for x in lines[6].split()]
        if len(names) != len(counts):
            raise BadFile('counts')
        num = []
        for s, c in zip(names, counts):
            num += [zof(s)] * c
        mode = lines[7].strip()[:1]
        if mode not in 'dDcCkK':
            raise BadFile('mode')
        pos = []
        for l in lines[8:]:
            p = l.split()
            pos.append([float(x) for x in p[:3]])
            if len(pos[-1]) != 3:
                raise BadFile('position')
        if len(pos) != len(num):
            raise BadFile('%d positions, %d atoms' % (len(pos), len(num)))
        if mode in 'cCkK':
            m = inv([[x / f for x in r] for r in lat])
            pos = [vm(p, m) for p in pos]
    except (IndexError, ValueError, KeyError) as e:
        raise BadFile(repr(e))
    return {'lat': lat, 'pos': pos, 'num': num}


_PT = None


def zof(sym):
    """Atomic number of a symbol, from a table of our own."""
    return ELEMENTS.index(sym)


ELEMENTS = ['G'] + ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn '
                    'Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag '
                    'Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm '
                    'Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn').split()


def parse_yaml(text):
    import yaml
    try:
        d = yaml.safe_load(text)
        z = float(d['zoom'])
        lat = [[float(x) * z for x in r] for r in d['lattice']]
        pos = [[float(x) for x in r] for r in d['positions']]
        num = [int(x) for x in d['numbers']]
    except Exception as e:
        raise BadFile(repr(e)[:200])
    if len(lat) != 3 or any(len(r) != 3 for r in lat) or any(len(r) != 3 for r in pos) \
            or len(pos) != len(num):
        raise BadFile('shape')
    return {'lat': lat, 'pos': pos, 'num': num}


def parse_file(path, fmt):
    with S._real['open'](path, 'r') as f:
        t = f.read()
    return parse_poscar(t) if fmt == 'vasp' else parse_yaml(t)


def same_cell(a, b, tol=2e-4, ghosts=True, ltol=None):
    """Same lattice and the same sites with the same species (any order)."""
    ltol = tol if ltol is None else ltol
    for r, s in zip(a['lat'], b['lat']):
        for x, y in zip(r, s):
            if abs(x - y) > ltol:
                return 'lattice differs'
    A = [(z, p) for z, p in zip(a['num'], a['pos']) if ghosts or z]
    B = [(z, p) for z, p in zip(b['num'], b['pos']) if ghosts or z]
    if len(A) != len(B):
        return '%d atoms, not %d' % (len(B), len(A))
    if Counter(z for z, p in A) != Counter(z for z, p in B):
        return 'species differ'
    left = list(B)
    for z, p in A:
        for k, (zz, q) in enumerate(left):
            if z == zz and max(abs(x) for x in frac_delta(p, q)) <= tol:
                del left[k]
                break
        else:
            return 'no atom %s at %s' % (z, ['%.4f' % x for x in p])
    return None


# -- symmetry ---------------------------------------------------------------------
def spg(cell, num=None):
    return ([list(map(float, r)) for r in cell['lat']],
            [list(map(float, r)) for r in cell['pos']], list(num or cell['num']))


def sym_ops(cell, symprec=1e-3):
    d = S._real['spg_get_symmetry'](spg(cell), symprec=symprec)
    if d is None:
        return None
    return [([[int(x) for x in r] for r in R.tolist()], [float(x) for x in t.tolist()])
            for R, t in zip(d['rotations'], d['translations'])]


def site_map(cell, R, t, tol=0.02):
    """perm[i] = site on which the image of site i lies; None if there is none."""
    pos, lat = cell['pos'], cell['lat']
    n = len(pos)
    perm = []
    for i in range(n):
        p = pos[i]
        q = [R[k][0] * p[0] + R[k][1] * p[1] + R[k][2] * p[2] + t[k] for k in range(3)]
        hit = None
        for j in range(n):
            d = frac_delta(q, pos[j])
            v = vm(d, lat)
            if dot(v, v) < tol * tol:
                hit = j
                break
        if hit is None:
            return None
        perm.append(hit)
    if len(set(perm)) != n:
        return None
    return tuple(perm)


def perms_of(cell):
    """The distinct site permutations of the cell's symmetry operations."""
    ops = sym_ops(cell)
    if ops is None:
        return None
    out = set()
    for R, t in ops:
        m = site_map(cell, R, t)
        if m is None:
            return None
        out.add(m)
    return sorted(out)


def is_group(perms):
    s = set(perms)
    n = len(perms[0])
    gens = perms[:12]
    return all(tuple(a[b[i]] for i in range(n)) in s for a in perms for b in gens)


def bare_translations(cell, tol=0.004):
    """Site permutations of all pure translations of the bare site lattice."""
    pos = cell['pos']
    E = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    out = []
    for j in range(1, len(pos)):
        t = [pos[j][k] - pos[0][k] for k in range(3)]
        m = site_map(cell, E, t, tol)
        if m is not None:
            out.append(m)
    return out


def robust(cell, max_ops=400):
    """Whether symmetry is clear-cut: the same at looser and tighter tolerance."""
    n = None
    for sp in (4e-4, 1e-3, 2.5e-3):
        ops = sym_ops(cell, sp)
        if ops is None:
            return False
        pr = S._real['spg_find_primitive'](spg(cell), symprec=sp)
        if pr is None or pr[2] is None:
            return False
        k = (len(ops), len(pr[2]))
        if n is None:
            n = k
        elif n != k:
            return False
    if n[0] > max_ops:
        return False
    if abs(det(cell['lat'])) < 5:
        return False
    md = min_dist(cell)
    return md is None or md > 1.2


# -- occupations --------------------------------------------------------------------
class Parent(object):
    """A parent cell with its site group; answers what occupations there are."""

    def __init__(self, cell):
        self.cell = cell
        self.n = len(cell['num'])
        self.perms = perms_of(cell)
        self.ok = self.perms is not None and is_group(self.perms)
        self.trans = bare_translations(cell)
        if self.trans != bare_translations(cell, 0.0006):
            self.ok = False
        self._cls = {}
        self.inv = None

    def canon(self, numbers):
        """The canonical member of the orbit of an occupation."""
        k = tuple(numbers)
        c = self._cls.get(k)
        if c is None:
            orb = set(tuple(k[p[i]] for i in range(self.n)) for p in self.perms)
            c = min(orb)
            for o in orb:
                self._cls[o] = c
        return c

    def classes_binary(self, sites, n, z):
        out = set()
        for comb in itertools.combinations(sites, n):
            v = list(self.cell['num'])
            for i in comb:
                v[i] = z
            out.add(self.canon(v))
        return out

    def classes_ternary(self, n1, z1, n2, z2, sites=None):
        out = set()
        sites = list(range(self.n)) if sites is None else sites
        for c1 in itertools.combinations(sites, n1):
            rest = [i for i in sites if i not in c1]
            for c2 in itertools.combinations(rest, n2):
                v = list(self.cell['num'])
                for i in c1:
                    v[i] = z1
                for i in c2:
                    v[i] = z2
                out.add(self.canon(v))
        return out

    def fold(self, numbers):
        """How many pure translations (identity included) keep the occupation."""
        k = 1
        for m in self.trans:
            if all(numbers[m[i]] == numbers[i] for i in range(self.n)):
                k += 1
        return k

    def far(self, numbers, z, dist):
        sel = [i for i in range(self.n) if numbers[i] == z]
        if not sel:
            return True
        return min_dist(self.cell, sel=sel) > dist

    def site_vector(self, cell, tol=3e-4, vac=0):
        """Numbers per site of a written cell with the parent's lattice."""
        for r, s in zip(cell['lat'], self.cell['lat']):
            for x, y in zip(r, s):
                if abs(x - y) > 2e-3:
                    return None, 'lattice differs from the parent'
        v = [None] * self.n
        for z, p in zip(cell['num'], cell['pos']):
            for i in range(self.n):
                if max(abs(x) for x in frac_delta(p, self.cell['pos'][i])) <= tol:
                    if v[i] is not None:
                        return None, 'two atoms on one site'
                    v[i] = z
                    break
            else:
                return None, 'atom on no site of the parent'
        return [vac if z is None else z for z in v], None


class Shells(object):
    """Distance shells of a bare geometry, for rotation-free fingerprints."""

    def __init__(self, cell, max_nb=60):
        self.ok = False
        R = 6.5
        for _ in range(6):
            d = distances(cell, R)
            if max(len(x) for x in d) <= max_nb:
                break
            R *= 0.85
        else:
            return
        ds = sorted(x[0] for nb in d for x in nb)
        if not ds:
            return
        cl = [[ds[0], ds[0]]]
        for x in ds[1:]:
            if x - cl[-1][1] > 0.03:
                cl.append([x, x])
            else:
                cl[-1][1] = x
        good = []
        for k, (lo, hi) in enumerate(cl):
            if hi - lo > 0.012:
                break
            nxt = cl[k + 1][0] if k + 1 < len(cl) else R
            if nxt - hi < 0.06:
                break
            good.append((lo, hi))
        # keep shells while they are clearly separated
        if len(good) < 2:
            return
        if good[-1][1] > R - 0.06:
            good.pop()
        if len(good) < 2:
            return
        self.shells = good
        self.cut = good[-1][1] + 0.03
        self.ok = True

    def index(self, x):
        for k, (lo, hi) in enumerate(self.shells):
            if lo - 0.015 <= x <= hi + 0.015:
                return k
        return round(x, 1) + 100

    def prints(self, cell, drop_ghost=True):
        """Counter of site environments of a cell (atoms only)."""
        c = cell
        if drop_ghost:
            keep = [i for i, z in enumerate(cell['num']) if z]
            c = {'lat': cell['lat'], 'pos': [cell['pos'][i] for i in keep],
                 'num': [cell['num'][i] for i in keep]}
        out = Counter()
        for i, nb in enumerate(distances(c, self.cut)):
            e = Counter((self.index(x), c['num'][j]) for x, j in nb)
            out[(c['num'][i], tuple(sorted(e.items())))] += 1
        return out


def fp_key(counter, fold=1):
    """A hashable fingerprint; counts divided by fold (None: not divisible)."""
    items = []
    for k, v in sorted(counter.items()):
        if v % fold:
            return None
        items.append((k, v // fold))
    return tuple(items)


# -- superlattices ---------------------------------------------------------------
def hnfs(n, two_d=False):
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        for c in range(1, n // a + 1):
            if (n // a) % c:
                continue
            f = n // a // c
            if two_d and f != 1:
                continue
            for b in range(c):
                for d in range(f):
                    for e in range(f):
                        if two_d and (d or e):
                            continue
                        out.append(((a, b, d), (0, c, e), (0, 0, f)))
    return out


def row_hnf(m):
    """Row-style Hermite normal form (upper triangular, reduced upwards)."""
    m = [list(map(int, r)) for r in m]
    for c in range(3):
        while True:
            rows = [r for r in range(c, 3) if m[r][c]]
            if not rows:
                return None
            p = min(rows, key=lambda r: abs(m[r][c]))
            m[c], m[p] = m[p], m[c]
            done = True
            for r in range(c + 1, 3):
                q = m[r][c] // m[c][c]
                if q:
                    m[r] = [x - q * y for x, y in zip(m[r], m[c])]
                if m[r][c]:
                    done = False
            if done:
                break
        if m[c][c] < 0:
            m[c] = [-x for x in m[c]]
    for c in range(3):
        for r in range(c):
            q = m[r][c] // m[c][c]
            m[r] = [x - q * y for x, y in zip(m[r], m[c])]
    return tuple(tuple(r) for r in m)


class SupParent(object):
    """A primitive parent for superlattices of index n."""

    def __init__(self, cell, n, two_d=False):
        self.cell, self.n = cell, n
        rots = set()
        for R, t in sym_ops(cell):
            rots.add(tuple(tuple(r) for r in R))
        # fractional column action x' = R x; lattice rows transform by R^-T.
        # The set of rotations is a group, so R^T runs over the inverses too.
        self.rots = [tr(R) for R in rots]
        self.two_d = two_d
        self.canon = {}
        for h in hnfs(n, two_d):
            self.cls(h)
        self.classes = set(self.cls(h) for h in hnfs(n, two_d))

    def cls(self, h):
        c = self.canon.get(h)
        if c is None:
            orb = set(row_hnf([[sum(r[k] * Rt[k][j] for k in range(3)) for j in range(3)]
                               for r in h]) for Rt in self.rots)
            if self.two_d:
                flat = [o for o in orb if is_flat(o)]
                orb2 = flat or list(orb)
            else:
                orb2 = orb
            c = min(orb2)
            for o in orb:
                self.canon[o] = c
        return c

    def classify(self, out, count=False):
        """The class of the superlattice a written cell describes, or an error.

        Finds an isometry that lays the parent crystal onto the written one and
        expresses the written lattice in the parent's basis."""
        par = self.cell
        L = out['lat']
        A = par['lat']
        want = Counter(par['num'])
        got = Counter(out['num'])
        if got != Counter({z: c * self.n for z, c in want.items()}):
            return None, 'atoms %s instead of %d x %s' % (dict(got), self.n, dict(want))
        if abs(abs(det(L)) - self.n * abs(det(A))) > 2e-3 * abs(det(L)):
            return None, 'cell volume is not %d parent volumes' % self.n
        # pure translations of the written crystal
        zmin = min(want, key=lambda z: (want[z], z))
        idx = [i for i, z in enumerate(out['num']) if z == zmin]
        E = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        fr = []
        dec = {'lat': L, 'pos': out['pos'], 'num': out['num']}
        for j in idx:
            t = [out['pos'][j][k] - out['pos'][idx[0]][k] for k in range(3)]
            m = site_map(dec, E, t, 0.03)
            if m is not None and all(out['num'][m[i]] == out['num'][i]
                                     for i in range(len(m))):
                fr.append([x - math.floor(x + 1e-9) for x in t])
        if len(fr) != self.n:
            return None, 'written crystal has %d translations per cell, not %d' % (
                len(fr), self.n)
        lens = [norm(r) for r in A]
        R = max(lens) + 0.05
        imgs = images(L, R)
        vecs = [[], [], []]
        for f in fr:
            for t in imgs:
                v = vm([f[0] + t[0], f[1] + t[1], f[2] + t[2]], L)
                q = norm(v)
                for k in range(3):
                    if abs(q - lens[k]) < 0.02:
                        vecs[k].append(v)
        n = 0
        for B in self._bases(vecs, lens):
            if self._fits(out, B):
                n += 1
                H = mm(L, inv(B))
                Hi = [[int(round(x)) for x in r] for r in H]
                if max(abs(x - y) for r, s in zip(H, Hi) for x, y in zip(r, s)) > 0.05:
                    continue
                if not count:
                    return self.cls(row_hnf(Hi)), None
        if count:
            return n, None
        return None, 'the written crystal is not the parent crystal'

    def unambiguous(self):
        """No near-symmetry: every way of laying the crystal onto itself within
        the tolerances of classify is a symmetry operation."""
        sp = SupParent(self.cell, 1)
        n, err = sp.classify(self.cell, True)
        return n == len(sp.rots)

    def _bases(self, vecs, lens):
        A = self.cell['lat']
        tol = 0.06
        g01, g02, g12 = dot(A[0], A[1]), dot(A[0], A[2]), dot(A[1], A[2])
        for v0 in vecs[0]:
            for v1 in vecs[1]:
                if abs(dot(v0, v1) - g01) > tol * max(1, lens[0] * lens[1] / 10):
                    continue
                for v2 in vecs[2]:
                    if abs(dot(v0, v2) - g02) > tol * max(1, lens[0] * lens[2] / 10) or \
                       abs(dot(v1, v2) - g12) > tol * max(1, lens[1] * lens[2] / 10):
                        continue
                    yield [v0, v1, v2]

    def _fits(self, out, B):
        """Does the parent crystal in basis B (some origin) cover the atoms?"""
        par = self.cell
        Binv = inv(B)
        T = mm(out['lat'], Binv)
        zmin = min(set(par['num']), key=lambda z: (par['num'].count(z), z))
        q = [(z, vm(p, T)) for z, p in zip(out['num'], out['pos'])]
        o = next(p for z, p in q if z == zmin)
        for i0 in [i for i, z in enumerate(par['num']) if z == zmin]:
            s = [o[k] - par['pos'][i0][k] for k in range(3)]
            ok = True
            for z, p in q:
                for zz, pp in zip(par['num'], par['pos']):
                    if z == zz:
                        d = frac_delta([p[k] - s[k] for k in range(3)], pp)
                        if norm(vm(d, B)) < 0.04:
                            break
                else:
                    ok = False
                    break
            if ok:
                return True
        return False


def is_flat(h):
    return h[0][2] == 0 and h[1][2] == 0 and h[2] == (0, 0, 1)
