"""Generated command lines and what each of them must leave behind.

A spec is plain JSON: {'cmd','args','input':{'name','fmt','text'},'cell','opt'}.
"""
import os
from collections import Counter
from . import sim as S
from . import crystal as C
from . import gen

OCC = ('ocumaker', 'ocubiter', 'ocutenter', 'ocumakert')
ONE = ('atclear', 'perturb', 'supcell', 'pcell')
ALL = OCC + ('suplat',) + ONE

_parents = {}


def parent_of(cell):
    k = repr((cell['lat'], cell['pos'], cell['num']))
    p = _parents.get(k)
    if p is None:
        if len(_parents) > 50:
            _parents.clear()
        p = _parents[k] = C.Parent(cell)
        p.shells = None
    return p


def shells_of(P):
    if P.shells is None:
        P.shells = C.Shells(P.cell)
    return P.shells


def _limits(rng, cell, zs):
    """Distances clear of every distance between sites, for -r options."""
    d = sorted(x for nb in C.distances(cell, 6.0) for x, j in nb)
    gaps = [((a + b) / 2) for a, b in zip(d, d[1:]) if b - a > .1]
    gaps.append(d[0] - .3 if d else 1.0)
    if rng.random() < .8:
        some = [g for a, b in hidden(cell) for g in gaps if a < g < b]
        if some:
            return round(rng.choice(some), 3)
    return round(rng.choice(gaps), 3)


def hidden(cell):
    """(distance, apparent distance) of the pairs of sites whose nearest images are
    not in adjacent cells."""
    lat, pos = cell['lat'], cell['pos']
    out, ims = [], C.images(lat, 6.0)
    for i in range(len(pos)):
        for j in range(i, len(pos)):
            f = [x - y for x, y in zip(pos[j], pos[i])]
            lens = [(C.norm(C.vm([x + t for x, t in zip(f, T)], lat)), max(map(abs, T)) > 1)
                    for T in ims if i != j or T != (0, 0, 0)]
            lo = min(lens)[0]
            near = min([x for x, far in lens if not far] + [99.])
            if lo < near - .1:
                out.append((lo, near))
    return out


def crook(rng, cell):
    """The crystal over lattice vectors so skewed that adjacent cells do not hold all
    nearest images, or None."""
    ks = (-4, -3, -2, 2, 3, 4)
    for _ in range(12):
        c = gen.skew(rng, cell, ks, 22)
        if c['lat'] != cell['lat'] and hidden(c) and C.robust(c):
            return c


INPUT_NAMES = {'vasp': ['in.vasp', 'POSCAR', 'a_b.vasp', 'POSCAR_x', 'X.VASP', 'sub/cell.vasp'],
               'yaml': ['in.yaml', 'set.YAML', 'a-b.yaml', 'sub/zns.yaml']}


def make(rng, cmd, small=False, speckle_g=None, refined=None, outmode=None, tag='',
         max_out=30, min_out=0, plain=False, given=None):
    """given: (cell, format, style, name, elements to restrict), an input to use
    instead of a new one."""
    for k in range(300):
        if k == 120:
            min_out = 0
        s = _make(rng, cmd, small, speckle_g, refined, outmode, tag, max_out, plain, given)
        if s is not None and s['opt'].get('n_expected', 1) >= min_out:
            return s
        if given and k == 40:
            return None
    raise S.HarnessError('no spec for ' + cmd)


def _make(rng, cmd, small, speckle_g, refined, outmode, tag, max_out, plain, given=None):
    tern = cmd in ('ocutenter', 'ocumakert')
    fmt = 'yaml' if tern else rng.choice(['vasp', 'yaml'])
    opt = {}
    large = small == 'large'
    if large:
        small = False
    if given:
        cell, fmt = given[0], given[1]
        if cmd == 'suplat' and len(S._real['spg_find_primitive'](
                C.spg(cell), symprec=1e-3)[2]) != len(cell['num']):
            return None
        if tern and (fmt != 'yaml' or len(set(cell['num'])) > 1):
            return None
        if cmd in OCC and len(cell['num']) > 9:
            return None
    elif cmd == 'suplat':
        cell = gen.crystal(rng, 1, 4 if small else 2 if large else 5, primitive=True)
    elif cmd == 'ocumakert':
        cell = gen.crystal(rng, 3, 4 if small else 7 if large else 6, single=True)
    elif cmd == 'ocutenter':
        cell = gen.crystal(rng, 8 if large else 3, 6 if small else 10 if large else 8, single=True)
    elif cmd in OCC:
        cell = gen.crystal(rng, 10 if large else 2, 6 if small else 14 if large else 9,
                           single=rng.random() < (.8 if large else .35))
    else:
        cell = gen.crystal(rng, 1, 6 if small else 10)
    cell = {k: cell[k] for k in ('lat', 'pos', 'num')}
    crooked = None
    if not given and not plain and cmd in OCC + ('atclear',) and rng.random() < .12:
        crooked = crook(rng, cell)
        cell = crooked or cell
    n = len(cell['num'])
    if not given and cmd in ('ocumaker', 'ocubiter') and fmt == 'yaml' and rng.random() < .06:
        z = rng.choice(cell['num'])
        cell['num'] = [0 if x == z else x for x in cell['num']]
    P = parent_of(cell)
    if not P.ok:
        return None
    species = sorted(set(cell['num']))
    style = dict(given[2]) if given else gen.input_style(rng, fmt)
    name = given[3] if given else rng.choice(INPUT_NAMES[fmt])
    if tag and not given:
        d, b = os.path.split(name)
        name = os.path.join(d, 'POSCAR_' + tag if b.startswith('POSCAR') else tag + b)
    args = []
    if cmd in OCC:
        if refined is None:
            ref = rng.random() < .5
        else:
            ref = refined
        if ref and not shells_of(P).ok:
            ref = False
        out = outmode or rng.choice(['vasp', 'yaml'])
        free = [s for s in gen.SPECK if C.zof(s) not in species]
        gok = speckle_g if speckle_g is not None else True
        if cmd in ('ocumaker', 'ocubiter'):
            tgt = rng.choice(species)
            sites = [i for i, z in enumerate(cell['num']) if z == tgt]
            k = len(sites)
            if n < 2:
                return None
            use_e = len(species) > 1 or rng.random() < .6
            if use_e:
                args += [rng.choice(['-e', '--element']), C.ELEMENTS[tgt]]
            sp = rng.choice(free)
            if gok and tgt != 0 and rng.random() < .3:
                sp = 'G'
            if sp != 'G' or rng.random() < .5:
                args += ['-s', sp]
            else:
                pass
            z = C.zof(sp)
            if 0 in species and z == 0:
                return None
            if cmd == 'ocumaker':
                if rng.random() < .25 and k <= 6:
                    levels = list(range(1, k))
                else:
                    m = rng.randrange(1, min(k, 7 if large else 5) + 1)
                    levels = list(range(1, m + 1))
                    args += ['-n', str(m)]
                counts = levels
                prim = True
            else:
                if rng.random() < .2:
                    m = k // 2 + 1
                else:
                    m = rng.randrange(0 if rng.random() < .1 else 1, min(k, 7 if large else 5) + 1)
                    args += ['-n', str(m)]
                counts = [m]
                prim = rng.random() < .5
                if not prim:
                    args += ['--no-move-supercell']
                elif rng.random() < .3:
                    args += ['-S']
            if z == 0 and any(c >= n for c in counts):
                return None
            if len(counts) == 0 and rng.random() < .8:
                return None
            if 0 in species and len(species) == 1 and any(c == 0 for c in counts):
                return None
            opt.update(kind='bin', tgt=tgt, z=z, counts=counts, prim=prim)
            zs = species + [z]
        else:
            if n < 3:
                return None
            sps = rng.sample(free, 2)
            if gok and rng.random() < .2:
                sps[rng.randrange(2)] = 'G'
            if rng.random() < .4:
                args += ['--element', C.ELEMENTS[cell['num'][0]]]
            args += ['--speckle', sps[0], sps[1]]
            z1, z2 = C.zof(sps[0]), C.zof(sps[1])
            if cmd == 'ocutenter':
                n1 = rng.randrange(1, min(3, n - 1) + 1)
                n2 = rng.randrange(1, n - n1 + 1)
                n2 = min(n2, 3)
                if rng.random() < .06:
                    n2 = 0
                args += ['-n', str(n1), str(n2)]
                pairs = [(n1, n2)]
                prim = rng.random() < .5
                if not prim:
                    args += ['-N']
            else:
                pairs = [(a, b) for a in range(1, n - 1) for b in range(1, n - a)]
                prim = True
            if any(cell_vac(z1, a, z2, b) >= n for a, b in pairs):
                return None
            opt.update(kind='ter', z1=z1, z2=z2, pairs=pairs, prim=prim)
            zs = species + [z1, z2]
            if rng.random() < .25:
                zo = rng.choice([2, 0.5, 1.25])
                style['zoom'] = 3 if 'zoom' in style else style.get('zoom', 1)
                # the option wins over the file
                txt_cell = cell
                args += ['--zoom', str(zo)]
                opt['zoomopt'] = zo
        trs = []
        if crooked or rng.random() < (.7 if given else .3) and not plain:
            for _ in range(rng.choice([1, 1, 2])):
                e = rng.choice(zs + ([zs[-1]] * 2) + [79])
                if given and given[4] and rng.random() < .8:
                    e = rng.choice(given[4])
                trs.append([e, _limits(rng, cell, zs)])
        for e, d in trs:
            args += ['-r', C.ELEMENTS[e], str(d)]
        opt['trs'] = trs
        opt['refined'] = ref
        args += ['--refined' if ref else '--no-refined']
        args += ['-o' if not tern else '--outmode', out]
        opt['out'] = out
        if rng.random() < .5 or plain:
            cm = rng.choice(['run', 'x-1', 'A', 'Na4Cl4']) + tag
            args += ['--comment', cm]
        if opt.get('zoomopt'):
            # the lattice in the file is divided by the option's zoom
            zo = opt['zoomopt']
            zf = style.get('zoom', 1)
            fcell = dict(cell, lat=[[x / zo for x in r] for r in cell['lat']])
            text = C.yaml_text(fcell, dict(style, zoom=1)).replace(
                'zoom: 1\n', 'zoom: %s\n' % zf)
        else:
            text = gen.input_text(cell, fmt, style)
        spec = dict(cmd=cmd, args=[cmd, name] + args, cell=cell, opt=opt,
                    input=dict(name=name, fmt=fmt, text=text, style=style))
        e = expected_classes(spec)
        opt['n_expected'] = len(e)
        if len(e) > max_out:
            return None
        return spec
    text = gen.input_text(cell, fmt, style)
    if cmd == 'suplat':
        if not C.SupParent(cell, 1).unambiguous():
            return None
        ld = rng.random() < .4
        v = rng.choice([1, 2, 2, 3, 4, 5] if ld else ([1, 2, 2] if small else [1, 2, 2, 3]))
        if large:
            v = rng.choice([4, 6, 7, 8, 9, 12] if ld else [8] if rng.random() < .04 else [4, 4, 5, 6])
        args += ['-v', str(v)]
        if ld:
            args += [rng.choice(['--ld', '-L'])]
        out = outmode or rng.choice(['vasp', 'yaml'])
        if out != 'yaml' or rng.random() < .5:
            args += ['-o', out]
        cm = 'default'
        if tag or rng.random() < .5:
            cm = rng.choice(['s', 'abc']) + tag
            args += ['-c', cm]
        opt.update(v=v, ld=ld, out=out, comment=cm)
    elif cmd == 'supcell':
        sc = rng.choice([(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 3, 1),
                         (2, 2, 2), (3, 1, 2)])
        if n * sc[0] * sc[1] * sc[2] > 48:
            return None
        out = outmode or rng.choice(['vasp', 'yaml', 'stdio'])
        args += ['-s'] + [str(x) for x in sc]
        if out != 'stdio' or rng.random() < .5:
            args += ['--outmode', out]
        opt.update(scale=list(sc), out=out)
    elif cmd == 'pcell':
        out = outmode or rng.choice(['vasp', 'yaml', 'stdio'])
        if out != 'stdio' or rng.random() < .5:
            args += ['--outmode', out]
        opt.update(out=out)
    elif cmd == 'atclear':
        ce, ele = rng.choice(species), rng.choice(species)
        r = 0 if rng.random() < .1 else _limits(rng, cell, species)
        rem = removed(cell, ce, r, ele)
        left = [i for i in range(n) if i not in rem]
        if not left or r < 0:
            return None
        lc = dict(lat=cell['lat'], pos=[cell['pos'][i] for i in left],
                  num=[cell['num'][i] for i in left])
        ref = rng.random() < .5 if refined is None else refined
        if ref:
            LP = parent_of(lc)
            if not LP.ok or not C.robust(lc) or not shells_of(LP).ok:
                ref = False
        args += ['-c', C.ELEMENTS[ce], '-e', C.ELEMENTS[ele]]
        if r:
            args += ['-r', str(r)]
        args += ['--refined' if ref else '--no-refined']
        opt.update(ce=ce, ele=ele, r=r, refined=ref, out='vasp')
    else:
        r = rng.choice([0, .05, .1, .2, .25])
        if r:
            args += ['-r', str(r)]
        opt.update(r=r, out='vasp')
    return dict(cmd=cmd, args=[cmd, name] + args, cell=cell, opt=opt,
                input=dict(name=name, fmt=fmt, text=text, style=style))


def cell_vac(z1, a, z2, b):
    return (a if z1 == 0 else 0) + (b if z2 == 0 else 0)


def removed(cell, ce, r, ele):
    """Sites atclear must remove."""
    out = set()
    d = C.distances(cell, max(r, 0) + 1e-9)
    for i, z in enumerate(cell['num']):
        if z != ce:
            continue
        if ele == ce and r > 0:
            out.add(i)
        for x, j in d[i]:
            if cell['num'][j] == ele and x < r:
                out.add(j)
    return out


def expected_classes(spec):
    """Canonical occupation vectors the run must write, one file each."""
    P = parent_of(spec['cell'])
    o = spec['opt']
    if o['kind'] == 'bin':
        sites = [i for i, z in enumerate(P.cell['num']) if z == o['tgt']]
        cl = []
        for m in o['counts']:
            cl += sorted(P.classes_binary(sites, m, o['z']))
    else:
        cl = []
        for a, b in o['pairs']:
            cl += sorted(P.classes_ternary(a, o['z1'], b, o['z2']))
    out = []
    for v in cl:
        if o['prim'] and P.fold(v) != 1:
            continue
        if not all(P.far(v, z, d) for z, d in o['trs']):
            continue
        out.append(v)
    return out


def load_check(path):
    """Does ababe's own reader accept the file (fresh modules, no faults)?"""
    import importlib
    S._purge_mods()
    try:
        m = importlib.import_module('ababe.io.io')
        c = m.GeneralIO.from_file(path)
        return len(c.numbers), None
    except Exception as e:
        return None, repr(e)[:200]
    finally:
        S._purge_mods()


def check_occ_dir(spec, path, load=True):
    """None if the directory holds exactly the expected structures."""
    P = parent_of(spec['cell'])
    o = spec['opt']
    want = expected_classes(spec)
    try:
        names = sorted(S._real['listdir'](path))
    except OSError as e:
        return 'no output directory: %s' % e
    cells = []
    for nme in names:
        f = os.path.join(path, nme)
        if not S._real_isfile(f):
            return 'unexpected entry %s' % shape(nme)
        try:
            c = C.parse_file(f, o['out'])
        except C.BadFile as e:
            return 'output file is not a complete structure: %s' % e
        if load:
            k, err = load_check(f)
            if err:
                return 'output file does not load: %s' % err
            if k != len(c['num']):
                return 'loads with %d atoms instead of %d' % (k, len(c['num']))
        cells.append(c)
    if len(cells) != len(want):
        return '%d structures written, %d inequivalent ones exist' % (len(cells), len(want))
    if not o['refined']:
        got = Counter()
        for c in cells:
            v, err = P.site_vector(c)
            if err:
                return err
            got[P.canon(v)] += 1
        for v, k in got.items():
            if k > 1:
                return 'the same structure was written %d times' % k
        miss = [v for v in want if v not in got]
        if miss:
            return 'structure %s missing, %s written instead' % (
                miss[0], [v for v in got if v not in want][:1])
        return None
    sh = shells_of(P)
    w = Counter()
    for v in want:
        fold = P.fold(v)
        rep = dict(lat=P.cell['lat'], pos=P.cell['pos'], num=list(v))
        w[(C.fp_key(sh.prints(rep), fold), round(abs(C.det(P.cell['lat'])) / fold, 0))] += 1
    g = Counter()
    vols = []
    for c in cells:
        vol = abs(C.det(c['lat']))
        vols.append(vol)
        best = min((abs(vol - k[1]), k[1]) for k in w)
        if best[0] > 1.0 + .004 * vol:
            return 'refined cell of unexpected volume %.2f' % vol
        g[(C.fp_key(sh.prints(c)), best[1])] += 1
    if g != w:
        return 'refined structures differ from the expected ones (%d of %d match)' % (
            sum((g & w).values()), sum(w.values()))
    return None


def shape(name):
    return name


def check_suplat_dir(spec, path, load=True):
    o = spec['opt']
    SP = sup_parent(spec)
    try:
        names = sorted(S._real['listdir'](path))
    except OSError as e:
        return 'no output directory: %s' % e
    got = Counter()
    for nme in names:
        f = os.path.join(path, nme)
        if not S._real_isfile(f):
            return 'unexpected entry %s' % nme
        try:
            c = C.parse_file(f, o['out'])
        except C.BadFile as e:
            return 'output file is not a complete structure: %s' % e
        if load:
            k, err = load_check(f)
            if err:
                return 'output file does not load: %s' % err
            if k != len(c['num']):
                return 'loads with %d atoms instead of %d' % (k, len(c['num']))
        h, err = SP.classify(c)
        if err:
            return err
        if h not in SP.classes:
            return 'superlattice %s was not asked for' % (h,)
        got[h] += 1
    if any(k > 1 for k in got.values()):
        return 'the same superlattice was written %d times' % max(got.values())
    if set(got) != SP.classes:
        return '%d superlattices written, %d inequivalent ones exist' % (
            len(got), len(SP.classes))
    return None


_sup = {}


def sup_parent(spec):
    k = repr((spec['cell'], spec['opt']['v'], spec['opt']['ld']))
    if k not in _sup:
        if len(_sup) > 50:
            _sup.clear()
        _sup[k] = C.SupParent(spec['cell'], spec['opt']['v'], spec['opt']['ld'])
    return _sup[k]


SUFFIX = {'supcell': '_SUPC', 'pcell': '_PRIMC', 'atclear': '_ACLR', 'perturb': '_PURB'}


def target_name(spec):
    """Name of the one entry in the working directory the command may touch."""
    if spec['cmd'] == 'suplat':
        return 'SUPLAT_' + spec['opt']['comment']
    if spec['cmd'] in ONE:
        if spec['opt']['out'] == 'stdio':
            return None
        return os.path.basename(spec['input']['name']).split('.')[0] + \
            SUFFIX[spec['cmd']] + '.' + spec['opt']['out']
    return None


def check_one_cell(spec, c):
    """None if cell c is what the single-file command must produce."""
    o = spec['opt']
    cell = spec['cell']
    if spec['cmd'] == 'supcell':
        s = o['scale']
        pos, num = [], []
        for p, z in zip(cell['pos'], cell['num']):
            for a in range(s[0]):
                for b in range(s[1]):
                    for d in range(s[2]):
                        pos.append([(p[0] + a) / s[0], (p[1] + b) / s[1], (p[2] + d) / s[2]])
                        num.append(z)
        want = dict(lat=[[x * k for x in r] for r, k in zip(cell['lat'], s)], pos=pos, num=num)
        return C.same_cell(want, c, tol=1.2e-4, ltol=1e-3, ghosts=o['out'] == 'yaml')
    if spec['cmd'] == 'pcell':
        return check_primitive(cell, c)
    if spec['cmd'] == 'atclear':
        rem = removed(cell, o['ce'], o['r'], o['ele'])
        left = [i for i in range(len(cell['num'])) if i not in rem]
        lc = dict(lat=cell['lat'], pos=[cell['pos'][i] for i in left],
                  num=[cell['num'][i] for i in left])
        if o['refined']:
            return check_primitive(lc, c)
        return C.same_cell(lc, c, tol=1.2e-4, ltol=1e-3, ghosts=False)
    return check_perturbed(cell, c, o['r'])


def check_primitive(cell, c):
    P = parent_of(cell)
    fold = P.fold(cell['num'])
    w = Counter(z for z in cell['num'] if z)
    g = Counter(z for z in c['num'] if z)
    if {z: k // fold for z, k in w.items()} != dict(g):
        return 'primitive cell with atoms %s, expected %s / %d' % (dict(g), dict(w), fold)
    v = abs(C.det(cell['lat'])) / fold
    if abs(abs(C.det(c['lat'])) - v) > 4e-3 * v:
        return 'primitive cell of volume %.3f instead of %.3f' % (abs(C.det(c['lat'])), v)
    sh = shells_of(P)
    if sh.ok and C.fp_key(sh.prints(c)) != C.fp_key(sh.prints(cell), fold):
        return 'primitive cell describes another crystal'
    return None


def check_perturbed(cell, c, r, tol=6e-5):
    for a, b in zip(cell['lat'], c['lat']):
        if max(abs(x - y) for x, y in zip(a, b)) > 1e-3:
            return 'lattice changed'
    A = [(z, p) for z, p in zip(cell['num'], cell['pos']) if z]
    B = [(z, p) for z, p in zip(c['num'], c['pos']) if z]
    if Counter(z for z, p in A) != Counter(z for z, p in B):
        return 'number or species of atoms changed'
    left = list(B)
    t = 5e-4 + tol
    for z, p in A:
        best = None
        for k, (zz, q) in enumerate(left):
            if zz != z:
                continue
            d = C.norm(C.vm(C.frac_delta(q, p), cell['lat']))
            if best is None or abs(d - r) < best[0]:
                best = (abs(d - r), k, d)
        if best is None or best[0] > t:
            return 'an atom moved by %.5f instead of %.5f' % (best[2] if best else -1, r)
        del left[best[1]]
    return None


def read_one(spec, cwd, out_bytes):
    """(cell, error) of a single-file command's product."""
    o = spec['opt']
    if o['out'] == 'stdio':
        t = bytes(out_bytes).decode('utf-8', 'replace')
        lines = t.split('\n')
        if lines and lines[0].startswith('PROCESSING'):
            lines = lines[1:]
        try:
            return C.parse_poscar('\n'.join(lines)), None
        except C.BadFile as e:
            return None, 'standard output is not a complete structure: %s' % e
    f = os.path.join(cwd, target_name(spec))
    try:
        c = C.parse_file(f, o['out'])
    except OSError as e:
        return None, 'no output file'
    except C.BadFile as e:
        return None, 'output file is not a complete structure: %s' % e
    return c, None


def check_output(spec, cwd, proc_out, newdirs, load=True):
    """None if the command's complete and correct output is there.

    newdirs: the directories (relative to cwd) that belong to this run."""
    if spec['cmd'] in OCC:
        if len(newdirs) != 1:
            return '%d new output directories instead of one' % len(newdirs)
        return check_occ_dir(spec, os.path.join(cwd, newdirs[0]), load)
    if spec['cmd'] == 'suplat':
        return check_suplat_dir(spec, os.path.join(cwd, target_name(spec)), load)
    c, err = read_one(spec, cwd, proc_out)
    if err:
        return err
    return check_one_cell(spec, c)
