"""C14: chained structure commands keep the crystal they describe."""
import os
from .. import cmds
from .. import gen
from .. import crystal as C
from .. import sim as S
from .. import world as W
from .. import shrink as H
from ..base import Check
from . import common as M

KINDS = ['ENOSPC', 'EIO', 'EACCES', 'partial', 'kill', 'killpartial', 'intr', 'mem', 'EMFILE']
SCALES = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 3, 1), (2, 2, 2),
          (1, 1, 4), (4, 1, 1), (1, 5, 1), (3, 1, 2)]
MAXAT = 40


def rounded(c):
    """The cell as ababe's readers see it."""
    np = S.TYPE_NP
    return {'lat': np.around(np.array(c['lat']), decimals=4).tolist(),
            'pos': np.around(np.array(c['pos']), decimals=4).tolist(), 'num': list(c['num'])}


def tied(c):
    """Some coordinate lies half-way between two four-decimal numbers."""
    for x in [y for p in c['pos'] for y in p] + [y for r in c['lat'] for y in r]:
        f = abs(x) * 1e4
        if abs(f - int(f) - .5) < .004:
            return True
    return False


class C14(Check):
    ID = 'C14'
    RUNS = {'quick': 420, 'thorough': 20000}
    RULE = ('a run is non-trivial if a command took the output of an earlier one as its input; '
            'distinct by event-log hash of the whole history')
    ASSUME = ['each link is compared with the structure its input file describes (own parser, '
              'rounded to the four decimals the readers keep)',
              'links whose input has tolerance-dependent symmetry are skipped']

    def gen(self, rng, i, tier):
        fmt = rng.choice(['vasp', 'yaml'])
        cell = gen.crystal(rng, 1, 8)
        if rng.random() < .15:
            cell = cmds.crook(rng, cell) or cell
        name = rng.choice(['in.vasp', 'POSCAR', 'cell-1.vasp'] if fmt == 'vasp'
                          else ['in.yaml', 'Cell.yaml'])
        text = gen.input_text({k: cell[k] for k in ('lat', 'pos', 'num')}, fmt,
                              gen.input_style(rng, fmt))
        steps = []
        for _ in range(rng.choice([2, 3, 4, 5, 6, 8])):
            st = {'cmd': rng.choice(['supcell', 'supcell', 'pcell', 'pcell', 'atclear']),
                  'src': rng.choice([0, 0, 0, 1, 2, 5]), 'seed': rng.randrange(1 << 30),
                  'out': rng.choice(['vasp', 'yaml', 'vasp', 'yaml', 'stdio'])}
            if rng.random() < .4:
                st['faults'] = [{'at': rng.randrange(18), 'kind': rng.choice(KINDS),
                                 'frac': rng.choice([0, .4, .9])}
                                for _ in range(rng.choice([1, 1, 2]))]
            steps.append(st)
        return {'cwd': rng.choice(M.CWDS), 'files': {name: text}, 'steps': steps}

    def spec(self, st, cell, name, cwd):
        """The command line of a step, or None if its outcome is not clear-cut."""
        rng = S.RealRandom(st['seed'])
        n = len(cell['num'])
        species = sorted(set(cell['num']))
        cmd = st['cmd']
        opt = {'out': st['out']}
        args = [cmd, name]
        if cmd == 'supcell':
            sc = rng.choice([s for s in SCALES if n * s[0] * s[1] * s[2] <= MAXAT] or [(1, 1, 1)])
            opt['scale'] = list(sc)
            args += ['-s'] + [str(x) for x in sc] + ['--outmode', st['out']]
        elif cmd == 'pcell':
            if not C.robust(cell) or not cmds.parent_of(cell).ok:
                return None
            args += ['--outmode', st['out']]
        else:
            opt['out'] = 'vasp'
            ce, ele = rng.choice(species), rng.choice(species)
            r = cmds._limits(rng, cell, species) if rng.random() < .9 else 0
            if r < 0:
                return None
            rem = cmds.removed(cell, ce, r, ele)
            left = [k for k in range(n) if k not in rem]
            if not left:
                return None
            lc = {'lat': cell['lat'], 'pos': [cell['pos'][k] for k in left],
                  'num': [cell['num'][k] for k in left]}
            ref = rng.random() < .4
            if ref and (not C.robust(lc) or not cmds.parent_of(lc).ok):
                ref = False
            if not ref and not all(0 <= x < 1 for p in cell['pos'] for x in p):
                return None
            args += ['-c', C.ELEMENTS[ce], '-e', C.ELEMENTS[ele]]
            if r or rng.random() < .3:
                args += ['-r', str(r)]
            args += ['--refined' if ref else '--no-refined']
            opt.update(ce=ce, ele=ele, r=r, refined=ref)
        return {'cmd': cmd, 'args': args, 'cell': cell, 'opt': opt,
                'input': {'name': name, 'fmt': 'yaml' if name.endswith('yaml') else 'vasp'}}

    def once(self, w, sc, res, spec, st, faults):
        sim = W.new_sim(w, sc)
        p = W.spawn(sim, {'spec': spec, 'draws': {'seed': st['seed']}, 'np_seed': st['seed'],
                          'faults': faults})
        sim.run()
        res.absorb(sim)
        return p

    def execute(self, sc):
        res = W.Result()
        w = M.build(sc)
        names = list(sc['files'])
        good = {n: w.get(n) for n in names}
        chained = 0
        for st in sc['steps']:
            name = names[-1 - min(st['src'], len(names) - 1)]
            fmt = 'yaml' if name.endswith('yaml') else 'vasp'
            raw = C.parse_file(os.path.join(w.cwd, name), fmt)
            cell = rounded(raw)
            spec = self.spec(st, cell, name, w.cwd)
            if spec and (spec['cmd'] == 'pcell' or spec['opt'].get('refined')) and tied(raw):
                # how ties are rounded decides the symmetry: not judged
                spec = None
            if spec is None:
                res.probes['skipped'] += 1
                continue
            if len(names) > 1 and name != names[0]:
                chained += 1
            t = cmds.target_name(spec)
            if st.get('faults'):
                p = self.once(w, sc, res, spec, st, st['faults'])
                res.note(p.status)
                if p.status == 0:
                    c, err = cmds.read_one(spec, w.cwd, p.out)
                    err = err or cmds.check_one_cell(spec, c)
                    if err:
                        res.fail('output', '%s after faults: %s' % (' '.join(spec['args']), err))
                        break
                else:
                    res.probes['failed and repeated'] += 1
            p = self.once(w, sc, res, spec, st, ())
            res.note(p.status)
            if p.status != 0:
                res.fail('status', '%s: status %s: %s' % (
                    ' '.join(spec['args']), p.status, M.why(p)))
                break
            c, err = cmds.read_one(spec, w.cwd, p.out)
            err = err or cmds.check_one_cell(spec, c)
            if err:
                res.fail('output', '%s: %s' % (' '.join(spec['args']), err))
                break
            res.probes[spec['cmd']] += 1
            if st['out'] == 'stdio' and spec['cmd'] != 'atclear':
                # the same command into a file gives the same text
                s2 = dict(spec, args=spec['args'][:-1] + ['vasp'],
                          opt=dict(spec['opt'], out='vasp'))
                t = cmds.target_name(s2)
                q = self.once(w, sc, res, s2, st, ())
                a = bytes(p.out).decode('utf-8', 'replace')
                a = '\n'.join(l for l in a.split('\n') if not l.startswith('PROCESSING'))
                b = w.get(t).decode() if q.status == 0 else None
                if b is None or a.rstrip('\n') != b.rstrip('\n'):
                    res.fail('stdio', '%s: standard output differs from the file' %
                             ' '.join(spec['args']))
                    break
                res.probes['stdio'] += 1
            if t in names:
                names.remove(t)
            names.append(t)
            good[t] = w.get(t)
        if not res.violation:
            for n, data in sorted(good.items()):
                if w.get(n) != data:
                    res.fail('damaged', '%s changed after it was written' % n)
        res.nontrivial = chained > 0
        res.probes['links'] += chained
        res.note(sorted(w.top()))
        w.close()
        return res

    def shrinks(self, sc):
        for c in H.lists(sc, ('steps',)):
            yield c
        for k in range(len(sc['steps'])):
            for c in H.keys(sc, ('steps', k, 'faults')):
                yield c
        if sc['cwd'] != 'w':
            yield H.at(sc, ('cwd',), 'w')


CHECK = C14()
