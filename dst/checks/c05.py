"""C05: a truncated structure file is never read as a smaller structure."""
import os
from collections import Counter
from .. import cmds
from .. import gen
from .. import crystal as C
from .. import sim as S
from .. import world as W
from .. import proc as P
from .. import shrink as H
from ..base import Check
from . import common as M


def cut_of(rng, text):
    n = len(text)
    ends = [k + 1 for k, c in enumerate(text) if c == '\n']
    r = rng.random()
    if r < .35 and len(ends) > 1:
        k = rng.choice(ends[:-1]) - rng.choice([0, 0, 1])
    elif r < .6:
        # somewhere in the last lines
        a = ends[-4] if len(ends) > 3 else 0
        k = rng.randrange(a, n)
    elif r < .7:
        k = n - rng.randrange(1, min(n, 12))
    else:
        k = rng.randrange(0, n)
    return max(0, min(k, n - 1))


class C05(Check):
    ID = 'C05'
    RUNS = {'quick': 2000, 'thorough': 60000}
    RULE = ('a run is non-trivial if the cut removed something other than white space at the '
            'end of the file; distinct by file, cut and outcome (event-log hash)')
    ASSUME = ['in YAML inputs the numbers list is followed by another required key, so that a '
              'cut number cannot end the file (no reader could notice)',
              'the value of a cut last coordinate or zoom factor is not judged, only the set '
              'of atoms and species']

    def gen(self, rng, i, tier):
        lib = i % 2 == 0
        cmd = None if lib else cmds.ALL[(i // 2) % len(cmds.ALL)]
        if lib:
            fmt = rng.choice(['vasp', 'yaml'])
            cell = gen.crystal(rng, 1, 9)
            cell = {k: cell[k] for k in ('lat', 'pos', 'num')}
            st = gen.input_style(rng, fmt)
            text = gen.input_text(cell, fmt, st)
            name = rng.choice(cmds.INPUT_NAMES[fmt])
            sc = {'lib': True, 'cell': cell, 'name': name, 'fmt': fmt, 'files': {name: text},
                  'how': rng.choice(['general', 'direct', 'string', 'fmt'])}
        else:
            for _ in range(60):
                sc = M.scenario(rng, cmd, small=True, speckle_g=False, refined=False,
                                max_out=12, plain=True)
                inp = sc['procs'][0]['spec']['input']
                t = inp['text']
                if cmd in ('ocutenter', 'ocumakert') and t.find('\nnumbers:') > t.find('\npositions:'):
                    continue        # see ASSUME: these readers do not need the zoom
                if cmd == 'atclear':
                    sp = sc['procs'][0]['spec']
                    if sp['opt']['r'] != 0:
                        sp['opt']['r'] = 0
                        a = sp['args']
                        if '-r' in a:
                            k = a.index('-r')
                            del a[k:k + 2]
                break
            name = inp['name']
            text = inp['text']
        sc['name'] = name
        sc['cut'] = cut_of(rng, text)
        if rng.random() < .3:
            sc['short'] = [rng.randrange(1000), .5]
        return sc

    def execute(self, sc):
        res = W.Result()
        w = M.build(sc)
        text = sc['files'][sc['name']]
        kept = text.encode()[:sc['cut']]
        w.put(sc['name'], kept)
        res.fired['truncation'] += 1
        res.nontrivial = len(kept.rstrip()) < len(text.rstrip())
        if sc.get('lib'):
            self.library(sc, w, res)
        else:
            self.command(sc, w, res)
        w.close()
        return res

    def library(self, sc, w, res):
        path = os.path.join(w.cwd, sc['name'])

        def use(p, imp):
            io = imp('ababe.io.io')
            vm, ym = imp('ababe.io.vasp'), imp('ababe.io.yaml')
            how = sc['how']
            if how == 'general':
                c = io.GeneralIO.from_file(path)
            elif how == 'fmt':
                c = io.GeneralIO.from_file(path, fmt=sc['fmt'])
            elif how == 'direct':
                c = (vm.VaspInput if sc['fmt'] == 'vasp' else ym.YamlInput)(path).get_cell()
            else:
                cls = vm.VaspInput if sc['fmt'] == 'vasp' else ym.YamlInput
                with open(path) as f:
                    l, q, n = cls.from_string(f.read())
                sc_mod = imp('ababe.stru.scaffold')
                c = sc_mod.GeneralCell(l, q, n)
            return [int(z) for z in c.numbers], [[float(x) for x in q] for q in c.positions]
        sim = S.Sim(w.root)
        p = sim.spawn('p0', P.lib(use), short=sc.get('short'))
        sim.run()
        res.absorb(sim)
        if p.status == 0:
            num, pos = p.result
            res.probes['loaded'] += 1
            if Counter(num) != Counter(sc['cell']['num']):
                res.fail('atoms', 'loaded %s from a file cut at %d, the full file has %s' % (
                    dict(Counter(num)), sc['cut'], dict(Counter(sc['cell']['num']))))
            elif len(pos) != len(num):
                res.fail('atoms', '%d positions for %d atoms' % (len(pos), len(num)))
        else:
            res.probes['refused'] += 1
        res.note(p.status, sc['cut'], sc['name'], sc['files'][sc['name']], repr(p.exc)[:60])

    def command(self, sc, w, res):
        spec = sc['procs'][0]['spec']
        before = w.top()
        sim = W.new_sim(w, sc)
        pd = dict(sc['procs'][0], short=sc.get('short'))
        p = W.spawn(sim, pd)
        sim.run()
        res.absorb(sim)
        res.probes[spec['cmd']] += 1
        res.note(p.status, sc['cut'])
        if p.status != 0:
            res.probes['refused'] += 1
            return
        res.probes['accepted'] += 1
        if not res.nontrivial:
            e = M.output(w, spec, p, before)
            if e:
                res.fail('output', e)
            return
        e = self.atoms(w, spec, p, before)
        if e:
            res.fail('atoms', 'input cut at %d of %d: %s' % (
                sc['cut'], len(sc['files'][sc['name']]), e))

    def atoms(self, w, spec, p, before):
        """Every structure written must have all the atoms."""
        cell, o = spec['cell'], spec['opt']
        want = Counter(cell['num'])
        n = len(cell['num'])
        if spec['cmd'] in cmds.ONE:
            c, err = cmds.read_one(spec, w.cwd, p.out)
            if err:
                return err
            cells = [c]
        else:
            cells = []
            dirs = [cmds.target_name(spec)] if spec['cmd'] == 'suplat' else M.own_new(w, p, before)
            for d in dirs:
                for f in sorted(S._real['listdir'](os.path.join(w.cwd, d))):
                    try:
                        cells.append(C.parse_file(os.path.join(w.cwd, d, f), o['out']))
                    except C.BadFile as e:
                        return 'output file is not a complete structure: %s' % e
        for c in cells:
            got = Counter(c['num'])
            if spec['cmd'] in cmds.OCC:
                if len(c['num']) != n:
                    return 'a structure with %d atoms instead of %d' % (len(c['num']), n)
                extra = set(got) - set(want) - set([o.get('z'), o.get('z1'), o.get('z2')])
                if extra:
                    return 'a structure with unknown species %s' % sorted(extra)
            elif spec['cmd'] == 'suplat':
                if got != Counter({z: k * o['v'] for z, k in want.items()}):
                    return 'a superlattice with atoms %s' % dict(got)
            elif spec['cmd'] == 'supcell':
                k = o['scale'][0] * o['scale'][1] * o['scale'][2]
                if got != Counter({z: m * k for z, m in want.items()}):
                    return 'a supercell with atoms %s' % dict(got)
            elif spec['cmd'] == 'pcell':
                f = n / float(len(c['num']))
                if abs(f - round(f)) > 1e-9 or \
                        got != Counter({z: m / f for z, m in want.items()}):
                    return 'a primitive cell with atoms %s' % dict(got)
                v, v0 = abs(C.det(c['lat'])), abs(C.det(cell['lat']))
                # (a cut lattice or zoom changes the volume: judged only if they are whole)
                head = spec['input']['fmt'] == 'vasp'
                if head and abs(v * f - v0) > .01 * v0:
                    return 'a primitive cell with %d of %d atoms in %.2f of the volume' % (
                        len(c['num']), n, v / v0)
            elif got != want:
                return 'a structure with atoms %s' % dict(got)
        return None

    def shrinks(self, sc):
        for c in H.keys(sc, ('short',)):
            yield c


CHECK = C05()
