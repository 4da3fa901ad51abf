"""C22: a refused command changes nothing."""
import os
import re
from .. import cmds
from .. import gen
from .. import sim as S
from .. import world as W
from .. import shrink as H
from . import common as M

READ_ERR = {'open-r': ['EIO', 'EACCES', 'EMFILE', 'ENFILE', 'intr', 'mem'],
            'read': ['EIO', 'EIO', 'intr', 'mem'],
            'close': ['EIO', 'intr']}
BIN = 'b64://///gAB/v+AgYL//w=='


def spoil(rng, spec):
    """(kind, new text) of an input no reader can accept."""
    text, fmt = spec['input']['text'], spec['input']['fmt']
    kinds = ['empty', 'blank', 'garbage', 'binary', 'word']
    if fmt == 'vasp':
        kinds += ['symbol', 'head', 'count']
    else:
        kinds += ['key', 'key', 'syntax', 'list']
    k = rng.choice(kinds)
    if k == 'empty':
        return k, ''
    if k == 'blank':
        return k, rng.choice(['\n', ' \n\n  \n', '\n' * 40])
    if k == 'garbage':
        return k, ''.join(rng.choice('qwertz.;#+ \n') for _ in range(rng.choice([5, 80, 900])))
    if k == 'binary':
        return k, BIN
    if k == 'syntax':
        at = rng.randrange(len(text) + 1)
        return k, text[:at] + '\n]}: [{\n' + text[at:]
    if k == 'list':
        return k, ''.join('- %s\n' % l.split(':')[0] for l in ['lattice', 'zoom', 'numbers'])
    if k == 'key':
        key = rng.choice(['lattice', 'positions', 'numbers'])
        new = re.sub('(?m)^(["\']?)%s\\1 *:' % key, 'x%s:' % key, text)
        return k, new if new != text else '- 1\n'
    lines = text.split('\n')
    body = [i for i, l in enumerate(lines) if l.strip()]
    if k == 'symbol':
        lines[body[5]] = rng.choice(['Xx', 'Qq', 'Zz9']) + ' ' + lines[body[5]]
    elif k == 'head':
        i = body[rng.choice([1, 2, 3, 4])]
        f = lines[i].split()
        f[rng.randrange(min(3, len(f)))] = rng.choice(['abc', '1.2.3', '--1'])
        lines[i] = ' '.join(f)
    elif k == 'count':
        lines[body[6]] = rng.choice(['x', '1.5.2', 'two']) + ' ' + lines[body[6]]
    else:
        # a coordinate (vasp) or any number (yaml) becomes a word
        if fmt == 'vasp':
            i = body[rng.randrange(8, len(body))]
            f = lines[i].split()
            f[rng.randrange(3)] = 'abc'
            lines[i] = ' '.join(f)
        else:
            at = text.index('lattice')
            new = re.sub('-?[0-9]+\\.[0-9]+', 'abc', text[at:], count=1)
            return k, text[:at] + new if text[at:] != new else ''
    return k, '\n'.join(lines)


VALUED = {'supcell': [('--outmode', 'cif'), ('-s', '1 1')],
          'pcell': [('--outmode', 'xyz')],
          'atclear': [('-r', 'far'), ('-c', 'Xx'), ('-e', 'Qq')],
          'perturb': [('-r', 'abc')],
          'suplat': [('-v', 'two'), ('-o', 'cif')],
          'ocumaker': [('-n', 'many'), ('-o', 'cif'), ('-s', 'Xx'), ('-e', 'Qq')],
          'ocubiter': [('-n', '1.5'), ('-o', 'cif'), ('-s', 'Xx'), ('-e', 'Qq')],
          'ocutenter': [('--outmode', 'cif'), ('--speckle', 'Xx Qq'), ('-n', '1 x')],
          'ocumakert': [('--outmode', 'cif'), ('--speckle', 'Xx Qq')]}


def misuse(rng, spec):
    """(kind, args): a command line that asks for something impossible."""
    a = list(spec['args'])
    r = rng.random()
    if r < .2:
        return 'unknown option', a + [rng.choice(['--frobnicate', '--outmodes'])]
    if r < .3:
        return 'extra argument', a + ['other.vasp', 'more']
    if r < .4:
        return 'no input', [a[0]] + a[2:]
    if r < .5:
        return 'missing file', [a[0], 'not_there.vasp'] + a[2:]
    o, v = rng.choice(VALUED[spec['cmd']])
    return 'bad value of %s' % o, a + [o] + v.split(' ')


class C22(M.CommandCheck):
    ID = 'C22'
    RUNS = {'quick': 1500, 'thorough': 50000}
    RULE = ('a run is non-trivial if the command refused its input or options, or failed reading '
            'it, while an earlier output of its name or other entries were present; distinct by '
            'event-log hash')
    ASSUME = ['an occupation command that refuses may leave one new, empty output directory',
              'failures are injected into opening, reading and closing the input file; failures '
              'after the input was accepted belong to C06 and C21']

    def gen(self, rng, i, tier):
        cmd = cmds.ALL[i % len(cmds.ALL)]
        outmode = None
        if cmd in ('supcell', 'pcell') and rng.random() < .8:
            outmode = rng.choice(['vasp', 'yaml'])
        sc = M.scenario(rng, cmd, small=True, max_out=8, outmode=outmode)
        M.decoys(rng, sc, 4)
        M.noise(rng, sc, .2)
        pd = sc['procs'][0]
        spec = pd['spec']
        t = cmds.target_name(spec)
        r = rng.random()
        if t and r < .4:
            if cmd == 'suplat':
                sc['files'][t + '/SUPLAT_2_AAAA.yaml'] = 'earlier\n'
                sc['files'][t + '/x/y'] = 'earlier\n'
            else:
                sc['files'][t] = 'earlier\n' * rng.choice([1, 300])
        elif r < .8:
            sc['prior'] = rng.randrange(1 << 30)
        if rng.random() < .3:
            pd['draws']['epochs'] = M.low_entropy(rng)
        bad = {'must': True}
        r = rng.random()
        if cmd == 'suplat' and r < .3:
            cell = self.nonprimitive(rng)
            fmt = spec['input']['fmt']
            bad.update(kind='not primitive', text=gen.input_text(cell, fmt,
                                                                 gen.input_style(rng, fmt)))
        elif r < .4:
            k, text = spoil(rng, spec)
            bad.update(kind='input: ' + k, text=text)
        elif r < .48:
            nm = rng.choice(['', 'D']) + os.path.basename(spec['input']['name'])
            sc['files']['dirs/' + nm + '/'] = ''
            a = list(spec['args'])
            a[1] = 'dirs/' + nm
            bad.update(kind='input is a directory', args=a)
        elif r < .68:
            k, a = misuse(rng, spec)
            bad.update(kind='option: ' + k.split(' of ')[0], args=a)
        else:
            procs, own, files = M.dry(sc)
            p = procs[0]
            end = '/' + spec['input']['name']
            pts = [(k, op) for k, (op, path) in enumerate(zip(p.ops, p.opinfo))
                   if op in READ_ERR and str(path).endswith(end)]
            if pts:
                at, op = rng.choice(pts)
                if rng.random() < .6:
                    op = rng.choice(sorted(set(o for k, o in pts)))
                    at = rng.choice([k for k, o in pts if o == op])
                f = {'at': at, 'kind': rng.choice(READ_ERR[op])}
                if f['kind'] not in ('intr', 'mem') and rng.random() < .3:
                    f['sticky'] = rng.choice([1, 3])
                bad.update(kind='fault: ' + op, faults=[f])
            else:
                bad.update(kind='missing', args=[spec['args'][0], 'gone.vasp'] + spec['args'][2:])
            bad['must'] = False
        sc['bad'] = bad
        return sc

    def nonprimitive(self, rng):
        while True:
            c = gen.crystal(rng, 2, 6)
            c = {k: c[k] for k in ('lat', 'pos', 'num')}
            P = cmds.parent_of(c)
            if P.ok and P.fold(c['num']) > 1:
                return c

    def execute(self, sc):
        res = W.Result()
        w = M.build(sc)
        pd = sc['procs'][0]
        spec = pd['spec']
        bad = sc['bad']
        if sc.get('prior') is not None:
            sim = W.new_sim(w, sc)
            q = dict(pd, draws={'seed': sc['prior'], 'epochs': []}, np_seed=sc['prior'])
            p = W.spawn(sim, q)
            sim.run()
            res.absorb(sim)
            if p.status != 0:
                res.fail('prior', 'the valid command failed: %s' % M.why(p))
        if 'text' in bad:
            text = bad['text']
            if text == BIN:
                text = b'\xff\xfe\x00\x01\xfe\xff\x80\x81\x82\n\xff'
            w.put(spec['input']['name'], text)
        top = w.top()
        snap = w.snapshot()
        q = dict(pd, spec=dict(spec, args=bad.get('args', spec['args'])),
                 faults=bad.get('faults', ()))
        sim = W.new_sim(w, sc)
        p = W.spawn(sim, q)
        sim.run()
        res.absorb(sim)
        res.fired[bad['kind']] += 1
        if p.status == 0:
            res.probes['accepted'] += 1
            if bad['must']:
                res.fail('accepted', 'exit 0 although: %s (%s)' % (
                    bad['kind'], ' '.join(bad.get('args', spec['args']))[:150]))
        else:
            res.probes['refused'] += 1
            self.judge(res, w, spec, p, bad, top, snap)
        res.probes[spec['cmd']] += 1
        res.nontrivial = p.status != 0 and len(snap) > 2
        res.note(p.status, sorted(w.top()))
        w.close()
        return res

    def judge(self, res, w, spec, p, bad, top, snap):
        after = w.snapshot()
        for rel, dig in sorted(snap.items()):
            if after.get(rel) != dig:
                res.fail('lost', 'refused (%s) with status %s, but %s was %s' % (
                    bad['kind'], p.status, rel, 'removed' if rel not in after else 'changed'))
                return
        new = sorted(set(after) - set(snap))
        if not new:
            return
        if spec['cmd'] in cmds.OCC and len(new) == 1 and after[new[0]] == 'd':
            res.probes['empty directory left'] += 1
            return
        res.fail('left', 'refused (%s) with status %s, but left %s' % (
            bad['kind'], p.status, new[:3]))

    def shrinks(self, sc):
        for c in M.CommandCheck.shrinks(self, sc):
            yield c
        for c in H.keys(sc, ('prior',)):
            yield c


CHECK = C22()
