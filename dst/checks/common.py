"""What the command checks share: scenarios, dry runs, decoys, verdicts."""
import os
import json
from .. import sim as S
from .. import cmds
from .. import world as W
from .. import shrink as H
from ..base import Check

CWDS = ['w', 'w', 'w', 'my.yaml.d', 'POSCAR_dir', 'a b', 'x.vasp', 'deep/er/w', 'STRUCTURES_run']
DECOYS = [('README', 'notes\n'), ('old/', None), ('STRUCTURES_run_ABCDEF/a.vasp', 'x\n'),
          ('SUPLAT_other/SUPLAT_2_AAAA.yaml', 'y\n'), ('in_SUPC.yaml', 'old\n'),
          ('.hidden', 'h'), ('POSCAR.bak', 'b\n'), ('tmp/', None), ('default', 'd\n'),
          ('STRUCTURES_/x', '1')]


def scenario(rng, cmd, **kw):
    """A one-command scenario without faults."""
    spec = cmds.make(rng, cmd, **kw)
    files = {spec['input']['name']: spec['input']['text']}
    return {'cwd': 'w', 'files': files,
            'procs': [{'spec': spec, 'draws': {'seed': rng.randrange(1 << 30), 'epochs': []},
                       'np_seed': rng.randrange(1 << 30)}]}


def decoys(rng, sc, n=3):
    for name, data in rng.sample(DECOYS, rng.randrange(n + 1)):
        tops = set(f.split('/')[0] for f in sc['files'])
        if name.split('/')[0] not in tops and \
                name.split('/')[0] not in [cmds.target_name(p['spec']) for p in sc['procs']]:
            sc['files'][name] = data or ''


def low_entropy(rng, total=None):
    """Epochs in which few values are drawn."""
    ep = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        start = rng.choice([0, 0, 0, 4, 6, 8, 10, rng.randrange(60)])
        length = rng.choice([4, 6, 8, 12, 24, 48, 96])
        k = rng.choice([1, 1, 2, 3, 5])
        ep.append([start, length, [round(rng.random(), 6) for _ in range(k)]])
    return ep


def noise(rng, sc, p=0.5):
    """Legal disturbances: short transfers, clock, listing order, cwd name."""
    if rng.random() < p:
        sc['cwd'] = rng.choice(CWDS)
    if rng.random() < p:
        sc['order'] = rng.choice([1, 2, 3, rng.randrange(4, 1000)])
    if rng.random() < p:
        sc['jumps'] = [[rng.randrange(1, 120), rng.choice([-1e6, -3600, -1, 0.5, 86400, 1e8])]
                       for _ in range(rng.randrange(1, 5))]
    if rng.random() < .3:
        sc['dt'] = rng.choice([0.0, 1e-6, 0.05, 3.0])
    for pd in sc['procs']:
        if rng.random() < p:
            pd['short'] = [rng.randrange(1000), rng.choice([.1, .3, .7])]


def build(sc):
    w = W.World(sc.get('cwd', 'w'))
    for name, data in sorted((sc.get('files') or {}).items()):
        w.put(name, data)
    return w


def play(sc, monitor=None, only=None):
    """Run the processes of a scenario; (world, sim)."""
    w = build(sc)
    sim = W.new_sim(w, sc, monitor)
    for k, pd in enumerate(sc['procs']):
        if only is None or k in only:
            W.spawn(sim, pd)
    sim.run()
    return w, sim


def dry(sc):
    """Play the scenario without its faults; the process descriptions learn
    nothing, the caller gets (proc list, own top-level names)."""
    c = json.loads(json.dumps(sc))
    for pd in c['procs']:
        pd['faults'] = []
        pd.pop('fdlimit', None)
        pd.pop('stderr_fail', None)
    w, sim = play(c)
    own = [sorted(W.own_dirs(w, p)) for p in sim.procs]
    files = [sorted(set(rel for op, rel in p.mutations)) for p in sim.procs]
    w.close()
    return sim.procs, own, files


def complete(w, spec, p, before, load=True):
    """None if process p's complete output is there (exit 0 is expected)."""
    if p.status != 0:
        return 'ended with status %s: %s' % (p.status, why(p))
    return output(w, spec, p, before, load)


def output(w, spec, p, before, load=True):
    new = own_new(w, p, before)
    return cmds.check_output(spec, w.cwd, p.out, new, load)


def own_new(w, p, before):
    """Top-level entries that p created."""
    return sorted(d for d in W.own_dirs(w, p)
                  if d not in before and S._lexists(os.path.join(w.cwd, d)))


def why(p):
    e = bytes(p.err).decode('utf-8', 'replace')[-160:].replace('\n', ' | ')
    return '%r %s' % (p.exc, e)


def extra_entries(w, spec, before):
    """New entries of the working directory that the command must not leave."""
    new = w.top() - before
    if spec['cmd'] in cmds.OCC:
        return None if len(new) == 1 else '%d new entries %s' % (len(new), sorted(new)[:4])
    t = cmds.target_name(spec)
    bad = sorted(new - set([t] if t else []))
    return 'unexpected new entries %s' % bad[:4] if bad else None


class CommandCheck(Check):
    def shrinks(self, sc):
        for c in H.procs(sc):
            yield c
        for k, pd in enumerate(sc['procs']):
            if pd['draws']['epochs']:
                yield H.at(sc, ('procs', k, 'draws', 'epochs'), [])
