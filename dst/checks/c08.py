"""C08: re-running after a crash at any point gives the full result."""
import json
from .. import cmds
from .. import world as W
from .. import shrink as H
from . import common as M
from .c06 import pick_fault


class C08(M.CommandCheck):
    ID = 'C08'
    RUNS = {'quick': 600, 'thorough': 24000}
    RULE = ('a run is non-trivial if at least one earlier attempt was killed before its end; '
            'distinct by event-log hash over all attempts')
    ASSUME = ['a crash of the process loses what it had buffered; with a torn machine its '
              'unsynced files also lose tails, directory entries survive',
              'perturb draws fresh directions in each attempt']

    def gen(self, rng, i, tier):
        cmd = cmds.ALL[i % len(cmds.ALL)]
        outmode = None
        if cmd in ('supcell', 'pcell'):
            outmode = rng.choice(['vasp', 'yaml'])
        sc = M.scenario(rng, cmd, small=True, max_out=12, outmode=outmode)
        M.decoys(rng, sc, 3)
        M.noise(rng, sc, .2)
        pd = sc['procs'][0]
        if rng.random() < .6:
            pd['draws']['epochs'] = M.low_entropy(rng)
        procs, own, files = M.dry(sc)
        n = max(1, procs[0].points)
        att = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
            a = {'same': rng.random() < .7, 'seed': rng.randrange(1 << 30)}
            at = rng.choice([rng.randrange(n), n - 1 - rng.randrange(min(n, 6)),
                             rng.randrange(min(n, 12))])
            # prefer points at which something was being written
            ws = [k for k, op in enumerate(procs[0].ops)
                  if op in ('write', 'open-w', 'close', 'mkdir', 'unlink', 'rmdir', 'rename')]
            if ws and rng.random() < .6:
                at = rng.choice(ws)
            a['faults'] = [{'at': at, 'kind': rng.choice(['kill', 'kill', 'killpartial']),
                            'frac': rng.choice([0, .3, .8, .99])}]
            if rng.random() < .12:
                f = pick_fault(rng, procs[0])
                if f:
                    a['faults'] = [f]
            if rng.random() < .4:
                a['tear'] = rng.randrange(1000)
            att.append(a)
        sc['attempts'] = att
        if rng.random() < .3:
            pd['pid'] = 4000
        return sc

    def execute(self, sc):
        res = W.Result()
        w = M.build(sc)
        pd = sc['procs'][0]
        spec = pd['spec']
        t = cmds.target_name(spec)
        killed = 0
        leftovers = {}
        for a in sc.get('attempts', ()):
            q = json.loads(json.dumps(pd))
            q['faults'] = a['faults']
            if not a['same']:
                q['draws'] = {'seed': a['seed'], 'epochs': []}
                q['np_seed'] = a['seed']
            sim = W.new_sim(w, sc)
            p = W.spawn(sim, q)
            sim.run()
            res.absorb(sim)
            killed += p.killed
            if p.killed and a.get('tear') is not None:
                if w.tear(p, a['tear']):
                    res.fired['torn files'] += 1
            res.note(p.status)
        before = w.top()
        snap = w.snapshot()
        sim = W.new_sim(w, sc)
        p = W.spawn(sim, pd)
        sim.run()
        res.absorb(sim)
        if p.status != 0:
            res.fail('rerun-status', 'the rerun ended with status %s: %s' % (p.status, M.why(p)))
        else:
            e = M.extra_entries(w, spec, before) or M.output(w, spec, p, before)
            if e:
                res.fail('rerun-output', e)
            after = w.snapshot()
            pre = w.cwdname + '/'
            for rel, dig in snap.items():
                if rel.startswith(pre + (t or '//')):
                    continue
                if after.get(rel) != dig:
                    res.fail('rerun-damage', 'the rerun changed %s' % rel)
        if killed:
            res.probes['killed attempts'] += killed
        if len(before) > len(set(f.split('/')[0] for f in sc['files'])):
            res.probes['leftovers present'] += 1
        res.probes[spec['cmd']] += 1
        res.nontrivial = killed > 0
        res.note(p.status, sorted(w.top()))
        w.close()
        return res

    def shrinks(self, sc):
        for c in H.lists(sc, ('attempts',)):
            yield c
        for c in M.CommandCheck.shrinks(self, sc):
            yield c
        for k, a in enumerate(sc.get('attempts', ())):
            if a.get('tear') is not None:
                yield H.at(sc, ('attempts', k, 'tear'), H.DEL)


CHECK = C08()
