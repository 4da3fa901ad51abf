"""C09: concurrent commands in one directory do not disturb each other."""
import json
from .. import cmds
from .. import world as W
from .. import shrink as H
from . import common as M


class C09(M.CommandCheck):
    ID = 'C09'
    RUNS = {'quick': 420, 'thorough': 20000}
    RULE = ('a run is non-trivial if the schedule switched between commands at least once '
            'while both were running; distinct by event-log hash, which contains every switch '
            'and the global order of all I/O points')
    ASSUME = ['switches happen at I/O points: the commands share nothing but the file system',
              'each command has a named target of its own (equal suplat comments are excluded)']

    def gen(self, rng, i, tier):
        n = rng.choice([2, 2, 2, 3, 4])
        procs, files = [], {}
        mode = rng.random()
        seeds = [rng.randrange(1 << 30) for _ in range(2)]
        ep = M.low_entropy(rng) if rng.random() < .5 else []
        if mode < .45:
            # the same occupation command several times
            s = M.scenario(rng, cmds.OCC[i % 4], small=True, max_out=8)
            for k in range(n):
                pd = json.loads(json.dumps(s['procs'][0]))
                procs.append(pd)
            files.update(s['files'])
        else:
            for k in range(n):
                c = rng.choice(cmds.ALL)
                if mode < .6:
                    c = 'suplat'
                s = M.scenario(rng, c, small=True, max_out=8, tag='t%d' % k)
                files.update(s['files'])
                procs.append(s['procs'][0])
        same = rng.random() < .7
        for k, pd in enumerate(procs):
            pd['draws'] = {'seed': seeds[0] if same else seeds[0] + k, 'epochs': ep}
            if rng.random() < .15:
                pd['pid'] = 4000
        sc = {'cwd': rng.choice(M.CWDS), 'files': files, 'procs': procs,
              'order': rng.choice([0, 0, 1, 7])}
        M.decoys(rng, sc, 2)
        for pd in procs:
            t = cmds.target_name(pd['spec'])
            if pd['spec']['cmd'] == 'suplat' and rng.random() < .4:
                sc['files'][t + '/stale.yaml'] = 'stale\n'
        if rng.random() < .2:
            sc['jumps'] = [[rng.randrange(1, 200), rng.choice([-3600, 5, 1e6])]]
        if rng.random() < .2:
            for pd in procs:
                pd['short'] = [rng.randrange(1000), .3]
        # length of the schedule
        ps, own, fs = M.dry(sc)
        total = max(2, sum(p.points for p in ps))
        pre = []
        r = rng.random()
        if r < .3:
            for _ in range(rng.randrange(1, 7)):
                pre.append([rng.randrange(1, total), rng.randrange(n)])
        elif r < .5:
            # lock step from some moment on
            a = rng.choice([1, 1, rng.randrange(1, total)])
            b = min(total, a + rng.choice([20, 60, 400]))
            pre = [[s, s % n] for s in range(a, b)]
        elif r < .75:
            d = rng.choice([.1, .3, .6])
            pre = [[s, rng.randrange(n)] for s in range(1, total) if rng.random() < d]
        else:
            for _ in range(rng.randrange(1, 6)):
                a = rng.randrange(1, total)
                pre += [[s, rng.randrange(n)] for s in range(a, a + rng.choice([4, 12, 30]))]
        sc['preempt'] = pre[:1500]
        return sc

    def execute(self, sc):
        res = W.Result()
        w = M.build(sc)
        before = w.top()
        sim = W.new_sim(w, sc)
        for pd in sc['procs']:
            W.spawn(sim, pd)
        sim.run()
        res.absorb(sim)
        owner = {}
        occ = 0
        for pd, p in zip(sc['procs'], sim.procs):
            spec = pd['spec']
            if p.status != 0:
                res.fail('status', '%s ended with status %s: %s' % (
                    spec['cmd'], p.status, M.why(p)))
                continue
            own = W.own_dirs(w, p)
            for d in own:
                if d in owner:
                    res.fail('shared', '%s of %s and of %s' % (
                        d, spec['cmd'], owner[d]))
                owner[d] = spec['cmd']
            e = M.output(w, spec, p, before)
            if e:
                res.fail('output', '%s: %s' % (spec['cmd'], e))
            occ += spec['cmd'] in cmds.OCC
            res.probes[spec['cmd']] += 1
        new = w.top() - before
        if not res.violation:
            stray = sorted(new - set(owner))
            if stray:
                res.fail('stray', 'entries of no command: %s' % stray[:3])
        res.probes['%d commands' % len(sc['procs'])] += 1
        res.probes['switches >= 10'] += sim.switches >= 10
        res.nontrivial = sim.switches > 0
        res.note([p.status for p in sim.procs], sorted(w.top()))
        w.close()
        return res

    def shrinks(self, sc):
        n = len(sc['procs'])
        if n > 2:
            for k in range(n):
                c = json.loads(json.dumps(sc))
                del c['procs'][k]
                yield c
        for c in M.CommandCheck.shrinks(self, sc):
            yield c


CHECK = C09()
