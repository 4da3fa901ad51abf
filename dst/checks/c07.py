"""C07: a command changes nothing but its own output target."""
from .. import cmds
from .. import sim as S
from .. import world as W
from . import common as M
from .c06 import pick_fault


class C07(M.CommandCheck):
    ID = 'C07'
    RUNS = {'quick': 1100, 'thorough': 30000}
    RULE = ('a run is non-trivial if there was something to damage (entries besides the input) '
            'and a fault, kill or name collision was in force; distinct by event-log hash')
    ASSUME = ['changes are observed at the file-system seam and by comparing the tree before '
              'and after; access times are not considered']

    def gen(self, rng, i, tier):
        cmd = cmds.ALL[i % len(cmds.ALL)]
        sc = M.scenario(rng, cmd, small=True, max_out=12)
        M.decoys(rng, sc, 6)
        M.noise(rng, sc, .25)
        spec = sc['procs'][0]['spec']
        pd = sc['procs'][0]
        t = cmds.target_name(spec)
        if rng.random() < .5:
            pd['draws']['epochs'] = M.low_entropy(rng)
        if cmd == 'suplat':
            if rng.random() < .7:
                sc['files'][t + '/old.vasp'] = 'stale\n'
                sc['files'][t + '/d/e'] = 'stale\n'
            for nm in ('SUPLAT_', 'SUPLAT_zz', t + '2', t[:-1], 'SUPLAT'):
                if nm != t and rng.random() < .5:
                    sc['files'][nm + '/keep.yaml'] = 'keep\n'
        elif cmd in cmds.ONE:
            if t and rng.random() < .5:
                sc['files'][t] = 'stale\n' * rng.choice([1, 300])
            # names next to the target: same stem, other suffixes and formats
            stem = spec['input']['name'].split('/')[-1].split('.')[0]
            for c, suf in cmds.SUFFIX.items():
                for f in ('vasp', 'yaml'):
                    nm = stem + suf + '.' + f
                    if nm != t and rng.random() < .3:
                        sc['files'][nm] = 'keep\n'
            for nm in ([t + '.tmp', t + '~', '.' + t, t + '.bak'] if t else []) + [stem, stem + '_']:
                if nm not in sc['files'] and rng.random() < .25:
                    sc['files'][nm] = 'keep\n'
        procs = None
        if cmd in cmds.OCC and rng.random() < .7:
            for _ in range(rng.choice([1, 1, 2, 3])):
                procs, own, files = M.dry(sc)
                for d in own[0]:
                    if d in [f.split('/')[0] for f in sc['files']]:
                        continue
                    if rng.random() < .15:
                        sc['files'][d] = 'a file\n'
                    else:
                        names = [f.split('/')[-1] for f in files[0]
                                 if '/' + d + '/' in '/' + f]
                        for nm in names[:rng.choice([1, 3, 20])]:
                            sc['files'][d + '/' + nm] = 'precious\n'
                        sc['files'][d + '/q/precious'] = 'precious\n'
        r = rng.random()
        if r < .75:
            procs, own, files = M.dry(sc)
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < .4 and procs[0].points:
                    fs.append({'at': rng.randrange(procs[0].points),
                               'kind': rng.choice(['kill', 'killpartial', 'intr']),
                               'frac': rng.choice([0, .5, .9])})
                else:
                    f = pick_fault(rng, procs[0])
                    if f:
                        fs.append(f)
            pd['faults'] = fs
        return sc

    def execute(self, sc):
        res = W.Result()
        w = M.build(sc)
        spec = sc['procs'][0]['spec']
        before = w.top()
        snap = w.snapshot()
        pre = w.cwdname + '/'
        t = cmds.target_name(spec)
        mine = set()
        occ = spec['cmd'] in cmds.OCC

        def monitor(p, op, rel):
            if res.violation:
                return
            if not rel.startswith(pre):
                res.fail('outside', '%s of %s, outside the working directory' % (op, rel))
                return
            top = rel[len(pre):].split('/')[0]
            if occ:
                if top in mine:
                    return
                if op == 'mkdir' and rel == pre + top and not S._lexists(w.root + '/' + rel):
                    if len(mine) >= 1:
                        res.fail('second target', 'creates a second directory %s' % top)
                    mine.add(top)
                    return
                res.fail('foreign change', '%s of %s, which this run did not create'
                         % (op, 'an entry of the working directory (%s)' % rel[len(pre):]))
            elif top != t:
                res.fail('foreign change', '%s of %s, the target is %s' % (op, rel[len(pre):], t))

        sim = W.new_sim(w, sc, monitor)
        p = W.spawn(sim, sc['procs'][0])
        sim.run()
        res.absorb(sim)
        if p.refused and not res.violation:
            res.fail('outside', 'tried %s of %s' % tuple(p.refused[0]))
        after = w.snapshot()
        # the entries that existed before, except the named target
        for rel, dig in sorted(snap.items()):
            top = rel[len(pre):].split('/')[0] if rel.startswith(pre) else None
            if top is not None and top == t and not occ:
                continue
            if after.get(rel) != dig:
                res.fail('damaged', 'pre-existing entry %s was %s' % (
                    rel, 'removed' if rel not in after else 'changed'))
        for rel in sorted(set(after) - set(snap)):
            top = rel[len(pre):].split('/')[0] if rel.startswith(pre) else None
            if top is None or (top != t and not (occ and top in mine)):
                res.fail('stray', 'new entry %s outside the target' % rel)
        if p.killed:
            res.probes['killed'] += 1
        if p.status == 'hung':
            res.probes['hung'] += 1
        res.probes[spec['cmd']] += 1
        res.nontrivial = len(sc['files']) > 1 and bool(res.fired)
        res.note(p.status, sorted(after.items()))
        w.close()
        return res


CHECK = C07()
