"""C01: occupation commands write each inequivalent structure exactly once."""
from .. import cmds
from .. import world as W
from . import common as M


class C01(M.CommandCheck):
    ID = 'C01'
    RUNS = {'quick': 480, 'thorough': 20000}
    RULE = ('a run is non-trivial if at least one disturbance fired (low-entropy name draw, '
            'short transfer, clock jump, name collision, descriptor limit) and at least two '
            'structures were expected; distinct by event-log hash')
    ASSUME = ['crystals whose symmetry depends on the tolerance are not generated',
              'speckle species are not already in the parent',
              'ternary commands get single-species parents',
              'distance limits are not within 0.05 of an interatomic distance']
    CMDS = cmds.OCC

    def gen(self, rng, i, tier):
        cmd = self.CMDS[i % len(self.CMDS)]
        big = rng.random() < .12
        if i // len(self.CMDS) % 16 == 5:
            # some hundred structures out of thousands of labelled ones
            sc = M.scenario(rng, cmd, small='large', max_out=260, min_out=40)
        else:
            sc = M.scenario(rng, cmd, small=rng.random() < .5, max_out=90 if big else 30,
                            min_out=25 if big else (2 if rng.random() < .7 else 0))
        M.decoys(rng, sc)
        M.noise(rng, sc)
        pd = sc['procs'][0]
        if rng.random() < .7:
            pd['draws']['epochs'] = M.low_entropy(rng)
        if rng.random() < .5:
            pd['fdlimit'] = rng.choice([4, 6, 10, 16, 24])
        if rng.random() < .45:
            self.collide(rng, sc)
        return sc

    def collide(self, rng, sc):
        """Put something where the command will want to write."""
        for _ in range(rng.choice([1, 1, 2])):
            procs, own, files = M.dry(sc)
            for d in own[0]:
                if d not in [f.split('/')[0] for f in sc['files']]:
                    if rng.random() < .15:
                        sc['files'][d] = 'a file\n'
                    elif rng.random() < .3:
                        sc['files'][d + '/'] = ''
                    else:
                        sc['files'][d + '/precious.vasp'] = 'other run\n'
                        if rng.random() < .5:
                            names = [f.split('/')[-1] for f in files[0] if d + '/' in f]
                            for nm in names[:3]:
                                sc['files'][d + '/' + nm] = 'other run\n'

    def execute(self, sc):
        res = W.Result()
        w = M.build(sc)
        before = w.top()
        sim = W.new_sim(w, sc)
        spec = sc['procs'][0]['spec']
        p = W.spawn(sim, sc['procs'][0])
        sim.run()
        res.absorb(sim)
        self.judge(res, sc, w, spec, p, before)
        res.nontrivial = bool(res.fired or len(sc['files']) > 1) and \
            spec['opt'].get('n_expected', 2) >= 2
        res.probes['max open files %d' % min(p.maxopen, 9)] += 1
        res.probes[spec['cmd']] += 1
        if p.draws.low:
            res.probes['low-entropy run'] += 1
        res.note(p.status, sorted(w.top()))
        w.close()
        return res

    def judge(self, res, sc, w, spec, p, before):
        if p.status != 0:
            res.fail('status', 'status %s: %s' % (p.status, M.why(p)))
            return
        e = M.extra_entries(w, spec, before)
        if e:
            res.fail('entries', e)
            return
        e = M.output(w, spec, p, before)
        if e:
            res.fail('output', e)


CHECK = C01()
