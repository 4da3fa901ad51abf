"""C02: suplat writes each inequivalent superlattice exactly once."""
from .. import cmds
from . import common as M
from .c01 import C01


class C02(C01):
    ID = 'C02'
    RUNS = {'quick': 440, 'thorough': 12000}
    RULE = ('a run is non-trivial if a disturbance fired (low-entropy name draw, short '
            'transfer, clock jump, descriptor limit) or the output directory had earlier '
            'content; distinct by event-log hash')
    ASSUME = ['parents are primitive (suplat refuses others) and without near-symmetries',
              'index at most 6, rarely 8 (3D), or 12 (2D)']

    def gen(self, rng, i, tier):
        sc = M.scenario(rng, 'suplat', small='large' if i % 8 == 3 else rng.random() < .7)
        spec = sc['procs'][0]['spec']
        M.decoys(rng, sc)
        M.noise(rng, sc)
        pd = sc['procs'][0]
        if rng.random() < .75:
            pd['draws']['epochs'] = M.low_entropy(rng)
        if rng.random() < .4:
            pd['fdlimit'] = rng.choice([4, 6, 10, 16])
        if rng.random() < .6:
            t = cmds.target_name(spec)
            procs, own, files = M.dry(sc)
            names = [f.split('/')[-1] for f in files[0] if f.endswith('.' + spec['opt']['out'])]
            pre = rng.sample(names, min(len(names), rng.randrange(4)))
            pre += rng.sample(['SUPLAT_9_AAAA.yaml', 'x', '.y', 'sub/deep/z.vasp',
                               'SUPLAT_2_ABCD.vasp', 'POSCAR'], rng.randrange(1, 5))
            for nm in pre:
                sc['files'][t + '/' + nm] = 'stale\n' * rng.randrange(0, 400)
        return sc

    def judge(self, res, sc, w, spec, p, before):
        C01.judge(self, res, sc, w, spec, p, before)
        if any(f.startswith(cmds.target_name(spec) + '/') for f in sc['files']):
            res.probes['directory with earlier content'] += 1


CHECK = C02()
