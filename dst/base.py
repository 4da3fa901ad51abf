"""Base class of the checks."""


class Check(object):
    ID = None
    LEVEL = 'exploration'
    RUNS = {'quick': 100, 'thorough': 1000}
    RULE = ''
    REAL = 'all of ababe (fresh modules per simulated process), numpy, scipy, spglib, click, PyYAML, ruamel.yaml, progressbar'
    STUB = ('file calls pass through the simulated disk onto a scratch directory; random, '
            'numpy.random, clocks, process ids and standard streams are simulated')
    ASSUME = []

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, sc):
        raise NotImplementedError

    def shrinks(self, sc):
        return ()

    def sample(self, sc, res):
        return {'scenario': trim(sc), 'fired': dict(res.fired), 'hash': res.hash.hexdigest()[:16],
                'last_events': res.events[-6:]}


def trim(o, depth=0):
    """A scenario short enough for the evidence file."""
    if isinstance(o, dict):
        return {k: trim(v, depth + 1) for k, v in o.items()
                if k not in ('cell',)}
    if isinstance(o, list):
        return [trim(x, depth + 1) for x in o[:24]] + (['... %d more' % (len(o) - 24)]
                                                       if len(o) > 24 else [])
    if isinstance(o, str) and len(o) > 400:
        return o[:400] + '...'
    if isinstance(o, float):
        return round(o, 6)
    return o
