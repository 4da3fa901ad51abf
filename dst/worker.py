"""One worker process: runs the seeds i = start, start+step, ... of a check.

Prints one JSON line per run on the real standard output."""
import sys
import os
import json
import hashlib


def drop_privileges(base):
    """Become an unprivileged user if the trees stay readable for it."""
    if os.getuid() != 0 or os.environ.get('VERIF_KEEP_ROOT'):
        return 'kept'
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.environ.get('VERIF_REPO', '/repo')
    os.chown(base, 65534, 65534)
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            ok = os.access(base, os.W_OK)
            for top in (here, os.path.join(repo, 'ababe')):
                for d, ds, fs in os.walk(top):
                    ok = ok and os.access(d, os.R_OK | os.X_OK)
                    ok = ok and all(os.access(os.path.join(d, f), os.R_OK) for f in fs)
            import numpy, spglib, click, yaml, ruamel.yaml, xxhash  # noqa
            os._exit(0 if ok else 1)
        except BaseException:
            os._exit(1)
    if os.waitpid(pid, 0)[1] != 0:
        return 'kept'
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)
    return 'nobody'


MEMORY_MB = 2200


def load_check(cid):
    import importlib
    m = importlib.import_module('dst.checks.%s' % cid.lower())
    return m.CHECK


def prepare(base):
    from . import sim as S
    S.install()
    from . import baton
    baton.install()
    from . import world
    world.BASE = os.path.realpath(base)
    return S


def seed_of(cid, seed, i):
    h = hashlib.sha256(('%s/%s/%d' % (cid, seed, i)).encode()).hexdigest()
    return int(h[:14], 16)


def one(check, S, cid, seed, i, tier):
    rng = S.RealRandom(seed_of(cid, seed, i))
    sc = check.gen(rng, i, tier)
    sc = json.loads(json.dumps(sc))
    from . import world
    return sc, world.execute(check, sc)


def summary(res):
    return {'hash': res.hash.hexdigest()[:16], 'fired': dict(res.fired),
            'probes': dict(res.probes), 'points': res.points,
            'simtime': res.simtime, 'switches': res.switches,
            'nontrivial': bool(res.nontrivial), 'violation': res.violation}


def emit(obj):
    data = (json.dumps(obj, default=str) + '\n').encode()
    from . import sim as S
    w = S._real.get('write', os.write)
    while data:
        n = w(1, data)
        data = data[n:]


def rss_mb(S):
    with S._real['open']('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4 // 1024


def main():
    cid, tier, seed, start, step, stop, base = sys.argv[1:8]
    start, step, stop = int(start), int(step), int(stop)
    user = drop_privileges(base)
    S = prepare(base)
    check = load_check(cid)
    emit({'ready': True, 'user': user})
    nsample = 0
    for i in range(start, stop, step):
        emit({'start': i})
        try:
            sc, res = one(check, S, cid, seed, i, tier)
        except S.HarnessError as e:
            emit({'i': i, 'harness': repr(e)})
            continue
        except Exception as e:
            import traceback
            emit({'i': i, 'harness': traceback.format_exc()[-1500:]})
            continue
        out = summary(res)
        out['i'] = i
        if res.violation is not None:
            out['scenario'] = sc
        elif res.nontrivial and nsample < 2:
            nsample += 1
            out['sample'] = check.sample(sc, res)
        emit(out)
        if rss_mb(S) > MEMORY_MB and i + step < stop:
            # a fresh worker goes on from here
            emit({'pause': i + step})
            return
    emit({'done': True})


if __name__ == '__main__':
    main()
    # parked threads of simulated processes never end by themselves
    os._exit(0)
