"""Replays, confirms and minimises scenarios in a fresh process.

  python -m dst.replay run FILE BASE        replay FILE, report what happens
  python -m dst.replay shrink FILE BASE S   minimise FILE in place for S seconds
"""
import sys
import os
import json
from . import worker


def same(a, b):
    return a is not None and b is not None and a['cls'] == b['cls']


def main():
    mode, path, base = sys.argv[1:4]
    with open(path) as f:
        doc = json.load(f)
    worker.drop_privileges(base)
    S = worker.prepare(base)
    from . import world
    check = worker.load_check(doc['property'])
    if mode == 'run':
        if doc.get('history'):
            for i in doc['history']:
                try:
                    worker.one(check, S, doc['property'], doc['verif_seed'], i, doc['tier'])
                except Exception:
                    pass
        res = world.execute(check, doc['scenario'])
        worker.emit({'violation': res.violation, 'hash': res.hash.hexdigest()[:16],
                     'events': res.events[-400:]})
    else:
        import time
        t0 = S._real['time']()
        budget = float(sys.argv[4])
        sc = doc['scenario']
        target = doc['violation']
        tried = kept = 0
        progress = True
        while progress and S._real['time']() - t0 < budget:
            progress = False
            for cand in check.shrinks(sc):
                if S._real['time']() - t0 > budget:
                    break
                tried += 1
                try:
                    cand = json.loads(json.dumps(cand))
                    r = world.execute(check, cand)
                except Exception:
                    continue
                if same(r.violation, target):
                    sc = cand
                    kept += 1
                    progress = True
                    break
        res = world.execute(check, sc)
        worker.emit({'scenario': sc, 'violation': res.violation,
                     'hash': res.hash.hexdigest()[:16], 'tried': tried, 'kept': kept,
                     'events': res.events[-400:]})


if __name__ == '__main__':
    main()
    os._exit(0)
