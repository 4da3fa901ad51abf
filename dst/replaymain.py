"""bin/replay FILE: replay a recorded violation; exit 1 if it reproduces."""
import sys
import os
import json
from . import runner as R


def main(argv):
    path = os.path.abspath(argv[0])
    with open(path) as f:
        doc = json.load(f)
    r = R.Runner({'runs': {'quick': 1, 'thorough': 1}}, doc['property'], doc['tier'],
                 doc['verif_seed'], jobs=1)
    try:
        if doc.get('by_seed'):
            class W(object):
                hashseed = doc['hashseed']
            if r.confirm_dead(doc['run'], W):
                print('reproduced: the run does not end or ends the interpreter')
                return 1
            print('not reproduced')
            return 0
        p = r.tmpdoc(doc)
        out = r.call('run', p, hashseed=doc['hashseed'])
        for e in out.get('events', []):
            print(e)
        v = out.get('violation')
        if v:
            print('reproduced: %s: %s' % (v['cls'], v['msg']))
            if doc.get('trace_hash'):
                print('trace %s, recorded %s' % (out['hash'], doc['trace_hash']))
            return 1
        print('not reproduced: %s' % {k: out[k] for k in out if k != 'events'})
        return 0
    finally:
        r.cleanup()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
