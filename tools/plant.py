"""Make and try planted bugs (development aid; no check uses it).

plant.py make SPEC.py...      writes seeded/<id>/ from a spec (EDITS, DEMO, ...)
plant.py try ID... [--all]    applies each to /repo, builds, tests, runs demo and
                              checks, and undoes it
"""
import json
import os
import subprocess
import sys
import tempfile
import shutil
SEED = '/verif/seeded'
HELP = '''import os, sys, subprocess, tempfile, shutil, textwrap
REPO = os.getcwd()
PY = '/opt/pvenv/bin/python'
sys.path.insert(0, REPO)
def cli(args, cwd, pre='', timeout=200):
    """One ababe command in a process of its own; (status, output)."""
    mod = 'runabalib' if args[0] in ('suplat', 'ocumaker', 'ocubiter', 'ocutenter', 'ocumakert') else 'runatilib'
    code = ('import sys; sys.path.insert(0, %r)\\nsys.argv = %r\\n%s\\n'
            'from ababe.cmdline import %s as m\\nm.run()\\n' % (REPO, [mod] + list(args), textwrap.dedent(pre), mod))
    p = subprocess.Popen([PY, '-W', 'ignore', '-c', code], cwd=cwd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT)
    out = p.communicate(timeout=timeout)[0].decode('utf-8', 'replace')
    return p.returncode, out
def put(path, text):
    with open(path, 'w') as f:
        f.write(text)
def text(path):
    with open(path) as f:
        return f.read()
def scratch():
    return tempfile.mkdtemp(prefix='demo')
def check(ok, msg):
    if not ok:
        print('BROKEN:', msg)
        sys.exit(1)
'''
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
exec /opt/pvenv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    bid = os.path.basename(spec)[:-3]
    d = os.path.join(SEED, bid)
    os.makedirs(d, exist_ok=True)
    for f, old, new in ns['EDITS']:
        p = '/repo/' + f
        s = open(p).read()
        if s.count(old) != 1:
            sh('git -C /repo checkout -- .')
            raise SystemExit('%s: %d matches in %s of\n%s' % (bid, s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    sh('git -C /repo checkout -- .')
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(HELP + ns['DEMO'])
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)


def attempt(bid, tests=True, only=None):
    d = os.path.join(SEED, bid)
    prop = json.load(open(d + '/meta.json'))['property']
    out = {}
    tmp = tempfile.mkdtemp(prefix='plant')
    shutil.copytree(d, tmp + '/x')
    try:
        out['demo clean'] = sh('bash %s/x/demo.sh' % tmp, cwd='/repo').returncode
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            return {'apply': r.stdout.decode()[-300:]}
        r = sh('bash /opt/vp/build.sh')
        out['build'] = r.returncode
        if tests:
            sh('bash /opt/vp/test.sh %s/o.json' % tmp)
            res = json.load(open(tmp + '/o.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            out['lost tests'] = sorted(set(base) - set(res['passed']))
        r = sh('bash %s/x/demo.sh' % tmp, cwd='/repo')
        out['demo bug'] = r.returncode
        out['demo says'] = r.stdout.decode()[-160:]
        for c in (only or [prop]):
            r = sh('/verif/bin/check %s' % c, cwd='/verif')
            t = r.stdout.decode()
            out[c] = (r.returncode, [l[:200] for l in t.split('\n') if 'VIOLATION' in l or
                                     'violat' in l.lower()][:3] or t[-200:])
    finally:
        sh('git -C /repo checkout -- .')
        shutil.rmtree(tmp)
    return out


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for s in sys.argv[2:]:
            make(s)
    else:
        a = sys.argv[2:]
        only = [x for x in a if x.startswith('C') and len(x) == 3]
        tests = '--no-tests' not in a
        for b in [x for x in a if not x.startswith('-') and x not in only]:
            r = attempt(b, tests, only)
            ok = r.get('demo clean') == 0 and r.get('demo bug') and not r.get('lost tests') and r.get('build') == 0
            print(b, 'VALID' if ok else 'INVALID', json.dumps(r)[:900], flush=True)
