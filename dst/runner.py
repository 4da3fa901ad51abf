"""Parent of a check: workers, confirmation, minimisation, audit, evidence."""
import sys
import os
import json
import time
import shutil
import signal
import subprocess
import tempfile
import threading
import queue
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VERIF_PY', '/opt/pvenv/bin/python')
HANG = 200            # seconds without a finished run before a worker is ended


def env_for(hashseed):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
             PYTHONPATH=VERIF, PYTHONWARNINGS='ignore', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', LANG='C.UTF-8', COLUMNS='80')
    e.pop('PYTHONSTARTUP', None)
    return e


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 200 << 20:
                    b = tempfile.mkdtemp(prefix='ababe-dst-', dir=d)
                    os.chmod(b, 0o755)
                    return b
            except OSError:
                pass
    b = tempfile.mkdtemp(prefix='ababe-dst-')
    os.chmod(b, 0o755)
    return b


class Worker(object):
    def __init__(self, runner, k, start, step, stop, hashseed):
        self.runner, self.k = runner, k
        self.args = (start, step, stop)
        self.hashseed = hashseed
        self.base = os.path.join(runner.base, 'w%d' % k)
        os.makedirs(self.base, exist_ok=True)
        cmd = [PY, '-W', 'ignore', '-m', 'dst.worker', runner.cid, runner.tier,
               str(runner.seed), str(start), str(step), str(stop), self.base]
        self.errfile = open(os.path.join(runner.base, 'err%d' % k), 'ab')
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=self.errfile,
                                  stdin=subprocess.DEVNULL, env=env_for(hashseed),
                                  cwd=VERIF, start_new_session=True)
        self.last = time.time()
        self.current = None
        self.finished = False
        self.done_list = []
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        for line in self.p.stdout:
            try:
                self.runner.q.put((self, json.loads(line.decode())))
            except ValueError:
                pass
        self.p.wait()
        self.runner.q.put((self, {'eof': True, 'rc': self.p.returncode}))

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass


class Runner(object):
    def __init__(self, check_meta, cid, tier, seed, jobs=None, runs=None, guard=None):
        self.meta = check_meta
        self.cid, self.tier, self.seed = cid, tier, seed
        self.jobs = jobs or max(1, min(8, (os.cpu_count() or 2)))
        self.runs = runs or check_meta['runs'][tier]
        self.guard = guard or (420 if tier == 'quick' else 6 * 3600)
        self.q = queue.Queue()
        self.base = scratch_base()
        self.rows = []
        self.harness = []
        self.samples = []
        self.notes = []
        self.user = '?'

    # -- phase 1: search ------------------------------------------------------
    def search(self):
        t0 = time.time()
        jobs = min(self.jobs, self.runs)
        ws = [Worker(self, k, k, jobs, self.runs, 101 + k) for k in range(jobs)]
        live = set(ws)
        found = None
        nextk = jobs
        self.respawns = 0
        stopped = False
        while live:
            try:
                w, m = self.q.get(timeout=5)
            except queue.Empty:
                w, m = None, None
            now = time.time()
            if m is not None:
                w.last = now
                if 'ready' in m:
                    self.user = m['user']
                elif 'start' in m:
                    w.current = m['start']
                elif 'done' in m:
                    w.finished = True
                elif 'pause' in m:
                    w.finished = True
                    if not stopped:
                        nw = Worker(self, nextk, m['pause'], w.args[1], w.args[2], w.hashseed)
                        nextk += 1
                        live.add(nw)
                elif 'eof' in m:
                    live.discard(w)
                    if not w.finished and not stopped:
                        bad = w.current
                        why = getattr(w, 'why', 'worker ended with %s' % m['rc'])
                        self.notes.append('run %s: %s' % (bad, why))
                        if bad is None:
                            self.respawns += 1
                            if self.respawns > 6:
                                break
                            nb = w.args[0]
                        else:
                            if found is None and self.confirm_dead(bad, w):
                                found = {'i': bad, 'dead': True, 'worker': w}
                                stopped = True
                                for x in live:
                                    x.kill()
                                continue
                            nb = bad + w.args[1]
                        nw = Worker(self, nextk, nb, w.args[1], w.args[2], w.hashseed)
                        nextk += 1
                        live.add(nw)
                elif 'harness' in m:
                    self.harness.append(m)
                    w.done_list.append(m['i'])
                elif 'i' in m:
                    w.done_list.append(m['i'])
                    self.rows.append(m)
                    if 'sample' in m and len(self.samples) < 3:
                        self.samples.append(dict(m['sample'], run=m['i']))
                    if m.get('violation') and found is None:
                        f = self.confirm(m, w)
                        if f:
                            found = f
                            stopped = True
                            for x in live:
                                x.kill()
            for x in list(live):
                if now - x.last > HANG and not x.finished:
                    x.why = 'no run finished for %d s' % HANG
                    x.kill()
            if now - t0 > self.guard and not stopped:
                stopped = True
                self.notes.append('stopped by the wall-clock guard after %d s' % self.guard)
                for x in live:
                    x.kill()
        self.search_s = time.time() - t0
        return found

    # -- phase 2: confirmation and minimisation --------------------------------
    def replay_doc(self, m, w, history=None):
        d = {'property': self.cid, 'tier': self.tier, 'verif_seed': self.seed, 'run': m['i'],
             'hashseed': w.hashseed, 'violation': m.get('violation'),
             'scenario': m.get('scenario')}
        if history:
            d['history'] = history
        return d

    def call(self, mode, path, extra=(), hashseed=101, timeout=300):
        b = os.path.join(self.base, 'replay')
        os.makedirs(b, exist_ok=True)
        cmd = [PY, '-W', 'ignore', '-m', 'dst.replay', mode, path, b] + list(extra)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               stdin=subprocess.DEVNULL, env=env_for(hashseed), cwd=VERIF,
                               timeout=timeout, start_new_session=True)
        except subprocess.TimeoutExpired:
            return {'timeout': True}
        try:
            return json.loads(r.stdout.decode().strip().split('\n')[-1])
        except ValueError:
            return {'rc': r.returncode, 'err': r.stderr.decode('utf-8', 'replace')[-500:]}

    def tmpdoc(self, doc):
        p = os.path.join(self.base, 'doc-%s.json' % doc['run'])
        with open(p, 'w') as f:
            json.dump(doc, f)
        os.chmod(p, 0o644)
        return p

    def confirm(self, m, w):
        """A violation counts if a fresh process reproduces it from its file."""
        for hist in (None, [i for i in w.done_list if i != m['i']]):
            if hist is not None and not hist:
                break
            doc = self.replay_doc(m, w, hist)
            r = self.call('run', self.tmpdoc(doc), hashseed=w.hashseed, timeout=420)
            v = r.get('violation')
            if v and v['cls'] == m['violation']['cls']:
                return {'i': m['i'], 'doc': doc, 'worker': w, 'events': r.get('events')}
        self.notes.append('run %s: %s not reproduced by its replay file; not reported'
                          % (m['i'], m['violation']))
        return None

    def confirm_dead(self, i, w):
        """A run that ended or hung the worker: does it do so again, alone?"""
        b = os.path.join(self.base, 'again%d' % i)
        os.makedirs(b, exist_ok=True)
        cmd = [PY, '-W', 'ignore', '-m', 'dst.worker', self.cid, self.tier, str(self.seed),
               str(i), '1', str(i + 1), b]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               stdin=subprocess.DEVNULL, env=env_for(w.hashseed), cwd=VERIF,
                               timeout=HANG, start_new_session=True)
            return b'"done"' not in r.stdout
        except subprocess.TimeoutExpired:
            return True

    def report(self, found):
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-seed%s-run%s.json' % (self.cid, self.seed, found['i']))
        if found.get('dead'):
            doc = {'property': self.cid, 'tier': self.tier, 'verif_seed': self.seed,
                   'run': found['i'], 'hashseed': found['worker'].hashseed,
                   'violation': {'cls': 'hang-or-crash',
                                 'msg': 'the run does not end or ends the interpreter'},
                   'by_seed': True}
        else:
            doc = found['doc']
            if not doc.get('history'):
                r = self.call('shrink', self.tmpdoc(doc), ['60'], doc['hashseed'], 200)
                if r.get('scenario') and r.get('violation') and \
                        r['violation']['cls'] == doc['violation']['cls']:
                    new = dict(doc, scenario=r['scenario'], violation=r['violation'],
                               minimised={'candidates': r['tried'], 'accepted': r['kept']})
                    p = self.tmpdoc(new)
                    c = self.call('run', p, hashseed=doc['hashseed'])
                    if c.get('violation') and c['violation']['cls'] == doc['violation']['cls']:
                        doc = dict(new, trace_hash=c['hash'], trace=c.get('events', []))
        if 'trace' not in doc:
            doc['trace'] = found.get('events') or []
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
        return path, doc

    # -- phase 3: determinism audit ----------------------------------------------
    def audit(self, count):
        """Re-run a sample in one fresh process, another hash seed, other order."""
        ok = [r for r in self.rows if not r.get('violation')]
        if not ok or count <= 0:
            return {'rerun': 0, 'different': 0}
        stride = max(1, len(ok) // count)
        pick = {r['i']: r['hash'] for r in sorted(ok, key=lambda r: r['i'])[::stride][:count]}
        diff = []
        n = 0
        parts = sorted(pick)
        procs = []
        for j, i in enumerate(parts):
            procs.append(i)
        lanes = 4
        threads, res = [], {}

        def lane(items, lid):
            for i in items:
                b = os.path.join(self.base, 'audit%d' % lid)
                os.makedirs(b, exist_ok=True)
                cmd = [PY, '-W', 'ignore', '-m', 'dst.worker', self.cid, self.tier,
                       str(self.seed), str(i), '1', str(i + 1), b]
                try:
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                       stdin=subprocess.DEVNULL, env=env_for(7000 + i), cwd=VERIF,
                                       timeout=HANG, start_new_session=True)
                except subprocess.TimeoutExpired:
                    continue
                for line in r.stdout.decode().split('\n'):
                    if line.startswith('{') and '"hash"' in line:
                        res[i] = json.loads(line)['hash']
        for l in range(lanes):
            t = threading.Thread(target=lane, args=(procs[l::lanes], l))
            t.start()
            threads.append(t)
        for t in threads:
            t.join()
        for i in parts:
            if i in res:
                n += 1
                if res[i] != pick[i]:
                    diff.append(i)
        if diff:
            self.notes.append('determinism audit: runs %s gave another trace' % diff[:10])
        return {'rerun': n, 'different': len(diff),
                'how': 'fresh process per run, another PYTHONHASHSEED, no earlier runs'}

    # -- evidence -----------------------------------------------------------------
    def evidence(self, found, path, audit, wall):
        fired, probes = Counter(), Counter()
        for r in self.rows:
            fired.update(r['fired'])
            probes.update(r['probes'])
        nt = set(r['hash'] for r in self.rows if r['nontrivial'])
        n = len(self.rows)
        hrs = max(self.search_s, 1e-6) / 3600.0
        cov = {
            'evaluations': n,
            'distinct_nontrivial': len(nt),
            'rule': self.meta['rule'],
            'samples': self.samples or [{'note': 'no non-trivial run finished'}],
            'simulated_runs_per_hour': int(n / hrs),
            'seeds_per_hour': int(n / hrs),
            'simulated_seconds': round(sum(r['simtime'] for r in self.rows), 3),
            'schedule_points': sum(r['points'] for r in self.rows),
            'preemptions': sum(r['switches'] for r in self.rows),
            'distinct_traces': len(set(r['hash'] for r in self.rows)),
            'distinct_trace_measure': 'SHA-1 over the event log (every point with process, '
                                      'operation, path, plus switches, faults, exits)',
            'faults_fired': dict(sorted(fired.items())),
            'probes': dict(sorted(probes.items())),
            'determinism_audit': audit,
            'real_components': self.meta['real'],
            'stubbed_components': self.meta['stub'],
            'machinery_errors': len(self.harness),
            'worker_user': self.user,
            'workers': self.jobs,
            'notes': self.notes,
        }
        doc = {'property': self.cid, 'tier': self.tier, 'seed': self.seed,
               'level': self.meta['level'], 'coverage': cov,
               'assumptions': self.meta['assume'], 'wall_s': round(wall, 2),
               'violations': 1 if found else 0}
        if self.harness:
            cov['first_machinery_error'] = self.harness[0]['harness'][-600:]
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.cid)
        with open(tmp, 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, '%s.json' % self.cid))

    def cleanup(self):
        if os.path.basename(self.base).startswith('ababe-dst-'):
            shutil.rmtree(self.base, ignore_errors=True)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--guard', type=int)
    ap.add_argument('--audit', type=int)
    a = ap.parse_args(argv)
    cid = a.property.upper()
    t0 = time.time()
    r = subprocess.run([PY, '-W', 'ignore', '-c',
                        'import json,sys\n'
                        'from dst import sim\nsim.install()\n'
                        'from dst import worker\n'
                        'c=worker.load_check(%r)\n'
                        'print(json.dumps(dict(runs=c.RUNS,rule=c.RULE,level=c.LEVEL,real=c.REAL,'
                        'stub=c.STUB,assume=c.ASSUME)))' % cid],
                       stdout=subprocess.PIPE, env=env_for(1), cwd=VERIF)
    meta = json.loads(r.stdout.decode().strip().split('\n')[-1])
    R = Runner(meta, cid, a.tier, a.seed, a.jobs, a.runs, a.guard)
    try:
        print('check %s tier=%s seed=%d runs=%d workers=%d' % (cid, a.tier, a.seed, R.runs, R.jobs))
        sys.stdout.flush()
        found = R.search()
        path = doc = None
        if found:
            path, doc = R.report(found)
            audit = {'rerun': 0, 'different': 0}
        else:
            k = a.audit if a.audit is not None else (8 if a.tier == 'quick' else 64)
            audit = R.audit(k)
        R.evidence(found, path, audit, time.time() - t0)
        for n in R.notes[:20]:
            print('note: ' + n)
        if R.harness:
            print('machinery errors: %d, first: %s' % (len(R.harness),
                                                      R.harness[0]['harness'][-800:]))
        print('%d runs, %d distinct traces, %.1f s, audit %s' % (
            len(R.rows), len(set(x['hash'] for x in R.rows)), time.time() - t0, audit))
        if found:
            print('%s: %s' % (doc['violation']['cls'], doc['violation']['msg']))
            print('VIOLATION property=%s replay=%s' % (cid, path))
            return 1
        if len(R.rows) <= len(R.harness):
            print('most runs did not finish: nothing was decided')
            return 2
        return 0
    finally:
        R.cleanup()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
