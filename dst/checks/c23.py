"""C23: commands of one process do not affect one another."""
import os
import json
from .. import gen
from .. import sim as S
from .. import cmds
from .. import world as W
from .. import proc as P
from .. import shrink as H
from ..baton import Baton
from ..base import Check
from . import common as M
from .c06 import pick_fault

DIRS = ['', '', 'd1', 'd2/e']


class Owned(list):
    """The record of changes to the tree, with the task that made each."""

    def __init__(self, who):
        self.who, self.by = who, []

    def append(self, x):
        list.append(self, x)
        self.by.append(self.who())


class Log(list):
    """Delivered faults, with the task that got each."""

    def __init__(self, who):
        self.who, self.by = who, []

    def append(self, x):
        list.append(self, x)
        self.by.append(self.who())


class C23(Check):
    ID = 'C23'
    RUNS = {'quick': 560, 'thorough': 15000}
    REAL = ('all of ababe, click, numpy, scipy, spglib, PyYAML, ruamel.yaml, progressbar; caller '
            'threads are real threads that run one at a time under the baton')
    RULE = ('a run is non-trivial if at least two commands of one process ended, one of them '
            'after another had failed, a thread switch happened inside ababe, or an input was '
            'replaced between two commands; distinct by event-log hash')
    ASSUME = ['commands are given to the click groups without click\'s own exit handling',
              'standard output does not fail (C06 does that)',
              'threads have targets of their own and do not write to standard output',
              'thread switches happen at source lines of ababe']

    def gen(self, rng, i, tier):
        threads = i % 3 == 1
        n = rng.choice([2, 2, 3]) if threads else rng.choice([2, 3, 3, 4, 5])
        tasks, files = [], {}
        mode = rng.random()
        # one occupation command with other options and inputs again and again
        focus = not threads and .5 < mode < .8
        base = None
        for k in range(n):
            r = rng.random()
            spec = None
            if threads and base is not None and r < .5:
                # a cell easily taken for the first one
                spec = self.turn(rng, base, rng.random() < .8, 't%d' % k, True)
                d = ''
            elif threads or not tasks or r < (.1 if focus else .4):
                pass
            elif r < .55:
                # the same command again, perhaps elsewhere
                t = rng.choice(tasks)
                spec, d = json.loads(json.dumps(t['spec'])), t['dir']
                if rng.random() < .5:
                    d = rng.choice(DIRS)
            elif r < .7:
                # the same input with other options
                t = rng.choice(tasks)
                spec, d = self.turn(rng, t['spec'], False, 't%d' % k), t['dir']
            else:
                # another input under a name that was used before
                t = rng.choice(tasks)
                d = t['dir']
                if rng.random() < .75:
                    spec = self.turn(rng, t['spec'], True, 't%d' % k)
                spec = spec or self.like(rng, t['spec'])
            if spec is None:
                kw = {'outmode': rng.choice(['vasp', 'yaml'])} if threads else {}
                c = rng.choice(cmds.ALL)
                if threads and (mode < .6 if k == 0 else mode < .3):
                    c = rng.choice(cmds.OCC)
                if mode > .8:
                    c = 'suplat'
                elif focus:
                    c = rng.choice(cmds.OCC)
                spec = cmds.make(rng, c, small=True, max_out=8, tag='t%d' % k, **kw)
                d = '' if threads else rng.choice(DIRS)
            base = base or spec
            tasks.append({'spec': spec, 'dir': d})
        sc = {'files': files, 'tasks': tasks, 'kind': 'threads' if threads else 'inter',
              'draws': {'seed': rng.randrange(1 << 30),
                        'epochs': M.low_entropy(rng) if rng.random() < .4 else []},
              'np_seed': rng.randrange(1 << 30), 'faults': [], 'switch': [], 'boom': []}
        for d in sorted(set(t['dir'] for t in tasks)):
            if rng.random() < .3:
                files[os.path.join(d, 'README')] = 'notes\n'
        for t in tasks:
            if t['spec']['cmd'] == 'suplat' and rng.random() < .3:
                files[os.path.join(t['dir'], cmds.target_name(t['spec']), 'old.yaml')] = 'stale\n'
        if rng.random() < .15:
            sc['short'] = [rng.randrange(1000), .3]
        # the length of an undisturbed run
        p, b, w = self.play(sc, None)
        w.close()
        if rng.random() < (.3 if threads else .55):
            for _ in range(rng.choice([1, 1, 2])):
                f = pick_fault(rng, p)
                if f and p.ops[f['at']] != 'stdout':
                    f.pop('sticky', None)
                    sc['faults'].append(f)
        if threads:
            total = max(3, b.step)
            if rng.random() < .25:
                sc['boom'] = sorted(rng.randrange(1, total) for _ in range(rng.choice([1, 1, 2])))
            r = rng.random()
            if r < .35:
                sw = [[rng.randrange(1, total), rng.randrange(n)]
                      for _ in range(rng.randrange(2, 60))]
            elif r < .7:
                d = rng.choice([1, 3, 7, 17])
                a = rng.randrange(1, total) if rng.random() < .5 else 1
                sw = [[s, s // d] for s in range(a, min(total, a + 2500), d)]
                if rng.random() < .5:
                    # out of step
                    sw = [[s, rng.randrange(n)] for s, _ in sw if rng.random() < .7]
            else:
                sw = []
                for _ in range(6):
                    a = rng.randrange(1, total)
                    sw += [[s, s] for s in range(a, a + 60)]
            sc['switch'] = sw
        return sc

    def turn(self, rng, spec, other, tag, own=False):
        """The command of spec with other options, on the same cell or a related one."""
        i, cell = spec['input'], spec['cell']
        if 0 in cell['num']:
            return None
        if other:
            cell = gen.related(rng, cell)
            if cell is None:
                return None
        name = i['name']
        if own:
            q, b = os.path.split(name)
            name = os.path.join(q, 'POSCAR_' + tag if b.startswith('POSCAR') else tag + b)
        return cmds.make(rng, spec['cmd'], small=True, max_out=10, tag=tag,
                         given=(cell, i['fmt'], i['style'], name,
                                [e for e, _ in spec['opt'].get('trs', [])]),
                         outmode=rng.choice(['vasp', 'yaml']) if own else None)

    def like(self, rng, spec):
        """A command of the same kind on another input of the same name."""
        for _ in range(6):
            s = cmds.make(rng, spec['cmd'], small=True, max_out=8)
            a, b = s['input'], spec['input']
            if a['fmt'] != b['fmt']:
                continue
            s['args'] = [b['name'] if x == a['name'] else x for x in s['args']]
            a['name'] = b['name']
            return s
        return json.loads(json.dumps(spec))

    # ---- playing -----------------------------------------------------------------
    def play(self, sc, after):
        """(process, baton, world); after(k, p, w, state) is called as task k ends."""
        w = W.World('w')
        for name, data in sorted(sc['files'].items()):
            w.put(name, data)
        for t in sc['tasks']:
            if t['dir']:
                w.put(t['dir'] + '/', '')
        sim = W.new_sim(w, sc)
        hold = {}
        who = lambda: getattr(S._tls, 'task', None)

        def target(p, imp):
            p.mutations = Owned(who)
            p.fired = Log(who)
            groups = {}
            for m in P.modules():
                # no import lock is held at a switch
                imp(m)
            for m in ('runabalib', 'runatilib'):
                groups[m] = imp('ababe.cmdline.' + m).exec_from_cmdline
            status = [None] * len(sc['tasks'])

            def one(k):
                t = sc['tasks'][k]
                S._tls.task = k
                args = t['spec']['args']
                g = groups['runabalib' if args[0] in P.ABA else 'runatilib']
                try:
                    # click leaves with Exit codes as return values
                    r = g.main(args=list(args), prog_name='ababe', standalone_mode=False)
                    status[k] = r if isinstance(r, int) else 0
                except SystemExit as e:
                    status[k] = e.code or 0
                except (S.SimKill, S.StepLimit, S.HarnessError):
                    raise
                except KeyboardInterrupt:
                    status[k] = 'KeyboardInterrupt'
                    if hold.get('baton'):
                        hold['baton'].rearm()
                except Exception as e:
                    status[k] = '%s: %s' % (type(e).__name__, str(e)[:120])
                    if hold.get('baton'):
                        hold['baton'].rearm()
                return status[k]
            if sc['kind'] == 'threads':
                with S.passive(p):
                    for t in sc['tasks']:
                        w.put(t['spec']['input']['name'], t['spec']['input']['text'])
                    before = w.top()
                b = Baton(p, [lambda k=k: one(k) for k in range(len(sc['tasks']))],
                          sc['switch'], os.path.join(S.REPO, 'ababe') + '/', boom=sc['boom'])
                hold['baton'] = b
                b.run()
                for e in b.error:
                    if e is not None:
                        raise e
                if after:
                    with S.passive(p):
                        for k in range(len(sc['tasks'])):
                            after(k, p, w, status[k], before, p.out)
            else:
                for k, t in enumerate(sc['tasks']):
                    d = os.path.join(w.cwd, t['dir'])
                    with S.passive(p):
                        w.put(os.path.join(t['dir'], t['spec']['input']['name']),
                              t['spec']['input']['text'])
                        S._real['chdir'](d)
                        before = set(S._real['listdir'](d))
                    n = len(p.out)
                    one(k)
                    try:
                        p.stdout.flush()
                    except OSError as e:
                        status[k] = status[k] or 'flush: %s' % e
                    if after:
                        with S.passive(p):
                            after(k, p, w, status[k], before, p.out[n:])
                S._tls.task = None
                with S.passive(p):
                    S._real['chdir'](w.cwd)
        p = sim.spawn('p0', P.lib(target), draws=W.draws_of(sc['draws']), np_seed=sc['np_seed'],
                      faults=sc['faults'], short=sc.get('short'), limit=300000)
        sim.run()
        self.sim = sim
        return p, hold.get('baton'), w

    def execute(self, sc):
        res = W.Result()
        ended, log = [], []
        owner = {}

        def after(k, p, w, status, before, out):
            if any(op == 'stdout' for kind, op in p.fired if kind != 'short'):
                # what could not be written stays in the stream's buffer
                return
            t = sc['tasks'][k]
            spec = t['spec']
            cwd = os.path.join(w.cwd, t['dir'])
            got = [f for f, by in zip(p.fired, p.fired.by) if by == k and f[0] != 'short']
            hit = bool(got) or bool(sc['boom'])
            log.append((k, str(status).split(':')[0]))
            ended.append((k, status))
            pre = os.path.normpath(os.path.join(w.cwdname, t['dir'])) + '/'
            own, stray = set(), []
            for (op, rel), by in zip(p.mutations, p.mutations.by):
                if by == k:
                    if rel.startswith(pre):
                        own.add(rel[len(pre):].split('/')[0])
                    else:
                        stray.append(rel)
            if stray:
                res.fail('place', 'command %d (%s) in %s changed %s' % (
                    k, spec['cmd'], pre, stray[:2]))
            name = cmds.target_name(spec)
            for d in own:
                if sc['kind'] == 'threads':
                    if (d in owner):
                        res.fail('shared', '%s of commands %d and %d' % (d, owner[d], k))
                    owner[d] = k
                if d in before and d != name:
                    res.fail('place', 'command %d (%s) changed %s' % (k, spec['cmd'], d))
            if status != 0:
                if not hit:
                    res.fail('failed', 'command %d of the process (%s) failed: %s' % (
                        k, spec['cmd'], status))
                return
            new = sorted(d for d in own if d not in before and
                         S._lexists(os.path.join(cwd, d)))
            e = cmds.check_output(spec, cwd, out, new)
            if e:
                res.fail('output', 'command %d of the process (%s): %s' % (k, spec['cmd'], e))
            else:
                res.probes['complete'] += 1
                if any(s != 0 for j, s in ended[:-1]):
                    res.probes['complete after a failed one'] += 1
            res.probes[spec['cmd']] += 1
        p, b, w = self.play(sc, after)
        res.absorb(self.sim)
        if p.status != 0 and not any(op == 'stdout' for kind, op in p.fired):
            res.fail('exception', 'the process ended with %s: %r' % (p.status, p.exc))
        names = [(t['dir'], t['spec']['input']['name']) for t in sc['tasks']]
        res.probes['replaced inputs'] += len(names) - len(set(names))
        if b is not None:
            res.fired['thread switch'] += b.switched
            res.fired['KeyboardInterrupt at a source line'] += b.boomed
            res.switches += b.switched
            res.probes['line steps'] += b.step
            log.append((b.switched, b.step, b.boomed))
        res.nontrivial = len(ended) > 1 and (len(names) > len(set(names)) or
                                             (b is not None and b.switched > 0) or
                                             any(s != 0 for k, s in ended[:-1]))
        res.note(log, sorted(w.top()))
        w.close()
        return res

    def shrinks(self, sc):
        if len(sc['tasks']) > 2 and not sc['faults']:
            for k in range(len(sc['tasks'])):
                c = json.loads(json.dumps(sc))
                del c['tasks'][k]
                yield c
        for c in H.lists(sc, ('faults',), ('switch',), ('boom',)):
            yield c
        if sc['draws']['epochs']:
            yield H.at(sc, ('draws', 'epochs'), [])


CHECK = C23()
