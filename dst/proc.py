"""Running ababe's commands as simulated processes."""
import importlib
import os
from . import sim as S

ABA = ('suplat', 'ocumaker', 'ocubiter', 'ocutenter', 'ocumakert')
ATI = ('atclear', 'perturb', 'supcell', 'pcell')


def command(args):
    """The target of a process that runs one command line."""
    mod = 'ababe.cmdline.runabalib' if args[0] in ABA else 'ababe.cmdline.runatilib'

    def target(p):
        with S.passive(p):
            m = importlib.import_module(mod)
        p.argv[:] = [mod.rsplit('.', 1)[1]] + list(args)
        m.run()
    return target


def lib(fn):
    """The target of a process that calls fn(p, importer)."""
    def target(p):
        def imp(name):
            with S.passive(p):
                return importlib.import_module(name)
        return fn(p, imp)
    return target


_mods = []


def modules():
    """All modules of ababe but its tests."""
    def walk(d, name):
        for e in sorted(S._real['listdir'](d)):
            if e.endswith('.py') and e != '__init__.py':
                _mods.append(name + '.' + e[:-3])
            elif e not in ('tests', '__pycache__') and S._real_isdir(os.path.join(d, e)):
                walk(os.path.join(d, e), name + '.' + e)
    if not _mods:
        walk(os.path.join(S.REPO, 'ababe'), 'ababe')
    return _mods
