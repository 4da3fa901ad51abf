"""Generic shrinking of scenarios: drop entries, in halves first."""
import copy


def drops(lst):
    """Smaller versions of a list: chunks removed, then single entries."""
    n = len(lst)
    k = n
    while k >= 1:
        for i in range(0, n, k):
            yield lst[:i] + lst[i + k:]
        if k == 1:
            break
        k = k // 2


def at(sc, path, value):
    c = copy.deepcopy(sc)
    o = c
    for k in path[:-1]:
        o = o[k]
    if value is DEL:
        del o[path[-1]]
    else:
        o[path[-1]] = value
    return c


DEL = object()


def lists(sc, *paths):
    for path in paths:
        o = sc
        try:
            for k in path:
                o = o[k]
        except (KeyError, IndexError, TypeError):
            continue
        if isinstance(o, list) and o:
            for d in drops(o):
                yield at(sc, path, d)


def keys(sc, *paths):
    for path in paths:
        o = sc
        try:
            for k in path:
                o = o[k]
        except (KeyError, IndexError, TypeError):
            continue
        if o:
            yield at(sc, path, DEL)


def procs(sc):
    """Shrinks of everything a command scenario can contain."""
    for c in keys(sc, ('files',), ('jumps',), ('order',), ('dt',)):
        yield c
    for c in lists(sc, ('preempt',), ('jumps',)):
        yield c
    for i in range(len(sc.get('procs', ()))):
        for c in lists(sc, ('procs', i, 'faults'), ('procs', i, 'draws', 'epochs'),
                       ('procs', i, 'np_draws')):
            yield c
        for c in keys(sc, ('procs', i, 'fdlimit'), ('procs', i, 'short'),
                      ('procs', i, 'stderr_fail'), ('procs', i, 'pid')):
            yield c
    if sc.get('cwd', 'w') != 'w':
        yield at(sc, ('cwd',), 'w')
    f = sc.get('files')
    if isinstance(f, dict) and len(f) > 1:
        for k in list(f):
            yield at(sc, ('files', k), DEL)
