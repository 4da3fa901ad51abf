"""Finds pairs of occupations with equal xxh32 of their int64 arrays (run once;
the result is dst/data/collisions.json)."""
import random, json, xxhash, struct, os
def find(n, base, sp, lo, hi, want, seed):
    rng = random.Random(seed); seen = {}; out = []
    while len(out) < want:
        k = rng.randrange(lo, hi + 1)
        idx = tuple(sorted(rng.sample(range(n), k)))
        v = [base] * n
        for i in idx: v[i] = sp
        h = xxhash.xxh32(struct.pack('<%dq' % n, *v)).intdigest()
        if h in seen and seen[h] != idx: out.append([list(seen[h]), list(idx)])
        seen[h] = idx
    return out
res = {'c60': find(60, 6, 5, 4, 9, 6, 1), 'c60same': None, 'cell24': find(24, 29, 79, 6, 14, 6, 2)}
res['c60same'] = find(60, 6, 5, 6, 6, 4, 3)
res['cell24same'] = find(24, 29, 79, 11, 11, 4, 4)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'dst/data/collisions.json'), 'w') as f:
    json.dump(res, f)
