"""Recording how two runs differ, cell by cell and day by day."""
import numpy as np

FLOOR = {'temp': 1., 't_min': 1., 't_max': 1., 'prec': 1e-3, 'spec_humid': 1e-6, 'tskc': 1e-3, 'shortwave': 1e-2, 'pet': 1e-3,
         'wind': 1e-2, 'rel_humid': 1e-2, 'air_pressure': 1e-2, 'longwave': 1., 'daylength': 1., 'vapor_pressure': 1e-4}
BIG = 1999999999


def day_diff(a, b, perday, v):
    """greatest relative difference of each day in 1e-7; below 1e-9 counts as none"""
    if len(a) != len(b) or len(a) % perday:
        return []
    fa, fb = np.isfinite(a) & (np.abs(a) < 9e36), np.isfinite(b) & (np.abs(b) < 9e36)
    x, y = np.where(fa, a, 0.), np.where(fb, b, 0.)
    rel = np.abs(x - y) / np.maximum(np.maximum(np.abs(x), np.abs(y)), FLOOR.get(v, 1e-3))
    d = np.where(fa & fb, np.where(rel < 1e-9, 0, np.ceil(rel * 1e7)), np.where(fa == fb, 0, BIG))
    return [int(k) for k in np.minimum(d.reshape(-1, perday).max(1), BIG)]


def pair(a, b, cells, perday, afirst, alast, bfirst, blast, sub, mix, changes, same='reach', vs=None, poke=()):
    """a, b: Out; cells: [(name, index in a, index in b)]; days on a common axis"""
    lo, hi = max(afirst, bfirst), min(alast, blast)
    vs = list(vs or a.v)
    out = []
    for name, ia, ib in cells:
        for v in vs:
            if v not in a.v or v not in b.v:
                out.append([name, v, []])
                continue
            x = a.v[v][(slice((lo - afirst) * perday, (hi - afirst + 1) * perday),) + ia]
            y = b.v[v][(slice((lo - bfirst) * perday, (hi - bfirst + 1) * perday),) + ib]
            out.append([name, v, day_diff(np.asarray(x, float), np.asarray(y, float), perday, v)])
    return {'sub': bool(sub), 'mix': bool(mix), 'afirst': afirst, 'alast': alast, 'bfirst': bfirst, 'blast': blast, 'from': lo, 'to': hi,
            'vars': vs, 'changes': changes, 'same': same, 'out': out, 'poke': list(poke)}
