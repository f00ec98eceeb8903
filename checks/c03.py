"""C03: cells keep their place (spec: Placement)"""
import random

import numpy as np

from mv import world
from mv.obs import q, deep
from .c08 import SCALE, TOL

TRACE = 'PlacementTrace'
MCS = {'quick': [('MC_Placement', 'MC_Placement.cfg')],
       'thorough': [('MC_Placement', 'MC_Placement_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['grids of up to 30 cells', 'the results of a cell on its own are those of a run of a domain with this cell only']
CLAT = [-66., -47.5, -33.25, -10., 0., 12.5, 30., 41.25, 47.75, 52., 61.5, 70.25]
CLON = [-179.75, -120.25, -97.5, -60., -15., 0., 7.5, 33.75, 97.5, 120.25, 150., 179.75]
FLAT = [round(47.5 + .03125 * k, 5) for k in range(9)]
FLON = [round(-120.5 + .0625 * k, 4) for k in range(9)]

INDEX = ['int8', 'int16', 'int32', 'uint32', 'int64', 'int64', 'float32', 'float64']


def grid(r, most=30):
    kind = r.choice(['latlon', 'latlon', 'lonlat', 'yx', 'hru'])
    # some grids are fine: neighbours are almost, but not quite, alike
    fine = r.random() < .3
    LATV, LONV = (FLAT, FLON) if fine else (CLAT, CLON)
    if kind == 'hru':
        n = r.randint(1, 9)
        lats, lons = [r.choice(LATV) for _ in range(n)], [r.choice(LONV) for _ in range(n)]
        cells = n
    else:
        a, b = r.choice([(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (5, 3), (4, 4)])
        lats, lons = sorted(r.sample(LATV, a)), sorted(r.sample(LONV, b))
        if r.random() < .4:
            lats = lats[::-1]
        if r.random() < .15:
            lons = lons[::-1]
        cells = a * b
    mask = [r.choice([1, 1, 1, 1, 0, 2, 0.5, -1, None]) for _ in range(cells)] if r.random() < .75 else [1] * cells
    if not any(m and m > 0 for m in mask):
        mask[r.randrange(cells)] = 1
    elev = [r.choice([-100., 0., 250., 800., 1500., 2750., 4000.]) for _ in range(cells)]
    if fine:
        elev = [800. + r.choice([0., .25, .5, 1., 2., 3.5]) for _ in range(cells)]
    g = {'kind': kind, 'lats': lats, 'lons': lons, 'mask': mask, 'elev': elev}
    if r.random() < .6:
        g['index'] = r.choice(INDEX) if kind in ('yx', 'hru') else r.choice(['float32', 'float64'])
        g['ids'] = r.sample(range(1, 28), 9)
    return g


def alone(case, w, n):
    """the case reduced to cell n"""
    idx = w.grid.cells()[n]
    c = deep(case)
    c['grid'] = {'kind': 'hru', 'lats': [float(w.grid.lat[idx])], 'lons': [float(w.grid.lon[idx])], 'elev': [float(w.grid.elev[idx])]}
    c['data'] = dict(case['data'], cell_ids=[n])
    if case.get('tri'):
        s = case['tri'].get('cell_step', 0) * n
        c['tri'] = {'t_pk': [x + s for x in case['tri']['t_pk']], 'dur': case['tri']['dur']}
    c['cfg']['chunks'] = {}
    c['io'] = {}
    c['fmt'] = 'netcdf'
    return c


def scenarios(tier, seed):
    r = random.Random(seed * 43 + 3)
    out = []
    for k in range(80 if tier == 'quick' else 1000):
        ts = r.choice([1440, 1440, 60, 180, 360, 240])
        g = grid(r)
        case = {'start': [r.choice([1999, 2000, 2001]), r.randint(1, 12), r.randint(1, 28)], 'ndays': r.choice([1, 2, 3]), 'grid': g,
                'data': {'kind': r.choice(['random', 'tag', 'tag', 'swing']), 'seed': r.randint(1, 10**6), 'state_kind': 'random'},
                'cfg': {'time_step': ts, 'prec_type': r.choice(['uniform', 'triangle', 'mix']), 'out_freq': r.choice([None, None, 'D'])},
                'tri': {'t_pk': [400. + 10 * m for m in range(12)], 'dur': [100. + 10 * m for m in range(12)], 'cell_step': r.choice([0, 15.])},
                'io': {'mask_float': r.random() < .5}}
        if ts != 1440 and r.random() < .25:
            case['cfg']['period_ending'] = True
        if ts != 1440 and r.random() < .3:
            case['cfg']['utc_offset'] = True
        if r.random() < .6:
            dims = {'latlon': ['lat', 'lon'], 'lonlat': ['lon', 'lat'], 'yx': ['y', 'x'], 'hru': ['hru']}[g['kind']]
            case['cfg']['chunks'] = {d: r.choice([1, 2, 3, 4]) for d in r.sample(dims, r.randint(1, len(dims)))}
        # what belongs to a cell is found wherever it is in the files
        for what in ('order', 'state_order'):
            if r.random() < .3:
                case['io'][what] = 'perm'
        if r.random() < .4:
            case['io']['turn'] = {'domain': r.sample(['elev', 't_pk', 'dur', 'lat', 'lon'], r.randint(0, 3)),
                                  'forcing': r.sample(['prec', 't_min', 't_max', 'wind'], r.randint(0, 3)),
                                  'state': r.sample(['prec', 't_min', 't_max'], r.randint(0, 2))}
        case['fmt'] = r.choice(['netcdf', 'netcdf', 'data'])
        if not case['io']['mask_float']:
            g['mask'] = [1 if m == 0.5 else m for m in g['mask']]
        if r.random() < .3:
            case['cfg']['out_precision'] = 'f4'
        case['nsolo'] = 3 if ts == 1440 else 2
        out.append(case)
    return out


def label(x):
    """labels of cells as text, numbers with the digits they have (None: not there)"""
    return [str(v) if isinstance(v, str) else repr(float(v)) if np.isfinite(float(v)) else 'nan' for v in x]


def observe(case):
    w, o, p = world.run_case(case)
    g = w.grid
    ts = int(case['cfg']['time_step'])
    vs = list(o.v)
    vs = [v for v in vs if v in SCALE]
    f0 = o.files[0]
    cells = g.cells()
    prec = o.v['prec']
    od = list(f0['vdims']['prec'][1:])
    at = lambda v, idx: o.v[v][(slice(None),) + idx]
    dims = list(g.dims)
    coord = []
    for k, d in enumerate(dims):
        coord.append(label(g.labels.get(d, np.arange(g.shape[k]))))
    rec = {'dims': dims, 'shape': list(g.shape), 'coord': coord, 'odims': od, 'oshape': list(prec.shape[1:]),
           'ocoord': [label(f0['coords'].get(d, [])) for d in od], 'mask': q(g.mask.ravel(), 1e3),
           'steps': w.nd * 1440 // ts, 'perday': 1440 // ts, 'vars': vs, 'tol': {v: TOL[v] for v in vs}, 'chunked': bool(case['cfg'].get('chunks')),
           'miss': {}, 'prec': [], 'raw': [], 'solo': []}
    if prec.shape[1:] != g.shape:
        return [rec]
    for v in vs:
        rec['miss'][v] = [int(np.sum(~np.isfinite(at(v, c)) | (np.abs(at(v, c)) > 1e30)) + abs(rec['steps'] - len(at(v, c)))) for c in cells]
    rec['prec'] = [q(at('prec', c), 1e3) for c in cells]
    rec['raw'] = [q(w.forcing['prec'][(slice(None),) + c], 1e3) for c in cells]
    if case['cfg'].get('utc_offset'):      # days are shifted, the record as a whole stays
        rec['perday'] = rec['steps']
        rec['raw'] = [q(w.forcing['prec'][(slice(None),) + c].sum(keepdims=True), 1e3) for c in cells]
    act = [n for n, c in enumerate(cells) if g.active[c]]
    for n in random.Random(case['data']['seed']).sample(act, min(len(act), case['nsolo'])):
        _, oo, _ = world.run_case(alone(case, w, n))
        rec['solo'].append({'cell': n + 1, 'vals': {v: [q(at(v, cells[n]), SCALE[v]), q(oo.v[v][:, 0], SCALE[v])] for v in vs}})
    return [rec]


def weight(r):
    return 20 + sum(len(x) for x in r.get('prec', [])) + 10 * len(r.get('solo', []))
