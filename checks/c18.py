"""C18: a cell depends on nothing but its own inputs (spec: Deps)"""
import random

import numpy as np

from mv import world
from mv.obs import deep
from mv.pairs import pair

TRACE = 'DepsTrace'
MCS = {'quick': [('MC_Deps', 'MC_Deps.cfg')],
       'thorough': [('MC_Deps', 'MC_Deps_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['unchanged means equal to 1e-9', 'at most 4 cells, one or several of which are changed, removed or added']
LATV = [-66., -47.5, -10., 0., 30., 47.75, 61.5, 72.]
LONV = [-179.75, -97.5, -15., 0., 33.75, 97.5, 150.]


def scenarios(tier, seed):
    r = random.Random(seed * 59 + 18)
    out = []
    n = 90 if tier == 'quick' else 1500
    for k in range(n):
        m = r.choice([2, 3, 4])
        kind = r.choice(['hru', 'hru', 'latlon', 'lonlat', 'yx'])
        if kind == 'hru':
            lats, lons = [r.choice(LATV) for _ in range(m)], [r.choice(LONV) for _ in range(m)]
            if r.random() < .4:
                # alike but for their elevation
                lats = [lats[0]] * m
                lons = lons if r.random() < .5 else [lons[0]] * m
        else:
            lats, lons = sorted(r.sample(LATV, m)), [r.choice(LONV)]
            if kind != 'yx' and r.random() < .4:
                lats = lats[::-1]
        flat = kind in ('latlon', 'lonlat', 'yx') and m == 4 and r.random() < .6
        if flat:
            # two by two: cells with a latitude or a longitude in common
            lats, lons = sorted(r.sample(LATV, 2)), sorted(r.sample(LONV, 2))
        ts = r.choice([1440, 1440, 60, 180, 360])
        c = {'time_step': ts, 'prec_type': r.choice(['uniform', 'triangle', 'mix']), 'lw_cloud': r.choice(['cloud_deardorff', 'default'])}
        if ts < 1440 and r.random() < .3:
            c['utc_offset'] = True
        if r.random() < .3:
            c['chunks'] = {'hru': r.choice([1, 2])} if kind == 'hru' else {{'latlon': 'lat', 'lonlat': 'lat', 'yx': 'y'}[kind]: r.choice([1, 2])}
            if flat and r.random() < .5:
                c['chunks'] = {{'yx': 'x'}.get(kind, 'lon'): 1} if r.random() < .5 else dict({{'yx': 'x'}.get(kind, 'lon'): 1}, **c['chunks'])
        case = {'start': [r.choice([1999, 2000, 2001]), r.randint(1, 12), r.randint(1, 28)], 'ndays': r.choice([1, 2, 4]),
                'grid': {'kind': kind, 'lats': lats, 'lons': lons, 'elev': [r.choice([-100., 250., 1500., 4000.]) for _ in range(m)],
                         'mask': [1] * m},
                'tri': {'t_pk': [400. + 10 * j for j in range(12)], 'dur': [100. + 10 * j for j in range(12)], 'cell_step': r.choice([0, 15.])},
                'data': {'kind': r.choice(['random', 'random', 'swing', 'cold', 'humid', 'hot']), 'seed': r.randint(1, 10**6), 'cell_ids': list(range(m))},
                'cfg': c, 'fmt': r.choice(['netcdf', 'netcdf', 'netcdf', 'ascii', 'data'])}
        if case['fmt'] == 'ascii' and kind in ('hru', 'yx'):
            case['fmt'] = 'netcdf'
        if r.random() < .2:
            case['cfg']['method'] = 'passthrough'
            case['data']['extra'] = {'shortwave': [20., 300.]}
            if r.random() < .5:
                case['data']['extra']['vapor_pressure'] = [.3, 2.]
            case['fmt'] = 'netcdf'
        case['who'] = r.sample(range(m), r.choice([1, 1, m - 1]))
        what = r.choice(['forcing', 'forcing', 'state', 'elev', 'mask', 'tri', 'drop', 'drop', 'nan', 'place', 'series'])
        if flat and what in ('drop', 'place'):
            # one of the longitudes goes, or they move apart
            case['flat'] = j = r.randrange(2)
            case['who'] = [2 * j, 2 * j + 1] if kind == 'lonlat' else [j, 2 + j]
        if r.random() < .25:
            case['off'] = [r.randrange(m)]       # switched off in both runs
        case['what'] = what
        if ts == 1440 and case['fmt'] != 'ascii' and r.random() < .5:
            # days missing in both runs
            case['holes'] = [[r.choice(['prec', 't_min', 't_max', 't_max']), t, r.choice([c for c in range(m) if c not in case['who']])]
                             for t in r.sample(range(60, 90), 3)]
        out.append(case)
    return out


def observe(case):
    r = random.Random(case['data']['seed'])
    what, who = case['what'], case['who']
    m = len(case['grid']['mask'])
    a, b = deep(case), None
    for x in case.get('off', []):
        a['grid']['mask'][x] = 0
    if 'holes' in case:
        a['data']['poke_state'] = [[v, t, c, float('nan')] for v, t, c in case['holes']]
    b = deep(a)
    ts = int(case['cfg']['time_step'])
    n = case['ndays']
    keep = {k: k for k in range(m)}
    static = False
    if what in ('forcing', 'nan', 'series'):
        pk = []
        for c in who:
            for t in range(n):
                if what == 'series' or t == 0 or r.random() < .3:
                    if what == 'nan':
                        pk.append([r.choice(['prec', 't_min', 't_max', 'wind']) if ts == 1440 else 'wind', t, c, None])
                    else:
                        lo = r.choice([-40., -5., 10., 25.])
                        pk += [['prec', t, c, r.choice([0., 5., 300.])], ['t_min', t, c, lo], ['t_max', t, c, lo + r.choice([.5, 8., 30.])],
                               ['wind', t, c, r.choice([.5, 30.])]]
        b['data']['poke'] = pk
    elif what == 'state':
        b['data']['poke_state'] = b['data'].get('poke_state', []) + [[v, t, c, x] for c in who for t in ([89, r.randint(60, 88), r.randint(1, 60)]) for v, x in
                                   [('prec', r.choice([0., 400.])), ('t_max', 45.), ('t_min', -20.)]]
    elif what == 'elev':
        for c in who:
            b['grid']['elev'][c] += r.choice([3000., -700., 50.])
        static = True
    elif what == 'mask':
        for c in who:
            b['grid']['mask'][c] = 0 if b['grid']['mask'][c] else 1
        static = True
    elif what == 'tri':
        static = True
    elif what == 'place':
        g = b['grid']
        if 'flat' in case:
            g['lons'][case['flat']] += -1.75 if case['flat'] == 0 and g['lons'][0] > -178 else 1.75 if case['flat'] else .25
        elif g['kind'] == 'hru':
            for c in who:
                g['lats'][c] = r.choice(LATV)
                g['lons'][c] = r.choice(LONV)
        elif g['kind'] == 'yx':
            for c in who:
                g['lats'][c] = r.choice([x for x in LATV if x not in g['lats']])
        else:      # stay in order: move an end
            c = who[0] = r.choice([0, m - 1])
            who[:] = [c]
            up = (c == m - 1) == (g['lats'][-1] > g['lats'][0])
            g['lats'][c] = g['lats'][c] + (3.25 if up else -3.25)
        static = True
    elif what == 'drop':
        left = [k for k in range(m) if k not in who]
        for key in ('elev', 'mask'):
            b['grid'][key] = [b['grid'][key][k] for k in left]
        if 'flat' in case:
            b['grid']['lons'] = [b['grid']['lons'][1 - case['flat']]]
        else:
            b['grid']['lats'] = [b['grid']['lats'][k] for k in left]
        if b['grid']['kind'] == 'hru':
            b['grid']['lons'] = [b['grid']['lons'][k] for k in left]
        b['data']['cell_ids'] = left
        keep = {k: j for j, k in enumerate(left)}
        if 'holes' in case:
            b['data']['poke_state'] = [[v, t, keep[c], x] for v, t, c, x in b['data']['poke_state']]
        # what belongs to the remaining cells stays with them
        b['tri_cells'] = left
    if what == 'nan':
        for x in b['data']['poke']:
            x[3] = float('nan')
    wa, oa, _ = world.run_case(a)
    wb, ob, _ = world.run_case(tri_fix(b, what, who, m))
    ca, cb = wa.grid.cells(), wb.grid.cells()
    cells = [(k + 1, ca[k], cb[j]) for k, j in keep.items()
             if wa.grid.active[ca[k]] and k not in who and wb.grid.active[cb[j]]]
    changes = [['S', 0, 0, [k + 1 for k in who]]] if static else [[i, -89, n, [k + 1 for k in who]] for i in ('T', 'P', 'W')]
    # every other cell, including those which are off, must be what it was
    rest = [(k + 1, ca[k], cb[j]) for k, j in keep.items() if k not in who and not wa.grid.active[ca[k]]]
    return [pair(oa, ob, cells + rest, 1440 // ts, 1, n, 1, n, ts < 1440, case['cfg']['prec_type'] == 'mix', changes, same='exact')]


def tri_fix(b, what, who, m):
    """monthly parameters per cell: t_pk and dur are shifted by cell_step per cell"""
    if what == 'tri':
        b['tri'] = dict(b['tri'], only=who, by=75.)
    elif what == 'drop':
        b['tri'] = dict(b['tri'], ids=b['tri_cells'])
    return b


def weight(r):
    return 20 + sum(len(x[2]) for x in r.get('out', []))
