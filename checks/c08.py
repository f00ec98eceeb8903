"""C08: UTC output is local output shifted by longitude (spec: Utc)"""
import math
import random

import numpy as np

from mv import world
from mv.obs import q, q1, deep, utc_minutes

TRACE = 'UtcTrace'
MCS = {'quick': [('MC_Utc', 'MC_Utc.cfg')],
       'thorough': [('MC_Utc', 'MC_Utc_deep.cfg', {'workers': 6})]}
ASSUMPTIONS = ['longitudes in steps of a quarter of a degree (offsets in whole minutes)',
               'shortwave wraps around between the first and the last day, whose sun may differ a little',
               'temperature and what follows from it are compared at offsets which are whole steps']

ACC = {'prec': 'sum', 'wind': 'mean', 'tskc': 'mean', 'shortwave': 'mean'}
SCALE = {'temp': 1e4, 'prec': 1e5, 'shortwave': 1e3, 'vapor_pressure': 1e6, 'air_pressure': 1e4, 'rel_humid': 1e5,
         'spec_humid': 1e8, 'longwave': 1e4, 'tskc': 1e6, 'wind': 1e5}
# what the last digits may differ by, in units of the scale
TOL = {'temp': 2, 'prec': 3, 'shortwave': 4, 'vapor_pressure': 2, 'air_pressure': 2, 'rel_humid': 4, 'spec_humid': 4,
       'longwave': 4, 'tskc': 3, 'wind': 3}
LONS = [-180., -179.75, -172.5, -150., -135.5, -120., -97.25, -90., -60., -45., -15., -7.5, -3.75, -0.25, 0., 0.25, 7.5, 15., 33.75, 60.,
        90., 97.5, 120., 135., 150.25, 172.5, 179.75, 180.]
TSS = [60, 60, 60, 30, 180, 360, 120, 240, 90, 15, 20, 10, 45, 80, 144, 288, 72]


def scenarios(tier, seed):
    r = random.Random(seed * 17 + 8)
    n = 64 if tier == 'quick' else 800
    out = []
    for k in range(n):
        ts = r.choice(TSS if r.random() < .85 else [1, 2, 5])
        nd = r.choice([1, 2, 3, 5, 8]) if ts >= 10 else 2
        if k % 32 == 7:           # records of years
            ts, nd = r.choice([180, 240, 360]), r.choice([367, 400, 750])
        lat = r.choice([-66., -60., -45., -33.25, -10., 0., 23.5, 40., 47.25, 60., 71.5, 89., -90.])
        cal = r.choice(['standard', 'standard', 'standard', 'noleap'])
        st = [r.choice([2001, 2003]) if cal == 'noleap' else r.choice([1999, 2000, 2001, 2004]), r.randint(1, 12), r.randint(1, 28)]
        if r.random() < .2:
            st = r.choice([[2000, 12, 30], [2001, 12, 30], [2000, 2, 27], [2000, 1, 1]])
            if cal == 'noleap' and st[0] == 2000:
                st[0] = 2001
        m = 3 if ts >= 10 else 2
        lons = r.sample(LONS, m)
        if r.random() < .7:      # at least one cell with a whole number of steps
            al = [x for x in LONS if (utc_minutes(x) % ts) == 0 and x not in lons]
            if al:
                lons[0] = r.choice(al)
        lons = sorted(set(lons))
        mode = r.choice(['shift', 'shift', 'shift', 'shift', 'circle', 'nooption'])
        if mode == 'circle':
            lons = [x for x in lons if abs(x) != 180.] or [15.]
        case = {'start': st, 'ndays': nd, 'calendar': cal,
                'grid': {'kind': r.choice(['latlon', 'lonlat', 'hru']), 'lats': [lat], 'lons': lons, 'elev': r.choice([0., 300., 2500.])},
                'data': {'kind': r.choice(['random', 'swing', 'tag', 'cold', 'humid']), 'seed': k + 100 * seed},
                'cfg': {'time_step': ts, 'prec_type': r.choice(['uniform', 'triangle', 'mix']),
                        'utc_offset': True, 'lw_cloud': r.choice(['cloud_deardorff', 'default']),
                        'lw_type': r.choice(['prata', 'tva', 'idso'])}}
        if case['grid']['kind'] == 'hru':
            case['grid']['lats'] = [lat] * len(lons)
        if case['cfg']['prec_type'] != 'uniform':
            case['tri'] = {'t_pk': [600. + 20 * i for i in range(12)], 'dur': [200. + 30 * i for i in range(12)], 'cell_step': r.choice([0, 40])}
        case['mode'] = mode
        case['turn'] = r.choice([360., -360., 360., 720.])
        out.append(case)
    return out



def observe(case):
    ts = int(case['cfg']['time_step'])
    recs = []
    if case['mode'] != 'shift':
        two = deep(case)
        two['grid']['lons'] = [x + case['turn'] for x in case['grid']['lons']]
        why = 'FullCircle'
        a, b = case, two
        if case['mode'] == 'nooption':
            why = 'NoOption'
            two['grid']['lons'] = [-x / 2 - 3.25 * (i + 1) for i, x in enumerate(case['grid']['lons'])]
            if case['grid']['kind'] != 'hru':
                # keep the order of the cells
                two['grid']['lons'] = sorted(two['grid']['lons'])
            a, b = deep(a, cfg={'utc_offset': False}), deep(b, cfg={'utc_offset': False})
        w, o, _ = world.run_case(a)
        _, o2, _ = world.run_case(b)
        for idx in w.grid.cells():
            at = (slice(None),) + idx
            for v in o.v:
                recs.append({'kind': 'equal', 'why': why, 'var': v, 'tol': TOL[v],
                             'U': q(o.v[v][at], SCALE[v]), 'L': q(o2.v[v][at], SCALE[v])})
        return recs
    w, o, _ = world.run_case(case)
    local = {}
    yend = w.days[0][0] != w.days[-1][0] or w.cal == 'noleap' or \
        (world.is_leap(w.days[0][0], w.cal) and any(d[1:] in ((12, 31), (12, 30)) for d in w.days))

    def loc(tf):
        if tf not in local:
            # one run serves all cells: their longitudes do not matter
            local[tf] = world.run_case(deep(case, cfg={'utc_offset': False, 'time_step': tf}))[1]
        return local[tf]
    for idx in w.grid.cells():
        at = (slice(None),) + idx
        lon = float(w.grid.lon[idx])
        off = utc_minutes(lon)
        tf = math.gcd(ts, abs(off)) if off % ts else ts
        if w.nd * 1440 // tf > 6000:
            continue
        lo = loc(tf)
        for v in o.v:
            if v not in ACC and off % ts:
                continue
            tol = TOL[v]
            wtol, ring = tol, v in ACC
            U, L = q(o.v[v][at], SCALE[v]), q(lo.v[v][at], SCALE[v])
            if v == 'shortwave':
                big = max(L)
                ring = abs(float(w.grid.lat[idx])) <= 60
                wtol = int(.06 * big + 2 * SCALE[v])
                if yend:
                    if not ring:
                        continue
                    tol = wtol
            recs.append({'kind': 'shift', 'var': v, 'ts': ts, 'tf': tf, 'lon': int(round(lon * 1000)),
                         'acc': ACC.get(v, 'inst'), 'ring': ring, 'tol': tol, 'wtol': wtol, 'U': U, 'L': L})
    return recs


def weight(r):
    return 50 + len(r.get('U', [])) + len(r.get('L', []))
