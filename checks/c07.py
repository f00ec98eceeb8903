"""C07: shortwave and day length (spec: Sun)"""
import random

import numpy as np
import pandas as pd

from mv import world
from mv.obs import q, q1, deep

TRACE = 'SunTrace'
MCS = {'quick': [('MC_Sun', 'MC_Sun.cfg')],
       'thorough': [('MC_Sun', 'MC_Sun_deep.cfg', {'workers': 6, 'timeout': 800})]}
ASSUMPTIONS = ['the position of the sun is that of the MTCLIM formulas (declination and eccentricity by day of year)',
               'the share of the day which has arrived may be off by 50 s of the strongest sun (the radiation routine works in steps of 30 s)',
               'the last day of a leap year repeats the day before']

LATS = [-90., -89.99, -89., -80., -75.5, -70., -68., -67.4, -66.9, -66.5, -66., -60., -45., -33.3, -23.44, -10., -0.25, 0.,
        0.25, 10., 23.44, 33.3, 45., 52.125, 60., 64., 66., 66.45, 66.55, 66.9, 67.4, 68., 70., 75.5, 80., 85., 89., 89.99, 90.]


def scenarios(tier, seed):
    r = random.Random(seed * 13 + 7)
    n = 110 if tier == 'quick' else 1300
    out = []
    # random days, and the critical ones
    starts = [(2000, 2, 27), (2000, 12, 28), (1999, 12, 29), (2001, 3, 18), (2000, 6, 18), (2000, 12, 19), (2001, 9, 20),
              (2004, 12, 30), (2001, 1, 1), (2001, 5, 14), (2001, 7, 25), (2001, 11, 13), (2001, 1, 24), (2001, 11, 26), (2001, 1, 14)]
    for k in range(n):
        st = r.choice(starts) if r.random() < .5 else (r.choice([1999, 2000, 2001, 2004]), r.randint(1, 12), r.randint(1, 28))
        ts = r.choice([60, 60, 30, 180, 360, 120, 240, 15, 90, 10, 5, 20, 45, 80, 144, 288, 1, 2, 3])
        nl = 3 if ts >= 10 else 2
        lats = sorted(r.sample(LATS, nl))
        if r.random() < .4:
            lats[r.randrange(nl)] = round(r.uniform(-90, 90), 3)
            lats.sort()
        if len(set(lats)) < nl:
            continue
        nd = r.choice([1, 3, 5, 8]) if ts >= 10 else r.choice([1, 2, 3])
        if k % 40 == 7:           # records of years
            ts, nd, lats = r.choice([180, 240, 360]), r.choice([367, 400, 750]), lats[:1]
            nl = 1
        cal = 'standard' if st[0] in (2000, 2004) or r.random() < .7 else 'noleap'
        elev = [r.choice([0., -120., 500., 2500., 4500., 8000.]) for _ in lats]
        case = {'start': list(st), 'ndays': nd, 'calendar': cal,
                'grid': {'kind': r.choice(['latlon', 'lonlat', 'hru']), 'lats': lats, 'lons': [r.choice([-120., 0., 77.25])], 'elev': elev},
                'data': {'kind': r.choice(['random', 'swing', 'cold', 'hot', 'humid', 'dry']), 'seed': k + 1000 * seed},
                'cfg': {'time_step': ts, 'out_vars': ['shortwave'],
                        'rain_scalar': r.choice([0.75, 0.75, 0.5, 1.0]),
                        'sw_prec_thresh': r.choice([0.0, 0.0, 2.0])}}
        if case['grid']['kind'] == 'hru':
            case['grid']['lons'] = [case['grid']['lons'][0]] * nl
        out.append(case)
    return out


def observe(case):
    w, o, params = world.run_case(case)
    _, od, _ = world.run_case(deep(case, cfg={'time_step': 1440, 'out_vars': ['shortwave', 'daylength']}))
    recs = []
    for idx in w.grid.cells():
        at = (slice(None),) + idx
        recs.append({'lat': q1(w.grid.lat[idx], 1000), 'ts': int(case['cfg']['time_step']),
                     'yday': [int(pd.Timestamp(*x).dayofyear) for x in w.days], 'slack': 0,
                     'leap': bool(world.is_leap(w.days[0][0], w.cal)),
                     'dl': q(od.v['daylength'][at], 1000), 'sw': q(od.v['shortwave'][at], 1000),
                     'ss': q(o.v['shortwave'][at], 1000)})
    return recs


def weight(r):
    return 100 + len(r.get('ss', []))
