"""C09: the temperature curve (spec: TempCurve)"""
import random

import pandas as pd

from mv import world
from mv.obs import q, q1, utc_minutes
from .c07 import LATS

TRACE = 'TempTrace'
MCS = {'quick': [('MC_TempCurve', 'MC_TempCurve.cfg')],
       'thorough': [('MC_TempCurve', 'MC_TempCurve_deep.cfg', {'workers': 6, 'timeout': 800})]}
ASSUMPTIONS = ['"about sunrise": one time step before it, as the steps are stamped at their beginning; 2 minutes tolerance',
               'where day or night lasts less than an hour and a half only the range is judged',
               'between the extremes any monotone curve is accepted which is at most three times as steep as the straight line']


def scenarios(tier, seed):
    r = random.Random(seed * 19 + 9)
    n = 120 if tier == 'quick' else 1500
    out = []
    for k in range(n):
        ts = r.choice([60, 60, 30, 180, 360, 120, 240, 15, 90, 10, 5, 20, 45, 80, 144, 288, 1, 2])
        nd = r.choice([1, 2, 3, 5, 8, 12]) if ts >= 10 else r.choice([1, 2, 3])
        if k % 40 == 7:           # records of years
            ts, nd = r.choice([180, 240, 360]), r.choice([367, 400, 750])
        st = r.choice([(2000, 2, 27), (2000, 12, 28), (1999, 12, 29), (2004, 12, 30), (2001, 1, 1)]) if r.random() < .3 else \
            (r.choice([1999, 2000, 2001, 2004]), r.randint(1, 12), r.randint(1, 28))
        lats = sorted(r.sample(LATS, 2))
        if r.random() < .6:
            lats = sorted(r.sample([-60., -45., -30.5, -10., 0., 12.25, 35., 47., 60., 64.], 2))
        lons = r.choice([[0.], [-120.], [97.25], [-179.75], [180.], [15.], [-60.]])
        utc = r.random() < .35
        cal = 'standard' if st[0] in (2000, 2004) or r.random() < .7 else 'noleap'
        case = {'start': list(st), 'ndays': nd, 'calendar': cal,
                'grid': {'kind': r.choice(['latlon', 'lonlat', 'hru']), 'lats': lats, 'lons': lons, 'elev': [r.choice([0., 1500.]) for _ in lats]},
                'data': {'kind': r.choice(['random', 'swing', 'swing', 'cold', 'hot', 'humid', 'tag', 'int']), 'seed': k + 1000 * seed,
                         'state_kind': r.choice(['random', 'swing', 'hot', 'cold'])},
                'cfg': {'time_step': ts, 'out_vars': ['temp'], 'utc_offset': utc, 'period_ending': r.random() < .2}}
        f = r.choice([None, None, 0.67, 0.5, 0.3, 0.85, '0.75', '0.6', 0.1])
        if f is not None:
            case['cfg']['tmax_daylength_fraction'] = f
        if case['grid']['kind'] == 'hru':
            case['grid']['lons'] = lons * 2
        out.append(case)
    return out


def observe(case):
    w, o, params = world.run_case(case)
    recs = []
    for idx in w.grid.cells():
        at = (slice(None),) + idx
        recs.append({'lat': q1(w.grid.lat[idx], 1000), 'ts': int(case['cfg']['time_step']),
                     'off': utc_minutes(float(w.grid.lon[idx])) if case['cfg'].get('utc_offset') else 0,
                     'frac': int(round(float(case['cfg'].get('tmax_daylength_fraction', .67)) * 10000)),
                     'yday': [int(pd.Timestamp(*x).dayofyear) for x in w.days],
                     'tn0': q1(w.state['t_min'][(89,) + idx], 1e4), 'tx0': q1(w.state['t_max'][(89,) + idx], 1e4),
                     'tn': q(w.forcing['t_min'][at], 1e4), 'tx': q(w.forcing['t_max'][at], 1e4),
                     'T': q(o.v['temp'][at], 1e4)})
    return recs


def weight(r):
    return 100 + len(r.get('T', []))
