"""C10: humidity and pressure (spec: Thermo)"""
import random

import numpy as np

from mv import world
from mv.obs import q, q1, deep
from .c07 import LATS

TRACE = 'ThermoTrace'
MCS = {'quick': [('MC_Thermo', 'MC_Thermo.cfg')],
       'thorough': [('MC_Thermo', 'MC_Thermo_deep.cfg', {'workers': 6, 'timeout': 800})]}
ASSUMPTIONS = ['forcing without gaps, temperatures between -48 and 50 C',
               'sub-daily vapor pressure is in kPa (see the known finding of C12)',
               'values are compared with fixed point arithmetic of 6 digits: about 3 in 10000']


def scenarios(tier, seed):
    r = random.Random(seed * 23 + 10)
    n = 160 if tier == 'quick' else 1500
    out = []
    for k in range(n):
        ts = r.choice([60, 60, 30, 180, 360, 120, 240, 90, 144, 288, 15])
        nd = r.choice([1, 2, 4]) if ts >= 60 else r.choice([1, 2])
        if k % 50 == 7:           # records of years
            ts, nd = r.choice([240, 360]), r.choice([367, 400])
        st = r.choice([(2000, 2, 28), (2000, 12, 30), (1999, 12, 30)]) if r.random() < .3 else \
            (r.choice([1999, 2000, 2001, 2004]), r.randint(1, 12), r.randint(1, 28))
        lats = sorted(r.sample(LATS, 2))
        cal = 'standard' if st[0] in (2000, 2004) or r.random() < .8 else 'noleap'
        case = {'start': list(st), 'ndays': nd, 'calendar': cal,
                'grid': {'kind': r.choice(['latlon', 'lonlat', 'hru']), 'lats': lats, 'lons': [r.choice([-120., 0., 97.25])],
                         'elev': [r.choice([0., -420., 250., 1500.5, 3000., 4500., 6500., 8000.]) for _ in lats]},
                'data': {'kind': r.choice(['random', 'swing', 'cold', 'cold', 'hot', 'hot', 'humid', 'humid', 'dry', 'int']), 'seed': k + 1000 * seed,
                         'state_kind': r.choice(['random', 'swing', 'hot', 'cold', 'dry', 'humid'])},
                'cfg': {'time_step': ts, 'utc_offset': r.random() < .3,
                        'lw_cloud': r.choice(['cloud_deardorff', 'default']),
                        'prec_type': r.choice(['uniform', 'triangle', 'mix'])}}
        case['tri'] = {'t_pk': [700. + 10 * m for m in range(12)], 'dur': [100. + 10 * m for m in range(12)]}
        if r.random() < .3:
            case['cfg']['lapse_rate'] = r.choice([0.005, 0.008, '0.0055'])
        if r.random() < .2:
            case['cfg']['tday_coef'] = r.choice([0.3, 0.6])
        if r.random() < .2:
            case['cfg']['rain_scalar'] = r.choice([0.5, 1.0])
        if r.random() < .15:
            case['fvars'] = ['prec', 't_min', 't_max']
            case['constant_vars'] = {'wind': 2.5}
        if case['grid']['kind'] == 'hru':
            case['grid']['lons'] = case['grid']['lons'] * 2
        out.append(case)
    return out


def observe(case):
    w, o, params = world.run_case(case)
    _, od, _ = world.run_case(deep(case, cfg={'time_step': 1440, 'utc_offset': False}))
    recs = []
    for idx in w.grid.cells():
        at = (slice(None),) + idx
        miss = {}
        for tag, oo, n in (('', o, w.nd * 1440 // int(case['cfg']['time_step'])), ('_daily', od, w.nd)):
            for v in (world.DAILY_VARS if tag else world.SUB_VARS):
                x = oo.v.get(v)
                miss[v + tag] = n if x is None else int(abs(n - x.shape[0]) + np.sum(~np.isfinite(x[at]) | (np.abs(x[at]) > 1e30)))
        recs.append({'elev': q1(w.grid.elev[idx], 10), 'lr': int(round(float(case['cfg'].get('lapse_rate', .0065)) * 1e7)),
                     'miss': miss, 'T': q(o.v['temp'][at], 1e4), 'vp': q(o.v['vapor_pressure'][at], 1e6),
                     'rh': q(o.v['rel_humid'][at], 1e4), 'ap': q(o.v['air_pressure'][at], 1e4),
                     'sh': q(o.v['spec_humid'][at], 1e8), 'vpd': q(od.v['vapor_pressure'][at], 100)})
    return recs


def weight(r):
    return 10 + len(r.get('T', []))
