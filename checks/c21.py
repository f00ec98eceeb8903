"""C21: the MTCLIM relations (spec: Mtclim, Windows)"""
import random

import numpy as np
import pandas as pd

from mv import world
from mv.obs import q, q1
from .c07 import LATS

TRACE = 'MtclimTrace'
MCS = {'quick': [('MC_Mtclim', 'MC_Mtclim.cfg')],
       'thorough': [('MC_Mtclim', 'MC_Mtclim_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['values are compared with fixed point arithmetic of 6 digits: 1e-4 for cloud, 1/1000 for the others, 1/500 for shortwave',
               'shortwave is not judged on days with nearly no sun']


def record(w, o, idx, cfg):
    at = (slice(None),) + idx
    s = lambda v: q(np.concatenate([w.state[v][at], w.forcing[v][at]]), 1e3)
    return {'P': s('prec'), 'TN': s('t_min'), 'TX': s('t_max'),
            'yday': [int(pd.Timestamp(*x).dayofyear) for x in w.days],
            'lat': q1(w.grid.lat[idx], 1000), 'elev': q1(w.grid.elev[idx], 10),
            'lr': int(round(float(cfg.get('lapse_rate', .0065)) * 1e7)),
            'coef': int(round(float(cfg.get('tday_coef', .45)) * 1e6)),
            'scalar': int(round(float(cfg.get('rain_scalar', .75)) * 1e6)),
            'thr': int(round(float(cfg.get('sw_prec_thresh', 0.)) * 1e3)),
            'cloud': cfg.get('lw_cloud', 'cloud_deardorff').lower(),
            'vp': q(o.v['vapor_pressure'][at], 1e3), 'sw': q(o.v['shortwave'][at], 1e4),
            'pet': q(o.v['pet'][at], 1e5), 'tskc': q(o.v['tskc'][at], 1e6)}


def base(r, k, seed):
    st = r.choice([(2000, 2, 27), (2000, 12, 28), (1999, 12, 29), (2004, 12, 30), (2001, 1, 1)]) if r.random() < .3 else \
        (r.choice([1999, 2000, 2001, 2004]), r.randint(1, 12), r.randint(1, 28))
    cal = 'standard' if st[0] in (2000, 2004) or r.random() < .8 else 'noleap'
    lats = sorted(r.sample(LATS, 2)) if r.random() < .5 else sorted(r.sample([-60., -45., -30.5, -10., 0., 12.25, 35., 47., 60., 64.], 2))
    case = {'start': list(st), 'ndays': r.choice([1, 3, 6, 9, 14]), 'calendar': cal,
            'grid': {'kind': r.choice(['latlon', 'lonlat', 'hru']), 'lats': lats, 'lons': [r.choice([-120., 0., 97.25])],
                     'elev': [r.choice([0., -200., 250., 1500., 3000., 5000.]) for _ in lats]},
            'data': {'kind': r.choice(['random', 'random', 'swing', 'cold', 'hot', 'humid', 'dry', 'int']), 'seed': k + 1000 * seed,
                     'state_kind': r.choice(['random', 'swing', 'hot', 'cold', 'dry', 'humid'])},
            'cfg': {'time_step': 1440, 'lw_cloud': r.choice(['cloud_deardorff', 'default', 'CLOUD_DEARDORFF'])}}
    case['alias'] = r.choice(world.ALIAS[cal])
    if case['grid']['kind'] == 'hru':
        case['grid']['lons'] = case['grid']['lons'] * 2
    c = case['cfg']
    if r.random() < .4:
        c['sw_prec_thresh'] = r.choice([2., 0.5, '5', 1.125, 20, '0.0'])
    if r.random() < .4:
        c['rain_scalar'] = r.choice([0.5, '0.6', 1.0, 0.9])
    if r.random() < .3:
        c['tday_coef'] = r.choice([0.3, '0.6', 0.0])
    if r.random() < .25:
        c['lapse_rate'] = r.choice([0.005, 0.008, '0.0055'])
    return case


def scenarios(tier, seed):
    r = random.Random(seed * 31 + 21)
    return [base(r, k, seed) for k in range(110 if tier == 'quick' else 2200)]


def observe(case):
    w, o, _ = world.run_case(case)
    return [record(w, o, idx, case['cfg']) for idx in w.grid.cells()]


def weight(r):
    return 95 + 6 * len(r.get('yday', []))
