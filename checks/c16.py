"""C16: longwave (spec: Emissivity)"""
import random

import numpy as np

from mv import world
from mv.obs import q, q1, deep
from .c08 import SCALE, TOL

TRACE = 'EmisTrace'
MCS = {'quick': [('MC_Emissivity', 'MC_Emissivity.cfg')],
       'thorough': [('MC_Emissivity', 'MC_Emissivity_deep.cfg', {'workers': 6, 'timeout': 800})]}
ASSUMPTIONS = ['values are compared with fixed point arithmetic of 6 digits: about 0.03 W m-2']
TYPES = ['default', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso', 'prata']
CLOUDS = ['default', 'cloud_deardorff']


def case_of(r, s):
    return ''.join(x.upper() if r.random() < .5 else x for x in s) if r.random() < .3 else s


def scenarios(tier, seed):
    r = random.Random(seed * 29 + 16)
    out = []
    reps = 8 if tier == 'quick' else 110
    for rep in range(reps):
        for t in TYPES:
            for c in CLOUDS:
                ts = r.choice([60, 60, 30, 180, 360, 120, 144, 288])
                nd = r.choice([1, 2])
                st = (r.choice([1999, 2000, 2001, 2004]), r.randint(1, 12), r.randint(1, 28))
                cold = r.random() < .2
                case = {'start': list(st), 'ndays': nd,
                        'grid': {'kind': r.choice(['latlon', 'lonlat', 'hru']), 'lats': [r.choice([-66., -45., -10., 0., 30., 47.25, 60., 80.])],
                                 'lons': [r.choice([-120., 0., 97.25])], 'elev': r.choice([0., 500., 2500.])},
                        'data': {'kind': r.choice(['cold'] if cold else ['random', 'swing', 'hot', 'humid', 'int', 'dry']), 'seed': r.randint(1, 10**6)},
                        'cfg': {'time_step': ts, 'utc_offset': r.random() < .3, 'lw_type': case_of(r, t), 'lw_cloud': case_of(r, c)}}
                case['other'] = None
                if r.random() < .35:
                    case['other'] = [r.choice([x for x in TYPES if x != t]), r.choice(CLOUDS)]
                out.append(case)
    return out


def observe(case):
    w, o, _ = world.run_case(case)
    recs = []
    cfg = case['cfg']
    for idx in w.grid.cells():
        at = (slice(None),) + idx
        recs.append({'kind': 'lw', 'type': cfg['lw_type'].lower(), 'cloud': cfg['lw_cloud'].lower(),
                     'temp': q(o.v['temp'][at], 1e4), 'vp': q(o.v['vapor_pressure'][at], 1e6),
                     'tskc': q(o.v['tskc'][at], 1e6), 'lw': q(o.v['longwave'][at], 1e4)})
    if case['other']:
        _, o2, _ = world.run_case(deep(case, cfg={'lw_type': case['other'][0], 'lw_cloud': case['other'][1]}))
        same = case['other'][1] == cfg['lw_cloud'].lower()
        for idx in w.grid.cells():
            at = (slice(None),) + idx
            for v in o.v:
                if v == 'longwave' or (v == 'tskc' and not same):
                    continue
                recs.append({'kind': 'other', 'var': v, 'tol': TOL[v], 'U': q(o.v[v][at], SCALE[v]), 'L': q(o2.v[v][at], SCALE[v])})
            if not same and not cfg['utc_offset']:
                D, C = (o, o2) if cfg['lw_cloud'].lower() == 'default' else (o2, o)
                recs.append({'kind': 'cloud', 'U': q(D.v['tskc'][at], 1e6), 'L': q(C.v['tskc'][at], 1e6)})
    return recs


def weight(r):
    return 10 + 4 * len(r.get('lw', [])) + len(r.get('U', []))
