"""C17: passthrough (spec: Passthrough, Mtclim, Emissivity)"""
import random

import numpy as np

from mv import world
from mv.obs import q, deep
from . import c21

TRACE = 'PassTrace'
MCS = {'quick': [('MC_Passthrough', 'MC_Passthrough.cfg')],
       'thorough': [('MC_Passthrough', 'MC_Passthrough.cfg'), ('MC_Mtclim', 'MC_Mtclim_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['means over a day are judged without UTC offset and where the sun rises',
               'sub-daily vapor pressure is interpolated between the days and capped by saturation: judged to stay between the given values around the day',
               'sub-daily vapor pressure is in kPa (see the known finding of C12)']
RANGES = {'longwave': (150., 420.), 'tskc': (0., 1.), 'pet': (0.5, 8.), 'tfmax': (0.2, 0.95)}
SCALES = {'shortwave': 1e4, 'longwave': 1e4, 'vapor_pressure': 1e3, 'tskc': 1e6, 'pet': 1e5, 'tdew': 1e4, 'tfmax': 1e6, 't_day': 1e4}


def scenarios(tier, seed):
    r = random.Random(seed * 37 + 17)
    out = []
    for k in range(90 if tier == 'quick' else 1500):
        c = c21.base(r, k, seed)
        c['ndays'] = r.choice([1, 2, 3, 4])
        cold = c['data']['kind'] == 'cold'
        sup = [v for v in ('longwave', 'vapor_pressure', 'tskc', 'pet', 'tdew', 'tfmax', 't_day') if r.random() < .3]
        ext = {'shortwave': [5., 400.]}
        for v in sup:
            ext[v] = {'vapor_pressure': (10., 30.) if cold else (100., 1800.), 'tdew': (-45., -25.) if cold else (-15., 15.),
                      't_day': (-30., -10.) if cold else (0., 25.)}.get(v) or RANGES[v]
        c['data']['extra'] = {v: list(x) for v, x in ext.items()}
        c['supplied'] = sup
        c['cfg']['method'] = 'passthrough'
        if r.random() < .45:
            c['cfg']['sw_averaging'] = 'daylight'
        c['cfg']['utc_offset'] = r.random() < .2
        c['cfg']['lw_type'] = r.choice(['prata', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso', 'default'])
        c['cfg']['prec_type'] = r.choice(['uniform', 'uniform', 'mix'])
        c['tri'] = {'t_pk': [700. + 10 * m for m in range(12)], 'dur': [100. + 10 * m for m in range(12)]}
        c['ts'] = r.choice([60, 180, 360, 120, 240, 30, 90, 288])
        c['fmt'] = r.choice(['netcdf', 'netcdf', 'data'])
        out.append(c)
    return out


def observe(case):
    w, od, _ = world.run_case(deep(case, cfg={'utc_offset': False}))
    _, o, _ = world.run_case(deep(case, cfg={'time_step': case['ts']}))
    recs = []
    for idx in w.grid.cells():
        at = (slice(None),) + idx
        rec = c21.record(w, od, idx, case['cfg'])
        rec.update({'supplied': case['supplied'], 'daylight': case['cfg'].get('sw_averaging') == 'daylight',
                    'given': {v: q(w.forcing[v][at], s) for v, s in SCALES.items() if v in w.forcing},
                    'dl': q(od.v['daylength'][at], 1e3), 'ts': case['ts'], 'utc': case['cfg']['utc_offset'],
                    'sss': q(o.v['shortwave'][at], 1e3), 'lws': q(o.v['longwave'][at], 1e4), 'temps': q(o.v['temp'][at], 1e4),
                    'vps': q(o.v['vapor_pressure'][at], 1e6), 'tskcs': q(o.v['tskc'][at], 1e6),
                    'lwtype': case['cfg']['lw_type']})
        recs.append(rec)
    return recs


def weight(r):
    return 100 + 10 * len(r.get('sss', []))
