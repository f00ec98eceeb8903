"""C12: units, names, precision, metadata (spec: Units)"""
import os
import random
import shutil
import tempfile

import netCDF4
import numpy as np

from mv import world
from mv.obs import q, mant, deep

TRACE = 'UnitsTrace'
MCS = {'quick': [('MC_Units', 'MC_Units.cfg')], 'thorough': [('MC_Units', 'MC_Units_deep.cfg', {'workers': 4})]}
ASSUMPTIONS = ['values are compared with 7 digits']
OTHER = ['furlong', 'mm/s', 'F', 'W', 'MPa', 'mm', 'percent', 'k', 'pa', 'kg kg-1', 'm']


def scenarios(tier, seed):
    r = random.Random(seed * 41 + 12)
    out = []
    for k in range(150 if tier == 'quick' else 2200):
        ts = r.choice([60, 30, 180, 360, 90, 15, 1440, 1440, 240, '120', '1440'])
        pool = world.DAILY_VARS if int(ts) == 1440 else world.SUB_VARS
        vs = r.sample(pool, r.randint(1, len(pool)))
        names = list(vs)
        style = r.choice(['same', 'new', 'swap', 'mixed'])
        if style == 'new':
            names = ['out_%s_%d' % (v, n) for n, v in enumerate(vs)]
        elif style == 'swap':
            r.shuffle(names)
        elif style == 'mixed':
            names = [v if r.random() < .5 else v.upper() for v in vs]
        ov = {}
        for v, n in zip(vs, names):
            ov[v] = {'out_name': n}
            x = r.random()
            if x < .55:
                ov[v]['units'] = r.choice(world.UNITS[v])
            elif x < .75:
                ov[v]['units'] = r.choice(OTHER + ['K', 'Pa', '%', 'mm h-1', 'fraction'])
        case = {'start': [r.choice([1999, 2000, 2001]), r.randint(1, 12), r.randint(1, 28)], 'ndays': r.choice([1, 2]),
                'calendar': r.choice(['standard', 'standard', 'noleap']),
                'grid': {'kind': r.choice(['latlon', 'hru', 'yx']), 'lats': [r.choice([-45., 10., 47.25])], 'lons': [r.choice([-120., 97.25])],
                         'elev': r.choice([0., 1500.])},
                'data': {'kind': r.choice(['random', 'cold', 'hot', 'humid', 'int']), 'seed': r.randint(1, 10**6)},
                'cfg': {'time_step': ts, 'utc_offset': r.random() < .4, 'out_vars': ov,
                        'out_precision': r.choice(['f4', 'f8', 'f8']), 'period_ending': r.random() < .2,
                        'lw_type': r.choice(['prata', 'tva']), 'out_freq': r.choice([None, None, 'D']),
                        'prec_type': r.choice(['uniform', 'triangle'])},
                'tri': {'t_pk': [700.] * 12, 'dur': [300.] * 12}}
        if case['calendar'] == 'noleap':
            case['start'][0] = 2001
        case['alias'] = r.choice(world.ALIAS[case['calendar']])
        if r.random() < .4:
            case['cfg'].update(r.choice([{'rain_scalar': .5}, {'tday_coef': .4}, {'sw_prec_thresh': .1}, {'tdew_tol': 1e-5},
                                         {'tmax_daylength_fraction': .6}, {'lapse_rate': .006}, {'lw_cloud': 'default'}, {'out_prefix': 'met'}]))
        out.append(case)
    return out


def observe(case):
    w, o, p = world.run_case(case)
    ts = int(case['cfg']['time_step'])
    sub = ts < 1440
    plain = {v: {'out_name': v} for v in (world.SUB_VARS if sub else world.DAILY_VARS)}
    c2 = dict(case, cfg=dict(case['cfg'], out_vars=plain, out_precision='f8'))
    _, ob, _ = world.run_case(c2)
    at = (slice(None),) + w.grid.cells()[0]
    f0 = o.files[0]
    vs = []
    for v, x in case['cfg']['out_vars'].items():
        n = x['out_name']
        rec = {'var': v, 'name': n, 'unit': x.get('units', ''), 'um': [], 'ue': [], 'ux': [], 'bm': [], 'be': [], 'bx': [],
               'dtype': '', 'label': '', 'long': '', 'std': ''}
        if n in o.v:
            a = f0['vattrs'][n]
            rec.update(dtype=f0['dtype'][n], label=str(a.get('units')), long=str(a.get('long_name')), std=str(a.get('standard_name')))
            rec['um'], rec['ue'] = mant(o.v[n][at])
            rec['ux'] = q(o.v[n][at], 1e4)
            rec['bm'], rec['be'] = mant(ob.v[v][at])
            rec['bx'] = q(ob.v[v][at], 1e4)
        vs.append(rec)
    spatial = set(w.grid.dims) | {'time', 'lat', 'lon'}
    g = f0['attrs']
    cfg = case['cfg']
    want = {'time_step': str(cfg['time_step']), 'utc_offset': str(cfg['utc_offset']), 'period_ending': str(cfg['period_ending']),
            'lw_type': cfg['lw_type'], 'prec_type': cfg['prec_type'], 'calendar': case['alias'] or w.cal, 'out_precision': cfg['out_precision'],
            'method': 'mtclim', 'start': '%04d-%02d-%02d 00:00:00' % w.days[0], 'stop': '%04d-%02d-%02d 00:00:00' % w.days[-1]}
    want.update({k: str(cfg.get(k, v)) for k, v in [
        ('lapse_rate', .0065), ('rain_scalar', .75), ('tday_coef', .45), ('sw_prec_thresh', 0.), ('tdew_tol', 1e-6),
        ('tmax_daylength_fraction', .67), ('lw_cloud', 'cloud_deardorff'), ('out_prefix', 'forcing')]})
    rec = {'ts': ts, 'precision': cfg['out_precision'], 'utc': cfg['utc_offset'], 'vars': vs,
           'names': [n for n in f0['vars'] if n not in spatial],
           'tunits': str(f0['tattrs'].get('units')), 'tlong': str(f0['tattrs'].get('long_name')), 'tstd': str(f0['tattrs'].get('standard_name')),
           'glob': {k: str(g[k]) for k in want if k in g}, 'want': want,
           'raw': {} if sub else {v: q(w.forcing[v][at], 1e4) for v in ('prec', 't_min', 't_max', 'wind')},
           'rh': [], 'temp': [], 'vp3': [], 'vp6': []}
    if sub:
        n = 30
        rec.update(rh=q(ob.v['rel_humid'][at], 1e4)[:n], temp=q(ob.v['temp'][at], 1e4)[:n],
                   vp3=q(ob.v['vapor_pressure'][at], 1e3)[:n], vp6=q(ob.v['vapor_pressure'][at], 1e6)[:n])
    return [rec]


def weight(r):
    return 20 + sum(len(x['um']) for x in r.get('vars', []))
