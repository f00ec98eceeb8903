"""C19: the past does not depend on the future (spec: Deps)"""
import random

import numpy as np

from mv import world
from mv.obs import deep
from mv.pairs import pair

TRACE = 'DepsTrace'
MCS = {'quick': [('MC_Deps', 'MC_Deps.cfg')],
       'thorough': [('MC_Deps', 'MC_Deps_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['without UTC shifting', 'equal means equal to 1e-9, or to 2e-5 where the dew point iteration couples the days of a run']


def scenarios(tier, seed):
    r = random.Random(seed * 61 + 19)
    out = []
    for k in range(110 if tier == 'quick' else 1500):
        ts = r.choice([1440, 1440, 60, 180, 360, 240, 120])
        kind = r.choice(['latlon', 'hru', 'yx'])
        lats = sorted(r.sample([-66., -33.25, 0., 12.5, 35., 47.75, 61.5, 75.], 2))
        cal = 'noleap' if r.random() < .2 else 'standard'
        st = [r.choice([1999, 2001, 2003]) if cal == 'noleap' else r.choice([1999, 2000, 2001, 2004]), r.randint(1, 12), r.randint(1, 28)]
        if r.random() < .25:
            st = r.choice([[2001, 12, 29], [2001, 2, 26], [1999, 12, 31]])
        nd = r.choice([1, 2, 3, 6]) if ts < 1440 else r.choice([1, 3, 8, 40])
        case = {'start': st, 'ndays': nd, 'calendar': cal,
                'grid': {'kind': kind, 'lats': lats, 'lons': [15., 97.5] if kind == 'hru' else [r.choice([-120., 0., 33.75])], 'elev': r.choice([0., 800.])},
                'tri': {'t_pk': [400. + 20 * m for m in range(12)], 'dur': [200. + 10 * m for m in range(12)]},
                'data': {'kind': r.choice(['random', 'swing', 'humid', 'cold', 'dry']), 'seed': r.randint(1, 10**6)},
                'cfg': {'time_step': ts, 'prec_type': r.choice(['uniform', 'triangle', 'mix']), 'lw_cloud': r.choice(['cloud_deardorff', 'default']),
                        'period_ending': r.random() < .2}}
        if r.random() < .2:
            case['cfg']['method'] = 'passthrough'
            case['data']['extra'] = {'shortwave': [20., 300.]}
            if r.random() < .5:
                case['data']['extra']['vapor_pressure'] = [.3, 2.]
            case['fmt'] = 'netcdf'
        case['mode'] = r.choice(['extend', 'extend', 'future', 'future', 'unread'])
        if case['mode'] == 'future' and nd == 1:
            case['ndays'] = nd = 3
        case['more'] = r.choice([1, 1, 2, 5]) if ts < 1440 else r.choice([1, 2, 31, 90])
        case['at'] = r.randint(2, nd) if nd > 1 else 1
        out.append(case)
    return out


def observe(case):
    ts = int(case['cfg']['time_step'])
    sub, mix = ts < 1440, case['cfg']['prec_type'] == 'mix'
    n = case['ndays']
    r = random.Random(case['data']['seed'])
    a, b = deep(case), deep(case)
    N = n + case['more']
    hist = 90 + N
    for c in (a, b):
        c['data'].update(history=hist, offset=90)
    changes, blast = [], n
    if case['mode'] == 'extend':
        b['ndays'] = blast = N
    elif case['mode'] == 'future':
        pk = []
        for c in range(2):
            for t in range(case['at'] - 1, n):
                lo = r.choice([-30., 0., 22.])
                pk += [['prec', t, c, r.choice([0., 90.])], ['t_min', t, c, lo], ['t_max', t, c, lo + r.choice([1., 12., 25.])], ['wind', t, c, r.choice([.5, 20.])]]
        b['data']['poke'] = pk
        changes = [[i, case['at'], n, [1, 2]] for i in ('T', 'P', 'W')]
    else:      # more forcing which is not asked for
        b['ndays'] = N
        y, m, d = world.days_from(tuple(case['start']), n, case['calendar'])[-1]
        b['cfg']['stop'] = '%d/%d/%d' % (y, m, d)
        changes = [[i, n + 1, N, [1, 2]] for i in ('T', 'P', 'W')]
    wa, oa, _ = world.run_case(a)
    wb, ob, _ = world.run_case(b)
    cells = [(k + 1, c, c) for k, c in enumerate(wa.grid.cells())]
    return [pair(oa, ob, cells, 1440 // ts, 1, n, 1, blast, sub, mix, changes)]


def weight(r):
    return 20 + sum(len(x[2]) for x in r.get('out', []))
