"""scenarios and observation shared by C05 and C06 (spec: Gauge)"""
import random

import numpy as np

from mv import world
from mv.obs import q, utc_minutes, deep

TRACE = 'GaugeTrace'
MCS = {'quick': [('MC_Gauge', 'MC_Gauge.cfg')],
       'thorough': [('MC_Gauge', 'MC_Gauge_deep.cfg', {'workers': 4})]}


def tri_tables(r):
    """12 peak times and durations [min]; neighbouring months differ a lot"""
    kind = r.choice(['inside', 'inside', 'cut', 'late', 'frac', 'whole'])
    if kind == 'inside':
        dur = [r.choice([60, 90, 120, 240, 300, 400]) + 7 * m for m in range(12)]
        pk = [r.randint(d // 2 + 1, 1438 - d // 2) for d in dur]
    elif kind == 'frac':
        dur = [r.choice([45.5, 61.3, 180.7, 333.3]) + m for m in range(12)]
        pk = [r.uniform(d / 2 + 1, 1437 - d / 2) for d in dur]
    elif kind == 'cut':
        dur = [r.choice([200, 420, 700, 900]) + 5 * m for m in range(12)]
        pk = [r.choice([r.randint(5, 200), r.randint(1200, 1435)]) for _ in dur]
    elif kind == 'late':
        dur = [r.choice([30, 60, 1200]) + m for m in range(12)]
        pk = [r.choice([10, 1430, 720, 0, 1439]) for _ in dur]
    else:
        dur = [1440 - 10 * m for m in range(12)]
        pk = [720 for _ in dur]
    return {'t_pk': [round(float(x), 1) for x in pk], 'dur': [round(float(x), 1) for x in dur]}


LONS = [-180., -179.75, -135.5, -120., -97.25, -60., -15., -7.5, -0.25, 0., 0.25, 7.5, 15., 33.75, 60., 97.5,
        120., 150.25, 172.5, 179.75, 180., 190., 225.25, 270., 300.5, 345., 359.75]


def base(r, tier, types, utc_share=0.4, tri_share=1.):
    ts = r.choice([60, 60, 30, 180, 360, 120, 240, 90, 45, 15, 20, 10, 5, 40, 80, 144, 160, 288, 72, 96, 1, 2, 3, 9, 32])
    nd = r.choice([1, 2, 3, 4, 5, 6]) if ts >= 20 else r.choice([1, 2, 3])
    if r.random() < .04:      # records of years
        ts, nd = r.choice([180, 240, 360]), r.choice([367, 400, 750])
    y = r.choice([1999, 2000, 2001, 2003, 2004, 2100])
    m = r.choice(range(1, 13))
    # windows that cross into the next month
    d = r.choice([1, 2, 15, world.mdays(y, m, 'noleap') - r.randint(0, 2)])
    if r.random() < .2:
        y, m, d = 2000, 2, r.choice([27, 28, 29])
    case = {'start': [y, m, d], 'ndays': nd, 'calendar': r.choice(['standard', 'standard', 'standard', 'noleap'])}
    if case['calendar'] == 'noleap' and (m, d) == (2, 29):
        case['start'] = [y, 2, 28]
    case['alias'] = r.choice(world.ALIAS[case['calendar']])
    n = 2 if ts < 5 else 3
    lat0 = r.choice([-60.25, -20.5, 0., 37.25, 47.5, 70.])
    lons = sorted(r.sample(LONS, n))
    case['grid'] = {'kind': r.choice(['latlon', 'lonlat', 'hru']), 'lats': [lat0], 'lons': lons,
                    'elev': r.choice([0., 250., 1800.])}
    if case['grid']['kind'] == 'hru':
        case['grid']['lats'] = [lat0] * n
    case['data'] = {'kind': r.choice(['random', 'random', 'swing', 'cold', 'hot', 'int', 'tag']), 'seed': r.randint(1, 10**6)}
    case['tri'] = dict(tri_tables(r), cell_step=0)
    if max(case['tri']['t_pk']) < 1300 and min(case['tri']['t_pk']) > 100 and r.random() < .5:
        case['tri']['cell_step'] = r.choice([13, 21.5])
    ty = r.choice(types)
    case['cfg'] = {'time_step': r.choice([ts, str(ts)]), 'prec_type': ty,
                   'utc_offset': r.random() < utc_share, 'out_vars': ['prec', 'wind', 'tskc'],
                   'lw_cloud': r.choice(['cloud_deardorff', 'default']),
                   'period_ending': r.random() < .2}
    return case


def observe_with(check, case):
    w, o, params = world.run_case(case)
    daily = deep(case, cfg={'time_step': 1440, 'out_vars': ['tskc'], 'period_ending': False, 'utc_offset': False})
    _, od, _ = world.run_case(daily)
    ts = int(case['cfg']['time_step'])
    hw = 'wind' in o.v
    recs = []
    for idx in w.grid.cells():
        if not w.grid.active[idx]:
            continue
        at = (slice(None),) + idx
        lon = float(w.grid.lon[idx])
        off = utc_minutes(lon) if case['cfg'].get('utc_offset') else 0
        if 'tri' in case:
            pk = [w.t_pk[(d[1] - 1,) + idx] for d in w.days]
            du = [w.dur[(d[1] - 1,) + idx] for d in w.days]
        else:
            pk, du = [720.] * w.nd, [100.] * w.nd
        recs.append({
            'check': check, 'ts': ts, 'o': off, 'nd': w.nd, 'type': case['cfg']['prec_type'],
            'P': q(w.forcing['prec'][at], 1e6), 'tmin': q(w.forcing['t_min'][at], 1e3),
            'pk': q(pk, 10), 'dur': q(du, 10),
            'wind': q(w.forcing['wind'][at], 1e4), 'tskc': q(od.v['tskc'][at], 1e5),
            'sp': q(o.v['prec'][at], 1e6), 'sw': q(o.v['wind'][at], 1e4) if hw else [],
            'sc': q(o.v['tskc'][at], 1e5)})
    return recs


def weight(r):
    return 50 + len(r.get('sp', []))
