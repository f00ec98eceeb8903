"""C11: trailing windows over state and forcing (spec: Deps, Windows)"""
import random

import numpy as np

from mv import world
from mv.obs import q, deep
from mv.pairs import pair

TRACE = 'DepsTrace'
MCS = {'quick': [('MC_Deps', 'MC_Deps.cfg')],
       'thorough': [('MC_Deps', 'MC_Deps_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['equal means equal to 1e-9, or to 2e-5 where the dew point iteration couples the days of a run',
               'sub-daily values which are interpolated between days are compared away from the limits of the shorter run']


def grid(r):
    kind = r.choice(['latlon', 'lonlat', 'hru', 'yx'])
    lats = sorted(r.sample([-55., -33.25, 0., 12.5, 35., 47.75, 61.5], 2))
    lons = [r.choice([-120., 0., 33.75])]
    return {'kind': kind, 'lats': lats, 'lons': lons * 2 if kind == 'hru' else lons, 'elev': r.choice([0., 600., 2500.])}


def date(r):
    return r.choice([[2000, 1, 1], [2000, 2, 27], [2000, 3, 1], [2000, 5, 29], [2000, 5, 30], [1999, 12, 31], [2001, 3, 31], [2004, 2, 29]]) \
        if r.random() < .35 else [r.choice([1999, 2000, 2001, 2003]), r.randint(1, 12), r.randint(1, 28)]


def cfg(r):
    ts = r.choice([1440, 1440, 1440, 360, 180, 240])
    c = {'time_step': ts, 'prec_type': r.choice(['uniform', 'mix']) if ts < 1440 else 'uniform',
         'lw_cloud': r.choice(['cloud_deardorff', 'default'])}
    return c


def scenarios(tier, seed):
    r = random.Random(seed * 53 + 11)
    out = []
    n = 150 if tier == 'quick' else 1300
    for k in range(n):
        mode = ['pieces', 'poke', 'poke', 'extra', 'poke'][k % 5]
        start = date(r)
        cal = 'noleap' if r.random() < .25 and tuple(start) != (2004, 2, 29) else 'standard'
        if cal == 'noleap' and start[0] in (2000, 2004) and start[1:] == [2, 29]:
            start = [2001, 3, 1]
        case = {'start': start, 'calendar': cal, 'grid': grid(r), 'cfg': cfg(r),
                'tri': {'t_pk': [400. + 20 * m for m in range(12)], 'dur': [200. + 10 * m for m in range(12)]}}
        case['alias'] = r.choice(world.ALIAS[cal])
        if mode == 'pieces':
            case['ndays'] = r.choice([2, 5, 9, 35, 60, 95, 130])
            if case['ndays'] > 40:
                case['cfg']['time_step'] = 1440
                case['cfg']['prec_type'] = 'uniform'
            if k % 25 == 0:
                # years of them, of which only some days are simulated again
                case['ndays'] = r.choice([367, 400, 500, 732, 780, 1100])
                case['cfg'] = dict(case['cfg'], time_step=r.choice([360, 240, 180, 1440]), prec_type=r.choice(['uniform', 'triangle', 'mix']))
                case['again'] = True
            hist = 90 + case['ndays']
            case['data'] = {'kind': r.choice(['random', 'swing', 'humid', 'cold', 'dry']), 'seed': r.randint(1, 10**6), 'history': hist, 'offset': 90}
            cand = [x for x in {1, 2, 7, 29, 30, 31, 89, 90, 91, case['ndays'] - 1, r.randint(1, case['ndays'] - 1)} if 0 < x < case['ndays']]
            case['cuts'] = sorted(r.sample(cand, min(len(cand), r.choice([1, 2]))))
            if case.get('again'):
                at = r.choice([365, 366, case['ndays'] - 3, r.randint(300, case['ndays'] - 3)])
                case['cuts'] = [max(1, at - r.randint(3, 8)), min(case['ndays'] - 2, at + 3)]
                if at == case['ndays'] - 3:
                    case['cuts'] = [at]
        elif mode == 'poke':
            if r.random() < .5:
                case['cfg'].update(time_step=1440, prec_type='uniform')
            sub = case['cfg']['time_step'] < 1440
            inp = r.choice(['T', 'P', 'P', 'T', 'W'])
            W = {'T': 30, 'P': 90, 'W': 1}[inp]
            long = not sub and r.random() < .35
            case['ndays'] = r.choice([W + 8, W + 20]) if long else r.choice([3, 5, 8])
            case['data'] = {'kind': r.choice(['random', 'swing']), 'state_kind': 'random', 'seed': r.randint(1, 10**6)}
            # so that the day leaves the window within the run
            day = r.choice([1, 2, 3, 5]) if long or inp == 'W' else r.choice([1, 2, 3] + [m - W + 1 for m in (0, 1, 2, 3)] + [r.randint(1 - W, 0)])
            if sub and inp == 'T' and r.random() < .6:
                day = r.choice([-89, -30, -29, -28, -1, 0, 0])
            if inp == 'W':
                day = min(day, case['ndays'])
            if day < -89:
                day = -89
            case['poke'] = [inp, r.randrange(2), day, r.choice(['t_max', 't_min'])]
        else:
            case['ndays'] = r.choice([1, 2, 6])
            case['data'] = {'kind': 'random', 'seed': r.randint(1, 10**6)}
            case['extra'] = r.choice([{'state_extra_days': r.choice([1, 10, 40])}, {'extra_days': r.choice([1, 5, 100])},
                                      {'state_extra_days': 12, 'extra_days': 3}])
            if r.random() < .3:
                case['extra'] = dict(case['extra'], hour=r.choice([0, 12]))
        case['mode'] = mode
        out.append(case)
    return out


def days_after(start, n, cal):
    return list(world.days_from(tuple(start), n + 1, cal)[-1])


def observe(case):
    ts = int(case['cfg']['time_step'])
    pd_, sub, mix = 1440 // ts, ts < 1440, case['cfg']['prec_type'] == 'mix'
    n = case['ndays']
    wa, a, _ = world.run_case(case)
    cells = [(k + 1, c, c) for k, c in enumerate(wa.grid.cells())]
    every = [k for k, _, _ in cells]
    recs = []
    if case['mode'] == 'pieces':
        cuts = [0] + case['cuts'] + [n]
        for lo, hi in zip(cuts[:-1], cuts[1:]):
            if case.get('again') and hi - lo > 20:
                continue
            c = deep(case)
            c['start'], c['ndays'] = days_after(case['start'], lo, case['calendar']), hi - lo
            c['data']['offset'] = 90 + lo
            _, b, _ = world.run_case(c)
            recs.append(pair(a, b, cells, pd_, 1, n, lo + 1, hi, sub, mix, []))
    elif case['mode'] == 'extra':
        c = deep(case)
        c['io'] = dict(case['extra'])
        _, b, _ = world.run_case(c)
        recs.append(pair(a, b, cells, pd_, 1, n, 1, n, sub, mix, [], same='exact'))
    else:
        inp, cell, day, ext = case['poke']
        idx = cells[cell][1]
        t = day - 1 if day > 0 else day + 89
        src = wa.forcing if day > 0 else wa.state
        var = {'T': ext, 'P': 'prec', 'W': 'wind'}[inp]
        old = float(src[var][(t,) + idx])
        new = old + (8. if ext == 't_max' else -8.) if inp == 'T' else (old + 60. if old < 61 else 0.) if inp == 'P' else old + 2.5
        size = 8 if inp == 'T' else int(new - old)
        c = deep(case)
        c['data']['poke' if day > 0 else 'poke_state'] = [[var, t, cell, new]]
        _, b, _ = world.run_case(c)
        rec = pair(a, b, cells, pd_, 1, n, 1, n, sub, mix, [[inp, day, day, [cell + 1]]])
        if not sub and inp in 'TP':
            at = (slice(None),) + idx
            P = np.concatenate([wa.state['prec'][at][1:], wa.forcing['prec'][at]])
            rec['poke'] = [{'inp': inp, 'cell': cell + 1, 'day': day, 'size': size, 'P': q(P, 1e3),
                            'dtr': q(wa.forcing['t_max'][at] - wa.forcing['t_min'][at], 1e3), 'tskc': q(a.v['tskc'][at], 1e6),
                            'pet': q(a.v['pet'][at], 1e3), 'rain': [int(x > 0) for x in wa.forcing['prec'][at]]}]
        recs.append(rec)
    return recs


def weight(r):
    return 20 + sum(len(x[2]) for x in r.get('out', [])) + sum(30 * len(p['P']) for p in r.get('poke', []))
