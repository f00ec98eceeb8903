"""C01: the time axis (spec: TimeAxis)"""
import random
import re

import numpy as np

from mv import runs, world

TRACE = 'TimeAxisTrace'
MCS = {'quick': [('MC_TimeAxis', 'MC_TimeAxis.cfg')],
       'thorough': [('MC_TimeAxis', 'MC_TimeAxis_deep.cfg', {'workers': 4})]}
ASSUMPTIONS = ['output frequencies: N minutes/hours/days, weeks, months, quarters, years, start and end anchored, multiples of months from the first one',
               'the calendars standard and noleap']

# frequency -> (kind, n); n minutes, first weekday, months
FREQ = {None: ('none', 1), '': ('none', 1), 'D': ('min', 1440), '1D': ('min', 1440), '2D': ('min', 2880), '7D': ('min', 10080),
        '10D': ('min', 14400), '12H': ('min', 720), '6H': ('min', 360), 'H': ('min', 60), '8H': ('min', 480), '18H': ('min', 1080),
        '36H': ('min', 2160), '720T': ('min', 720), 'W': ('week', 0), 'W-SAT': ('week', 6), 'W-WED': ('week', 3),
        'MS': ('month', 1), 'M': ('month', 1), 'QS': ('month', 3), 'Q': ('month', 3), 'AS': ('month', 12),
        'A': ('month', 12), 'Y': ('month', 12), 'YS': ('month', 12), '2MS': ('monthrel', 2), '4MS': ('monthrel', 4)}


def scenarios(tier, seed):
    r = random.Random(seed * 11 + 1)
    out = []
    starts = [(1999, 12, 30), (2000, 2, 26), (2000, 2, 28), (2000, 2, 29), (2000, 3, 1), (2001, 2, 27), (2001, 2, 28),
              (2000, 12, 31), (2003, 12, 31), (2004, 2, 28), (1900, 2, 27), (2100, 2, 27), (2000, 1, 1), (2000, 6, 29), (2001, 9, 30), (1969, 12, 30), (1949, 2, 27),
              (2000, 1, 31), (2000, 4, 30), (2000, 11, 29), (2001, 3, 31), (1996, 2, 29), (2024, 2, 28), (2000, 10, 27)]
    n = 190 if tier == 'quick' else 2200
    for k in range(n):
        freq = r.choice(list(FREQ))
        kind, fn = FREQ[freq]
        ts = r.choice([60, 60, 180, 360, 1440, 1440, 120, 30, 240, 90, 160, 288, 15, 72, 10, 5, 1])
        st = r.choice(starts)
        if r.random() < .25:
            y, m = r.choice([1999, 2000, 2001, 2004]), r.randint(1, 12)
            st = (y, m, r.randint(1, 28))
        nd = r.choice([1, 2, 3, 4, 5, 8, 12])
        if ts >= 360 and r.random() < .4:
            nd = r.choice([40, 70, 130, 366, 367, 400, 800])
        elif ts >= 60 and r.random() < .25:
            nd = r.choice([35, 66, 100])
        if ts < 10:
            nd = min(nd, 3)
        if kind == 'min' and fn < ts and ts != 1440 and r.random() < .7:
            freq, (kind, fn) = 'D', FREQ['D']
        cal = r.choice(['standard', 'noleap'])
        if cal == 'noleap' and st[1:] == (2, 29):
            cal = 'standard'
        # keep the number of files sane
        if kind == 'min' and nd * 1440 / max(fn, ts) > 120:
            nd = max(1, int(120 * max(fn, ts) / 1440))
        case = {'start': list(st), 'ndays': nd, 'calendar': cal,
                'grid': {'lats': [40.], 'lons': [-100.], 'elev': 100.},
                'data': {'kind': 'random', 'seed': k + 1},
                'cfg': {'time_step': r.choice([ts, ts, str(ts)]), 'out_freq': freq,
                        'period_ending': r.random() < .45,
                        'out_vars': ['t_min', 'prec'] if ts == 1440 else ['prec', 'temp']},
                'io': {'extra_days': r.choice([0, 0, 0, 1, 3]), 'hour': r.choice([0, 0, 12, 9])}}
        y, m, d = st
        if r.random() < .3:
            case['cfg']['start'] = '%04d-%02d-%02d' % st
        if case['io']['extra_days'] == 0 and r.random() < .2:
            for p in r.choice([['start'], ['stop'], ['start', 'stop']]):
                case['cfg'][p] = 'forcing'
            if r.random() < .3:
                case['fmt'] = 'data'
        case['alias'] = r.choice(world.ALIAS[cal])
        case['fk'], case['fn'] = kind, fn
        case['open'] = r.random() < .25
        out.append(case)
    return out


def run_open(params):
    """run and open the output as the user does who has the instance -> [[dates], [minutes], values missing]"""
    ms = world.run_params(params)
    with ms.open_output() as ds:
        t = ds.indexes['time']
        miss = sum(int(np.sum(~np.isfinite(ds[v].values) | (np.abs(ds[v].values) > 1e30))) for v in ds.data_vars)
        return [[x.year * 10000 + x.month * 100 + x.day for x in t], [x.hour * 60 + x.minute for x in t], miss]


def observe(case):
    opened = []

    def runner(params):
        kind, x = runs.fork(run_open, params)
        if kind != 'ok':
            raise RuntimeError('%s: %s' % (kind, x))
        opened.append(x)

    w, o, p = world.run_case(case, runner=runner) if case['open'] else world.run_case(case)
    files = []
    for f in o.files:
        m = re.match(r'^forcing_(\d{8})(\d{4})?-(\d{8})(\d{4})?\.nc$', f['name'])
        if not m:
            fr = to = [0, 0, 0, -1]
        else:
            def part(d, hm):
                return [int(d[:4]), int(d[4:6]), int(d[6:]), -1 if hm is None else int(hm[:2]) * 60 + int(hm[2:])]
            fr, to = part(m.group(1), m.group(2)), part(m.group(3), m.group(4))
        miss = 0
        for v in f['vars'].values():
            miss += int(np.sum(~np.isfinite(v) | (np.abs(v) > 1e30)))
        files.append({'from': fr, 'to': to, 'dates': [s[0] * 10000 + s[1] * 100 + s[2] for s in f['stamps']],
                      'mins': [s[3] for s in f['stamps']], 'missing': miss})
    kind, fn = case['fk'], case['fn']
    rec = {'start': list(w.start), 'nd': w.nd, 'ts': int(case['cfg']['time_step']), 'cal': w.cal,
           'pe': bool(case['cfg']['period_ending']), 'fk': kind, 'fn': fn, 'files': files, 'opened': opened}
    return [rec]
