"""C20: failures are reported, repeated runs repair their output (spec: Run)"""
import os
import random
import shutil
import tempfile

import numpy as np

from mv import runs, tlc, world
from mv.obs import deep

TRACE = 'RunTrace'
MCS = {'quick': [('MC_Run', 'MC_Run.cfg')],
       'thorough': [('MC_Run', 'MC_Run_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['faults are errors raised by, and kills at, calls of the netCDF library and the computation of a cell; invalid extremes in one chunk',
               'workers in threads, one after the other, or in processes of dask or distributed']
TIMEOUT = 200


def base(r):
    kind = r.choice(['latlon', 'latlon', 'lonlat', 'yx', 'hru'])
    if kind == 'hru':
        g = {'kind': 'hru', 'lats': [10., 20., 30., 40., 50.], 'lons': [0., 10., 20., 30., 40.]}
        n = 5
    else:
        g = {'kind': kind, 'lats': [10., 20., 45.], 'lons': [-100., 5.]}
        n = 6
    g['mask'] = [1] * n if r.random() < .4 else [r.choice([1, 1, 0]) for _ in range(n - 1)] + [1]
    g['mask'][0] = 1
    dims = {'latlon': 'lat', 'lonlat': 'lon', 'yx': 'y', 'hru': 'hru'}[kind]
    ts = r.choice([1440, 1440, 360, 240])
    pool = ['t_min', 'prec', 'shortwave', 'pet'] if ts == 1440 else ['temp', 'prec', 'longwave', 'wind']
    return {'start': [2000, r.randint(1, 12), r.randint(1, 27)], 'ndays': r.choice([2, 2, 3]), 'grid': g,
            'data': {'kind': 'random', 'seed': r.randint(1, 10**6)},
            'cfg': {'time_step': ts, 'out_vars': r.sample(pool, 2), 'out_freq': r.choice(['D', 'D', 'D', None]),
                    'chunks': {dims: r.choice([1, 1, 2])}, 'out_precision': r.choice(['f8', 'f8', 'f4'])}}


def scenarios(tier, seed):
    r = random.Random(seed * 71 + 5)
    n = 110 if tier == 'quick' else 1500
    beh = tlc.simulate('MC_Run', 'MC_Run_sim.cfg', 6 * n, 220, seed)
    r.shuffle(beh)
    # histories which add steps not seen often go first
    seen, pick = {}, []
    for b in sorted(beh, key=lambda b: -len({(h['kind'], h['step'], h['nth'], h['file']) for h in b['hist']})):
        ks = [(h['kind'], h['step'], h['file'], h['nth'], h['var']) for h in b['hist']]
        if min(seen.get(k, 0) for k in ks) < 1 + len(pick) // 40:
            pick.append(b)
            for k in ks:
                seen[k] = seen.get(k, 0) + 1
        if len(pick) == n:
            break
    out = programs(r, 1 if tier == 'quick' else 8)
    for b in pick:
        case = base(r)
        hist = []
        nf = case['ndays'] if case['cfg']['out_freq'] else 1
        (dim, size), = case['cfg']['chunks'].items()
        nd = {'hru': 5, 'lat': 3, 'y': 3, 'lon': 2}[dim]
        nc = (nd + size - 1) // size
        for h in b['hist']:
            h = dict(h, file=(h['file'] - 1) % nf + 1, nth=(h['nth'] - 1) % nc + 1)
            h = dict(h, variant=r.choice([0, 0, 0, 1]), newproc=r.random() < .5)
            h['at'] = {'open': 'begin', 'load': r.choice(['begin', 'end']), 'close': 'end' if h['kind'] == 'error' else r.choice(['begin', 'end']),
                       'set': r.choice(['begin', 'end'])}.get(h['step'], 'begin')
            h['part'] = r.choice(['open', 'set', 'close'])
            if h['step'] == 'create' and h['part'] == 'close':
                h['at'] = 'end'
            h['how'] = r.choice(['call', 'call', 'data'])
            hist.append(h)
        hist.append({'kind': 'none', 'step': 'done', 'variant': 0, 'newproc': r.random() < .5})
        case['attempts'] = hist
        case['order'] = b['order']
        case['threads'] = r.choice([0, 0, 2, 3])
        case['leftover'] = r.choice(['', '', '', 'garbage', 'empty', 'nodir', 'other'])
        # variant 1: other data and options, files of the same names
        case['other'] = {'data': {'seed': r.randint(1, 10**6)}, 'cfg': r.choice([{}, {'out_precision': 'f4'}, {'out_vars': case['cfg']['out_vars'][::-1]}, {'lapse_rate': 0.005}])}
        out.append(case)
    return out


WRITING = ('open', 'set', 'close')


def programs(r, n):
    """faults in worker processes; then the run is repeated"""
    out = []
    todo = [('distributed', 'kill', r.choice(WRITING)), ('distributed', 'kill', r.choice(['load', 'compute'])),
            ('distributed', 'error', None), ('processes', 'kill', None), ('processes', 'error', None), ('multiprocessing', 'kill', None)]
    for mode, kind, step in todo * n:
        case = base(r)
        step = step or r.choice(['load', 'compute', 'open', 'set', 'close'])
        case['cfg']['chunks'] = {k: 1 for k in case['cfg']['chunks']}
        case['mode'], case['threads'], case['leftover'], case['order'] = mode, 2, '', []
        case['other'] = {'cfg': {}}
        case['attempts'] = [{'kind': kind, 'step': step, 'file': 1, 'nth': 1, 'var': 1, 'variant': 0, 'newproc': True,
                             'at': 'begin' if step in ('compute', 'open') else 'end' if (kind, step) == ('error', 'close') else r.choice(['begin', 'end'])}]
        if kind == 'error' or mode != 'distributed':
            case['attempts'].append({'kind': 'none', 'step': 'done', 'variant': 0, 'newproc': True})
        out.append(case)
    return out


def program(case, k, h, d, params, refs, names):
    p = dict(params[0], num_workers=case['threads'])
    fault = h if h['kind'] in ('error', 'kill') else None
    out = runs.outside(case['mode'], p, d, str(k), os.path.join(d, 'log%d' % k), names[0], refs[0], fault)
    after = runs.safe_snapshot(p['out_dir'], refs[0])
    fr = set()
    if out[0] == 'ok':
        for f in refs[0]:
            fr |= set(runs.frame(runs.content(os.path.join(p['out_dir'], f)), refs[0][f], skip=('scheduler', 'chunks')))
    fired = any(e['e'] == 'fault' for e in runs.read_log(os.path.join(d, 'log%d' % k)))
    runs.save(os.path.join(d, 'res%d' % k), (out[0], fired, after, out[1], sorted(fr)))
    return out


def segment(case, items, d, params, refs, names):
    """several attempts in one process -> results"""
    from metsim.metsim import MetSim
    res = []
    g = world.Grid(case['grid'])
    per = 1 if case['threads'] else max(1, int(g.active.sum()) // 3)
    for k, h in items:
        p = dict(params[h['variant']])
        p['out_vars'] = {a: dict(b) for a, b in p['out_vars'].items()}
        fault = h if h['kind'] in ('error', 'kill') else None
        poison = h['kind'] == 'error' and h['step'] in ('load', 'compute') and h['how'] == 'data'
        if h['kind'] == 'refuse':
            p['time_step'] = '7'
        if poison:
            c = deep(case if h['variant'] == 0 else variant(case))
            cell = [n for n, x in enumerate(g.cells()) if g.active[x]][(h['nth'] - 1) % int(g.active.sum())]
            c['data']['poke'] = [['t_max', 1, cell, -90.]]
            q = world.build(world.make_world(c), os.path.join(d, 'poison%d' % k), c)
            p['forcing'] = q['forcing']
            fault = None
        n = case['threads']
        p['scheduler'], p['num_workers'] = ('threads', n) if n else ('synchronous', 1)
        log = os.path.join(d, 'log%d' % k)
        o = [None]
        comp = runs.Computing(lambda: o[0], per, None)
        old = runs.patch_compute(MetSim, comp) if fault and fault['step'] == 'compute' else {}
        try:
            gate = runs.Gate(case['order'], n) if n else None
            out = runs.attempt(p, d, log, names[h['variant']], refs[h['variant']], fault, gate, reads=True, made=o)
        finally:
            if old:
                MetSim.methods.update(old)
        rf = refs[h['variant']]
        after = runs.snapshot(p['out_dir'], rf)
        fr = set()
        if out[0] == 'ok':
            for f in rf:
                fr |= set(runs.frame(runs.content(os.path.join(p['out_dir'], f)), rf[f], skip=('scheduler', 'chunks')))
        res.append(k)
        runs.save(os.path.join(d, 'res%d' % k), (out[0], out[2] or poison, after, out[1], sorted(fr)))
    return res


def variant(case):
    return deep(case, **case['other'])


def observe(case):
    d = tempfile.mkdtemp(prefix='mv_', dir=os.environ.get('MV_SCRATCH') or None)
    try:
        return [_observe(case, d)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _observe(case, d):
    cases = [case, variant(case)]
    params = [world.build(world.make_world(c), os.path.join(d, 'v%d' % k), c) for k, c in enumerate(cases)]
    refs = []
    for k, p in enumerate(params):
        x = runs.fork(runs.reference, p, os.path.join(d, 'v%d' % k))
        if x[0] != 'ok':
            raise RuntimeError('reference run: %s' % (x,))
        refs.append(x[1])
        p['out_dir'] = os.path.join(d, 'out')
    names = [{f: n + 1 for n, f in enumerate(sorted(x))} for x in refs]
    g = world.Grid(case['grid'])
    nv = len(case['cfg']['out_vars'])
    od = params[0]['out_dir']
    os.makedirs(od, exist_ok=True)
    first = sorted(refs[0])[0]
    lo = case['leftover']
    if lo == 'garbage':
        with open(os.path.join(od, first), 'wb') as f:
            f.write(b'\x89HDF\r\n\x1a\n' + bytes(range(256)) * 9)
    elif lo == 'empty':
        open(os.path.join(od, first), 'w').close()
    elif lo == 'nodir':
        shutil.rmtree(od)
    elif lo == 'other':
        shutil.copy(os.path.join(d, 'v0', 'domain.nc'), os.path.join(od, first))
    items = list(enumerate(case['attempts']))
    atts = []
    while items:
        seg = [items.pop(0)]
        while items and seg[-1][1]['kind'] != 'kill' and not items[0][1]['newproc']:
            seg.append(items.pop(0))
        before = {}
        if case.get('mode'):
            x = program(case, seg[0][0], seg[0][1], d, params, refs, names)
        else:
            x = runs.fork(segment, case, seg, d, params, refs, names, timeout=90)
        for k, h in seg:
            r = runs.load(os.path.join(d, 'res%d' % k))
            log = runs.read_log(os.path.join(d, 'log%d' % k))
            rf = refs[h['variant']]
            if r is None:
                # the process did not survive this attempt
                fired = any(e['e'] == 'fault' for e in log)
                outcome = {'killed': 'killed', 'timeout': 'timeout'}.get(x[0], 'error')
                after = runs.safe_snapshot(od, rf)
                msg, fr = str(x)[:300], []
            else:
                outcome, fired, after, msg, fr = r
            touched = {e['f'] for e in log if e['e'] == 'call' and e.get('w') and e['ph'] == 'end' and not e['late']}
            a = {'kind': h['kind'], 'how': [case.get('mode', ''), h['step']], 'fired': bool(fired), 'outcome': outcome, 'nv': nv, 'msg': msg[:200],
                 'late': sum(1 for e in log if e['e'] == 'call' and e['late'] and e['f']),
                 'trace': [{'e': e['e'], 'f': e['f'], 'c': e['codes']} for e in log if e['e'] in ('create', 'session')],
                 'calls': runs.calls(log) if case['threads'] else [],
                 'after': [{'there': t, 'readable': rd, 'changed': int(n + 1 in touched), 'codes': c} for n, (t, rd, c) in enumerate(after)],
                 'frame': fr}
            atts.append(a)
            if r is None:
                rest = [y for y in seg if y[0] > k]
                items = rest + items
                break
    shape, sizes = runs.grid_shape(case, g)
    return {'active': [int(x) for x in g.active.ravel()], 'shape': shape, 'sizes': sizes, 'attempts': atts}


def weight(r):
    return 50 + sum(len(a['calls']) + 10 * len(a['trace']) for a in r.get('attempts', []))
