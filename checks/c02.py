"""C02: chunking, scheduler, workers and their interleaving make no difference
(spec: Run, Placement)"""
import os
import random
import shutil
import sys
import tempfile

from mv import runs, tlc, world
from mv.obs import deep

TRACE = 'RunTrace'
MCS = {'quick': [('MC_Run', 'MC_Run.cfg'), ('MC_Placement', 'MC_Placement.cfg')],
       'thorough': [('MC_Run', 'MC_Run_deep.cfg', {'workers': 3, 'timeout': 850}), ('MC_Placement', 'MC_Placement_deep.cfg', {'workers': 4, 'timeout': 850})]}
ASSUMPTIONS = ['turns of the threads are taken at their calls of the netCDF library and at every cell',
               'a run in one piece, synchronous, in a fresh process, is the reference']
TIMEOUT = 240
DIMS = {'latlon': ('lat', 'lon'), 'lonlat': ('lon', 'lat'), 'yx': ('y', 'x'), 'hru': ('hru',)}


def grid(r, kind=None, few=False):
    # few scenarios, but many chunks: processes are given six of them at a time
    kind = kind or r.choice(['latlon', 'latlon', 'lonlat', 'yx', 'hru'])
    if kind == 'hru':
        n = r.choice([13, 15] if few else [1, 3, 5, 7])
        g = {'kind': kind, 'lats': [float(10 + 5 * k) for k in range(n)], 'lons': [float(k) for k in range(n)]}
        sh = (n,)
    else:
        a, b = r.choice([(4, 4), (7, 2)] if few else [(1, 4), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 5), (5, 1)])
        g = {'kind': kind, 'lats': [float(5 + 11 * k) for k in range(a)], 'lons': [float(-100 + 40 * k) for k in range(b)]}
        if r.random() < .3:
            g['lats'] = g['lats'][::-1]
        sh = (b, a) if kind == 'lonlat' else (a, b)
        n = a * b
    if r.random() < .8:
        g['elev'] = [r.choice([-50., 300., 900., 2200., 4100.]) for _ in range(n)]
    if kind == 'hru' and r.random() < .4:
        g['lats'] = [g['lats'][0]] * n
    g['mask'] = [1] * n if r.random() < .4 else [r.choice([1, 1, 0]) for _ in range(n)]
    g['mask'][r.randrange(n)] = 1
    return g, dict(zip(DIMS[kind], sh))


def case(r, few=False):
    g, dims = grid(r, few=few)
    ts = r.choice([1440, 360, 240, 60])
    pool = ['t_min', 't_max', 'prec', 'shortwave', 'pet', 'dayl'][:5] if ts == 1440 else ['temp', 'prec', 'longwave', 'wind', 'shortwave', 'vapor_pressure']
    c = {'start': [r.choice([1999, 2000]), r.randint(1, 12), r.randint(1, 27)], 'ndays': r.choice([1, 2, 3]), 'grid': g,
         'data': {'kind': 'random', 'seed': r.randint(1, 10**6)},
         'cfg': {'time_step': ts, 'out_vars': r.sample(pool, r.randint(1, 3)), 'out_freq': r.choice(['D', None]),
                 'out_precision': r.choice(['f8', 'f4']), 'utc_offset': r.random() < .3}}
    if r.random() < .35:
        c['tri'] = {'t_pk': [r.choice([300., 720., 1200.])] * 12, 'dur': [r.choice([120., 400.])] * 12, 'cell_step': 7}
        c['cfg']['prec_type'] = r.choice(['triangle', 'mix'])
    x = r.random()
    if x < .25:
        c['io'] = {'split_files': True}
    elif x < .4:
        c['fmt'] = r.choice(['ascii', 'binary', 'data', 'data'] if g['kind'] in ('latlon', 'lonlat') else ['data'])
    # chunks over all or some of the dimensions, dividing them or not
    ch = {d: r.choice([1, 1, 2, 2, 3, n, n + 2]) for d, n in dims.items() if r.random() < .85}
    if r.random() < .2:
        ch = {d: str(s) for d, s in ch.items()}
    c['cfg']['chunks'] = ch
    return c


def scenarios(tier, seed):
    r = random.Random(seed * 83 + 2)
    n = 1 if tier == 'quick' else 12
    out = []
    # programs of their own with worker processes
    modes = ['processes', 'distributed', 'inproc', 'file', 'multiprocessing']
    for k in range(6 * n):
        c = case(r, few=True)
        c['mode'] = modes[k % 5]
        c['threads'] = r.choice([2, 3])
        c['cfg']['chunks'] = {d: 1 for d in DIMS[c['grid']['kind']]}
        c['cfg']['out_freq'] = 'D'
        out.append(c)
    # one after the other, in pieces of every size
    for k in range(40 * n):
        c = case(r)
        c['mode'], c['threads'] = 'synchronous', 0
        out.append(c)
    # threads, which take their turns as a behaviour of the specification has them
    m = 70 * n
    beh = tlc.simulate('MC_Run', 'MC_Run_order.cfg', m, 200, seed)
    beh = sorted({tuple(b['order']) for b in beh})
    r.shuffle(beh)
    for k in range(m):
        c = case(r)
        c['mode'], c['threads'] = r.choice(['threads', 'threading']), r.choice([2, 2, 3, 4, 5])
        if not c['cfg']['chunks'] or r.random() < .5:
            c['cfg']['chunks'] = {d: 1 for d in DIMS[c['grid']['kind']]}
        c['order'] = list(beh[k % len(beh)])
        c['stall'] = r.choice([0.002, 0.008])
        out.append(c)
    return out


def observe(c):
    d = tempfile.mkdtemp(prefix='mv_', dir=os.environ.get('MV_SCRATCH') or None)
    try:
        return [_observe(c, d)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _observe(c, d):
    p = world.build(world.make_world(c), os.path.join(d, 'v0'), c)
    x = runs.fork(runs.reference, p, os.path.join(d, 'v0'))
    if x[0] != 'ok':
        raise RuntimeError('reference run: %s' % (x,))
    refs = x[1]
    names = {f: n + 1 for n, f in enumerate(sorted(refs))}
    g = world.Grid(c['grid'])
    log = os.path.join(d, 'log')
    if c['mode'] in ('synchronous', 'threads', 'threading'):
        out = inside(c, p, d, log, names, refs)
    else:
        out = runs.outside(c['mode'], dict(p, num_workers=c['threads']), d, 'a', log, names, refs)
    outcome, msg = out
    ev = runs.read_log(log)
    after = runs.safe_snapshot(p['out_dir'], refs)
    fr = set()
    if outcome == 'ok':
        for f in refs:
            fr |= set(runs.frame(runs.content(os.path.join(p['out_dir'], f)), refs[f], skip=('scheduler', 'chunks')))
    touched = {e['f'] for e in ev if e['e'] == 'call' and e.get('w') and e['ph'] == 'end' and not e['late']}
    a = {'kind': 'none', 'how': [c['mode'], 'done'], 'fired': any(e['e'] == 'fault' for e in ev), 'outcome': outcome, 'msg': msg[:200],
         'nv': len(c['cfg']['out_vars']), 'late': sum(1 for e in ev if e['e'] == 'call' and e['late'] and e['f']),
         'trace': [{'e': e['e'], 'f': e['f'], 'c': e['codes']} for e in ev if e['e'] in ('create', 'session')],
         'calls': runs.calls(ev),
         'after': [{'there': t, 'readable': rd, 'changed': int(n + 1 in touched), 'codes': cc} for n, (t, rd, cc) in enumerate(after)],
         'frame': sorted(fr)}
    shape, sizes = runs.grid_shape(c, g)
    return {'active': [int(x) for x in g.active.ravel()], 'shape': shape, 'sizes': sizes, 'attempts': [a]}


def inside(c, p, d, log, names, refs):
    res = os.path.join(d, 'res')

    def go():
        from metsim.metsim import MetSim
        n = c['threads']
        q = dict(p, scheduler=c['mode'], num_workers=n or 1)
        gate = runs.Gate(c['order'], n, c['stall']) if n else None
        if gate is not None:
            sys.setswitchinterval(1e-5)
            runs.patch_compute(MetSim, runs.Computing(lambda: types_none, 1, gate))
        runs.save(res, runs.attempt(q, d, log, names, refs, None, gate)[:2])
    x = runs.fork(go, timeout=100)
    r = runs.load(res)
    if r is not None:
        return r
    return {'killed': 'killed', 'timeout': 'timeout'}.get(x[0], 'error'), str(x)[:300]


class types_none:
    fault = None


def weight(r):
    return 50 + sum(len(a['calls']) + 10 * len(a['trace']) for a in r.get('attempts', []))
