"""C15: invalid configurations are refused before output is touched (spec: Config)"""
import hashlib
import os
import random
import re
import shutil
import sys
import tempfile

from mv import conf, runs, tlc, world

TRACE = 'ConfigTrace'
MCS = {'quick': [('MC_Config', 'MC_Config.cfg'), ('MC_ConfigOne', 'MC_ConfigOne.cfg')], 'thorough': [('MC_Config', 'MC_Config_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['the options with documented values are those of docs/configuration.rst; a problem counts as named if a line of the error mentions it']
TIMEOUT = 120
CHOICES = ['out_precision', 'method', 'forcing_fmt', 'lw_cloud', 'prec_type', 'lw_type']
NUMBERS = ['sw_prec_thresh', 'rain_scalar', 'tdew_tol', 'tmax_daylength_fraction', 'tday_coef', 'lapse_rate']


def composed(n, seed, pick, kind):
    """configurations composed by the specification, evenly over the kinds"""
    by, k = {}, 0
    while k < 1 or (sum(map(len, by.values())) < n and k < 8):
        for b in tlc.simulate('MC_Config', 'MC_Config_sim.cfg', 8 * n, 40, seed * 7 + k):
            if pick(b):
                by.setdefault(kind(b), {})[str(b['conf'])] = b
        k += 1
    rows = [list(x.values()) for x in by.values()]
    r = random.Random(seed)
    for x in rows:
        r.shuffle(x)
    r.shuffle(rows)
    out = []
    while len(out) < n and any(rows):
        for x in rows:
            if x and len(out) < n:
                out.append(x.pop())
    return out


def mistakes(b):
    """the mistake which is least common"""
    rare = ['crossed', 'freq', 'state', 'workers', 'chunks', 'names', 'novars', 'monthly', 'period', 'input', 'var', 'gone', 'opt', 'step']
    ks = {e[0] for e in b['errs']} | ({'crossed'} if b['conf']['crossed'] else set())
    return min(ks, key=rare.index), len(b['errs'])


def scenarios(tier, seed):
    r = random.Random(seed * 61 + 15)
    n = 140 if tier == 'quick' else 4000
    # every choice and every mistake on its own
    one = [b for b in tlc.enumerated('MC_ConfigOne', 'MC_ConfigOne.cfg') for _ in range(1 if tier == 'quick' else 4)]
    bad = composed(n * 3 // 4, seed, lambda b: (b['errs'] or b['conf']['crossed']) and not only_constant(b), mistakes)
    good = composed(n - len(bad), seed + 100, lambda b: not b['errs'] and not b['conf']['crossed'], lambda b: (b['conf']['asked'], b['conf']['step'], len(b['conf']['opts'])))
    out = []
    for k, b in enumerate(one + bad + good):
        c = b['conf']
        via = r.choice(['dict', 'dict', 'dict', 'ini', 'yaml', 'cli'])
        if (c['names'] == 'missing' or c['workers'] != 'fine') and via != 'dict':
            via = 'dict'
        fmt = r.choice(['netcdf', 'netcdf', 'ascii', 'data']) if via == 'dict' else r.choice(['netcdf', 'netcdf', 'ascii'])
        # which of the inputs are supplied as constants
        const = [v for v in c['supplied'] if r.random() < .2]
        if len(const) == len(c['supplied']):
            const = const[1:]
        out.append({'conf': c, 'via': via, 'fmt': fmt, 'const': sorted(const), 'before': r.choice(['absent', 'empty', 'prior', 'prior']), 'near': k < len(one), 'seed': r.randint(1, 10**6),
                    'kind': 'latlon' if fmt == 'ascii' else r.choice(['latlon', 'hru'])})
    return out


def only_constant(b):
    return not b['conf']['supplied']


def observe(case):
    d = tempfile.mkdtemp(prefix='mv_', dir=os.environ.get('MV_SCRATCH') or None)
    try:
        return [_observe(case, d)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def concrete(case, d, r):
    """-> parameters as a dictionary; the files of the input"""
    c = case['conf']
    g = {'kind': case['kind'], 'lats': [r.choice([-40., 10., 47.25])], 'lons': [r.choice([-120., 97.25])]}
    if r.random() < .4:
        g['lats'] = g['lats'] + [g['lats'][0] + 1]
        if case['kind'] == 'hru':
            g['lons'] = g['lons'] * 2
    nd = r.choice([2, 3])
    var = c['vars'] if c['asked'] else []
    data = {'kind': r.choice(['random', 'cold', 'humid']), 'seed': case['seed']}
    if c['crossed']:
        data['poke'] = [['t_max', r.randrange(nd), r.randrange(len(g['lats'])), -90.]]
    const = {v: {'prec': 1.5, 't_min': -60., 't_max': 45., 'wind': 2.5}[v] for v in case['const'] if not (c['crossed'] and v in ('t_min', 't_max'))}
    use = [v for v in ('prec', 't_min', 't_max', 'wind') if v in c['supplied']]
    if r.random() < .5:
        use = [v for v in use if v not in const]
    w = {'start': [r.choice([1999, 2000, 2001]), r.randint(1, 12), r.randint(2, 26)], 'ndays': nd, 'grid': g, 'calendar': 'standard', 'data': data, 'fvars': use,
         'tri': {'t_pk': [700.] * 12, 'dur': [300.] * 12}, 'constant_vars': const, 'fmt': case['fmt'], 'cfg': {'scheduler': r.choice(['threads', 'synchronous'])}}
    if case['fmt'] == 'ascii':
        w['io'] = {'columns': use}
    wd = world.make_world(w)
    p = world.build(wd, os.path.join(d, 'in'), w)
    for k in conf.DEFAULTS:
        p.pop(k, None)
    del p['calendar']
    p['forcing_vars'] = {k: v for k, v in p['forcing_vars'].items() if v in use or k in use}
    p['domain_vars'] = {k: v for k, v in p['domain_vars'].items() if v not in ('dur', 't_pk') or v in c['monthly']}
    p['out_dir'] = os.path.join(d, 'out')
    for k, v in dict(c['opts']).items():
        if v == 'bogus':
            v = r.choice(['bogus', 'f16', 'priestley', 'x'])
        elif v == 'number':
            v = r.choice(['abc', 'a lot', '1,5'])
        elif v == 'range':
            v = r.choice([-.1, -1e-9, '-0.5', -3] + ([float('nan'), 'nan', '-inf'] if k == 'tdew_tol' else [float('nan'), 'nan', 1.0001, '1.5', 70, 'inf']))
        elif k in NUMBERS and r.random() < .5:
            v = float(v)
        elif k in ('utc_offset', 'period_ending'):
            v = v == 'True'
        p[k] = v
    # time step
    s = c['step']
    p['time_step'] = r.choice([0, 'abc', '60.5'] + ([60.5, None, ''] if case['via'] == 'dict' else []) + ['absent']) if s == 0 else r.choice([s, str(s)] + ([float(s)] if case['via'] == 'dict' else []))
    if p['time_step'] == 'absent':
        del p['time_step']
    # output
    del p['out_vars']
    if c['asked']:
        p['out_vars'] = {v: {'out_name': r.choice([v, v, 'x_' + v])} for v in r.sample(sorted(var), len(var))}
        if c['names'] == 'twice':
            a = list(p['out_vars'])
            if r.random() < .3:
                p['out_vars'][a[0]]['out_name'] = 'time'
            else:
                p['out_vars'][a[0]]['out_name'] = p['out_vars'][a[1]]['out_name']
        elif c['names'] == 'missing':
            del p['out_vars'][r.choice(list(p['out_vars']))]['out_name']
    # period
    day = lambda t: '%d/%d/%d' % tuple(t)
    first, last = wd.days[0], wd.days[-1]
    if c['period'] == 'early':
        p['start'] = day(world.days_before(first, 1 if case['near'] else r.choice([1, 40]), 'standard')[0])
    elif c['period'] == 'late':
        p['stop'] = day(world.days_from(last, 2 if case['near'] else r.choice([2, 40]), 'standard')[-1])
    elif c['period'] == 'backwards':
        p['start'], p['stop'] = day(last), day(first)
    elif c['period'] == 'nonsense':
        p[r.choice(['start', 'stop'])] = r.choice(['abc', '2000/13/45'])
    elif r.random() < .3 and case['fmt'] != 'ascii':
        for k in ('start', 'stop'):
            p[k] = 'forcing'
    if c['freq'] != 'fine':
        p['out_freq'] = 'zz'
    elif r.random() < .3:
        p['out_freq'] = 'D'
    dims = {'latlon': ['lat', 'lon'], 'hru': ['hru']}[case['kind']]
    if c['chunks'] == 'fine':
        p['chunks'] = {x: r.choice([1, 2, '1']) for x in dims if r.random() < .5}
    elif c['chunks'] == 'size':
        p['chunks'] = {x: 1 for x in dims}
        p['chunks'][r.choice(dims)] = r.choice([0, -1, 'x', '0'])
    else:
        p['chunks'] = {x: 1 for x in dims if r.random() < .5}
        p['chunks'][r.choice({'latlon': ['latitude', 'x', 'hru', 'time'], 'hru': ['lat', 'lon', 'basin']}[case['kind']])] = r.choice([1, 3])
    if c['state'] != 'fine':
        spoil_state(c['state'], p, r)
    if c['workers'] != 'fine':
        p['scheduler'], p['num_workers'] = r.choice(['threads', 'threading']), r.choice([0, -1, 'x', -4])
    for k in c['gone']:
        how = r.choice(['absent', 'empty', 'none'])
        if how == 'absent' or case['via'] != 'dict':
            p.pop(k)
        else:
            p[k] = None if how == 'none' else type(p[k])() if isinstance(p[k], (dict, list, str)) else ''
    return p, wd


def spoil_state(how, p, r):
    import xarray as xr
    if how == 'unread':
        if r.random() < .5:
            os.remove(p['state'])
        else:
            with open(p['state'], 'w') as f:
                f.write('nothing')
        return
    with xr.open_dataset(p['state']) as ds:
        ds = ds.load()
    v = r.choice(['prec', 't_min', 't_max'])
    name = next(k for k, x in p['state_vars'].items() if x == v)
    if how == 'lacks':
        if r.random() < .5:
            ds = ds.drop_vars(name)
        else:
            p['state_vars'] = {k: x for k, x in p['state_vars'].items() if x != v}
    else:
        ds = ds.isel(time=slice(None, -r.choice([1, 2, 45]))) if r.random() < .5 else ds.isel(time=slice(r.choice([1, 2, 45]), None))
    ds.to_netcdf(p['state'] + '_')
    os.replace(p['state'] + '_', p['state'])


def listing(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = 'dir'
        for f in fs:
            q = os.path.join(r, f)
            with open(q, 'rb') as h:
                out[os.path.relpath(q, d)] = (hashlib.md5(h.read()).hexdigest(), os.stat(q).st_mtime_ns)
    return out


def named(err, c, opts):
    """what the error mentions"""
    lines = [l.strip() for l in err.split('\n') if l.strip()]
    word = lambda x, l: re.search(r'(?<![A-Za-z_])%s(?![A-Za-z_])' % re.escape(x), l) is not None
    vs = c['vars'] if c['asked'] else []
    out = []
    inp = [l for l in lines if re.search('input|domain', l, re.I)]
    if any(re.search('time.?step', l, re.I) and not any(word(v, l) for v in vs) for l in lines):
        out.append(['step'])
    out += [['var', v] for v in vs if any(word(v, l) for l in lines)]
    if any(re.search('out_vars|output var.*empty', l, re.I) for l in lines):
        out.append(['novars'])
    if any(re.search('name', l, re.I) for l in lines):
        out.append(['names'])
    out += [['opt', o] for o in CHOICES + NUMBERS if any(word(o, l) for l in lines)]
    for k in ('out_dir', 'domain', 'state'):
        if any(word(k, l) for l in lines):
            out.append(['gone', k])
    if any(re.search('forcing', l) and not re.search('non-constant|forcing_vars|forcing_fmt', l) for l in lines):
        out.append(['gone', 'forcing'])
    if any(re.search('non-constant|forcing_vars', l) for l in lines):
        out.append(['gone', 'forcing_vars'])
    out += [['input', v] for v in ('prec', 't_min', 't_max', 'wind') if any(word(v, l) for l in inp)]
    if any(re.search('chunk', l, re.I) for l in lines):
        out.append(['chunks'])
    if any(word('state', l) or word('State', l) for l in lines):
        out.append(['state'])
    if any(re.search('workers', l, re.I) for l in lines):
        out.append(['workers'])
    out += [['monthly', v] for v in ('dur', 't_pk') if any(word(v, l) for l in lines)]
    return out


def _observe(case, d):
    import logging
    logging.disable(logging.CRITICAL)
    c = case['conf']
    r = random.Random(case['seed'])
    p, wd = concrete(case, d, r)
    out, work = os.path.join(d, 'out'), os.path.join(d, 'work')
    os.makedirs(work)
    if case['before'] != 'absent':
        os.makedirs(out)
    if case['before'] == 'prior':
        a, b = wd.days[0], wd.days[-1]
        pre = p.get('out_prefix', 'forcing')
        for x, y in [(a, b)] + [(t, t) for t in wd.days]:
            with open(os.path.join(out, '%s_%04d%02d%02d-%04d%02d%02d.nc' % ((pre,) + x + y)), 'w') as f:
                f.write('of an earlier run')
        with open(os.path.join(out, 'notes'), 'w') as f:
            f.write('mine')
    path = None
    if case['via'] != 'dict':
        path = os.path.join(d, 'conf')
        via = r.choice(['ini', 'yaml']) if case['via'] == 'cli' else case['via']
        ({'ini': conf.ini, 'yaml': conf.yaml}[via])(p, path, r)
    before = listing(out) if os.path.exists(out) else None

    def go():
        from metsim.metsim import MetSim
        os.chdir(work)
        try:
            if case['via'] == 'dict':
                MetSim(p).run()
            elif case['via'] == 'cli':
                from metsim.cli import ms
                sys.argv = ['ms', path, '-s', p['scheduler']]
                ms.main()
            else:
                MetSim(conf.read(path, scheduler=p['scheduler'])).run()
        except (Exception, SystemExit) as e:
            return False, '%s' % e if str(e) else type(e).__name__
        return True, ''
    x = runs.fork(go, timeout=80)
    if x[0] != 'ok':
        raise RuntimeError('run: %s' % (x,))
    ok, err = x[1]
    after = listing(out) if os.path.exists(out) else None
    touched = []
    if before is None and after is not None:
        touched.append('created the directory')
    b, a = before or {}, after or {}
    touched += ['removed ' + f for f in b if f not in a] + ['changed ' + f for f in a if f in b and a[f] != b[f]] + ['created ' + f for f in a if f not in b]
    touched += ['created ' + f for f in listing(work)]
    wrote = []
    if ok:
        names = {v.get('out_name', k): k for k, v in p['out_vars'].items()} if 'out_vars' in p else None
        seen = None
        for f in sorted(os.listdir(out)):
            q = runs.content(os.path.join(out, f))
            if q is None:
                continue
            vs = {v for v in q['vars'] if v not in q['dims'] and v not in ('lat', 'lon')}
            seen = vs if seen is None else seen & vs
        wrote = sorted((names or {}).get(v, v) for v in seen or [])
    return {'kind': 'check', 'conf': c, 'fmt': case['fmt'], 'via': case['via'], 'ok': ok, 'named': named(err, c, p), 'touched': touched[:5], 'wrote': wrote, 'err': err[:300]}
