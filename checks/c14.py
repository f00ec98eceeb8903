"""C14: a configuration means the same however it is expressed (spec: Config)"""
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import time
import types

from checks.c04 import ASPECTS, fingerprint
from checks.c15 import NUMBERS, composed
from mv import conf, runs, world

TRACE = 'ConfigTrace'
MCS = {'quick': [('MC_Config', 'MC_Config.cfg')], 'thorough': [('MC_Config', 'MC_Config_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['comments stand on lines of their own or follow a YAML value; numbers of workers are seen with the threaded scheduler']
TIMEOUT = 200
FLAGS = ('utc_offset', 'period_ending')


def scenarios(tier, seed):
    r = random.Random(seed * 67 + 14)
    n = 48 if tier == 'quick' else 900
    good = composed(n, seed + 200, lambda b: b['nbad'] == 0, lambda b: (b['conf']['asked'], len(b['conf']['opts']), len(b['conf']['vars']) > 2))
    out = []
    for b in good:
        c, full = b['conf'], b['full']
        kind = r.choice(['latlon', 'latlon', 'hru', 'yx'])
        fmt = r.choice(['netcdf', 'netcdf', 'ascii', 'binary']) if kind == 'latlon' else 'netcdf'
        const = [v for v in c['supplied'] if r.random() < .15]
        if len(const) == len(c['supplied']):
            const = const[1:]
        # names and units; an INI file has no units
        style = r.choice(['plain', 'plain', 'names', 'units'])
        out.append({'conf': c, 'full': full, 'vars': r.sample(b['allvars'], len(b['allvars'])), 'kind': kind, 'fmt': fmt, 'const': const, 'style': style,
                    'seed': r.randint(1, 10**6), 'freq': r.choice([None, None, 'D', 'MS']), 'chunk': r.choice([0, 1, 1, 1]),
                    'period': r.choice(['slash', 'slash', 'dash', 'forcing'] if fmt == 'netcdf' else ['slash']), 'how': hows(r, style)})
    return out


def hows(r, style):
    """ways to say it: [form, with the defaults written out, entry]"""
    files = ['ini', 'yaml'] if style != 'units' else ['yaml']
    out = [['dict', False, 'api']]
    out.append(['dict', True, 'api'])
    for f in files:
        out.append([f, False, r.choice(['api', 'main'])])
        out.append([f, r.random() < .5, 'main'])
    out.append([r.choice(files + ['text']), True, 'api'])
    out.append(['text', False, 'api'])
    return out


def observe(case):
    d = tempfile.mkdtemp(prefix='mv_', dir=os.environ.get('MV_SCRATCH') or None)
    try:
        return [_observe(case, d)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def concrete(case, d, r):
    c = case['conf']
    g = {'kind': case['kind'], 'lats': [10., 11.5, 47.25, 51.], 'lons': [-120., 97.25, 98., 15.][:4 if case['kind'] == 'hru' else 1]}
    nd = r.choice([2, 3])
    const = {v: {'prec': 1.5, 't_min': -60., 't_max': 45., 'wind': 2.5}[v] for v in case['const']}
    use = [v for v in ('prec', 't_min', 't_max', 'wind') if v in c['supplied']]
    r.shuffle(use)
    w = {'start': [r.choice([1999, 2000, 2001]), r.randint(1, 12), r.randint(2, 26)], 'ndays': nd, 'grid': g, 'calendar': 'standard',
         'data': {'kind': r.choice(['random', 'cold', 'humid']), 'seed': case['seed']}, 'fvars': use, 'fmt': case['fmt'],
         'tri': {'t_pk': [700.] * 12, 'dur': [300.] * 12}, 'constant_vars': const, 'cfg': {}, 'io': {'prefix': r.choice(['', 'x_']) if case['fmt'] == 'netcdf' else ''}}
    if case['fmt'] in ('ascii', 'binary'):
        w['io']['columns'] = use
    wd = world.make_world(w)
    p = world.build(wd, os.path.join(d, 'in'), w)
    for k in conf.DEFAULTS:
        p.pop(k, None)
    for k in ('calendar', 'out_vars', 'scheduler', 'num_workers', 'verbose'):
        p.pop(k, None)
    if not const:
        p.pop('constant_vars', None)
    dash = lambda t: '%04d-%02d-%02d' % tuple(t)
    if case['period'] == 'dash':
        p['start'], p['stop'] = dash(wd.days[0]), dash(wd.days[-1])
    elif case['period'] == 'forcing':
        p['start'] = p['stop'] = 'forcing'
    if case['freq']:
        p['out_freq'] = case['freq']
    dims = {'latlon': ['lat', 'lon'], 'hru': ['hru'], 'yx': ['y', 'x']}[case['kind']]
    p['chunks'] = {k: case['chunk'] for k in dims} if case['chunk'] else {}
    p['time_step'] = c['step']
    return p


def outputs(case, r):
    ov = {}
    for v in case['vars']:
        ov[v] = {'out_name': v}
        if case['style'] != 'plain' and r.random() < .6:
            ov[v]['out_name'] = r.choice(['x_%s', '%s_out', 'My%s']) % v
        if case['style'] == 'units' and r.random() < .7:
            ov[v]['units'] = r.choice(world.UNITS[v])
    return ov


def value(k, v, form, r):
    if k in NUMBERS:
        return v if form == 'text' else float(v)
    if k in FLAGS:
        return v == 'True'
    return v


def canon(k, v):
    """what was recorded, as text"""
    if k in NUMBERS:
        return str(float(v))
    return str(v)


class Peak:
    """how many are computing at a time: waits for the number asked for, then a bit for more"""

    def __init__(self, want):
        self.want, self.now, self.peak, self.cond, self.seen = want, 0, 0, threading.Condition(), set()

    def wrap(self, run):
        def f(*a, **k):
            with self.cond:
                me = threading.get_ident()
                self.now += 1
                self.peak = max(self.peak, self.now)
                self.cond.notify_all()
                if me not in self.seen:
                    self.seen.add(me)
                    end = time.time() + 15
                    while self.peak < self.want and time.time() < end:
                        self.cond.wait(.2)
                    end = time.time() + .1
                    while self.now <= self.want and time.time() < end:
                        self.cond.wait(.05)
            try:
                return run(*a, **k)
            finally:
                with self.cond:
                    self.now -= 1
        return f


def _observe(case, d):
    import logging
    logging.disable(logging.CRITICAL)
    c = case['conf']
    r = random.Random(case['seed'])
    base = concrete(case, d, r)
    names = outputs(case, r)
    full = case['full']
    exprs = []
    for n, (form, complete, entry) in enumerate(case['how']):
        p = dict(base)
        out = p['out_dir']
        opts = dict(full) if complete else dict(c['opts'])
        if complete:
            # what was given stays as it was given
            opts.update(dict(c['opts']))
        for k, v in opts.items():
            if k not in ('forcing_fmt',):
                p[k] = value(k, v, form, r)
        if c['asked'] or complete or case['style'] != 'plain':
            p['out_vars'] = {v: dict(x) for v, x in names.items()}
        if form == 'text':
            p['time_step'] = str(p['time_step'])
            p['chunks'] = {k: str(v) for k, v in p['chunks'].items()}
            if 'constant_vars' in p:
                p['constant_vars'] = {k: str(v) for k, v in p['constant_vars'].items()}
        cells = 4 if case['kind'] in ('hru', 'latlon', 'yx') else 1
        sched, workers = r.choice([('threads', 1), ('threads', 2), ('threads', 3), ('threading', 2), ('synchronous', 1), ('single-threaded', 1)])
        cli = {'scheduler': sched, 'workers': workers, 'verbose': r.random() < .4}
        if form in ('dict', 'text'):
            q = dict(p, scheduler=sched, num_workers=r.choice([workers, str(workers)]) if form == 'text' else workers, verbose=logging.DEBUG if cli['verbose'] else logging.INFO)
            if form == 'text' and sched in ('synchronous', 'single-threaded'):
                q['num_workers'] = workers
            path = None
        else:
            path = os.path.join(d, 'conf%d' % n)
            {'ini': conf.ini, 'yaml': conf.yaml}[form](p, path, r)
        shutil.rmtree(out, ignore_errors=True)
        flags = [['-s', '--scheduler'], ['-n', '--num_workers'], ['-v', '--verbose']]
        args = [path] + [[r.choice(flags[0]), sched], [r.choice(flags[1]), str(workers)]][0] + [r.choice(flags[1]), str(workers)] + ([r.choice(flags[2])] if cli['verbose'] else [])
        if r.random() < .5:
            args = args[1:] + args[:1]
        if workers == 1 and r.random() < .4:      # the default
            k = [x in flags[1] for x in args].index(True)
            args = args[:k] + args[k + 2:]
        text = os.path.join(d, 'text%d' % n)

        def go():
            fd = os.open(text, os.O_CREAT | os.O_WRONLY)
            os.dup2(fd, 1)
            sys.stdout = os.fdopen(1, 'w')
            from metsim.metsim import MetSim
            peak = Peak(workers if case['chunk'] else 1)
            try:
                MetSim.methods['mtclim'] = types.SimpleNamespace(run=peak.wrap(MetSim.methods['mtclim'].run))
            except Exception:
                peak = None
            try:
                if path is None:
                    MetSim(q).run()
                elif entry == 'main':
                    from metsim.cli import ms
                    sys.argv = ['ms'] + args
                    ms.main()
                else:
                    from metsim import io
                    from metsim.cli.ms import parse
                    MetSim(io.read_config(parse(args))).run()
            except (Exception, SystemExit) as e:
                return False, '%s: %s' % (type(e).__name__, e), 0
            finally:
                sys.stdout.flush()
            return True, '', peak.peak if peak is not None else 0
        x = runs.fork(go, timeout=80)
        if x[0] != 'ok':
            raise RuntimeError('run: %s' % (x,))
        ok, err, peak = x[1]
        e = {'how': [form, 'complete' if complete else 'sparse', entry], 'ok': ok, 'err': err[:300], 'print': [], 'attrs': {}, 'names': [], 'sched': '', 'progress': 2,
             'peak': peak if case['chunk'] and cells >= workers else 0, 'cli': cli}
        if ok:
            kept = os.path.join(d, 'out%d' % n)
            os.rename(out, kept)
            fs = sorted(os.listdir(kept))
            at = runs.content(os.path.join(kept, fs[0]))
            e['attrs'] = {k: canon(k, v) for k, v in at['attrs'].items() if k in full}
            e['sched'] = str(at['attrs'].get('scheduler', sched))
            e['names'] = sorted(v for v in at['vars'] if v not in at['dims'] and v not in ('lat', 'lon'))
            pr = fingerprint(kept)
            e['print'] = [x for a, x in zip(ASPECTS, pr) if a != 'global attributes']
            with open(text, errors='replace') as f:
                t = f.read()
            # the progress bar of dask is only drawn for runs which take a while
            e['progress'] = int('Completed' in t)
        exprs.append(e)
    return {'kind': 'same', 'conf': dict(c, opts=dict(c['opts'], forcing_fmt=case['fmt'])), 'aspects': [a for a in ASPECTS if a != 'global attributes'], 'names': [x['out_name'] for x in names.values()], 'exprs': exprs}


def weight(r):
    return 30
