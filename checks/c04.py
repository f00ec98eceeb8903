"""C04: runs in one process do not influence each other (spec: Session)"""
import copy
import os
import random
import shutil
import tempfile
import zlib

import numpy as np

from mv import conf, hooks, runs, tlc, world

TRACE = 'SessionTrace'
MCS = {'quick': [('MC_Session', 'MC_Session.cfg')], 'thorough': [('MC_Session', 'MC_Session_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['all runs of a history are synchronous or threaded; what is written is compared bit by bit, apart from the time of creation']
TIMEOUT = 240
ASPECTS = ['files', 'dimensions', 'coordinates', 'global attributes', 'variables', 'labels', 'time', 'values']


def scenarios(tier, seed):
    r = random.Random(seed * 59 + 4)
    n = 70 if tier == 'quick' else 1200
    beh = tlc.simulate('MC_Session', 'MC_Session_sim.cfg', 4 * n, 60, seed)
    # histories with runs of several configurations, repeated
    beh = [b['hist'] for b in beh]
    beh = list({str(h): h for h in beh}.values())

    def runs_of(h):
        return [o['conf'] for o in h if o['op'] == 'run']
    # some of many kinds: different configurations, repeated ones, failures in between
    keys = [lambda h: (len(set(runs_of(h))), len(runs_of(h))), lambda h: len(runs_of(h)) - len(set(runs_of(h))),
            lambda h: (sum(o['op'] == 'fail' for o in h), len(runs_of(h)))]
    best = []
    for key in keys:
        best.append(sorted(beh, key=key, reverse=True)[:(n + 2) // 3])
    beh = [h for b in best for h in b]
    r.shuffle(beh)
    out = []
    for k in range(n):
        g = {'kind': r.choice(['latlon', 'hru', 'yx']), 'lats': [r.choice([-40., 10., 47.25])], 'lons': [r.choice([-120., 97.25])]}
        confs = []
        fmt = r.choice(['netcdf', 'netcdf', 'data'])
        dicts = r.random() < .6        # derived from each other by the caller
        for j in range(3):
            o = conf.options(r, many=.35)
            o['scheduler'], o['num_workers'] = r.choice([('threads', 2), ('synchronous', 1), ('threading', 1)])
            c = {'start': [r.choice([1999, 2000, 2001]), r.randint(1, 12), r.randint(1, 26)], 'ndays': r.choice([1, 2, 3]), 'grid': g,
                 'calendar': r.choice(['standard', 'standard', 'noleap']), 'data': {'kind': r.choice(['random', 'cold', 'humid']), 'seed': r.randint(1, 10**6)},
                 'tri': {'t_pk': [700.] * 12, 'dur': [300.] * 12}, 'cfg': o, 'fmt': fmt, 'via': r.choice(['dict', 'dict', 'ini', 'yaml'])}
            if c['calendar'] == 'noleap':
                c['start'][0] = 2001
            if r.random() < .2:
                c['constant_vars'] = {'wind': 2.5}
            if r.random() < .15:
                o['time_step'] = 7
            elif r.random() < .15:
                c['data']['poke'] = [['t_max', 0, 0, -90.]]
            elif r.random() < .1:
                c['data']['kind'] = 'tag'
            if r.random() < .5:
                c['grid'] = dict(g, elev=r.choice([-50., 800., 2500., 4200.]))
            if j and r.random() < .4:
                # the very same inputs
                for x in ('start', 'ndays', 'calendar', 'data'):
                    c[x] = confs[0][x]
                c['share'] = True
            c['derived'] = r.random() < .7
            c['period'] = 'forcing' if r.random() < .5 else None
            if dicts:
                c['via'] = 'dict'
            if fmt == 'data':
                c['via'] = 'dict'
            confs.append(c)
        # input files of the same names, whose contents the caller replaces
        out.append({'confs': confs, 'hist': beh[k % len(beh)], 'cur': r.random() < .5})
    return out


def crc(x):
    return zlib.crc32(x if isinstance(x, bytes) else str(x).encode()) & 0x7fffffff


def fingerprint(d):
    parts = {a: [] for a in ASPECTS}
    for f in sorted(os.listdir(d)):
        c = runs.content(os.path.join(d, f))
        parts['files'].append(f)
        if c is None:
            parts['files'].append('unreadable')
            continue
        parts['dimensions'].append(sorted(c['dims'].items()))
        parts['global attributes'].append(sorted((k, v) for k, v in c['attrs'].items() if k != 'history'))
        for v in sorted(c['vars']):
            dims, dt, at, a = c['vars'][v]
            parts['variables'].append((v, dims, dt))
            parts['labels'].append((v, sorted(at.items())))
            if v == 'time':
                parts['time'].append((sorted(at.items()), a.tolist()))
            else:
                parts['coordinates' if v in c['dims'] else 'values'].append((v, crc(np.ascontiguousarray(a).tobytes())))
    return [crc(repr(parts[a])) for a in ASPECTS]


def observe(case):
    d = tempfile.mkdtemp(prefix='mv_', dir=os.environ.get('MV_SCRATCH') or None)
    try:
        return [_observe(case, d)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def eq(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (str, int, float, dict, list)) and a == b)


def take(out_dir, to):
    """what was written, moved out of the way"""
    os.rename(out_dir, to)
    return fingerprint(to)


class Boom:
    def __init__(self, step):
        self.step = step

    def __call__(self, ev):
        # a file which could not be closed is closed all the same
        if ev['ev'] == self.step and ev['ph'] == ('end' if self.step == 'close' else 'begin') and ev.get('mode') != 'w':
            raise runs.Injected(28, 'injected fault')


def configuration(c, p, path):
    """the configuration as the caller gets hold of it"""
    if c['via'] == 'dict':
        return p
    q = {k: v for k, v in p.items()}
    if c['via'] == 'ini' and q.get('out_vars'):
        q['out_vars'] = {v: {'out_name': x['out_name']} for v, x in q['out_vars'].items()}
    if c['via'] == 'yaml' and not q.get('out_vars'):
        q['out_vars'] = {v: {'out_name': v} for v in (['temp', 'prec'] if int(q['time_step']) != 1440 else ['prec'])}
    if c['via'] == 'ini' and not q.get('out_vars'):
        q['out_vars'] = {v: {'out_name': v} for v in (['temp', 'prec'] if int(q['time_step']) != 1440 else ['prec'])}
    if not os.path.exists(path):
        {'ini': conf.ini, 'yaml': conf.yaml}[c['via']](q, path, random.Random(7))
    return conf.read(path, scheduler=q['scheduler'], workers=q['num_workers'])


def _observe(case, d):
    import logging
    logging.disable(logging.CRITICAL)
    ps = []
    for k, c in enumerate(case['confs']):
        dd = os.path.join(d, 'c%d' % k)
        p = world.build(world.make_world(c), dd, c)
        for key, v in conf.DEFAULTS.items():
            if key not in c['cfg'] and key in p:
                del p[key]         # left to the defaults
        if 'out_vars' not in c['cfg']:
            del p['out_vars']
        if c['calendar'] == 'standard':
            del p['calendar']
        if not c.get('constant_vars'):
            del p['constant_vars']
        if c.get('share'):
            for x in ('forcing', 'state', 'domain', 'forcing_vars', 'state_vars', 'domain_vars'):
                p[x] = ps[0][x]
        if c.get('period') == 'forcing':
            for x in ('start', 'stop'):
                del p[x]
        shutil.rmtree(p['out_dir'], ignore_errors=True)
        if case.get('cur') and not c.get('share'):
            for x in ('forcing', 'state', 'domain'):
                if isinstance(p[x], str):
                    p[x] = p[x].replace(dd + os.sep, os.path.join(d, 'cur') + os.sep)
        ps.append(p)

    def inputs(k):
        """put the inputs of this configuration in place"""
        if case.get('cur'):
            k = 0 if case['confs'][k].get('share') else k
            os.symlink(os.path.join(d, 'c%d' % k), os.path.join(d, 'new'))
            os.replace(os.path.join(d, 'new'), os.path.join(d, 'cur'))

    def alone(k):
        from metsim.metsim import MetSim
        inputs(k)
        try:
            MetSim(configuration(case['confs'][k], ps[k], os.path.join(d, 'conf%d' % k))).run()
        except Exception as e:
            return False, [], '%s: %s' % (type(e).__name__, str(e)[:200])
        return True, take(ps[k]['out_dir'], os.path.join(d, 'fresh%d' % k)), ''
    fresh = []
    for k in range(len(ps)):
        x = runs.fork(alone, k)
        if x[0] != 'ok':
            raise RuntimeError('fresh run: %s' % (x,))
        fresh.append(x[1])
        shutil.rmtree(ps[k]['out_dir'], ignore_errors=True)

    def history():
        from metsim.metsim import MetSim
        held, inst, ops, pristine = {}, {}, [], {}
        orig = [copy.deepcopy({x: v for x, v in p.items() if x != 'forcing' or isinstance(v, (str, list))}) for p in ps]
        for o, p in zip(orig, ps):
            o.setdefault('forcing', p['forcing'])
        for n, h in enumerate(case['hist']):
            k = h['conf'] - 1
            c = case['confs'][k]
            rec = {'op': h['op'], 'conf': h['conf'], 'ok': True, 'print': [], 'err': ''}
            if h['op'] in ('setup', 'run', 'fail'):
                inputs(k)
            try:
                if h['op'] == 'setup':
                    inst[h['slot']] = None
                    if k not in held or (c['via'] != 'dict' and n % 2):
                        held[k] = configuration(c, ps[k], os.path.join(d, 'conf%d' % k))
                        if k and c['via'] == case['confs'][0]['via'] == 'dict' and c.get('derived') and pristine.get(0) is not None:
                            # the caller takes what it used before, and changes what is to be different
                            same = [x for x in ps[k] if x in orig[0] and eq(ps[k][x], orig[0][x])]
                            base = {x: v for x, v in held[0].items() if x not in orig[0] or x in same}
                            held[k] = {**base, **{x: v for x, v in held[k].items() if x not in same}}
                    pristine[k] = True
                    inst[h['slot']] = MetSim(held[k])
                elif h['op'] == 'drop':
                    inst.pop(h['slot'], None)
                elif h['op'] in ('run', 'fail'):
                    m = inst[h['slot']]
                    if m is None:
                        rec['op'], rec['ok'] = 'none', False
                        ops.append(rec)
                        continue
                    if h['op'] == 'fail':
                        hooks.set_recorder(Boom(['open', 'set', 'close'][n % 3]), d)
                    try:
                        m.run()
                    finally:
                        hooks.set_recorder(None)
                    if h['op'] == 'run':
                        rec['print'] = take(ps[k]['out_dir'], os.path.join(d, 'run%d' % n))
            except Exception as e:
                rec['ok'], rec['err'] = False, '%s: %s' % (type(e).__name__, str(e)[:200])
            if h['op'] == 'fail' or not rec['ok']:
                shutil.rmtree(ps[k]['out_dir'], ignore_errors=True)
            ops.append(rec)
        return ops
    x = runs.fork(history, timeout=150)
    if x[0] != 'ok':
        raise RuntimeError('history: %s' % (x,))
    return {'aspects': ASPECTS, 'fresh': [{'ok': a, 'print': b, 'err': e} for a, b, e in fresh], 'ops': x[1]}
