"""Configurations: random ones out of what is documented, and ways of writing
them down (INI, YAML, command line).  Judges nothing."""
import os
import random

from . import world

DEFAULTS = {'method': 'mtclim', 'out_prefix': 'forcing', 'out_precision': 'f4', 'sw_prec_thresh': 0.0, 'utc_offset': False,
            'lw_cloud': 'cloud_deardorff', 'lw_type': 'prata', 'prec_type': 'uniform', 'tdew_tol': 1e-6, 'tmax_daylength_fraction': 0.67,
            'rain_scalar': 0.75, 'tday_coef': 0.45, 'lapse_rate': 0.0065, 'out_freq': None, 'period_ending': False}
VALUES = {'out_precision': ['f4', 'f8'], 'sw_prec_thresh': [0.0, 1.5, 4.0], 'utc_offset': [True, False],
          'lw_cloud': ['cloud_deardorff', 'CLOUD_DEARDORFF', 'default', 'DEFAULT'],
          'lw_type': ['prata', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso', 'default', 'PRATA', 'Idso', 'DEFAULT'],
          'prec_type': ['uniform', 'triangle', 'mix', 'Triangle', 'MIX', 'UNIFORM'], 'tdew_tol': [1e-6, 1e-4],
          'tmax_daylength_fraction': [0.67, 0.5, 0.8], 'rain_scalar': [0.75, 0.6, 1.0], 'tday_coef': [0.45, 0.3, 0.0],
          'lapse_rate': [0.0065, 0.005, 0.008], 'out_freq': [None, 'D', '2D', 'MS'], 'period_ending': [True, False],
          'out_prefix': ['forcing', 'run', 'a_b-c'], 'method': ['mtclim']}


def options(r, sub=None, many=.5):
    """-> options, documented values only, most of them left out"""
    ts = r.choice([60, 180, 360, 240, 120, 1440, 1440]) if sub is None else r.choice([60, 180, 360, 240] if sub else [1440])
    o = {'time_step': ts}
    for k, v in VALUES.items():
        if r.random() < many:
            o[k] = r.choice(v)
    if r.random() < .8:
        pool = world.SUB_VARS if ts < 1440 else world.DAILY_VARS
        vs = r.sample(pool, r.randint(1, 5))
        style = r.choice(['list', 'names', 'units', 'both'])
        ov = {}
        for n, v in enumerate(vs):
            ov[v] = {'out_name': v}
            if style in ('names', 'both') and r.random() < .7:
                ov[v]['out_name'] = r.choice(['X_%s', '%s_out', 'my%s']) % v
            if style in ('units', 'both') and r.random() < .7:
                ov[v]['units'] = r.choice(world.UNITS[v])
        o['out_vars'] = ov
    elif ts == 1440:
        o['out_vars'] = {v: {'out_name': v} for v in ('t_min', 'prec')}
    return o


SECTIONS = ('forcing_vars', 'domain_vars', 'state_vars', 'constant_vars', 'chunks', 'out_vars')
OPTS = ('scheduler', 'num_workers', 'verbose')


def split(params):
    """-> scalars of the main section, sections in the form of the files"""
    main = {k: v for k, v in params.items() if k not in SECTIONS and k not in OPTS and v is not None}
    if isinstance(main.get('forcing'), list):
        main['forcing'] = os.path.dirname(main['forcing'][0])
    sec = {'chunks': dict(params.get('chunks') or {})}
    for s in ('forcing_vars', 'domain_vars', 'state_vars'):
        if s in params:
            d = params[s]
            sec[s] = dict(d) if s == 'forcing_vars' and params['forcing_fmt'] == 'binary' else {v: k for k, v in d.items()}
    if params.get('constant_vars'):
        sec['constant_vars'] = dict(params['constant_vars'])
    return main, sec


COMMENTS = ['# a comment', '#', '# out_vars = nothing', '#time_step = 7', '  # indented', '; another kind']


def _shuffled(d, r):
    ks = list(d)
    r.shuffle(ks)
    return [(k, d[k]) for k in ks]


def ini(params, path, r):
    """what an INI file can say: no units; lists of variables or names"""
    main, sec = split(params)
    ov = params.get('out_vars')
    lines = []

    def noise(indent=False):
        if r.random() < .25:
            lines.append(r.choice(COMMENTS[:4] + COMMENTS[5:]))
        if r.random() < .2:
            lines.append('')

    def entry(k, v):
        sep = r.choice([' = ', '=', ': ', '  =  '])
        lines.append('%s%s%s' % (k, sep, v))
    if r.random() < .4:
        lines.append('# This is an example of an input file for MetSim')
    lines.append('[MetSim]' + r.choice(['', '', '   ']))
    items = dict(main)
    renamed = ov and any(x['out_name'] != v for v, x in ov.items())
    names = None
    if ov is not None and not ov:
        if r.random() < .5:
            items['out_vars'] = '[]'
        else:
            names = {}
    if ov:
        form = r.choice(['list', 'section', 'both']) if not renamed else r.choice(['section', 'both'])
        if form in ('list', 'both'):
            # with both, the section decides about the names
            q = r.choice(["'", '"'])
            items['out_vars'] = '[' + r.choice([', ', ',']).join(q + v + q for v in ov) + ']' + r.choice(['', '', '  # these'])
        if form == 'section' or (form == 'both'):
            names = {v: x['out_name'] for v, x in ov.items()}
    for k, v in _shuffled(items, r):
        noise()
        if isinstance(v, bool):
            v = r.choice([str(v), str(v).lower(), str(v).upper()])
            if v.lower() == 'false' and r.random() < .3:
                continue
        entry(k, v)
    secs = dict(sec)
    if names is not None:
        secs['out_vars'] = names
    for s, d in _shuffled(secs, r):
        noise()
        lines.append('[%s]' % s)
        its = list(d.items()) if s in ('out_vars', 'forcing_vars') else _shuffled(d, r)
        for k, v in its:
            noise()
            entry(k, v)
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + r.choice(['', '\n', '\n\n']))


def yaml(params, path, r):
    main, sec = split(params)
    lines = []

    def noise():
        if r.random() < .25:
            lines.append(r.choice(COMMENTS[:5]))
        if r.random() < .2:
            lines.append('')

    def scalar(v):
        if isinstance(v, bool):
            return str(v).lower() if r.random() < .7 else str(v)
        if isinstance(v, (int, float)):
            t = '%d' % v if isinstance(v, int) else repr(float(v))
            if 'e' in t and '.' not in t:
                t = t.replace('e', '.0e')
            return r.choice([t, t, "'%s'" % t])
        return r.choice(["'%s'", '"%s"', '%s']) % v if str(v) and all(c.isalnum() or c in '_/.-' for c in str(v)) and not _odd(v) else '"%s"' % v
    if r.random() < .4:
        lines.append('# This is an example of an input file for MetSim')
    lines.append('MetSim:' + r.choice(['', '  # main section']))
    ind = r.choice(['  ', '    '])
    ov = params.get('out_vars')
    plain = ov and not any(x['out_name'] != v or 'units' in x for v, x in ov.items())
    listed = plain and r.random() < .4
    for k, v in _shuffled(dict(main, out_vars=list(ov)) if listed else main, r):
        noise()
        if k == 'out_vars':
            if r.random() < .5:
                lines.append('%sout_vars: [%s]' % (ind, ', '.join(r.choice(["'%s'", '%s', '"%s"']) % x for x in v)))
            else:
                lines.append('%sout_vars:' % ind)
                lines.extend('%s%s- %s' % (ind, ind, x) for x in v)
            continue
        lines.append('%s%s: %s%s' % (ind, k, scalar(v), r.choice(['', '', '  # so'])))
    sec['out_vars'] = {}
    for s, d in _shuffled({k: v for k, v in sec.items() if k != 'out_vars'}, r):
        noise()
        if not d or (s != 'out_vars' and r.random() < .2):
            lines.append('%s: {%s}' % (s, ', '.join('%s: %s' % (k, scalar(v)) for k, v in d.items())))
            continue
        lines.append('%s:' % s)
        for k, v in (list(d.items()) if s == 'forcing_vars' else _shuffled(d, r)):
            noise()
            lines.append('%s%s: %s' % (ind, k, scalar(v)))
    if ov is not None and not ov:
        lines.append('out_vars:' + r.choice([' {}', '', ' []']))
    if ov and not (listed and r.random() < .7):
        lines.append('out_vars:')
        for v, x in ov.items():
            if r.random() < .3:
                lines.append('%s%s: {%s}' % (ind, v, ', '.join("%s: '%s'" % kv for kv in x.items())))
            else:
                lines.append('%s%s:' % (ind, v))
                for kv in x.items():
                    lines.append("%s%s%s: '%s'" % ((ind, ind) + kv))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def _odd(v):
    """would YAML take it for something else than text?"""
    s = str(v)
    return s.lower() in ('true', 'false', 'yes', 'no', 'on', 'off', 'null', '~', 'y', 'n') or s[:1] in '-.' or s.replace('.', '').isdigit() or '/' in s or '-' in s


def opts(path, scheduler='threads', workers=1, verbose=False):
    """through the parser of the command line"""
    from metsim.cli.ms import parse
    return parse([path, '-s', scheduler, '-n', str(workers)] + (['-v'] if verbose else []))


def read(path, **kw):
    from metsim import io
    return io.read_config(opts(path, **kw))
