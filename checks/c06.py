import random
from . import gauge
from .gauge import MCS, TRACE, weight  # noqa

ASSUMPTIONS = ['the intensity is sampled once a minute: a step may differ from the ideal triangle by its change over two minutes',
               'windows cut by midnight and windows shorter than 30 minutes are checked for rise, fall and dryness outside only']


def scenarios(tier, seed):
    r = random.Random(seed * 7 + 6)
    n = 90 if tier == 'quick' else 900
    out = []
    for k in range(n):
        c = gauge.base(r, tier, ['triangle', 'triangle', 'mix', 'mix', 'Triangle', 'MIX', 'Mix', 'uniform', 'Uniform', 'UNIFORM', 'TRIANGLE'], .3)
        if c['cfg']['prec_type'].lower() == 'mix':
            # exactly zero, and both sides of it
            nd = c['ndays']
            tm = [r.choice([-0.25, 0., 0.25, -0.125, -6., 4.]) for _ in range(nd)]
            c['data']['override'] = {'t_min': tm, 't_max': [t + 7. for t in tm]}
        out.append(c)
    return out


def observe(case):
    return gauge.observe_with('C06', case)
