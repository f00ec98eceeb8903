import random
from . import gauge
from .gauge import MCS, TRACE, weight  # noqa

ASSUMPTIONS = ['daily cloud cover is that of the same configuration run at daily step (its value is judged by C21)',
               'UTC offsets are whole minutes (longitudes in steps of 0.25 degrees)']


def scenarios(tier, seed):
    r = random.Random(seed * 7 + 5)
    n = 90 if tier == 'quick' else 900
    out = []
    for k in range(n):
        c = gauge.base(r, tier, ['uniform', 'triangle', 'mix', 'Triangle', 'MIX', 'Uniform'], .55)
        out.append(c)
    return out


def observe(case):
    return gauge.observe_with('C05', case)
