"""helpers to record observations as integers"""
import numpy as np

NAN = -2000000000
HUGE = 1999999999


def q(x, scale):
    """nearest integers to x*scale; missing -> NAN, too large -> +-HUGE"""
    a = np.asarray(x, dtype=float) * scale
    r = np.where(np.isfinite(a), np.clip(np.round(np.where(np.isfinite(a), a, 0)), -HUGE, HUGE), NAN)
    r = np.where(np.isposinf(a), HUGE, np.where(np.isneginf(a), -HUGE, r))
    # the netCDF default fill value marks cells which were never written
    r = np.where(np.abs(np.asarray(x, float)) > 9e36, NAN, r).astype(np.int64)
    return r.tolist()


def q1(x, scale):
    return int(q(x, scale))


def utc_minutes(lon):
    import math
    return int(round(math.remainder(lon, 360) * 4))


def deep(case, **kw):
    """copy of a case with (nested) changes: cfg={...} is merged"""
    import copy
    c = copy.deepcopy(case)
    for k, v in kw.items():
        if isinstance(v, dict) and isinstance(c.get(k), dict):
            c[k].update(v)
        else:
            c[k] = v
    return c


def mant(x):
    """-> mantissas (7 digits) and decimal exponents: x = m * 10^e; missing
    -> m = NAN"""
    a = np.asarray(x, dtype=float)
    ok = np.isfinite(a) & (np.abs(a) < 9e36)
    z = np.where(ok & (a != 0), np.abs(a), 1.)
    e = np.floor(np.log10(z)).astype(int) - 6
    m = np.round(a / 10. ** e)
    over = np.abs(np.where(ok, m, 0)) >= 1e7
    m = np.where(over, m / 10, m)
    e = np.where(over, e + 1, e)
    e = np.where(ok & (a != 0), e, 0)
    m = np.where(ok, m, NAN)
    return np.round(m).astype(np.int64).tolist(), e.astype(int).tolist()
