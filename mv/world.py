"""Concretisation: turn an abstract scenario (a small JSON-able dict) into real
MetSim inputs on disk, run the real code on them, and read back what a user
sees: files, time stamps, labels, values.

Nothing here judges anything.  Expected behaviour lives in /verif/spec/*.tla.
"""
import json
import os
import shutil
import struct
import tempfile
import warnings

warnings.filterwarnings('ignore')
import numpy as np
import pandas as pd
import xarray as xr
import netCDF4

NAME = {'prec': 'prec', 't_min': 't_min', 't_max': 't_max', 'wind': 'wind'}
DAILY_VARS = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc',
              'pet', 'wind', 'daylength']
SUB_VARS = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure',
            'rel_humid', 'spec_humid', 'longwave', 'tskc', 'wind']
VALID_TS = [t for t in range(1, 361) if 1440 % t == 0] + [1440]
UNITS = {'pet': ['mm timestep-1', 'mm h-1', 'mm s-1'],
         'prec': ['mm timestep-1', 'mm h-1', 'mm s-1'],
         'shortwave': ['W m-2'], 'longwave': ['W m-2'],
         't_max': ['C', 'K'], 't_min': ['C', 'K'], 'temp': ['C', 'K'],
         'vapor_pressure': ['Pa', 'hPa', 'kPa'],
         'air_pressure': ['kPa', 'hPa', 'Pa'],
         'tskc': ['fraction', '%'], 'rel_humid': ['%', 'fraction'],
         'spec_humid': ['g g-1'], 'wind': ['m s-1'], 'daylength': ['s']}


# ---------------------------------------------------------------- calendars
def is_leap(y, cal):
    if cal in ('noleap', '365_day'):
        return False
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m, cal):
    if m == 2:
        return 29 if is_leap(y, cal) else 28
    return 30 if m in (4, 6, 9, 11) else 31


ALIAS = {'standard': ['', '', 'gregorian', 'proleptic_gregorian'], 'noleap': ['', '', '365_day']}


def next_day(ymd, cal):
    y, m, d = ymd
    if d < mdays(y, m, cal):
        return (y, m, d + 1)
    return (y, m + 1, 1) if m < 12 else (y + 1, 1, 1)


def prev_day(ymd, cal):
    y, m, d = ymd
    if d > 1:
        return (y, m, d - 1)
    return (y, m - 1, mdays(y, m - 1, cal)) if m > 1 else (y - 1, 12, 31)


def days_from(start, n, cal):
    out, cur = [], tuple(start)
    for _ in range(n):
        out.append(cur)
        cur = next_day(cur, cal)
    return out


def days_before(start, n, cal):
    out, cur = [], tuple(start)
    for _ in range(n):
        cur = prev_day(cur, cal)
        out.append(cur)
    return out[::-1]


def stamps(days, hour=0):
    return pd.DatetimeIndex([pd.Timestamp(y, m, d, hour) for y, m, d in days])


# ------------------------------------------------------------------ the grid
class Grid:
    """kind: latlon | lonlat (2-d mask, 1-d coordinates), yx (2-d mask, 2-d
    lat/lon variables, no index coordinates), hru (1-d, lat/lon variables)"""

    def __init__(self, g):
        self.kind = g.get('kind', 'latlon')
        lats, lons = g['lats'], g['lons']
        if self.kind == 'hru':
            self.dims = ('hru',)
            self.shape = (len(lats),)
            self.lat = np.array(lats, float)
            self.lon = np.array(lons, float)
        else:
            self.dims = {'latlon': ('lat', 'lon'), 'lonlat': ('lon', 'lat'),
                         'yx': ('y', 'x')}[self.kind]
            if self.kind == 'lonlat':
                self.shape = (len(lons), len(lats))
                self.lon, self.lat = np.meshgrid(lons, lats, indexing='ij')
            else:
                self.shape = (len(lats), len(lons))
                self.lat, self.lon = np.meshgrid(lats, lons, indexing='ij')
        self.lats, self.lons = np.array(lats, float), np.array(lons, float)
        n = int(np.prod(self.shape))
        self.n = n
        mask = g.get('mask') or [1] * n
        self.mask = np.array([np.nan if m is None else m for m in mask],
                             float).reshape(self.shape)
        elev = g.get('elev', 100.)
        self.elev = (np.full(self.shape, float(elev)) if np.isscalar(elev)
                     else np.array(elev, float).reshape(self.shape))
        self.active = self.mask > 0
        # what the dimensions are labelled with: nothing, or numbers of some type
        self.index = g.get('index')
        k = g.get('ids') or [37 * j + 5 for j in range(max(self.shape))]

        def ids(n):
            base = {'int8': 0, 'int16': 1000, 'float32': 1000, 'int32': 1701010100, 'uint32': 3701010101}.get(self.index, 17010101010101)
            return np.array([base + j for j in k[:n]], dtype=self.index)
        self.labels = {}
        if self.kind in ('latlon', 'lonlat'):
            t = self.index if self.index in ('float32', 'float64') else float
            self.labels = {'lat': self.lats.astype(t), 'lon': self.lons.astype(t)}
        elif self.index:
            self.labels = {d: ids(n) for d, n in zip(self.dims, self.shape)}

    def cells(self):
        return list(np.ndindex(*self.shape))

    def flat(self, idx):
        return int(np.ravel_multi_index(idx, self.shape))

    def coords(self):
        return dict(self.labels)

    def latlon_vars(self):
        if self.kind in ('latlon', 'lonlat'):
            return {}
        return {'lat': (self.dims, self.lat), 'lon': (self.dims, self.lon)}


# ------------------------------------------------------------------ the data
def gen_series(kind, seed, days, cellid, nd):
    """daily prec/t_min/t_max/wind for one cell.  All values are multiples of
    1/8 (exact in f4, in ascii and in the scaled binary format)."""
    r = np.random.RandomState((seed * 1000003 + cellid * 7919) % (2**31 - 1))
    q = lambda a, s=8: np.round(np.asarray(a) * s) / s
    if kind == 'random':
        wet = r.uniform(size=nd) < 0.6
        prec = np.where(wet, q(r.gamma(1., 8., nd)), 0.)
        tn = q(r.uniform(-12, 12) + r.uniform(-6, 6, nd), 4)
        tx = tn + q(r.uniform(0.5, 16, nd), 4)
        wind = q(r.uniform(0.25, 12, nd), 4)
    elif kind == 'tag':        # value identifies (cell, day)
        k = np.arange(nd)
        prec = 1. + k + 40. * (cellid % 20)
        tn = -20. + 0.25 * (k % 40) + 0. * cellid
        tx = tn + 2. + 0.5 * (cellid % 30)
        wind = 1. + 0.25 * k + 10. * (cellid % 9)
    elif kind == 'int':
        prec = r.randint(0, 60, nd).astype(float) * (r.uniform(size=nd) < .7)
        tn = r.randint(-9, 15, nd).astype(float)
        tx = tn + r.randint(1, 14, nd)
        wind = r.randint(1, 20, nd).astype(float)
    elif kind == 'cold':
        prec = q(r.uniform(0, 20, nd)); tn = q(r.uniform(-45, -25, nd), 4)
        tx = tn + q(r.uniform(0.25, 10, nd), 4); wind = q(r.uniform(1, 9, nd), 4)
    elif kind == 'hot':
        prec = q(r.uniform(0, 5, nd)) * (r.uniform(size=nd) < .2)
        tn = q(r.uniform(20, 30, nd), 4)
        tx = tn + q(r.uniform(5, 20, nd), 4); wind = q(r.uniform(1, 9, nd), 4)
    elif kind == 'humid':      # tiny temperature range, very wet
        prec = q(r.uniform(10, 60, nd)); tn = q(r.uniform(10, 24, nd), 4)
        tx = tn + q(r.uniform(0.25, 4, nd), 4); wind = q(r.uniform(1, 9, nd), 4)
    elif kind == 'swing':      # large day to day jumps
        prec = q(r.gamma(1., 8., nd)) * (r.uniform(size=nd) < .5)
        tn = q(np.where(np.arange(nd) % 2 == 0, -18., 14.) + r.uniform(-3, 3, nd), 4)
        tx = tn + q(r.uniform(0.5, 22, nd), 4); wind = q(r.uniform(1, 9, nd), 4)
    elif kind == 'dry':
        prec = np.zeros(nd); tn = q(r.uniform(0, 10, nd), 4)
        tx = tn + q(r.uniform(5, 15, nd), 4); wind = q(r.uniform(1, 9, nd), 4)
    else:
        raise ValueError(kind)
    if kind in ('random', 'swing', 'humid', 'cold', 'hot', 'dry'):
        # rare extremes
        e = np.random.RandomState((seed * 7919 + cellid * 104729 + nd) % (2**31 - 1))
        if e.uniform() < .3:
            for _ in range(1 + nd // 30):
                t, what = e.randint(nd), e.randint(5)
                if what == 0 and kind != 'dry':
                    prec[t] = e.choice([160., 255., 320., 480.5])
                elif what == 1:
                    tx[t] = max(tx[t], min(tn[t] + e.choice([26., 31.5, 38.]), 48.))
                elif what == 2:
                    wind[t] = e.choice([.125, 31., 52.5])
                elif what == 3 and kind != 'dry':
                    prec[t] = .125
                elif what == 4:
                    tx[t] = tn[t] + .25
    return dict(prec=prec, t_min=tn, t_max=tx, wind=wind)


class World:
    pass


def make_world(case):
    """-> World with days, grid, forcing[var] (time, *grid), state[var]."""
    w = World()
    w.case = case
    w.cal = case.get('calendar', 'standard')
    w.grid = g = Grid(case['grid'])
    w.nd = case['ndays']
    w.start = tuple(case['start'])
    w.days = days_from(w.start, w.nd, w.cal)
    # MetSim's own rule: 90 days (of the proleptic calendar) before start
    w.sdays = days_before(w.start, 90, w.cal)
    data = case.get('data', {})
    kind, seed = data.get('kind', 'random'), data.get('seed', 1)
    sk, ss = data.get('state_kind', 'random' if kind == 'tag' else kind), data.get('state_seed', seed + 17)
    ids = data.get('cell_ids')
    w.forcing = {v: np.full((w.nd,) + g.shape, np.nan) for v in ('prec', 't_min', 't_max', 'wind')}
    w.state = {v: np.full((90,) + g.shape, np.nan) for v in ('prec', 't_min', 't_max')}
    hist = data.get('history')   # total history length => forcing+state cut from one series
    for n, idx in enumerate(g.cells()):
        cid = ids[n] if ids else n
        if hist:
            # one long series indexed by absolute position; this world takes
            # [off-90, off) as state and [off, off+nd) as forcing
            off = data['offset']
            s = gen_series(kind, seed, None, cid, hist)
            for v in w.forcing:
                w.forcing[v][(slice(None),) + idx] = s[v][off:off + w.nd]
            for v in w.state:
                w.state[v][(slice(None),) + idx] = s[v][off - 90:off]
            continue
        s = gen_series(kind, seed, w.days, cid, w.nd)
        for v in w.forcing:
            w.forcing[v][(slice(None),) + idx] = s[v]
        s = gen_series(sk, ss, w.sdays, cid, 90)
        for v in w.state:
            w.state[v][(slice(None),) + idx] = s[v]
    for v, vals in (data.get('override') or {}).items():     # explicit daily series, all cells
        w.forcing[v][...] = np.array(vals, float).reshape((-1,) + (1,) * len(g.shape))
    for (v, t, c, val) in data.get('poke', []):              # single-value perturbation
        w.forcing[v][(t,) + g.cells()[c]] = val
    for (v, t, c, val) in data.get('poke_state', []):
        w.state[v][(t,) + g.cells()[c]] = val
    for v, spec in (data.get('extra') or {}).items():        # shortwave, longwave, vapor_pressure...
        lo, hi = spec
        w.forcing[v] = np.full((w.nd,) + g.shape, np.nan)
        for n, idx in enumerate(g.cells()):
            r = np.random.RandomState((seed * 31 + len(v) * 101 + 977 * (ids[n] if ids else n)) % (2**31 - 1))
            w.forcing[v][(slice(None),) + idx] = np.round(r.uniform(lo, hi, w.nd) * 8) / 8
    return w


# ------------------------------------------------------------- writing inputs
def _flip(ds, how, g):
    if how == 'desc' and g.kind in ('latlon', 'lonlat'):
        return ds.isel(lat=slice(None, None, -1))
    if how == 'perm':
        # whatever has labels can be found by them
        r = np.random.RandomState(5)
        return ds.isel(**{k: r.permutation(ds.sizes[k]) for k in g.dims if k in g.labels})
    return ds


def _turn(ds, names):
    """these variables have their dimensions the other way round"""
    return ds.assign({v: ds[v].transpose(*ds[v].dims[::-1]) for v in names if v in ds.data_vars})


def _superset(ds, g):
    """embed in a larger grid whose extra cells hold junk"""
    if g.kind not in ('latlon', 'lonlat'):
        return ds
    lat2 = np.concatenate([g.lats[:1] - 7.25, g.lats, g.lats[-1:] + 9.25])
    lon2 = np.concatenate([g.lons[:1] - 11.25, g.lons, g.lons[-1:] + 13.25])
    return ds.reindex(lat=lat2, lon=lon2, fill_value=-77.)


def build(w, d, case=None):
    """write the input files of world `w` into directory d; -> params"""
    case = case or w.case
    g, cal = w.grid, w.cal
    fmt = case.get('fmt', 'netcdf')
    opt = case.get('io', {})
    dtype = opt.get('dtype', 'f8')
    pre = opt.get('prefix', '')          # foreign variable names
    cfg = dict(case.get('cfg', {}))
    os.makedirs(d, exist_ok=True)

    # -- domain
    dom = {'mask': (g.dims, g.mask if opt.get('mask_float', True) or np.isnan(g.mask).any()
                    else g.mask.astype('i4')),
           'elev': (g.dims, g.elev)}
    dom.update(g.latlon_vars())
    tri = case.get('tri')
    if tri:
        # t_pk/dur: 12 monthly values, optionally shifted per cell
        sh = (12,) + g.shape
        step = np.array(tri.get('ids') or range(g.n), float).reshape(g.shape) * tri.get('cell_step', 0)
        for k in tri.get('only', []):      # these cells differ from the others
            step[g.cells()[k]] += tri['by']
        t_pk = np.array(tri['t_pk'], float).reshape((12,) + (1,) * len(g.shape)) + 0 * step
        dur = np.array(tri['dur'], float).reshape((12,) + (1,) * len(g.shape)) + 0 * step
        t_pk = t_pk + step
        dom['t_pk'] = (('month',) + g.dims, t_pk)
        dom['dur'] = (('month',) + g.dims, dur)
        w.t_pk, w.dur = t_pk, dur
    coords = dict(g.coords())
    if tri:
        coords['month'] = np.arange(12)
    domain = _turn(xr.Dataset(dom, coords=coords), opt.get('turn', {}).get('domain', []))
    dren = {}
    if pre:
        for v in list(domain.data_vars):
            dren[v] = pre + v
        domain = domain.rename(dren)
    domain.to_netcdf(os.path.join(d, 'domain.nc'))
    keep = ['mask', 'elev'] + (['t_pk', 'dur'] if tri else [])
    dvars = {dren.get(v, v): v for v in keep}
    if g.kind in ('latlon', 'lonlat'):
        dvars.update({'lat': 'lat', 'lon': 'lon'})
    else:
        dvars.update({dren.get('lat', 'lat'): 'lat', dren.get('lon', 'lon'): 'lon'})

    # -- state
    use = list(case.get('fvars') or ['prec', 't_min', 't_max', 'wind'])
    use += [v for v in w.forcing if v not in use and v not in NAME]
    hour = opt.get('hour', 0)

    # on the time coordinate of a no-leap file Feb 29 simply does not exist
    def timecoord(days, hour=0):
        return stamps(days, hour)
    st = xr.Dataset({v: (('time',) + g.dims, w.state[v]) for v in w.state},
                    coords=dict(g.coords(), time=timecoord(w.sdays)))
    ex = opt.get('state_extra_days', 0)
    if ex:
        # more state than needed: MetSim must pick the 90 days before start
        more = days_before(w.sdays[0], ex, cal)
        junk = xr.full_like(st.isel(time=slice(0, 1)), 99.).isel(time=np.zeros(ex, int))
        junk['time'] = timecoord(more)
        st = xr.concat([junk, st], 'time')
    name = case.get('alias') or cal       # calendars have several names
    enc = {'time': {'calendar': name, 'units': 'days since 1900-01-01'}}
    st = _turn(_flip(st, opt.get('state_order'), g), opt.get('turn', {}).get('state', []))
    if opt.get('superset'):
        st = _superset(st, g)
    if pre:
        st = st.rename({v: pre + v for v in st.data_vars})
    st.to_netcdf(os.path.join(d, 'state.nc'), encoding=enc)
    svars = {pre + v: v for v in w.state}

    # -- forcing
    fdims = ('time',) + g.dims
    met = xr.Dataset({v: (fdims, w.forcing[v].astype(dtype)) for v in use},
                     coords=dict(g.coords(), time=timecoord(w.days, hour if fmt == 'netcdf' else 0)))
    fvars = {pre + v: v for v in use}
    order = opt.get('order')
    exd = opt.get('extra_days', 0)
    if exd and fmt in ('netcdf', 'data'):
        before = days_before(w.days[0], exd, cal)
        after = days_from(next_day(w.days[-1], cal), exd, cal)
        j1 = xr.full_like(met.isel(time=slice(0, 1)), 55.).isel(time=np.zeros(exd, int))
        j2 = j1.copy()
        j1['time'] = timecoord(before, hour)
        j2['time'] = timecoord(after, hour)
        met = xr.concat([j1, met, j2], 'time')
    if fmt in ('netcdf', 'data'):
        met = _flip(met, order, g)
        if opt.get('superset') and fmt == 'netcdf':
            met = _superset(met, g)
        if opt.get('tdim_last') and fmt == 'netcdf':
            met = met.transpose(*(g.dims + ('time',)))
        met = _turn(met, opt.get('turn', {}).get('forcing', []))
        if pre:
            met = met.rename({v: pre + v for v in met.data_vars})
    if fmt == 'netcdf':
        forcing = os.path.join(d, 'forcing.nc')
        if opt.get('split_files'):
            h = max(1, len(met.time) // 2)
            for k, part in enumerate([met.isel(time=slice(0, h)), met.isel(time=slice(h, None))]):
                if len(part.time):
                    part.to_netcdf(os.path.join(d, 'forcing_part%d.nc' % k), encoding=enc)
            forcing = os.path.join(d, 'forcing_part*.nc')
        else:
            met.to_netcdf(forcing, encoding=enc)
    elif fmt == 'data':
        forcing = met
    else:
        fd = os.path.join(d, 'cells')
        os.makedirs(fd, exist_ok=True)
        forcing = []
        cols = opt.get('columns') or use
        scale = {'prec': 40., 't_min': 100., 't_max': 100., 'wind': 100.}
        scale.update(opt.get('scale', {}))
        sign = {'prec': 'unsigned', 't_min': 'signed', 't_max': 'signed', 'wind': opt.get('wind_sign', 'signed')}
        for idx in g.cells():
            if not g.active[idx] and opt.get('skip_inactive'):
                continue
            fn = os.path.join(fd, 'data_%s_%s' % (repr(float(g.lat[idx])), repr(float(g.lon[idx]))))
            tail = opt.get('tail_days', 0)
            M = np.column_stack([np.concatenate([w.forcing[v][(slice(None),) + idx], np.full(tail, 3.)]) for v in cols])
            if fmt == 'ascii':
                with open(fn, 'w') as f:
                    for row in M:
                        f.write(' '.join(repr(float(x)) for x in row) + '\n')
            else:
                with open(fn, 'wb') as f:
                    for row in M:
                        for v, x in zip(cols, row):
                            f.write(struct.pack('h' if sign[v] == 'signed' else 'H', int(round(x * scale[v]))))
            forcing.append(fn)
        if fmt == 'ascii':
            fvars = {v: v for v in cols}
        else:
            fvars = {v: '%s %s' % (scale[v], sign[v]) for v in cols}
        if opt.get('reverse_files'):
            forcing = forcing[::-1]
    w.met = met
    y, m, dd = w.days[0]
    y2, m2, d2 = w.days[-1]
    ts = cfg.pop('time_step', 60)
    if 'start' not in cfg:
        cfg['start'] = '%d/%d/%d' % (y, m, dd)
    if 'stop' not in cfg:
        cfg['stop'] = '%d/%d/%d' % (y2, m2, d2)
    out_vars = cfg.pop('out_vars', None)
    if out_vars is None:
        out_vars = {v: {'out_name': v} for v in (DAILY_VARS if int(ts) == 1440 else SUB_VARS)
                    if v != 'wind' or 'wind' in use or 'wind' in (case.get('constant_vars') or {})}
    elif isinstance(out_vars, list):
        out_vars = {v: {'out_name': v} for v in out_vars}
    params = {'forcing': forcing, 'domain': os.path.join(d, 'domain.nc'),
              'state': os.path.join(d, 'state.nc'), 'forcing_fmt': fmt,
              'out_dir': os.path.join(d, 'out'), 'out_prefix': 'forcing',
              'method': 'mtclim', 'time_step': ts, 'calendar': name,
              'scheduler': 'threading', 'num_workers': 1, 'verbose': 0,
              'forcing_vars': fvars, 'state_vars': svars, 'domain_vars': dvars,
              'out_vars': {k: dict(v) for k, v in out_vars.items()},
              'constant_vars': dict(case.get('constant_vars') or {}),
              'chunks': {}, 'out_freq': None, 'utc_offset': False,
              'period_ending': False, 'prec_type': 'uniform', 'out_precision': 'f8',
              'lw_type': 'prata', 'lw_cloud': 'cloud_deardorff'}
    params.update(cfg)
    os.makedirs(params['out_dir'], exist_ok=True)
    return params


# ------------------------------------------------------------- reading outputs
class Out:
    """what a user finds in out_dir"""


def read_files(out_dir, prefix=None):
    files = []
    for fn in sorted(os.listdir(out_dir)):
        if not fn.endswith('.nc') or (prefix is not None and not fn.startswith(prefix)):
            continue
        with netCDF4.Dataset(os.path.join(out_dir, fn)) as nc:
            nc.set_auto_mask(False)
            t = nc.variables['time']
            tv = np.array(t[:])
            dts = netCDF4.num2date(tv, t.units, getattr(t, 'calendar', 'standard')) if len(tv) else []
            st = [(x.year, x.month, x.day, x.hour * 60 + x.minute) for x in dts]
            rec = {'name': fn, 'stamps': st, 'calendar': getattr(t, 'calendar', None),
                   'tattrs': {k: t.getncattr(k) for k in t.ncattrs()},
                   'attrs': {k: nc.getncattr(k) for k in nc.ncattrs()},
                   'dims': {k: len(v) for k, v in nc.dimensions.items()},
                   'coords': {}, 'vars': {}, 'vdims': {}, 'vattrs': {}, 'dtype': {}}
            for k, v in nc.variables.items():
                if k in nc.dimensions:
                    if k != 'time':
                        rec['coords'][k] = np.array(v[:])
                    continue
                rec['vars'][k] = np.array(v[:])
                rec['vdims'][k] = v.dimensions
                rec['vattrs'][k] = {a: v.getncattr(a) for a in v.ncattrs()}
                rec['dtype'][k] = str(v.dtype)
        files.append(rec)
    return files


def collect(files):
    """concatenate all files of one run along time, in file order"""
    o = Out()
    o.files = files
    o.stamps = [s for f in files for s in f['stamps']]
    o.v = {}
    if files:
        for k in files[0]['vars']:
            o.v[k] = np.concatenate([f['vars'][k] for f in files], axis=0)
    return o


def run_params(params):
    import logging
    logging.disable(logging.CRITICAL)
    from metsim.metsim import MetSim
    ms = MetSim(params)
    ms.run()
    return ms


def _run_only(params):
    run_params(params)


def run_case(case, keep=False, runner=run_params):
    """build inputs, run MetSim, read everything back.  -> (World, Out, params)"""
    d = tempfile.mkdtemp(prefix='mv_', dir=os.environ.get('MV_SCRATCH') or None)
    try:
        w = make_world(case)
        params = build(w, d, case)
        w.params = params
        if runner is run_params:
            # in a process of its own, which knows nothing of other runs
            from mv import runs
            kind, x = runs.fork(_run_only, params)
            if kind != 'ok':
                raise RuntimeError('%s: %s' % (kind, x))
        else:
            runner(params)
        o = collect(read_files(params['out_dir'], params['out_prefix']))
        return w, o, params
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
