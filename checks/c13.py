"""C13: whatever layout data come in, they are read by label or not at all (spec: Reader)"""
import datetime
import os
import random
import shutil
import struct
import tempfile
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from mv import runs, tlc, world

TRACE = 'ReaderTrace'
MCS = {'quick': [('MC_Reader', 'MC_Reader.cfg')], 'thorough': [('MC_Reader', 'MC_Reader_deep.cfg', {'workers': 6, 'timeout': 850})]}
ASSUMPTIONS = ['days of files per cell are counted from the first day of the run', 'missing values (NaN) in the input are passed on as missing',
               'files which are opened together continue each other along one axis']
TIMEOUT = 120
VARS = ['prec', 't_min', 't_max', 'wind']
CONST = {'prec': 40.5, 't_min': -7.25, 't_max': 33.25, 'wind': 9.75}
JUNK = {'prec': 500., 't_min': -77., 't_max': 88., 'wind': 66., 'mask': 1., 'elev': 4000.}
BASE = {'prec': (1., 2.), 't_min': (-5., .5), 't_max': (12.25, .75), 'wind': (1., .25)}


def composed(part, n, seed):
    """layouts composed by the specification, half of them incomplete"""
    cfg = 'MC_Reader_%s.cfg' % part
    ok, no, k = {}, {}, 0
    while k < 1 or (min(len(ok), len(no)) < n and k < 6):
        for b in tlc.simulate('MC_Reader', cfg, 6 * n, 12, seed * 11 + k):
            (ok if b['complete'] else no)[str(b)] = b
        k += 1
    r = random.Random(seed)
    ok, no = list(ok.values()), list(no.values())
    # long ones of the complete ones; of the incomplete ones something of every kind
    r.shuffle(ok)
    ok.sort(key=lambda b: -len(b['ops']))
    ok = ok[:max(n, len(ok) // 2)]
    r.shuffle(ok)
    by = {}
    r.shuffle(no)
    for b in no:
        o = b['ops'][-1]
        by.setdefault((o['op'], o.get('axis')), []).append(b)
    rows, no = list(by.values()), []
    while any(rows):
        no += [x.pop() for x in rows if x]
    return ok, no


def scenarios(tier, seed):
    r = random.Random(seed * 67 + 13)
    n = 100 if tier == 'quick' else 1000
    pool = {}
    for part in ('forcing', 'forcing_units', 'cells', 'state', 'domain', 'state_units', 'domain_units'):
        ok, no = composed(part, max(8, n // (2 if 'units' not in part else 4)), seed)
        pool[part] = [ok, no, 0, 0]
        if part in ('forcing', 'forcing_units'):
            # data in memory are not in files
            mem = [[b for b in x if not any(o['op'] in ('split', 'unfile', 'damage') for o in b['ops'])] for x in (ok, no)]
            pool['memory' + part[7:]] = mem + [0, 0]

    def take(part, good):
        p = pool[part]
        k = 0 if good else 1
        x = p[k][p[2 + k] % len(p[k])]
        p[2 + k] += 1
        return {'kind': x['kind'], 'ops': x['ops']}
    plain = {'kind': 'grid', 'ops': []}
    out = []
    for k in range(3 * n):
        units = k % 4 == 3
        u = '_units' if units else ''
        cells = not units and r.random() < .4
        harm = r.choice(['none', 'none', 'none', 'f', 'f', 's', 'd'])
        if k % 3 == 0:
            harm = r.choice(['none', 'f'])
        memory = not cells and r.random() < .4
        f = take('cells' if cells else ('memory' if memory else 'forcing') + u, harm != 'f')
        s = take('state' + u, harm != 's') if harm == 's' or r.random() < .5 else plain
        d = take('domain' + u, harm != 'd') if harm == 'd' or r.random() < .5 else plain
        if cells:
            fmt = r.choice(['ascii', 'binary'])
            # a file of bytes has no rows; what a row lacks is taken from the next
            if fmt == 'binary' and any(o['op'] in ('ragged', 'surplus') for o in f['ops']):
                fmt = 'ascii'
        else:
            fmt = 'data' if memory else 'netcdf'
        ts = r.choice([1440, 1440, 1440, 60, 180, 30])
        # the axis of the single cell of a unit has one position
        z = [4, 1] if units else [2, 2]
        case = {'f': dict(f, n=z + [3, 4]), 's': dict(s, n=z + [3, 3]), 'd': dict(d, n=z + [1, 2]), 'fmt': fmt, 'units': units, 'ts': ts, 'seed': r.randint(1, 10**6),
                'start': r.choice([[2000, 2, 27], [2001, 2, 27], [1999, 12, 30], [2001, r.randint(1, 12), r.randint(1, 25)]]),
                'calendar': r.choice(['standard', 'standard', 'noleap']) if not cells else 'standard', 'harm': harm,
                'cfg': {'chunks': r.choice([{}, {}, {'hru': 3} if units else {'lat': 1}]), 'scheduler': r.choice(['threads', 'synchronous']), 'num_workers': 2,
                        'method': 'mtclim', 'utc_offset': r.random() < .2}}
        if case['calendar'] == 'noleap' and r.random() < .6:
            # Feb 29 falls into the run or its state
            case['start'] = [2000, r.choice([2, 3, 4]), r.randint(25, 28)]
        out.append(case)
    return out


class Src:
    """the data of a source, and the layout they are written in"""

    def __init__(self, case, part):
        self.case, self.part, self.units = case, part, case['units']
        x = case[part]
        self.n, self.kind = x['n'], x['kind']
        self.r = random.Random(case['seed'] * 3 + len(part) + ord(part[0]))
        g = random.Random(case['seed'])
        n = self.n
        self.lats = [g.choice([-40., 10.5, 47.25]) + g.choice([.25, 1.5]) * k for k in range(n[0] + 2)]
        if len(set(self.lats)) < len(self.lats):
            self.lats = [10.5 + 1.5 * k for k in range(n[0] + 2)]
        self.lats.sort()
        self.lons = [g.choice([-120., 20.25]) + 1.75 * k for k in range(n[1] + 2)]
        self.lons = sorted(set(self.lons))
        while len(self.lons) < n[1] + 2:
            self.lons.append(self.lons[-1] + 2.5)
        self.ids = [7, 101, 102, 205, 330, 900][:n[0] + 2]
        self.unit_lons = [15., 20., -33.25, 100.5, 20., 77.]
        self.unit_lats = [10.5 + .5 * k for k in range(6)]
        cal = case['calendar']
        first = tuple(case['start'])
        self.days = world.days_from(first, 3, cal)
        self.sdays = world.days_before(first, 90, cal)
        self.style = {o['how'] for o in x['ops'] if o['op'] == 'style'}
        self.const = {VARS[o['var'] - 1] for o in x['ops'] if o['op'] == 'const'}

    @property
    def dims(self):
        return {1: 'hru', 3: 'time'} if self.units else {1: 'lat', 2: 'lon', 3: 'time'}

    def code(self, l):
        n = self.n
        return (l[0] - 1) + n[0] * ((l[1] - 1) + n[1] * (l[2] - 1))

    def value(self, v, l):
        b, s = BASE[v]
        return b + s * self.code(l)

    def decode(self, v, x):
        b, s = BASE[v]
        if abs(x - CONST[v]) < 1e-5:
            return [0]
        if not np.isfinite(x):
            return [-1]
        c = (x - b) / s
        k = int(round(c))
        n = self.n
        if abs(c - k) > 1e-4 or not 0 <= k < n[0] * n[1] * n[2]:
            return [-1]
        return [k % n[0] + 1, (k // n[0]) % n[1] + 1, k // (n[0] * n[1]) + 1, VARS.index(v) + 1]

    def latlon(self, l):
        return (self.unit_lats[l[0]], self.unit_lons[l[0]]) if self.units else (self.lats[l[0]], self.lons[l[1]])

    # ---- the data
    def dataset(self):
        n = self.n
        sh = (n[0],) if self.units else (n[0], n[1])
        gd = ('hru',) if self.units else ('lat', 'lon')
        co = {'hru': self.ids[1:n[0] + 1]} if self.units else {'lat': self.lats[1:n[0] + 1], 'lon': self.lons[1:n[1] + 1]}
        if self.part == 'f':
            ds = xr.Dataset({v: (('time',) + gd, np.array([[[self.value(v, (a, b, c)) for b in range(1, n[1] + 1)] for a in range(1, n[0] + 1)] for c in range(1, n[2] + 1)]).reshape((n[2],) + sh))
                             for v in VARS}, coords=dict(co, time=world.stamps(self.days)))
        elif self.part == 's':
            g = np.random.RandomState(self.case['seed'] % (2**31))
            q = lambda a: np.round(a * 8) / 8
            tn = q(g.uniform(-10, 5, (90,) + sh))
            ds = xr.Dataset({'prec': (('time',) + gd, q(g.gamma(1., 5., (90,) + sh)) * (g.uniform(size=(90,) + sh) < .5)),
                             't_min': (('time',) + gd, tn), 't_max': (('time',) + gd, tn + q(g.uniform(1, 15, (90,) + sh)))},
                            coords=dict(co, time=world.stamps(self.sdays)))
        else:
            elev = 100. + 150. * np.arange(n[0] * n[1])
            ds = xr.Dataset({'mask': (gd, np.ones(sh, 'f8' if 'float' in self.style else 'i4')), 'elev': (gd, elev.reshape(sh))}, coords=co)
            if self.units:
                ds['lat'] = ('hru', self.unit_lats[1:n[0] + 1])
                ds['lon'] = ('hru', self.unit_lons[1:n[0] + 1])
        return ds

    def coord(self, axis, label):
        """a coordinate which is not needed"""
        if axis == 3:
            days = self.days if self.part == 'f' else self.sdays
            k = self.r.randint(1, 30) if self.part == 's' else self.r.randint(1, 5)
            cal = self.case['calendar']
            d = world.days_before(days[0], k, cal) if label == 0 else world.days_from(world.next_day(days[-1], cal), k, cal)
            return world.stamps(d)
        if axis == 1:
            return [self.ids[label]] if self.units else [self.lats[label]]
        return [self.lons[label]]

    def widths(self, axis):
        return 30 if self.part == 's' and axis == 3 else 1

    def positions(self, idx, axis, blocks):
        """positions of an axis -> positions in the file; blocks: lengths"""
        at = np.concatenate([[0], np.cumsum(blocks)]).astype(int)
        out = []
        for j in idx:
            q = list(range(at[j - 1], at[j]))
            if self.part == 's' and axis == 3 and self.shuffle:
                self.r.shuffle(q)
            out += q
        return out

    def netcdf(self):
        """-> list of [dataset, whole]"""
        files = [self.dataset()]
        # how many positions in the file a position of the specification stands for
        names = ['mask', 'elev'] if self.part == 'd' else list(files[0].data_vars)
        blocks = {a: [self.widths(a)] * (self.n[a - 1]) for a in self.dims if a != 3 or self.part != 'd'}
        fb, fn = [blocks], [list(names)]
        whole = [True]
        for o in self.case[self.part]['ops']:
            k = o['op']
            self.shuffle = k == 'permute'
            ax = o.get('axis')
            dim = self.dims.get(ax)
            if k == 'permute':
                files[0] = files[0].isel({dim: self.positions(o['idx'], ax, fb[0][ax])})
                fb[0][ax] = [fb[0][ax][j - 1] for j in o['idx']]
            elif k == 'turn':
                files[0] = files[0].transpose(*[self.dims[a] for a in o['dims'] if a in self.dims and self.dims[a] in files[0].dims])
            elif k == 'widen':
                c = self.coord(ax, o['new'])
                slab = files[0].isel({dim: [0] * len(c)})
                slab = slab.assign_coords({dim: c})
                slab = slab.map(lambda x: xr.full_like(x, JUNK.get(x.name, 0.)))
                files[0] = xr.concat([slab, files[0]] if o['front'] else [files[0], slab], dim)
                fb[0][ax] = [len(c)] + fb[0][ax] if o['front'] else fb[0][ax] + [len(c)]
            elif k == 'split':
                m = len(fb[0][ax])
                a, b = list(range(1, o['at'] + 1)), list(range(o['at'] + 1, m + 1))
                ds = files[0]
                files = [ds.isel({dim: self.positions(q, ax, fb[0][ax])}) for q in (a, b)]
                bl = fb[0][ax]
                fb = [dict(fb[0], **{}) for _ in range(2)]
                fb[0] = {**fb[0], ax: [bl[j - 1] for j in a]}
                fb[1] = {**fb[1], ax: [bl[j - 1] for j in b]}
                fn = [list(fn[0]), list(fn[0])]
                whole = [True, True]
            elif k == 'drop' and ax == 4:
                j = o['file'] - 1
                files[j] = files[j].drop_vars(fn[j].pop(o['pos'] - 1))
            elif k == 'drop':
                j = o['file'] - 1
                m = len(fb[j][ax])
                idx = [x for x in range(1, m + 1) if x != o['pos']]
                q = self.positions(idx, ax, fb[j][ax])
                if fb[j][ax][o['pos'] - 1] > 1 and self.r.random() < .5:
                    # one of its days only
                    full = self.positions(list(range(1, m + 1)), ax, fb[j][ax])
                    gone = self.r.choice([x for x in full if x not in q])
                    q = [x for x in full if x != gone]
                files[j] = files[j].isel({dim: q})
            elif k == 'twice':
                m = len(fb[0][ax])
                q = self.positions(list(range(1, m + 1)), ax, fb[0][ax])
                files[0] = files[0].isel({dim: q + self.positions([o['pos']], ax, fb[0][ax])})
            elif k == 'exclude':
                v = VARS[o['var'] - 1]
                files = [f.drop_vars(v) for f in files]
                fn = [[x for x in y if x != v] for y in fn]
            elif k == 'unfile':
                del files[o['file'] - 1], whole[o['file'] - 1]
            elif k == 'damage':
                whole[o['file'] - 1] = False
        return list(zip(files, whole))

    def finish(self, ds):
        """names, types and other matters of style -> dataset, encoding, names of the variables, unlimited"""
        st, r = self.style, self.r
        names = {v: v for v in ds.data_vars}
        if 'single' in st:
            ds = ds.map(lambda x: x.astype('f4') if x.dtype == 'f8' and x.name not in ('lat', 'lon') else x)
        if 'integer' in st:
            for v in ds.data_vars:
                if v in ('prec', 'mask', 'elev') and (ds[v] == ds[v].round()).all():
                    ds[v] = ds[v].astype(r.choice(['i2', 'i4']))
        if 'hour' in st and 'time' in ds.dims:
            ds = ds.assign_coords(time=ds.indexes['time'] + pd.Timedelta(minutes=self.minute))
        enc = {}
        if 'packed' in st:
            for v in ds.data_vars:
                if ds[v].dtype.kind == 'f' and v not in ('lat', 'lon', 'elev', 'mask'):
                    enc[v] = {'dtype': 'i2', 'scale_factor': .125, 'add_offset': 2., '_FillValue': -32767}
        if 'lazy' in st:
            for v in ds.data_vars:
                enc.setdefault(v, {}).update(zlib=True, chunksizes=tuple(1 for _ in ds[v].dims))
        if 'time' in ds.dims:
            u = 'days since 1900-01-01'
            if 'epoch' in st:
                u = self.epoch
            elif 'hour' in st:
                u = 'minutes since 1900-01-01'
            enc['time'] = {'calendar': self.case['calendar'], 'units': u, 'dtype': 'f8'}
        ren = {}
        if 'names' in st:
            ren.update({v: 'my_' + v for v in names})
        axes = {}
        if 'axisnames' in st:
            axes = {'lat': 'latitude', 'lon': 'longitude', 'hru': 'unit', 'time': 't'}
            axes = {k: v for k, v in axes.items() if k in ds.dims or k in ds.coords}
            ren.update(axes)
        ds = ds.rename({k: v for k, v in ren.items() if k in ds.variables})
        if 'bystander' in st:
            # it may have the name which another one is to get
            ds = ds.assign({r.choice(sorted(names)) if 'names' in st else 'other': ds[list(ds.data_vars)[0]] * 2. + 5.})
        enc = {ren.get(k, k): v for k, v in enc.items()}
        table = {ren.get(v, v): v for v in names}
        table.update({v: k for k, v in axes.items()})
        return ds, enc, table, [ren.get('time', 'time')] if 'unlimited' in st and 'time' in ren.keys() | {'time'} else []

    def write(self, d):
        """-> path, table of names"""
        r = self.r
        self.minute, self.epoch = r.choice([1, 360, 720, 1080, 1439]), r.choice(['hours since 1950-03-01 06:00', 'minutes since 1999-01-01', 'seconds since 1970-01-01'])
        parts = self.netcdf()
        base = {'f': 'forcing', 's': 'state', 'd': 'domain'}[self.part]
        table = None
        many = len(parts) > 1 or any(o['op'] == 'split' for o in self.case[self.part]['ops'])
        for k, (ds, whole) in enumerate(parts):
            ds, enc, t, unl = self.finish(ds)
            table = {**(table or {}), **t}
            p = os.path.join(d, '%s_part%d.nc' % (base, k) if many else base + '.nc')
            ds.to_netcdf(p, encoding=enc, unlimited_dims=[u for u in unl if u in ds.dims])
            if not whole:
                with open(p, 'rb') as f:
                    b = f.read()
                how = r.choice(['half', 'empty', 'text', 'gone'])
                if how == 'gone' and not many:
                    os.remove(p)
                else:
                    with open(p, 'wb') as f:
                        f.write({'half': b[:len(b) // 2], 'empty': b'', 'text': b'this is no data'}.get(how, b''))
        return os.path.join(d, base + '_part*.nc' if many else base + '.nc'), table

    def memory(self):
        self.minute, self.epoch = self.r.choice([1, 360, 720, 1080, 1439]), 'days since 1900-01-01'
        ds, enc, table, _ = self.finish(self.netcdf()[0][0])
        if 'lazy' in self.style:
            ds = ds.chunk({k: 1 for k in ds.dims})
        ds = ds.copy()
        return ds, table

    def cells(self, d, fmt):
        """files per cell -> list of files, table of names"""
        r, n = self.r, self.n
        d = os.path.join(d, 'cells')
        os.makedirs(d)
        cols = list(range(1, 5))
        mk = lambda la, lo: [la, lo, True, [[self.value(v, (la, lo, c)) for v in VARS] for c in range(1, n[2] + 1)]]
        junk = lambda: [JUNK[VARS[v - 1]] if fmt != 'binary' or VARS[v - 1] != 't_max' else 88. for v in cols]
        files = [mk(la, lo) for la in range(1, n[0] + 1) for lo in range(1, n[1] + 1)]
        for o in self.case['f']['ops']:
            k = o['op']
            if k == 'exclude':
                j = cols.index(o['var'])
                cols = [v for v in cols if v != o['var']]
                for f in files:
                    f[3] = [x[:j] + x[j + 1:] for x in f[3]]
            elif k == 'order':
                files = [files[j - 1] for j in o['idx']]
            elif k == 'columns':
                cols = [cols[j - 1] for j in o['idx']]
                for f in files:
                    f[3] = [[x[j - 1] for j in o['idx']] for x in f[3]]
            elif k == 'foreign':
                files.append([n[0] + 1, min(o['cell'][1], n[1] + 1), True, [junk() for _ in range(n[2])]])
            elif k == 'longer':
                for f in files:
                    f[3] = f[3] + [junk()]
            elif k == 'shorter':
                f = files[o['file'] - 1]
                f[3] = f[3][:len(f[3]) - o['by']]
            elif k == 'ragged':
                f = files[o['file'] - 1]
                f[3] = [x[:-1] if j == o['row'] - 1 else x for j, x in enumerate(f[3])]
            elif k == 'surplus':
                f = files[o['file'] - 1]
                f[3] = [[7.5] + x for x in f[3]]
            elif k == 'unfile':
                del files[o['file'] - 1]
            elif k == 'damage':
                files[o['file'] - 1][2] = False
        st = self.style
        scale = {'prec': 40., 't_min': 100., 't_max': 100., 'wind': 100.}
        if 'scaled' in st:
            scale = {'prec': 16., 't_min': 8., 't_max': 64., 'wind': 4.}
        if 'unsigned' in st:
            scale['prec'] = 2500.
        sign = {'prec': 'unsigned', 't_min': 'signed', 't_max': 'signed', 'wind': 'unsigned' if 'unsigned' in st else 'signed'}
        name = lambda x: ('%.4f' % x) if 'decimals' in st else repr(float(x))
        out = []
        for la, lo, whole, rows in files:
            y, x = (self.lats[la], self.lons[lo])
            p = os.path.join(d, '%s_%s_%s' % ('full_data' if 'prefix' in st else 'data', name(y), name(x)))
            if fmt == 'ascii':
                def num(v):
                    if 'integers' in st and v == int(v):
                        return '%d' % v
                    return '%.5f' % v if 'decimals' in st else '%.7e' % v if 'exponent' in st else repr(float(v))
                sep = '\t' if 'tabs' in st else ' '
                lines = []
                for k, row in enumerate(rows):
                    t = [num(v) for v in row]
                    if not whole and k == min(1, n[2] - 1):
                        t[r.randrange(len(t))] = r.choice(['abc', '--', '1,5', '#'])
                    lines.append(('   ' if 'spaces' in st else '') + (sep * (r.randint(1, 4) if 'spaces' in st else 1)).join(t) + (r.choice(['', '  ']) if 'spaces' in st else ''))
                    if 'blank' in st and k == len(rows) - 1:
                        lines += ['', '']
                with open(p, 'w') as f:
                    f.write('\n'.join(lines) + r.choice(['\n', '']))
            else:
                b = b''.join(struct.pack('h' if sign[VARS[v - 1]] == 'signed' else 'H', int(round(min(x * scale[VARS[v - 1]], 32767 if sign[VARS[v - 1]] == 'signed' else 65535))))
                             for row in rows for v, x in zip(cols, row))
                if not whole:
                    # half a value
                    b = b[:2 * len(cols) * n[2] - r.choice([1, 3])]
                with open(p, 'wb') as f:
                    f.write(b)
            if not whole and r.random() < .25:
                os.remove(p)
            out.append(p)
        names = [VARS[v - 1] for v in cols]
        if fmt == 'ascii':
            return out, {v: v for v in names}
        return out, {v: '%s %s' % (scale[v], sign[v]) for v in names}


def setup(case, d):
    """the files -> parameters, the forcing"""
    os.makedirs(d)
    f, s, m = Src(case, 'f'), Src(case, 's'), Src(case, 'd')
    fmt = case['fmt']
    if fmt == 'netcdf':
        forcing, ft = f.write(d)
    elif fmt == 'data':
        forcing, ft = f.memory()
    else:
        forcing, ft = f.cells(d, fmt)
    state, stt = s.write(d)
    domain, dt = m.write(d)
    # what the run is told to find, whether it is there or not
    pre = lambda src, vs: {('my_' + v if 'names' in src.style else v): v for v in vs}
    if fmt in ('netcdf', 'data'):
        ex = {VARS[o['var'] - 1] for o in case['f']['ops'] if o['op'] == 'exclude'}
        ft.update(pre(f, [v for v in VARS if v not in ex]))
    stt.update(pre(s, ['prec', 't_min', 't_max']))
    dt.update(pre(m, ['mask', 'elev']))
    if not case['units'] and 'axisnames' not in m.style:
        dt.update({'lat': 'lat', 'lon': 'lon'})
    ts = case['ts']
    y = lambda t: '%d/%d/%d' % t
    p = {'forcing': forcing, 'domain': domain, 'state': state, 'forcing_fmt': fmt, 'out_dir': os.path.join(d, 'out'), 'time_step': ts, 'calendar': case['calendar'],
         'forcing_vars': ft, 'state_vars': stt, 'domain_vars': dt, 'start': y(f.days[0]), 'stop': y(f.days[-1]), 'out_precision': 'f8', 'verbose': 0,
         'constant_vars': {v: CONST[v] for v in f.const}, 'out_vars': {v: {'out_name': v} for v in (world.DAILY_VARS if ts == 1440 else world.SUB_VARS)}}
    p.update(case['cfg'])
    if fmt == 'netcdf' and case['seed'] % 2 == 0 and case['harm'] != 'ref':
        del p['calendar']      # the files tell it
    r = random.Random(case['seed'] + 5)
    if fmt in ('netcdf', 'data'):
        how = r.choice(['text', 'date', 'forcing'])
        wide = any(o['op'] == 'widen' and o['axis'] == 3 for o in case['f']['ops'])
        if how == 'date':
            p['start'], p['stop'] = datetime.datetime(*f.days[0]), datetime.datetime(*f.days[-1])
        elif how == 'forcing' and not wide and case['harm'] == 'none':
            p['start'] = p['stop'] = 'forcing'
    return p, f


def execute(p):
    try:
        world.run_params(p)
        return True, ''
    except (Exception, SystemExit) as e:
        return False, ('%s: %s' % (type(e).__name__, e))[:300]


def collect(out, f):
    """values by label: {variable: {(lat, lon): series}}"""
    res = {}
    if not os.path.isdir(out):
        return res
    o = world.read_files(out)
    for x in o:
        for v in x['vars']:
            if v in ('lat', 'lon'):
                continue
            dims = x['vdims'][v][1:]
            a = x['vars'][v]
            for idx in np.ndindex(*a.shape[1:]):
                if f.units:
                    key = (f.ids.index(int(x['coords'][dims[0]][idx[0]])), 1)
                else:
                    lab = {k: float(x['coords'][k][i]) for k, i in zip(dims, idx)}
                    key = (f.lats.index(lab['lat']), f.lons.index(lab['lon']))
                res.setdefault(v, {}).setdefault(key, []).append(a[(slice(None),) + idx])
    return {v: {k: np.concatenate(s) for k, s in m.items()} for v, m in res.items()}


def times(out):
    return [(x['name'], x['stamps'], x['calendar']) for x in world.read_files(out)]


def observe(case):
    d = tempfile.mkdtemp(prefix='mv_', dir=os.environ.get('MV_SCRATCH') or None)
    warnings.filterwarnings('ignore')
    try:
        p, f = setup(case, os.path.join(d, 'a'))
        x = runs.fork(execute, p, timeout=60)
        if x[0] == 'exc':
            raise RuntimeError(x[1])
        ok, err = x[1] if x[0] == 'ok' else (False, str(x))
        got = collect(p['out_dir'], f)
        wrote = sorted({k for m in got.values() for k, s in m.items() if not runs.missing(s).all()})
        same, aspects, seen = [], [], []
        if ok:
            ref = {k: dict(case[k], kind='grid', ops=[o for o in case[k]['ops'] if o['op'] == 'const']) for k in 'fsd'}
            q, g = setup(dict(case, **ref, fmt='netcdf', harm='ref'), os.path.join(d, 'b'))
            # the constants as forcing which has that value everywhere
            ds = xr.open_dataset(q['forcing']).load()
            ds.close()
            for v in f.const:
                ds[v][...] = CONST[v]
            os.remove(q['forcing'])
            ds.to_netcdf(q['forcing'])
            q['constant_vars'] = {}
            y = runs.fork(execute, q, timeout=60)
            if y[0] != 'ok' or not y[1][0]:
                raise RuntimeError('reference: %s' % (y,))
            want = collect(q['out_dir'], g)
            aspects.append('time')
            same.append(times(p['out_dir']) == times(q['out_dir']))
            # packed values are decoded to single precision
            tol = 2e-5 if any(Src(case, k).style & {'single', 'packed'} for k in 'fsd') else 1e-7
            for v in want:
                aspects.append(v)
                same.append(bool(v in got and set(got[v]) == set(want[v]) and all(close(got[v][k], want[v][k], tol) for k in want[v])))
            if case['ts'] == 1440:
                for v in VARS:
                    for k in sorted(got.get(v, {})):
                        for c, z in enumerate(got[v][k]):
                            seen.append([[k[0], k[1], c + 1, VARS.index(v) + 1], f.decode(v, float(z))])
        return [{'kind': 'read', 'fmt': case['fmt'], 'f': case['f'], 's': case['s'], 'd': case['d'], 'ok': ok, 'err': err, 'got': seen, 'same': same, 'aspects': aspects,
                 'wrote': [list(k) for k in wrote]}]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def close(a, b, tol):
    if a.shape != b.shape:
        return False
    ma, mb = runs.missing(a), runs.missing(b)
    with np.errstate(all='ignore'):
        return bool((ma == mb).all() and (ma | (np.abs(a - b) <= tol * np.maximum(1., np.abs(b)))).all())
