"""small MetSim runs for the demonstrations"""
import os, shutil, sys, tempfile, warnings, logging
sys.path.insert(0, os.getcwd())
warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd, xarray as xr

DAILY = ['t_min', 't_max', 'prec', 'vapor_pressure', 'shortwave', 'tskc', 'pet', 'wind']
SUB = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure', 'rel_humid', 'spec_humid', 'longwave', 'tskc', 'wind']
D = tempfile.mkdtemp(prefix='demo_')
import atexit
atexit.register(shutil.rmtree, D, True)


def series(n, seed=1, lats=(40.,), lons=(-100.,)):
    r = np.random.RandomState(seed)
    s = (n, len(lats), len(lons))
    tn = r.uniform(-8, 12, s).round(2)
    return {'prec': (r.gamma(1., 8., s) * (r.uniform(size=s) < .6)).round(2), 't_min': tn,
            't_max': (tn + r.uniform(2, 14, s)).round(2), 'wind': r.uniform(1, 9, s).round(2)}


def inputs(name='a', start='2000-06-01', ndays=3, lats=(40.,), lons=(-100.,), mask=None, elev=300., seed=1, data=None, state=None, days=None, sdays=None, monthly=None):
    """write domain, state and forcing below D/name -> params"""
    d = os.path.join(D, name)
    os.makedirs(d + '/out', exist_ok=True)
    days = pd.date_range(start, periods=ndays) if days is None else days
    sdays = pd.date_range(end=days[0] - pd.Timedelta('1D'), periods=90) if sdays is None else sdays
    data = data or series(len(days), seed, lats, lons)
    state = state or {k: v for k, v in series(90, seed + 1, lats, lons).items() if k != 'wind'}
    dims = ('time', 'lat', 'lon')
    co = {'lat': list(lats), 'lon': list(lons)}
    g = (len(lats), len(lons))
    dom = {'mask': (dims[1:], np.ones(g) if mask is None else np.array(mask, float).reshape(g)),
           'elev': (dims[1:], np.broadcast_to(np.array(elev, float), g).copy())}
    dv = {'mask': 'mask', 'elev': 'elev', 'lat': 'lat', 'lon': 'lon'}
    for k, v in (monthly or {}).items():
        dom[k] = (('month',) + dims[1:], np.broadcast_to(np.array(v, float).reshape(12, 1, 1), (12,) + g).copy())
        dv[k] = k
    xr.Dataset(dom, coords=co).to_netcdf(d + '/domain.nc')
    xr.Dataset({k: (dims, v) for k, v in state.items()}, coords=dict(co, time=sdays)).to_netcdf(d + '/state.nc')
    xr.Dataset({k: (dims, v) for k, v in data.items()}, coords=dict(co, time=days)).to_netcdf(d + '/forcing.nc')
    return {'forcing': d + '/forcing.nc', 'domain': d + '/domain.nc', 'state': d + '/state.nc', 'forcing_fmt': 'netcdf',
            'out_dir': d + '/out', 'out_prefix': 'f', 'start': '%d/%d/%d' % (days[0].year, days[0].month, days[0].day),
            'stop': '%d/%d/%d' % (days[-1].year, days[-1].month, days[-1].day), 'scheduler': 'synchronous', 'method': 'mtclim',
            'forcing_vars': {k: k for k in data}, 'state_vars': {k: k for k in state}, 'domain_vars': dv, 'time_step': '60',
            'out_precision': 'f8', 'calendar': 'standard'}


def run(p, vs=None, **kw):
    """-> dataset of all output files"""
    from metsim.metsim import MetSim
    p = dict(p, **kw)
    vs = vs or (DAILY if int(p['time_step']) == 1440 else SUB)
    p['out_vars'] = {v: {'out_name': v} for v in vs}
    for f in os.listdir(p['out_dir']):
        os.remove(os.path.join(p['out_dir'], f))
    MetSim(p).run()
    fs = sorted(os.path.join(p['out_dir'], f) for f in os.listdir(p['out_dir']))
    parts = [xr.open_dataset(f, decode_times=False).load() for f in fs]
    for x in parts:
        x.close()
    return xr.concat(parts, 'time').sortby('time') if len(parts) > 1 else parts[0]


def same(a, b, tol=1e-6):
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
