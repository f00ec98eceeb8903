"""Run jobs against the real code, each in a forked child of a process which
has imported MetSim but never used it: every job sees a fresh MetSim, a crash
or a hang costs only its own job."""
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('MV_REPO', '/repo')


def warm():
    """import the code under test and compile its numba kernel once"""
    import warnings
    warnings.filterwarnings('ignore')
    os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'TRUE')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import hooks
    hooks.install()
    import metsim.metsim          # noqa
    try:
        from metsim.physics import solar_geom
        solar_geom(100., 40., 0.0065)
    except Exception:
        pass
    # what a run imports lazily, and the caches xarray fills on first use
    for m in ('scipy.interpolate', 'distributed', 'xarray.core.groupby',
              'xarray.core.rolling', 'multiprocessing.spawn', 'yaml',
              'multiprocessing.managers', 'xarray.core.dataarray'):
        try:
            __import__(m)
        except Exception:
            pass
    import numpy as np
    import pandas as pd
    import xarray as xr
    d = tempfile.mkdtemp(prefix='mvwarm_')
    try:
        t = pd.date_range('2000-01-01', periods=40)
        ds = xr.Dataset({'a': (('time', 'x'), np.ones((40, 2)))},
                        coords={'time': t, 'x': [1., 2.]})
        ds.to_netcdf(d + '/w.nc', encoding={'time': {'calendar': 'noleap'}})
        with xr.open_dataset(d + '/w.nc') as e:
            e = e.load()
        b = xr.concat([ds['a'], ds['a'] - ds['a']], dim='time').load()
        (2. * b.rolling(time=3).mean()).sel(time=slice(t[0], t[3]))
        ds.isel(x=0).to_dataframe()
    except Exception:
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _child(fn, arg, out, scratch):
    os.setpgid(0, 0)
    os.environ['MV_SCRATCH'] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('MV_DEBUG'):
        os.dup2(devnull, 2)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        res = ('ok', fn(arg))
    except BaseException as e:     # noqa
        res = ('exc', '%s: %s' % (type(e).__name__, str(e)[:600]), traceback.format_exc()[-3000:])
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(out + '.tmp', out)
    os._exit(0)


def run(fn, args, nproc=None, timeout=150):
    """-> list of ('ok', value) | ('exc', text, traceback) | ('crash', text) |
    ('timeout', text), in the order of args"""
    nproc = nproc or int(os.environ.get('MV_PROCS', '8'))
    base = tempfile.mkdtemp(prefix='mvpool_')
    results = [None] * len(args)
    todo = list(range(len(args)))[::-1]
    live = {}
    try:
        while todo or live:
            while todo and len(live) < nproc:
                k = todo.pop()
                out = os.path.join(base, 'r%d' % k)
                scratch = os.path.join(base, 's%d' % k)
                os.mkdir(scratch)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        _child(fn, args[k], out, scratch)
                    finally:
                        os._exit(70)
                live[pid] = (k, out, scratch, time.time())
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (k, out, scratch, t0) in list(live.items()):
                    if now - t0 > timeout:
                        for kill in (os.killpg, os.kill):
                            try:
                                kill(p, signal.SIGKILL)
                            except OSError:
                                pass
                        results[k] = ('timeout', 'no result within %d s' % timeout)
                time.sleep(0.004)
                continue
            if pid not in live:
                continue
            k, out, scratch, t0 = live.pop(pid)
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    results[k] = pickle.load(f)
                os.unlink(out)
            elif results[k] is None:
                sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
                results[k] = ('crash', 'process died, signal %d status %d' % (sig, status))
            shutil.rmtree(scratch, ignore_errors=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return results
