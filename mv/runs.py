"""Running the real code under observation of every call it makes to the
netCDF library, under injected faults and controlled interleavings, in forked
children, and recording what is in the files afterwards.  Nothing is judged."""
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import shutil
import threading
import time
import traceback
import types

import numpy as np

from . import hooks, world


class Injected(OSError):
    pass


# ------------------------------------------------------------ forked children
def fork(fn, *args, timeout=100):
    """-> ('ok', value) | ('exc', text) | ('killed', status) | ('timeout', '')"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        try:
            try:
                res = ('ok', fn(*args))
            except BaseException as e:      # noqa
                res = ('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    buf, t0 = b'', time.time()
    os.set_blocking(r, False)
    out = None
    while True:
        try:
            b = os.read(r, 1 << 20)
            if b == b'':
                break
            buf += b
        except BlockingIOError:
            if time.time() - t0 > timeout:
                out = ('timeout', '')
                break
            time.sleep(0.003)
    os.close(r)
    if out:
        for k in (os.killpg, os.kill):
            try:
                k(pid, signal.SIGKILL)
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    if out:
        return out
    if buf:
        return pickle.loads(buf)
    return ('killed', st)


# -------------------------------------------------------------- what is there
def content(path):
    """everything in a file, or None if it cannot be read"""
    import netCDF4
    try:
        with netCDF4.Dataset(path) as nc:
            nc.set_auto_mask(False)
            return {'dims': {k: len(v) for k, v in nc.dimensions.items()},
                    'attrs': {k: str(nc.getncattr(k)) for k in nc.ncattrs()},
                    'vars': {k: (v.dimensions, str(v.dtype), {a: str(v.getncattr(a)) for a in v.ncattrs()}, np.array(v[:]))
                             for k, v in nc.variables.items()}}
    except Exception:
        return None


def missing(a):
    a = np.asarray(a, float)
    return ~np.isfinite(a) | (np.abs(a) > 9e36)


FILL, GOOD, PART, OTHER = 0, 1, 2, 3


def codes(c, ref, names):
    """per variable and cell: does the file hold nothing, the result, part of
    it, or something else?  << >> if the file is not there or not readable,
    or has another shape"""
    out = []
    for v in names:
        if c is None or v not in c['vars']:
            return []
        a, b = c['vars'][v][3], ref['vars'][v][3]
        if a.shape[1:] != b.shape[1:]:
            return []
        n = max(a.shape[0], b.shape[0])
        x, y = np.full((n,) + b.shape[1:], np.nan), np.full((n,) + b.shape[1:], np.nan)
        x[:a.shape[0]], y[:b.shape[0]] = a, b
        x, y = x.reshape(n, -1), y.reshape(n, -1)
        mx, my = missing(x), missing(y)
        with np.errstate(all='ignore'):
            same = ~mx & ~my & (np.abs(x - y) <= 1e-9 * np.maximum(np.abs(x), np.abs(y)))
        for k in range(x.shape[1]):
            if mx[:, k].all():
                out.append(FILL)
            elif (same[:, k] | (mx[:, k] & my[:, k])).all():
                out.append(GOOD)
            elif (same[:, k] | mx[:, k]).all():
                out.append(PART)
            else:
                out.append(OTHER)
    return out


SKIP = {'history', 'out_dir'}


def frame(c, ref, skip=()):
    """aspects, other than the values of the variables, in which a file differs"""
    if c is None:
        return ['unreadable']
    out = []
    if c['dims'] != ref['dims']:
        out.append('dimensions')
    a, b = ({k: v for k, v in x['attrs'].items() if k not in SKIP and k not in skip} for x in (c, ref))
    if a != b:
        out.append('attributes')
    if list(c['vars']) != list(ref['vars']) and set(c['vars']) != set(ref['vars']):
        return out + ['variables']
    for v in ref['vars']:
        x, y = c['vars'][v], ref['vars'][v]
        if x[:2] != y[:2]:
            out.append('layout')
        if x[2] != y[2]:
            out.append('labels')
        if v in ref['dims'] and (x[3].shape != y[3].shape or not np.array_equal(x[3], y[3])):
            out.append('coordinates')
    return sorted(set(out))


# ------------------------------------------------------------------ observing
class Gate:
    """lets the workers make their calls in the given order of turns, as far
    as they can: where nobody whose turn it is comes, the turn passes on"""

    def __init__(self, order, workers, stall=0.008):
        self.order, self.workers, self.stall = list(order) or [1], workers, stall
        self.pos, self.who, self.cv = 0, {}, threading.Condition()
        self.last = time.time()

    def turn(self):
        return (self.order[self.pos % len(self.order)] - 1 + self.pos // len(self.order)) % self.workers

    def wait(self, th):
        with self.cv:
            n = self.who.setdefault(th, len(self.who) % self.workers)
            while self.turn() != n:
                left = self.last + self.stall - time.time()
                if left <= 0:
                    self.pos += 1
                    self.last = time.time()
                    self.cv.notify_all()
                    continue
                self.cv.wait(left)
            self.pos += 1
            self.last = time.time()
            self.cv.notify_all()


class Observer:
    """records the calls of one run; fault: {kind, step, file, var, nth, at}"""

    def __init__(self, log, names, refs=None, fault=None, gate=None, snap=True, maxcalls=4000, linger=0):
        self.linger = linger      # stay in the first sessions for a while: do others come in?
        self.log = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        self.pid = os.getpid()
        self.names, self.refs, self.fault, self.gate, self.snap = names, refs or {}, fault, gate, snap
        self.opens, self.inside, self.sets = {}, {}, {}
        self.loads, self.fired, self.ended = 0, False, False
        self.main, self.busy = threading.get_ident(), False
        self.mutex = threading.Lock()
        self.th = {}
        self.maxcalls, self.ncalls = maxcalls, 0

    def put(self, **e):
        with self.mutex:
            os.write(self.log, (json.dumps(dict(e, p=self.pid)) + '\n').encode())

    def close(self):
        with self.mutex:
            os.close(self.log)
            self.log = os.open(os.devnull, os.O_WRONLY)

    def number(self, th):
        return self.th.setdefault(th, len(self.th))

    def fire(self):
        self.fired = True
        if self.fault.get('once'):
            try:
                os.close(os.open(self.fault['once'], os.O_CREAT | os.O_EXCL))
            except FileExistsError:
                return          # another process was there before
        self.put(e='fault', kind=self.fault['kind'], th=self.number(threading.get_ident()))
        if self.fault['kind'] == 'kill':
            os._exit(137)
        raise Injected(28, 'injected fault')

    def due(self, step, ph, **at):
        f = self.fault
        if f is None or self.fired or f.get('step') != step or f.get('at', 'begin') != ph:
            return False
        return all(f.get(k) == v for k, v in at.items())

    def __call__(self, ev):
        if self.busy and ev['th'] == self.busy:
            return
        base = os.path.basename(ev['file'])
        out = self.names.get(base)
        mode, ph, kind, th = ev.get('mode'), ev['ph'], ev['ev'], ev['th']
        if ph == 'begin' and self.gate is not None and th != self.main and kind != 'get':
            self.gate.wait(th)
        if self.ncalls < self.maxcalls:
            self.ncalls += 1
            self.put(e='call', ph=ph, th=self.number(th), f=out or 0, k=kind, w=bool(out) and mode not in ('r',), late=self.ended)
        if self.ended:
            return
        if kind == 'open' and out is None and base.startswith('state'):
            if ph == 'begin':
                self.loads += 1
            if self.due('load', ph, nth=self.loads):
                self.fire()
        if out is None:
            if kind == 'close' and base.startswith('state') and self.due('compute', ph, nth=self.loads):
                self.fire()
            return
        key = (th, base)
        if kind == 'open':
            if mode == 'w':
                if ph == 'begin':
                    self.inside[key] = ('w', 0)
                if self.due('create', ph, file=out, part='open'):
                    self.fire()
            else:
                if ph == 'begin':
                    self.opens[base] = self.opens.get(base, 0) + 1
                    self.inside[key] = ('r+', self.opens[base])
                    self.sets[key] = 0
                if self.due('open', ph, file=out, nth=self.opens[base]):
                    self.fire()
                if ph == 'end' and self.linger > 0:
                    self.linger -= 1
                    time.sleep(.2)
        elif kind == 'set' and key in self.inside:
            m, nth = self.inside[key]
            if m == 'w':
                if self.due('create', ph, file=out, part='set'):
                    self.fire()
            else:
                if ph == 'begin':
                    self.sets[key] += 1
                if self.due('set', ph, file=out, nth=nth, var=self.sets[key]):
                    self.fire()
        elif kind == 'close' and key in self.inside:
            m, nth = self.inside[key]
            if ph == 'end':
                if self.snap and base in self.refs:
                    self.busy = th
                    try:
                        c = codes(content(ev['file']), self.refs[base], self.refs[base]['names'])
                    finally:
                        self.busy = False
                    self.put(e='create' if m == 'w' else 'session', f=out, codes=c)
                del self.inside[key]
            if m == 'w':
                if self.due('create', ph, file=out, part='close'):
                    self.fire()
            elif self.due('close', ph, file=out, nth=nth):
                self.fire()


def attempt(params, d, log, names, refs, fault=None, gate=None, snap=True, reads=True, made=None):
    """one run in this process -> 'ok' | 'error'"""
    o = Observer(log, names, refs, fault, gate, snap)
    if made is not None:
        made[0] = o
    hooks.set_recorder(o, d, reads)
    try:
        try:
            world.run_params(params)
            res, msg = 'ok', ''
        except Exception as e:
            res, msg = 'error', '%s: %s' % (type(e).__name__, str(e)[:300])
        o.ended = True
        if params.get('scheduler') in ('threads', 'threading'):
            n = len([t for t in threading.enumerate() if t is not threading.main_thread()])
            t0 = time.time()
            while n and res == 'error' and time.time() - t0 < .5:    # does anybody go on?
                time.sleep(.02)
    finally:
        hooks.set_recorder(None)
        o.close()
    return res, msg, o.fired


def reference(params, d):
    """the same run, synchronous and in one piece, into an empty directory"""
    p = dict(params, scheduler='synchronous', chunks={}, out_dir=os.path.join(d, 'reference'))
    world.run_params(p)
    res = {}
    for f in sorted(os.listdir(p['out_dir'])):
        c = content(os.path.join(p['out_dir'], f))
        c['names'] = [v for v in c['vars'] if v not in c['dims']]
        res[f] = c
    return res


def read_log(log):
    out = []
    if os.path.exists(log):
        with open(log) as f:
            for l in f:
                if l.endswith('\n'):
                    out.append(json.loads(l))
    return out


def snapshot(out_dir, refs):
    """-> per reference file [there, readable, codes]"""
    res = []
    for f in sorted(refs):
        p = os.path.join(out_dir, f)
        if not os.path.exists(p):
            res.append([0, 0, []])
            continue
        c = content(p)
        res.append([1, int(c is not None), codes(c, refs[f], refs[f]['names'])])
    return res


def safe_snapshot(out_dir, refs):
    r = fork(snapshot, out_dir, refs, timeout=30)
    return r[1] if r[0] == 'ok' else [[int(os.path.exists(os.path.join(out_dir, f))), 0, []] for f in sorted(refs)]


def calls(log):
    """the calls of worker and main threads as tuples; a fault ends the calls of its thread"""
    out, ths, ps = [], {}, {}
    for e in log:
        p = ps.setdefault(e['p'], len(ps) + 1)
        th = ths.setdefault((p, e.get('th')), len(ths) + 1)
        if e['e'] == 'call' and not e['late']:
            out.append([th, 1 if e['ph'] == 'begin' else 0, e['f'] if e['w'] else 0, e['k'], p])
        elif e['e'] == 'fault':
            out.append([th, 2, 0, 'fault', p])
    return out


def save(path, x):
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(x, f)
    os.rename(path + '.tmp', path)


def load(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return pickle.load(f)


class Computing:
    """the computation of a cell: may fail, and may be made to take turns"""

    def __init__(self, o, per, gate):
        self.o, self.per, self.gate, self.n = o, per, gate, 0

    def wrap(self, run):
        def f(*a, **k):
            self.n += 1
            o = self.o()
            if self.gate is not None:
                self.gate.wait(threading.get_ident())
            if o.fault and o.fault.get('step') == 'compute' and not o.fired and self.n == (o.fault['nth'] - 1) * self.per + 1:
                o.fire()
            return run(*a, **k)
        return f


def patch_compute(MetSim, comp):
    """-> what has to be put back"""
    old = dict(getattr(MetSim, 'methods', {}))
    if 'mtclim' in old:
        try:
            MetSim.methods['mtclim'] = types.SimpleNamespace(run=comp.wrap(old['mtclim'].run))
        except Exception:
            pass
    return old


def grid_shape(case, g):
    """shape of the grid and the chunk size along its dimensions (0: whole)"""
    dims = {'latlon': ('lat', 'lon'), 'lonlat': ('lon', 'lat'), 'yx': ('y', 'x'), 'hru': ('hru',)}[case['grid']['kind']]
    return list(g.active.shape), [int((case['cfg'].get('chunks') or {}).get(d, 0)) for d in dims]


def outside(mode, params, d, tag, log, names, refs, fault=None):
    """the run as a program of its own, with worker processes -> outcome, text"""
    conf, res = os.path.join(d, 'run_%s.pkl' % tag), os.path.join(d, 'res_%s' % tag)
    if fault:
        fault = dict(fault, once=os.path.join(d, 'once_%s' % tag))
    save(conf, {'params': dict(params, scheduler=mode), 'mode': mode, 'dir': d, 'log': log,
                'names': names, 'refs': refs, 'fault': fault, 'res': res})
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, MV_RUN=conf, DASK_TEMPORARY_DIRECTORY=d, TMPDIR=d, PYTHONDONTWRITEBYTECODE='1')
    work = os.path.join(d, 'work')
    os.makedirs(work, exist_ok=True)
    with open(os.path.join(d, 'err'), 'w') as err:
        pr = subprocess.Popen([sys.executable, os.path.join(here, 'mv', 'worker.py')], cwd=work, env=env, stdout=err, stderr=err, start_new_session=True)
        t0, seen, last = time.time(), 0, time.time()
        state = None
        while state is None:
            try:
                pr.wait(.2)
                state = 'killed' if pr.returncode < 0 else 'error'
            except subprocess.TimeoutExpired:
                n = os.path.getsize(log) if os.path.exists(log) else 0
                if n != seen:
                    seen, last = n, time.time()
                # nothing happens any more after somebody was killed
                idle = fault and fault['kind'] == 'kill' and os.path.exists(fault['once']) and time.time() - last > 60
                if time.time() - t0 > 110 or idle:
                    state = 'timeout'
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except OSError:
            pass
        pr.wait()
    r = load(res)
    if r is not None and state != 'timeout':
        return r
    with open(os.path.join(d, 'err')) as f:
        return state, f.read()[-300:]
