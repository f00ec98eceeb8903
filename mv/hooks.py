"""Observation points at the boundary of the code under test: the netCDF4
library.  Replaces netCDF4.Dataset by a subclass that reports every open,
assignment and close to a recorder (if one is set) before and after it
happens.  Nothing in /repo is changed; installed before metsim is imported."""
import collections.abc
import os
import threading

import numpy as np

_rec = None          # callable(event dict) or None
_dir = ''
_reads = False       # report reading as well


def set_recorder(r, directory='', reads=False):
    """report what happens to files opened for writing (reads: or reading)
    below a directory"""
    global _rec, _dir, _reads
    _rec, _dir, _reads = r, directory, reads


def _emit(**ev):
    if _rec is not None:
        _rec(ev)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import netCDF4
    Real = netCDF4.Dataset

    class VarProxy(object):
        __slots__ = ('_v', '_ds', '_n')

        def __init__(self, v, ds, n):
            object.__setattr__(self, '_v', v)
            object.__setattr__(self, '_ds', ds)
            object.__setattr__(self, '_n', n)

        def __getattr__(self, k):
            return getattr(self._v, k)

        def __setattr__(self, k, x):
            setattr(self._v, k, x)

        def __getitem__(self, k):
            if _rec is None or not _reads:
                return self._v[k]
            path, name = self._ds._mv_path, self._n
            _emit(ev='get', ph='begin', file=path, var=name, th=threading.get_ident())
            try:
                return self._v[k]
            finally:
                _emit(ev='get', ph='end', file=path, var=name, th=threading.get_ident())

        def __len__(self):
            return len(self._v)

        def __setitem__(self, k, x):
            if _rec is None:
                self._v[k] = x
                return
            path, name = self._ds._mv_path, self._n
            _emit(ev='set', ph='begin', file=path, var=name, key=k, shape=self._v.shape,
                  dims=self._v.dimensions, th=threading.get_ident())
            self._v[k] = x
            _emit(ev='set', ph='end', file=path, var=name, key=k, shape=self._v.shape,
                  dims=self._v.dimensions, th=threading.get_ident())

    class VarDict(collections.abc.MutableMapping):
        def __init__(self, real, ds):
            self._r, self._ds = real, ds

        def __getitem__(self, k):
            return VarProxy(self._r[k], self._ds, k)

        def __setitem__(self, k, v):
            self._r[k] = v

        def __delitem__(self, k):
            del self._r[k]

        def __iter__(self):
            return iter(self._r)

        def __len__(self):
            return len(self._r)

        def __contains__(self, k):
            return k in self._r

    class Dataset(Real):
        def __init__(self, filename, mode='r', *a, **kw):
            self_path = str(filename)
            w = ((mode not in ('r',) or _reads) and _rec is not None
                 and os.path.abspath(self_path).startswith(_dir))
            if w:
                _emit(ev='open', ph='begin', file=self_path, mode=mode, th=threading.get_ident())
            Real.__init__(self, filename, mode, *a, **kw)
            self._mv_set(self_path, mode, w)
            if w:
                _emit(ev='open', ph='end', file=self_path, mode=mode, th=threading.get_ident())

        def __new__(cls, *a, **kw):
            return Real.__new__(cls)

        def _mv_set(self, path, mode, w):
            _INFO[id(self)] = (path, mode, w)

        @property
        def _mv_path(self):
            return _INFO.get(id(self), ('?', '?', False))[0]

        @property
        def variables(self):
            vs = Real.variables.__get__(self)
            info = _INFO.get(id(self))
            if _rec is None or info is None or not info[2]:
                return vs
            return VarDict(vs, self)

        def createVariable(self, varname, *a, **kw):
            v = Real.createVariable(self, varname, *a, **kw)
            info = _INFO.get(id(self))
            if _rec is None or info is None or not info[2]:
                return v
            return VarProxy(v, self, varname)

        def close(self):
            info = _INFO.get(id(self))
            if _rec is not None and info and info[2]:
                _emit(ev='close', ph='begin', file=info[0], mode=info[1], th=threading.get_ident())
                r = Real.close(self)
                _INFO.pop(id(self), None)
                _emit(ev='close', ph='end', file=info[0], mode=info[1], th=threading.get_ident())
                return r
            _INFO.pop(id(self), None)
            return Real.close(self)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            if self.isopen():
                self.close()

    _INFO = {}
    netCDF4.Dataset = Dataset
    try:
        import netCDF4._netCDF4 as impl
        impl.Dataset = Dataset
    except Exception:
        pass


def cells_of(key, shape):
    """flat indices (over the spatial dimensions) an assignment touches"""
    sp = shape[1:]
    if not isinstance(key, tuple):
        key = (key,)
    if Ellipsis in [k if isinstance(k, type(Ellipsis)) else None for k in key]:
        i = [isinstance(k, type(Ellipsis)) for k in key].index(True)
        key = key[:i] + (slice(None),) * (len(shape) - len(key) + 1) + key[i + 1:]
    key = key + (slice(None),) * (len(shape) - len(key))
    a = np.arange(int(np.prod(sp))).reshape(sp)
    k2 = []
    for k, n in zip(key[1:], sp):
        if isinstance(k, slice):
            k2.append(np.arange(n)[k])
        elif isinstance(k, (int, np.integer)):
            k2.append(np.array([k]))
        else:
            k = np.asarray(k)
            k2.append(np.nonzero(k)[0] if k.dtype == bool else k)
    return [int(x) for x in a[np.ix_(*k2)].ravel()]
