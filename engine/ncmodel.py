"""Assumed contracts of netCDF4: a file has dimensions (one of which may grow) and variables, listed in the order of their
creation; a variable holds the values assigned to it; values that are not assigned are the fill value; characters are stored byte by byte."""
from __future__ import annotations
import z3
import numpy as rnp
from .core import *
from .seq import *
from . import arr as A
from .arr import SArr
from . import builtins_ as B
from . import interp as M
from . import npm
from . import filem as FM
from .libm import _mod
from .h5model import ents, name_of

N = M.Native


class DimCls:
    name = "Dimension"

    def isinst(self, o, t):
        return t is object

    def getattr(self, o, n):
        if n == "size":
            return self.len(o)
        if n == "name":
            return o.attrs["_n"]
        if n == "isunlimited":
            return N("isunlimited", lambda: o.attrs["_u"])
        raise Unsupported("netCDF4 Dimension." + n)

    def len(self, o):
        return mk(ex(o.attrs["_s"]))

    def truth(self, o):
        return True


class VarCls:
    name = "Variable"

    def isinst(self, o, t):
        return t is object

    def dims(self, o):
        return o.attrs["_d"]

    def shape(self, o):
        return [A.sh(ex(d.attrs["_s"])) for d in self.dims(o)]

    def getattr(self, o, n):
        if n in ("set_auto_mask", "set_auto_scale", "set_auto_maskandscale", "set_always_mask"):
            return N(n, lambda *a: None)
        if n == "shape":
            return tuple(mk(ex(s)) for s in self.shape(o))
        if n == "dtype":
            return o.attrs["_dt"]
        if n == "ndim":
            return len(self.dims(o))
        if n == "dimensions":
            return tuple(d.attrs["_n"] for d in self.dims(o))
        if "at:" + n in o.attrs:
            return o.attrs["at:" + n]
        raise Unsupported("netCDF4 Variable." + n)

    def setattr(self, o, n, v):
        o.attrs["at:" + n] = v

    def fill(self, o, *i):
        f = o.attrs.get("_fillf")
        if f is None:
            dt = o.attrs["_dt"]
            f = o.attrs["_fillf"] = F_(CTX.name("fill"), len(self.dims(o)), dt)
        return f(*i)

    def array(self, o):
        """the values of a numeric variable"""
        if "_a" not in o.attrs:
            o.attrs["_a"] = SArr.make(self.shape(o), lambda *i: self.fill(o, *i), o.attrs["_dt"])
        return o.attrs["_a"]

    def chars(self, o):
        s = self.shape(o)
        if not all(isinstance(x, int) for x in s):
            raise Unsupported("a netCDF variable of characters with unknown dimensions")
        def get(pre, rest):
            if not rest:
                return o.attrs["_c"].get(pre, b"")
            return PList(Seq.of(*[get(pre + (k,), rest[1:]) for k in range(rest[0])]))
        return get, s

    def grow(self, o, v):
        """assignment of the first record along the dimension that grows"""
        d = self.dims(o)[0]
        if not d.attrs["_u"] or not isinstance(d.attrs["_s"], int):
            raise Unsupported("netCDF record")
        d.attrs["_s"] = max(d.attrs["_s"], 1)

    def getitem(self, o, ix):
        if "_c" in o.attrs:
            get, s = self.chars(o)
            if isinstance(ix, slice) and ix == slice(None):
                return get((), s)
            if isinstance(ix, int) and 0 <= ix < s[0]:
                return get((ix,), s[1:])
            raise Unsupported("index of a netCDF variable of characters")
        r = A.getitem(self.array(o), ix if isinstance(ix, tuple) else (ix,))
        return r.copy() if isinstance(r, SArr) else r

    def setitem(self, o, ix, v):
        ds = self.dims(o)
        if "_c" in o.attrs:
            ix = ix if isinstance(ix, tuple) else (ix,)
            ix = tuple(M.force(x) for x in ix)
            v = M.force(v)
            if len(ix) != len(ds) or not all(isinstance(x, int) for x in ix) or not isinstance(v, bytes) or len(v) > 1:
                raise Unsupported("assignment to a netCDF variable of characters")
            for x, n in zip(ix, self.shape(o)):
                if not isinstance(n, int):
                    raise Unsupported("a netCDF variable of characters with unknown dimensions")
                if not 0 <= x < n:
                    raise_py(IndexError, "index exceeds dimension bounds")
            o.attrs["_c"][ix] = v
            return
        if ds and ds[0].attrs["_u"]:
            if len(ds) == 1 and isinstance(ix, slice) and ix == slice(None) and is_num(v):
                return      # a scalar for all (so far no) records
            if not (isinstance(ix, int) and ix == 0):
                raise Unsupported("netCDF record")
            self.grow(o, v)
            a = npm.asarray(v)
            want = self.shape(o)[1:]
            if len(want) != a.ndim or not CTX.implied(z3.And(*[ex(x) == ex(y) for x, y in zip(want, a.shape)])):
                raise Unsupported("netCDF record of another shape")
            a = A.astype(a, o.attrs["_dt"]) if a.dt != o.attrs["_dt"] else a.copy()
            f = a.snap()
            o.attrs["_a"] = SArr.make([1] + list(a.shape), lambda t, *i: f(*i), o.attrs["_dt"])
            return
        a = self.array(o)
        if isinstance(ix, slice) and ix == slice(None):
            v2 = npm.asarray(v) if not is_num(v) else v
            if isinstance(v2, SArr) and v2.ndim:
                # netCDF4 (unlike numpy) would also accept fewer values
                if v2.ndim != a.ndim or not CTX.implied(z3.And(*[ex(x) == ex(y) for x, y in zip(a.shape, v2.shape)])):
                    raise Unsupported("netCDF data of another shape")
        A.setitem(a, ix if isinstance(ix, tuple) else (ix,), v)

    def len(self, o):
        return mk(ex(self.shape(o)[0]))

    def iter(self, o):
        return self.getitem(o, slice(None))

    def asarray(self, o):
        return self.array(o)

    def truth(self, o):
        return True


def F_(name, n, dt):
    f = z3.Function(name, *([IS] * n), FS if dt.kind == "f" else IS)
    return f if n else (lambda: f())


class SetCls:
    name = "Dataset"

    def isinst(self, o, t):
        return t is object

    def enter(self, o):
        return o

    def leave(self, o):
        pass

    def truth(self, o):
        return True

    def getattr(self, o, n):
        if n in ("variables", "dimensions"):
            return o.attrs["_" + n]
        f = getattr(self, "m_" + n, None)
        if f is not None:
            return N("netCDF4." + n, lambda *a, **k: f(o, *a, **k))
        if "at:" + n in o.attrs:
            return o.attrs["at:" + n]
        raise Unsupported("netCDF4 Dataset." + n)

    def setattr(self, o, n, v):
        o.attrs["at:" + n] = v

    def m_close(self, o):
        return None

    def m_createDimension(self, o, n, size=None):
        n = name_of(n)
        if n in dict(ents(o.attrs["_dimensions"])):
            raise_py(RuntimeError, "NetCDF: String match to name in use")
        # a dimension of size 0 is an unlimited one
        s = size if size is None else M.force(size)
        if s is not None and CTX.branch(ex(s) == 0):
            s = None
        d = Obj(DIM, {"_n": n, "_s": 0 if s is None else A.sh(ex(s)), "_u": s is None})
        B.setitem_(o.attrs["_dimensions"], n, d)
        return d

    def m_createVariable(self, o, n, dt, dims=(), fill_value=None, **k):
        n = name_of(n)
        if n in dict(ents(o.attrs["_variables"])):
            raise_py(RuntimeError, "NetCDF: String match to name in use")
        if set(k) - {"zlib", "complevel"}:
            raise Unsupported("createVariable option")
        dims = M.force(dims)
        dims = [dims] if isinstance(dims, str) else M.iter_seq(dims).concrete()
        have = dict(ents(o.attrs["_dimensions"]))
        for d in dims:
            if d not in have:
                raise_py(KeyError, d)
        v = Obj(VAR, {"_n": n, "_d": [have[d] for d in dims], "_dt": None})
        if isinstance(dt, str) and dt == "S1":
            v.attrs["_c"], v.attrs["_dt"] = {}, rnp.dtype("S1")
        else:
            v.attrs["_dt"] = B.to_dtype(dt)
        B.setitem_(o.attrs["_variables"], n, v)
        return v


DIM, VAR, DSET = DimCls(), VarCls(), SetCls()


def dataset(path, mode="r", *a, **k):
    key = "nc:" + FM.fkey(path)
    files = FM.fs().files
    if mode == "w":
        files[key] = Obj(DSET, {"_variables": PDict(), "_dimensions": PDict()})
    if key not in files:
        raise_py(FileNotFoundError, "No such file or directory")
    return files[key]


_mod("netCDF4", Dataset=N("netCDF4.Dataset", dataset))
