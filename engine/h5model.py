"""Assumed contracts of h5py: a file is a tree of groups; a dataset holds the array that was stored in it; members of a
group come in the order of their names (unless the group tracks their order); attributes hold what was stored in them."""
from __future__ import annotations
import z3
import numpy as rnp
from .core import *
from .seq import *
from . import arr as A
from .arr import SArr
from . import builtins_ as B
from . import interp as M
from . import npm
from . import filem as FM
from .libm import _mod

N = M.Native


def ents(d):
    c = M.dict_ents(d).concrete()
    if c is None:
        raise Unsupported("an HDF5 group with a symbolic number of members")
    return c


def name_of(k):
    k = M.force(k)
    if isinstance(k, bytes):
        k = k.decode()
    if not isinstance(k, str) or has_tok(k):
        raise Unsupported("symbolic name in an HDF5 file")
    return k


class Node:
    def isinst(self, o, t):
        return t is object

    def enter(self, o):
        return o

    def leave(self, o):
        pass

    def getattr(self, o, n):
        if n == "attrs":
            return o.attrs["_at"]
        if n == "name":
            return o.attrs["_n"]
        f = getattr(self, "m_" + n, None)
        if f is None:
            raise Unsupported(f"h5py {self.name}.{n}")
        return N("h5py." + n, lambda *a, **k: f(o, *a, **k))


class GroupCls(Node):
    name = "Group"

    def members(self, o):
        e = ents(o.attrs["_e"])
        return e if o.attrs["_track"] else sorted(e, key=lambda x: x[0])

    def find(self, o, k):
        parts = [p for p in name_of(k).split("/") if p]
        if name_of(k).startswith("/"):
            o = o.attrs["_root"] or o
        for p in parts:
            if not isinstance(o, Obj) or not isinstance(o.cls, GroupCls):
                return None
            o = dict(ents(o.attrs["_e"])).get(p)
            if o is None:
                return None
        return o

    def getitem(self, o, k):
        r = self.find(o, k)
        if r is None:
            raise_py(KeyError, f"Unable to open object (object {k!r} doesn't exist)")
        return r

    def setitem(self, o, k, v):
        if isinstance(v, (rnp.dtype, type)):
            self.put(o, k, Obj(TYPE, {"_at": new_attrs(), "_n": "", "dtype": v}))
            return
        if isinstance(v, Obj) and isinstance(v.cls, Node):
            self.put(o, k, v)
            return
        self.m_create_dataset(o, k, data=v)

    def put(self, o, k, v):
        parts = [p for p in name_of(k).split("/") if p]
        for p in parts[:-1]:
            o = self.m_require_group(o, p)
        if parts[-1] in dict(ents(o.attrs["_e"])):
            raise_py(ValueError, "Unable to create (name already exists)")
        v.attrs["_n"] = (o.attrs["_n"].rstrip("/") + "/" + parts[-1])
        B.setitem_(o.attrs["_e"], parts[-1], v)
        return v

    def contains(self, o, k):
        return self.find(o, k) is not None

    def len(self, o):
        return len(ents(o.attrs["_e"]))

    def iter(self, o):
        return PList(Seq.of(*[k for k, _ in self.members(o)]))

    def truth(self, o):
        return True

    def m_keys(self, o):
        return self.iter(o)

    def m_values(self, o):
        return PList(Seq.of(*[v for _, v in self.members(o)]))

    def m_items(self, o):
        return PList(Seq.of(*[(k, v) for k, v in self.members(o)]))

    def m_get(self, o, k, default=None):
        r = self.find(o, k)
        return default if r is None else r

    def m_create_group(self, o, k, track_order=None):
        return self.put(o, k, new_group(o.attrs["_root"] or o, track_order))

    def m_require_group(self, o, k):
        r = self.find(o, k)
        return self.m_create_group(o, k) if r is None else r

    def m_close(self, o):
        return None

    m_flush = m_close

    def m_create_dataset(self, o, k, shape=None, dtype=None, data=None, compression=None, compression_opts=None, **kw):
        if compression is None and compression_opts is not None:
            raise_py(TypeError, "Compression options without compression")
        if set(kw) - {"chunks", "maxshape", "shuffle", "track_order", "fletcher32"}:
            raise Unsupported("create_dataset option")
        sub = ()
        if dtype is not None:
            dtype = B.to_dtype(dtype)
            if dtype.subdtype is not None:
                dtype, sub = dtype.subdtype
        if data is not None:
            a = to_data(data)
            if isinstance(a, SArr):
                if dtype is not None and dtype != a.dt:
                    a = A.astype(a, dtype) if hasattr(A, "astype") else npm.arr_attr(a, "astype").fn(dtype)
                a = a.copy()
                if shape is not None:
                    a = A.reshape(a, list(npm.shape_of(shape)))
                if a.ndim == 0 and compression is not None:
                    raise_py(TypeError, "Scalar datasets don't support chunk/filter options")
        else:
            if shape is None:
                raise_py(TypeError, "One of data, shape or dtype must be specified")
            shp = list(npm.shape_of(shape)) + list(sub)
            dt = dtype if dtype is not None else rnp.dtype("f4")
            a = SArr.make(shp, lambda *i: fconst(0) if dt.kind == "f" else z3.IntVal(0), dt)
        return self.put(o, k, Obj(DSET, {"_at": new_attrs(), "_n": "", "_a": a}))


class FileCls(GroupCls):
    name = "File"


class DsetCls(Node):
    name = "Dataset"

    def getattr(self, o, n):
        a = o.attrs["_a"]
        if n in ("shape", "dtype", "size", "ndim", "value", "len"):
            return npm.arr_attr(a, n) if n != "value" else a
        return Node.getattr(self, o, n)

    def getitem(self, o, ix):
        a = o.attrs["_a"]
        if isinstance(ix, tuple) and ix == ():
            return a.copy() if isinstance(a, SArr) and a.ndim else a if not isinstance(a, SArr) else A.getitem(a, ())
        r = A.getitem(a, ix)
        return r.copy() if isinstance(r, SArr) else r

    def setitem(self, o, ix, v):
        A.setitem(o.attrs["_a"], ix if isinstance(ix, tuple) else (ix,), v)

    def len(self, o):
        return mk(ex(o.attrs["_a"].shape[0]))

    def iter(self, o):
        return o.attrs["_a"]

    def asarray(self, o):
        return o.attrs["_a"]

    def truth(self, o):
        return True


class TypeCls(Node):
    name = "Datatype"

    def getattr(self, o, n):
        if n == "dtype":
            return o.attrs["dtype"]
        return Node.getattr(self, o, n)


class AttrsCls:
    name = "AttributeManager"

    def isinst(self, o, t):
        return t is object

    def getattr(self, o, n):
        if n == "create":
            return N("attrs.create", lambda k, data, shape=None, dtype=None: self.setitem(o, k, data))
        if n == "get":
            return N("attrs.get", lambda k, d=None: dict(ents(o.attrs["_d"])).get(name_of(k), d))
        if n in ("keys", "values", "items"):
            e = sorted(ents(o.attrs["_d"]), key=lambda x: x[0])
            return N("attrs." + n, lambda: PList(Seq.of(*[{"keys": k, "values": v, "items": (k, v)}[n] for k, v in e])))
        if n == "update":
            return N("attrs.update", lambda d: [self.setitem(o, k, v) for k, v in ents(d)] and None)
        raise Unsupported("h5py attrs." + n)

    def getitem(self, o, k):
        d = dict(ents(o.attrs["_d"]))
        if name_of(k) not in d:
            raise_py(KeyError, f"Can't open attribute {k!r}")
        return d[name_of(k)]

    def setitem(self, o, k, v):
        v = M.force(v)
        if isinstance(v, (PList, tuple)):
            v = npm.asarray(v)
        B.setitem_(o.attrs["_d"], name_of(k), v)

    def contains(self, o, k):
        return name_of(k) in dict(ents(o.attrs["_d"]))

    def iter(self, o):
        return PList(Seq.of(*sorted(k for k, _ in ents(o.attrs["_d"]))))

    def len(self, o):
        return len(ents(o.attrs["_d"]))


GROUP, HFILE, DSET, TYPE, ATTRS = GroupCls(), FileCls(), DsetCls(), TypeCls(), AttrsCls()


def new_attrs():
    return Obj(ATTRS, {"_d": PDict()})


def new_group(root, track=None, cls=GROUP):
    return Obj(cls, {"_e": PDict(), "_at": new_attrs(), "_n": "/", "_root": root, "_track": bool(track)})


class TextArr(Obj):
    """an array of texts"""


def to_data(v):
    v = M.force(v)
    if isinstance(v, (str, bytes, SStr, FM.SText, B.EncText)):
        return v
    if isinstance(v, (PList, tuple)):
        c = M.iter_seq(v).concrete()
        if c is not None and any(isinstance(x, (str, bytes, SStr, FM.SText, B.EncText)) for x in c):
            return v
    return npm.asarray(v)


def h5file(path, mode="r", **k):
    track = k.get("track_order")
    key = "h5:" + FM.fkey(path)
    files = FM.fs().files
    if mode in ("w", "w-", "x") or mode == "a" and key not in files:
        f = new_group(None, track, HFILE)
        files[key] = f
        return f
    if key not in files:
        raise_py(FileNotFoundError, "Unable to open file")
    return files[key]


_mod("h5py", File=N("h5py.File", h5file), special_dtype=N("h5py.special_dtype", lambda **k: rnp.dtype("i4")), Group=M.Opaque("h5py.Group"), Dataset=M.Opaque("h5py.Dataset"))
