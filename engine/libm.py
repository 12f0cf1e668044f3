"""Assumed contracts of other libraries (standard library, h5py, files)."""
from __future__ import annotations
import pathlib
import z3
import numpy as rnp
from .core import *
from .seq import *
from . import arr as A
from .arr import SArr
from . import builtins_ as B
from . import interp as M

N = M.Native


def deepcopy(v, memo=None):
    return subst(v, [(z3.Int("snap!"), z3.Int("snap!"))])


def copy_copy(v):
    v = M.force(v)
    if type(v) is Obj and isinstance(v.cls, M.Cls):
        return Obj(v.cls, v.attrs)
    if isinstance(v, PList):
        return PList(v.seq)
    raise Unsupported("copy.copy")


def _mod(name, **vars):
    m = M.Mod(name, vars)
    m.ext = True
    M.EXTERNAL[name] = m
    return m


_mod("copy", deepcopy=N("copy.deepcopy", deepcopy), copy=N("copy.copy", copy_copy))
_mod("itertools", count=N("itertools.count", lambda start=0, step=1: B.count_(start, step)))
def ctime(*a):
    CTX.assumptions.add("the text of the current time is one line of a fixed form and has no influence on what is read")
    return "Thu Jan  1 00:00:00 1970"


_mod("time", ctime=N("time.ctime", ctime))
_mod("warnings", warn=N("warnings.warn", lambda *a, **k: None))


# ----------------------------------------------------------------------------- pathlib, sys, rich
class PathCls:
    """pathlib.Path of an unknown path; the file system does not change while the function runs (assumed)"""
    name = "Path"

    def getattr(self, o, n):
        e = o.attrs["_e"]
        c = o.attrs.get("_c")
        if c is not None and n in ("name", "stem", "suffix", "parent", "suffixes", "as_posix", "with_suffix", "joinpath", "resolve", "absolute", "parts", "is_absolute"):
            if n in ("resolve", "absolute"):
                return N(n, lambda *a: o)
            v = getattr(c, n)
            if callable(v):
                return N(n, lambda *a: plain_path(v(*[x.attrs["_c"] if isinstance(x, Obj) else x for x in a])))
            return plain_path(v)
        if n == "exists":
            return N("Path.exists", lambda: mk(z3.Function("path.exists", SS, BS)(e)))
        if n == "suffixes":
            ns, sf = z3.Function("path.nsuffixes", SS, IS), z3.Function("path.suffix", SS, IS, SS)
            CTX.assume(ns(e) >= 0)
            return PList(Seq([Gen(ns(e), lambda k: mk(sf(e, k)))]))
        if n in ("name", "stem", "suffix"):
            return mk(z3.Function("path." + n, SS, SS)(e))
        if n == "parent":
            return path(mk(z3.Function("path.parent", SS, SS)(e)))
        if n == "with_suffix":
            return N("Path.with_suffix", lambda s: path(mk(z3.Function("path.with_suffix", SS, SS, SS)(e, sstr(s)))))
        raise Unsupported("Path." + n)

    def binop(self, op, a, b):
        if op == "truediv" and "_c" in a.attrs and isinstance(b, str) and not has_tok(b):
            return path(str(a.attrs["_c"] / b))
        if op == "truediv":
            return path(mk(z3.Function("path.join", SS, SS, SS)(a.attrs["_e"], sstr(b))))
        raise Unsupported("operator on a path")

    def text(self, o):
        return str(o.attrs["_c"]) if "_c" in o.attrs else mk(o.attrs["_e"])

    def isinst(self, o, t):
        return t is object


PATH = PathCls()


def plain_path(v):
    if isinstance(v, pathlib.PurePath):
        return path(str(v))
    if isinstance(v, (list, tuple)):
        return PList(Seq.of(*v)) if isinstance(v, list) else v
    return v


def path(x):
    if isinstance(x, Obj) and x.cls is PATH:
        return x
    if isinstance(x, str) and not has_tok(x):
        return Obj(PATH, {"_e": sstr(x), "_c": pathlib.PurePosixPath(x)})
    if isinstance(x, (str, SStr)):
        return Obj(PATH, {"_e": sstr(x)})
    raise Unsupported("Path of " + type(x).__name__)


_mod("pathlib", Path=N("pathlib.Path", path))


def sys_exit(code=None):
    raise PyExc(SystemExit(code))


_mod("sys", exit=N("sys.exit", sys_exit))
for _f in ("warn", "error", "info"):
    M.OVERRIDE["meshio._common." + _f] = lambda *a, **k: CTX.hooks["warn"](*a) if "warn" in CTX.hooks else None


_meta = _mod("importlib.metadata", version=N("importlib.metadata.version", lambda n: "0"))
_mod("importlib", metadata=_meta)


def reduce(f, xs, *init):
    xs = M.iter_seq(xs).concrete()
    if xs is None:
        raise Unsupported("functools.reduce over a symbolic sequence")
    xs = list(init) + xs
    if not xs:
        raise_py(TypeError, "reduce() of empty iterable")
    r = xs[0]
    for x in xs[1:]:
        r = M.call(f, [r, x], {})
    return r


def partial(f, *a, **kw):
    return N("partial", lambda *b, **k: M.call(f, list(a) + list(b), {**kw, **k}))


_mod("functools", reduce=N("functools.reduce", reduce), partial=N("functools.partial", partial))
