"""Round trips: the real writer, then the real reader on the file it wrote."""
from __future__ import annotations
import z3
import numpy as rnp
from .symmesh import *
from .obl import *
from . import filem
from . import xmlm
from . import arr as A
from . import npm

NN = {"vertex": 1, "line": 2, "line3": 3, "triangle": 3, "triangle6": 6, "quad": 4, "quad8": 8, "quad9": 9, "tetra": 4, "tetra10": 10, "hexahedron": 8, "hexahedron20": 20, "hexahedron27": 27, "wedge": 6, "wedge15": 15, "wedge18": 18, "pyramid": 5, "pyramid13": 13, "pyramid14": 14, "hexahedron24": 24, "tetra20": 20}


class SMesh:
    pass


def struct_mesh(types, pdim=3, point_data=(), cell_data=(), nonempty=False, pdt=FLD, cdt=INT, inrange=True, pts_nonempty=False):
    """a mesh with the given blocks (types) of any size; *_data: [(name, columns or None, dtype)]"""
    filem.reset()
    mod = M.load("meshio._mesh")
    s = SMesh()
    s.types = types
    s.P = z3.Int("P")
    require(s.P >= (1 if pts_nonempty else 0))
    s.pdim = pdim
    s.X = F("X", IS, IS, FS)
    s.points = SArr.make([s.P, pdim], lambda i, j: s.X(i, j), pdt)
    if pdt.itemsize < 8:
        s.points = SArr.make([s.P, pdim], lambda i, j: cast32(s.X(i, j)), pdt)
    s.L = [z3.Int(f"L{b}") for b in range(len(types))]
    s.D = [F(f"D{b}", IS, IS, IS) for b in range(len(types))]
    s.blocks = []
    i, j = loopvar("i"), loopvar("j")
    for b, t in enumerate(types):
        require(s.L[b] >= (1 if nonempty else 0))
        D = s.D[b]
        if inrange:
            require(z3.ForAll([i, j], z3.And(0 <= D(i, j), D(i, j) < s.P), patterns=[D(i, j)]))
        s.blocks.append(SArr.make([s.L[b], NN[t]], lambda i, j, D=D: D(i, j), cdt))
    s.pdata, s.cdata = {}, {}
    for n, cols, dt in point_data:
        s.pdata[n] = data_array("pd_" + n, [s.P], cols, dt)
    for n, cols, dt in cell_data:
        s.cdata[n] = [data_array(f"cd_{n}_{b}", [s.L[b]], cols, dt) for b in range(len(types))]
    pd = PDict(Seq.of(*s.pdata.items()))
    cd = PDict(Seq.of(*[(n, PList(Seq.of(*v))) for n, v in s.cdata.items()]))
    CB = mod.vars["CellBlock"]
    dims = M.table(mod.vars["topological_dimension"]) if False else None
    cells = PList(Seq.of(*[cell_block(CB, t, d) for t, d in zip(types, s.blocks)]))
    s.obj = Obj(mod.vars["Mesh"], {"points": s.points, "cells": cells, "point_data": pd, "cell_data": cd, "field_data": PDict(), "point_sets": PDict(), "cell_sets": PDict(), "gmsh_periodic": None, "info": None})
    return s


def cell_block(CB, t, d):
    kind, o = call_any(CB, [t, d])
    if kind != "return":
        raise Unsupported("CellBlock")
    o.attrs["data"] = d
    return o


def data_array(name, shape, cols, dt):
    dt = rnp.dtype(dt)
    srt = FS if dt.kind == "f" else IS
    f = F(name, *([IS] * (1 + (cols is not None))), srt)
    if dt.kind in "iu":
        CTX.hooks.setdefault("ranges", {})[f.name()] = dt
    if dt.kind == "f" and dt.itemsize < 8:
        return SArr.make(shape + ([cols] if cols is not None else []), lambda *i: cast32(f(*i)), dt)
    return SArr.make(shape + ([cols] if cols is not None else []), lambda *i: f(*i), dt)


def roundtrip(fmt, s, wkw=None, rkw=None, path="file", module=None, raises=None):
    """-> the mesh that is read, or None (with the obligations of not raising)"""
    m = module or "meshio." + fmt
    kind, r = call(m, "write", [path, s.obj], wkw)
    if kind != "return" and CUR.get("verbose"):
        print("   write raises", r)
    ensure("writing does not raise" if raises is None else raises, kind == "return")
    if kind != "return":
        return None
    kind, r = call(m, "read", [path], rkw)
    if kind != "return" and CUR.get("verbose"):
        print("   read raises", r)
    ensure("reading does not raise", kind == "return")
    if kind != "return":
        return None
    return r


def rounded(a, spec):
    """the values of the array after being written as text with a format"""
    return SArr.make(a.shape, lambda *i: text_round(a.elem(*i), spec), a.dt)


def padded(s, w=3):
    """2D points with a third coordinate 0"""
    if s.pdim >= w:
        return s.points
    return SArr.make([s.P, w], lambda i, j: z3.If(j < s.pdim, s.points.elem(i, j), fconst(0)), s.points.dt)


def same_array(label, got, want):
    got, want = npm.asarray(got), npm.asarray(want)
    if got.ndim != want.ndim:
        ensure(label + ": shape", False)
        return
    ensure(label + ": shape", z3.And(*[ex(a) == ex(b) for a, b in zip(got.shape, want.shape)]))
    ks = [z3.Int(f"i{d}") for d in range(want.ndim)]
    hy = [z3.And(0 <= k, k < ex(n)) for k, n in zip(ks, want.shape)]
    if z3.is_int_value(z3.simplify(ex(want.shape[-1]))) and 1 <= want.ndim and want.shape[-1] <= 30 and want.ndim > 1:
        # column by column
        for c in range(want.shape[-1]):
            ii = ks[:-1] + [z3.IntVal(c)]
            x, y = spec.conv(got.elem(*ii), want.elem(*ii))
            ensure(label, x == y, hy[:-1])
        return
    x, y = spec.conv(got.elem(*ks), want.elem(*ks))
    ensure(label, x == y, hy)


from . import spec  # noqa: E402


def same_points(r, s, want=None):
    same_array("points", r.attrs["points"], want if want is not None else padded(s))


def blocks_of(r):
    c = r.attrs["cells"].seq.concrete()
    if c is None:
        raise Unsupported("blocks of the mesh read")
    return [(b.attrs["type"], b.attrs["data"]) for b in c]


def nonempty_blocks(bs):
    """decide which blocks are empty (one path per choice) and leave those out"""
    return [(t, d) for t, d in bs if not CTX.implied(ex(d.shape[0]) == 0) and CTX.branch(ex(d.shape[0]) >= 1)]


def same_cells(r, want, drop_empty=False):
    got = blocks_of(r)
    if drop_empty:
        got, want = nonempty_blocks(got), nonempty_blocks(want)
    ensure("as many blocks", len(got) == len(want))
    if len(got) != len(want):
        return
    for (t, d), (u, w) in zip(got, want):
        ensure_same("block type", t, u)
        same_array("connectivity", d, w)


def cat_blocks(s, t):
    bs = [d for d, u in zip(s.blocks, s.types) if u == t]
    return A.concatenate(Seq([Items(bs)]))


def merged(s):
    """adjacent blocks of one type as one"""
    out = []
    for t, d in zip(s.types, s.blocks):
        if out and out[-1][0] == t:
            out[-1] = (t, A.concatenate(Seq.of(out[-1][1], d)))
        else:
            out.append((t, d))
    return out


def same_data(label, got, want):
    """dictionaries of arrays (or of lists of arrays)"""
    ents = M.dict_ents(got).concrete()
    if ents is None:
        raise Unsupported("data of the mesh read")
    ensure(label + ": names", sorted(str(k) for k, _ in ents) == sorted(want))
    d = {k: v for k, v in ents}
    for n, w in want.items():
        if n not in d:
            continue
        v = d[n]
        if isinstance(w, list):
            vs = v.seq.concrete()
            if vs is None:
                raise Unsupported("cell data of the mesh read")
            ensure(label + ": one array per block", len(vs) == len(w))
            for x, y in zip(vs, w):
                same_array(f"{label} {n}", x, y)
        else:
            same_array(f"{label} {n}", v, w)


def narrowed(a, dt):
    """the values of an array cast to another type"""
    dt = rnp.dtype(dt)
    return SArr.make(a.shape, lambda *i: cast_e(a.elem(*i), a.dt, dt), dt)
