"""Deterministic families of meshes for the run-time evaluation of the contracts (bounded stand-in)."""
import numpy as np
import meshio
from meshio._common import num_nodes_per_cell

NN = dict(
    vertex=1, line=2, triangle=3, quad=4, tetra=4, hexahedron=8, wedge=6, pyramid=5, line3=3, triangle6=6,
    quad8=8, quad9=9, tetra10=10, hexahedron20=20, hexahedron27=27, wedge15=15, wedge18=18, pyramid13=13,
    pyramid14=14, line4=4, triangle10=10, hexahedron24=24, hexahedron64=64, triangle7=7, tetra14=14,
    hexahedron125=125, quad16=16, tetra20=20, line5=5, triangle15=15, quad25=25, tetra35=35, triangle12=12,
    wedge12=12, tetra8=8, hexahedron8=8,
)


def nn(t):
    if t.startswith("polygon"):
        return int(t[7:] or 5)
    return NN.get(t) or num_nodes_per_cell[t]


def relayout(a, how, rng):
    if how == "C":
        return np.ascontiguousarray(a)
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.zeros((2 * a.shape[0] + 1,) + a.shape[1:], a.dtype)
        big[: 2 * a.shape[0] : 2] = a
        big[1::2] = 77
        return big[: 2 * a.shape[0] : 2]
    if how == "big":
        return a.astype(a.dtype.newbyteorder(">"))
    raise ValueError(how)


def vals(rng, shape, dt, kind):
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    if kind == "tag":
        return rng.integers(1, 7, n).astype(dt).reshape(shape)
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        lo, hi = (max(ii.min, -1000), min(ii.max, 1000)) if kind != "wide" else (ii.min // 2, ii.max // 2)
        return rng.integers(lo, hi, n).astype(dt).reshape(shape)
    if kind == "huge":
        v = (rng.random(n) + 0.1) * 10.0 ** rng.integers(-30, 30, n) * rng.choice([-1.0, 1.0], n)
    elif kind == "special":
        v = rng.choice(np.array([0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 1e-5, 9.999999e-5, 1e5, 123456.7, 1e15, 1e16, 1e17, 1e22, -1e-9, 1e-100, 1e100, 0.5, 2.0 ** 53, 2.0 ** -30, 1 / 3, 100.0, 1e-4, 12345678.9, -7.0]), n)
    elif kind == "int":
        v = rng.integers(-50, 50, n).astype(float)
    else:
        v = (rng.random(n) - 0.4) * 7.0 / 3.0
    return v.astype(dt).reshape(shape)


def orient(t, d, pts):
    """swap nodes of negatively oriented cells (FLAC3D stores right-handed cells only)"""
    swap = {"tetra": [(0, 1)], "hexahedron": [(1, 3), (5, 7)], "wedge": [(1, 2), (4, 5)], "pyramid": [(1, 3)]}[t]
    first = {"tetra": (1, 2, 3), "hexahedron": (1, 3, 4), "wedge": (1, 2, 3), "pyramid": (1, 3, 4)}[t]
    for r in d:
        a, b, c = (pts[r[i]] - pts[r[0]] for i in first)
        if (np.dot(np.cross(a, b), c) < 0) != (t == "wedge"):
            for i, j in swap:
                r[i], r[j] = r[j], r[i]


def build(p):
    rng = np.random.default_rng(p.get("seed", 0))
    npts = p.get("npts", 9)
    dim = p.get("dim", 3)
    kind = p.get("values", "generic")
    pts = vals(rng, (npts, dim), p.get("pdtype", "f8"), kind)
    lay = p.get("layout", "C")
    cells = []
    for t, n in p["blocks"]:
        k = nn(t)
        if k <= npts:
            rows = [rng.permutation(npts)[:k] for _ in range(n)]
        else:
            rows = [rng.integers(0, npts, k) for _ in range(n)]
        d = np.array(rows, dtype=p.get("cdtype", "i8")).reshape(n, k)
        if p.get("last") and n and npts - 1 not in d[-1]:
            d[-1, -1] = npts - 1
        cells.append(("polygon" if t.startswith("polygon") else t, relayout(d, lay, rng)))
    if p.get("oriented"):
        for t, d in cells:
            orient(t, d, pts)
    pts = relayout(pts, lay, rng)

    def arr(n, nc, dt):
        a = vals(rng, (n,) if nc == 0 else (n, *nc) if isinstance(nc, list) else (n, nc), dt, kind if np.dtype(dt).kind == "f" else p.get("ivalues", "generic"))
        return relayout(a, lay, rng)

    pd = {nm: arr(npts, nc, dt) for nm, nc, dt in p.get("pd", [])}
    cd = {nm: [arr(n, nc, dt) for _, n in p["blocks"]] for nm, nc, dt in p.get("cd", [])}
    fd = {nm: np.array(v) for nm, v in p.get("fd", [])}
    ps = {nm: np.array(v, dtype=int) for nm, v in p.get("ps", [])}
    cs = {nm: [np.array(b, dtype=int) for b in v] for nm, v in p.get("cs", [])}
    return meshio.Mesh(pts, cells, point_data=pd, cell_data=cd, field_data=fd, point_sets=ps, cell_sets=cs)


def snapshot(mesh):
    """deep, byte exact copy of everything observable on a mesh"""
    def a(x):
        if isinstance(x, np.ndarray):
            return ("A", x.dtype.str, x.shape, x.tobytes())
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, tuple(a(y) for y in x))
        if isinstance(x, dict):
            return ("D", tuple((k, a(v)) for k, v in x.items()))
        return ("O", repr(x))
    return {
        "points": a(mesh.points),
        "cells": tuple((c.type, a(c.data), repr(c.tags)) for c in mesh.cells),
        "cells_len": len(mesh.cells),
        "point_data": a(mesh.point_data), "cell_data": a(mesh.cell_data), "field_data": a(mesh.field_data),
        "point_sets": a(mesh.point_sets), "cell_sets": a(mesh.cell_sets), "info": a(mesh.info),
        "gmsh_periodic": a(mesh.gmsh_periodic),
    }


def snapdiff(a, b):
    return [k for k in a if a[k] != b[k]]
