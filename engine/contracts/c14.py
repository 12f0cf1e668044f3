"""Solver formats: what a writer puts into a file is read back by the reader of the format (see c15.py)."""
from ..symmesh import *
from ..obl import *
from ..roundtrip import *


def ugrid(blocks, suffix, f32=False):
    def run():
        s = struct_mesh(blocks, pts_nonempty=True, cell_data=[("ugrid:ref", None, "i4")])
        r = roundtrip("ugrid", s, path="file" + suffix + ".ugrid")
        if r is None:
            return
        same_points(r, s, narrowed(s.points, "f4") if f32 else None)
        order = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
        want = sorted(zip(s.types, s.blocks, s.cdata["ugrid:ref"]), key=lambda x: order.index(x[0]))
        same_cells(r, [x[:2] for x in want], drop_empty=True)
        zero = lambda d: SArr.make([d.shape[0]], lambda i: z3.IntVal(0), INT)
        same_data("reference tags", r.attrs["cell_data"], {"ugrid:ref": [z if t in ("triangle", "quad") else zero(d) for t, d, z in want if CTX.branch(ex(d.shape[0]) >= 1)]})
    return run


CONTRACTS = []
for sfx in ["", ".b8l", ".b8", ".b4", ".lb8l", ".lb8", ".lb4", ".r8", ".r4", ".lr8", ".lr4"]:
    f32 = sfx.endswith("4") or sfx == ""
    CONTRACTS.append((f"ugrid{sfx}: surface", ugrid(["triangle", "quad"], sfx, f32)))
    CONTRACTS.append((f"ugrid{sfx}: volume", ugrid(["tetra", "pyramid"], sfx, f32)))
    CONTRACTS.append((f"ugrid{sfx}: mixed, other order", ugrid(["hexahedron", "triangle", "wedge"], sfx, f32)))


def tetgen(blocks, path, point_data=(), cell_data=()):
    def run():
        s = struct_mesh(blocks, pts_nonempty=True, point_data=point_data, cell_data=cell_data)
        r = roundtrip("tetgen", s, path=path)
        if r is None:
            return
        same_points(r, s)
        same_cells(r, [("tetra", cat_blocks(s, "tetra"))])
    return run


CONTRACTS += [("tetgen: one block", tetgen(["tetra"], "a.node")), ("tetgen: two blocks", tetgen(["tetra", "tetra"], "a.ele")), ("tetgen: other cells are skipped", tetgen(["triangle", "tetra"], "a.ele"))]


def medit(blocks, path, pdim=3, refs=True):
    def run():
        s = struct_mesh(blocks, pdim=pdim, pts_nonempty=True, point_data=[("medit:ref", None, "i8")] if refs else [], cell_data=[("medit:ref", None, "i8")] if refs else [])
        r = roundtrip("medit", s, path=path)
        if r is None:
            return
        same_points(r, s, s.points)
        ok = [i for i, t in enumerate(s.types) if t not in ("vertex", "triangle6")]
        same_cells(r, [(s.types[i], s.blocks[i]) for i in ok])
        one = lambda n: SArr.make([n], lambda i: z3.IntVal(1), INT)
        same_data("point references", r.attrs["point_data"], s.pdata if refs else {"medit:ref": one(s.P)})
        same_data("cell references", r.attrs["cell_data"], {"medit:ref": [s.cdata["medit:ref"][i] if refs else one(s.L[i]) for i in ok]})
    return run


for ext in ["mesh", "meshb"]:
    for nm, bl in [("surface", ["triangle", "quad"]), ("volume", ["tetra", "pyramid", "wedge"]), ("mixed", ["line", "hexahedron", "line"]), ("skipped cells", ["triangle6", "tetra"])]:
        CONTRACTS.append((f"medit {ext}: {nm}", medit(bl, "a." + ext)))
    CONTRACTS.append((f"medit {ext}: 2D", medit(["triangle"], "a." + ext, 2)))
    CONTRACTS.append((f"medit {ext}: without references", medit(["tetra", "triangle"], "a." + ext, refs=False)))


def avsucd(blocks, pdim=3, pd=(), cd=(), material=None):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=pd, cell_data=([(material, None, "i8")] if material else []) + list(cd))
        r = roundtrip("avsucd", s)
        if r is None:
            return
        same_points(r, s, padded(s))
        same_cells(r, list(zip(s.types, s.blocks)))
        same_data("point data", r.attrs["point_data"], {k: rounded(s.pdata[k], ".14e") for k, *_ in pd})
        zero = [SArr.make([n], lambda i: z3.IntVal(0), INT) for n in s.L]
        want = {"avsucd:material": s.cdata[material] if material else zero}
        want.update({k: [rounded(x, ".14e") for x in s.cdata[k]] for k, *_ in cd})
        same_data("cell data", r.attrs["cell_data"], want)
    return run


CONTRACTS += [("avsucd: tetra", avsucd(["tetra"])), ("avsucd: mixed", avsucd(["triangle", "quad", "line"])), ("avsucd: node orders", avsucd(["pyramid", "tetra", "pyramid"])),
              ("avsucd: orders of the other cells", avsucd(["wedge", "hexahedron", "vertex"])),
              ("avsucd: 2D", avsucd(["triangle"], pdim=2)), ("avsucd: material", avsucd(["tetra", "hexahedron"], material="avsucd:material")),
              ("avsucd: other material", avsucd(["tetra", "hexahedron"], material="m")),
              ("avsucd: point data", avsucd(["tetra"], pd=[("a", None, "f8"), ("v", 3, "f8"), ("b", None, "f8")])), ("avsucd: cell data", avsucd(["tetra", "wedge"], cd=[("a", None, "f8"), ("v", 3, "f8"), ("b", None, "f8")], material="m"))]


DIM = {"vertex": 0, "line": 1, "triangle": 2, "quad": 2, "triangle6": 2, "quad8": 2}


def netgen(blocks, pdim=3, index=None):
    """netgen sorts the blocks by dimension: surface, volume, edges, points"""
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, cell_data=[(index, None, "i4")] if index else [])
        if index:
            names = [("vol", 1, 3), ("sur", 1, 2), ("edg", 2, 1), ("pnt", 1, 0)]
            s.obj.attrs["field_data"] = PDict(Seq.of(*[(n, A.from_concrete(rnp.array([i, d]))) for n, i, d in names if d <= pdim]))
        r = roundtrip("netgen", s, path="file.vol")
        if r is None:
            return
        same_points(r, s, s.points)
        o = sorted(range(len(blocks)), key=lambda i: [2, 3, 1, 0].index(DIM.get(blocks[i], 3)))
        same_cells(r, [(blocks[i], s.blocks[i]) for i in o])
        one = lambda i: SArr.make([s.L[i]], lambda k: z3.IntVal(1), INT)
        same_data("index", r.attrs["cell_data"], {"netgen:index": [s.cdata[index][i] if index else one(i) for i in o]})
    return run


CONTRACTS += [("netgen: tetra", netgen(["tetra"])), ("netgen: triangle", netgen(["triangle"], 2)), ("netgen: mixed", netgen(["line", "tetra", "triangle"])),
              ("netgen: second order", netgen(["triangle6", "tetra10"])), ("netgen: volumes", netgen(["pyramid", "wedge", "hexahedron"])), ("netgen: vertices", netgen(["vertex", "quad"])),
              ("netgen: index", netgen(["tetra", "triangle"], index="netgen:index")), ("netgen: other index", netgen(["triangle", "line"], 2, index="m"))]


def abaqus(blocks, pdim=3, sets=None, **kw):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True)
        r = roundtrip("abaqus", s, path="file.inp", wkw=kw)
        if r is None:
            return
        same_points(r, s, s.points)
        same_cells(r, list(zip(blocks, s.blocks)))
    return run


CONTRACTS += [("abaqus: tetra", abaqus(["tetra"])), ("abaqus: 2D", abaqus(["triangle", "quad"], 2)), ("abaqus: two blocks of one type", abaqus(["tetra", "tetra"])),
              ("abaqus: mixed", abaqus(["hexahedron", "line", "wedge"])), ("abaqus: second order", abaqus(["tetra10", "hexahedron20", "triangle6"]))]


def permas(blocks, pdim=3):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True)
        r = roundtrip("permas", s, path="file.dato")
        if r is None:
            return
        same_points(r, s, padded(s))
        same_cells(r, list(zip(blocks, s.blocks)))
    return run


CONTRACTS += [("permas: tetra", permas(["tetra"])), ("permas: 2D", permas(["triangle", "quad"], 2)), ("permas: mixed", permas(["hexahedron", "line", "tetra"])),
              ("permas: node orders", permas(["tetra10", "quad9"])), ("permas: node orders of the others", permas(["triangle6", "wedge15"]))]


def dolfin(blocks, pdim=3, cd=()):
    """DOLFIN XML holds one cell type; the data of a cell lie in files next to the mesh"""
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, cell_data=list(cd))
        r = roundtrip("dolfin", s, path="file.xml")
        if r is None:
            return
        same_points(r, s, s.points)
        t = "tetra" if "tetra" in blocks else "triangle"
        same_cells(r, [(t, cat_blocks(s, t))])
        cat = lambda xs: xs[0] if len(xs) == 1 else npm.concatenate(PList(Seq.of(*xs)))
        same_data("cell data", r.attrs["cell_data"], {k: [cat([x for b, x in zip(blocks, s.cdata[k]) if b == t])] for k, *_ in cd})
    return run


CONTRACTS += [(n, f, {"budget": 90}) for n, f in [
              ("dolfin: tetra", dolfin(["tetra"])), ("dolfin: 2D", dolfin(["triangle"], 2)), ("dolfin: triangle", dolfin(["triangle"])), ("dolfin: three blocks", dolfin(["tetra", "tetra", "tetra"])), ("dolfin: other cells are skipped", dolfin(["triangle", "tetra", "line", "tetra"])),
              ("dolfin: cell data", dolfin(["triangle", "tetra", "tetra"], cd=[("a", None, "f8"), ("b", None, "i8")])), ("dolfin: 2D cell data", dolfin(["triangle"], 2, cd=[("a", None, "f8")]))]]
