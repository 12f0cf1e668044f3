"""HDF5 and netCDF formats: the real writer, then the real reader, over the file model of h5model.py."""
from ..symmesh import *
from ..obl import *
from ..roundtrip import *
from .. import h5model, ncmodel  # noqa: F401


def hmf(blocks, pdim=3, point_data=(), cell_data=(), **kw):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=point_data, cell_data=cell_data)
        r = roundtrip("hmf", s, wkw=kw, module="meshio.hmf._hmf", path="a.hmf")
        if r is None:
            return
        same_points(r, s, s.points)
        same_cells(r, list(zip(s.types, s.blocks)))
        same_data("point data", r.attrs["point_data"], s.pdata)
        same_data("cell data", r.attrs["cell_data"], s.cdata)
    return run


CONTRACTS = [("hmf: one block", hmf(["tetra"], compression=None)), ("hmf: 2D", hmf(["quad"], 2)), ("hmf: data", hmf(["hexahedron20"], 3, [("b", None, "f8"), ("a", 3, "i4")], [("y", 2, "f8"), ("x", None, "i8")]))]


def cgns(blocks, **kw):
    def run():
        s = struct_mesh(blocks, nonempty=True, pts_nonempty=True)
        r = roundtrip("cgns", s, wkw=kw, module="meshio.cgns._cgns", path="a.cgns")
        if r is None:
            return
        same_points(r, s)
        same_cells(r, [(t, d) for t, d in zip(s.types, s.blocks) if t == "tetra"])
    return run


CONTRACTS += [("cgns: one block", cgns(["tetra"])), ("cgns: uncompressed", cgns(["tetra"], compression=None)), ("cgns: other cells are skipped", cgns(["triangle", "tetra", "line"]))]


def h5m(blocks, point_data=(), **kw):
    def run():
        s = struct_mesh(blocks, nonempty=True, pts_nonempty=True, point_data=point_data)
        r = roundtrip("h5m", s, wkw=kw, module="meshio.h5m._h5m", path="a.h5m")
        if r is None:
            return
        same_points(r, s)
        want = sorted(zip(s.types, s.blocks), key=lambda x: {"line": "Edge2", "triangle": "Tri3", "tetra": "Tet4"}[x[0]])
        same_cells(r, want)
        pd = dict(s.pdata)
        if kw.get("add_global_ids", True):
            pd.setdefault("GLOBAL_ID", SArr.make([s.P], lambda i: i + 1, INT))
        same_data("point data", r.attrs["point_data"], pd)
    return run


CONTRACTS += [("h5m: one block", h5m(["triangle"])), ("h5m: several types", h5m(["triangle", "tetra", "line"], compression=None)), ("h5m: data", h5m(["tetra"], [("b", 3, "f8"), ("a", None, "i8")])), ("h5m: without identifiers", h5m(["line"], [("a", None, "f8")], add_global_ids=False))]


MED_TYPE = {"line": "SE2", "triangle": "TR3", "quad": "QU4", "tetra": "TE4", "tetra10": "T10", "hexahedron20": "H20", "vertex": "PO1"}


def med(blocks, pdim=3, point_data=(), cell_data=(), elno=(), tags=False, families=()):
    def run():
        cd = list(cell_data) + ([("cell_tags", None, "i8")] if tags else [])
        pd = list(point_data) + ([("point_tags", None, "i8")] if tags else [])
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=pd, cell_data=cd)
        for n, cols in elno:
            # values at the nodes of the cells
            s.cdata[n] = []
            for b, t in enumerate(blocks):
                f = F(f"en_{n}_{b}", IS, IS, IS, FS)
                s.cdata[n].append(SArr.make([s.L[b], NN[t], cols], lambda i, j, k, f=f: f(i, j, k), FLD))
        s.obj.attrs["cell_data"] = PDict(Seq.of(*[(n, PList(Seq.of(*v))) for n, v in s.cdata.items()]))
        for n, fam in families:
            s.obj.attrs[n] = PDict(Seq.of(*[(k, PList(Seq.of(*v))) for k, v in fam]))
        r = roundtrip("med", s, module="meshio.med._med", path="a.med")
        if r is None:
            return
        order = sorted(range(len(blocks)), key=lambda b: MED_TYPE[blocks[b]])
        same_points(r, s, s.points)
        same_cells(r, [(blocks[b], s.blocks[b]) for b in order])
        same_data("point data", r.attrs["point_data"], s.pdata)
        same_data("cell data", r.attrs["cell_data"], {n: [v[b] for b in order] for n, v in s.cdata.items()})
        for n in ("point_tags", "cell_tags"):
            want = dict(dict(families).get(n, []))
            got = {k: v.seq.concrete() for k, v in M.dict_ents(r.attrs[n]).concrete()}
            ensure("families " + n, got == want)
    return run


CONTRACTS += [("med: one block", med(["tetra"])), ("med: 2D", med(["triangle", "quad"], 2)), ("med: several types", med(["tetra", "hexahedron20", "line", "vertex"])),
              ("med: point data", med(["triangle"], 3, [("b", None, "f8"), ("a", 3, "f8")])), ("med: cell data", med(["triangle", "quad"], 3, [], [("y", 2, "f8"), ("x", None, "f8")])),
              ("med: data at the nodes of cells", med(["triangle", "quad"], elno=[("e", 2)])),
              ("med: tags of three blocks", med(["triangle", "line", "quad"], tags=True)), ("med: tags", med(["triangle", "line"], tags=True, families=[("point_tags", [(2, ["left", "right side"])]), ("cell_tags", [(-3, ["inner"]), (-4, ["a", "bc"])])]))]


def exodus(blocks, pdim=3, point_data=(), sets=()):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=point_data)
        ps = {}
        for n in sets:
            c = z3.Int("n_" + n)
            require(c >= 1)
            ps[n] = SArr.make([c], lambda i, n=n: F("set_" + n, IS, IS)(i), INT)
        s.obj.attrs["point_sets"] = PDict(Seq.of(*ps.items()))
        r = roundtrip("exodus", s, module="meshio.exodus._exodus", path="a.e")
        if r is None:
            return
        same_points(r, s, s.points)
        same_cells(r, list(zip(blocks, s.blocks)))
        same_data("point data", r.attrs["point_data"], s.pdata)
        same_data("point sets", r.attrs["point_sets"], ps)
    return run


CONTRACTS += [("exodus: one block", exodus(["tetra"])), ("exodus: 2D", exodus(["triangle", "quad"], 2)), ("exodus: several types", exodus(["hexahedron20", "line", "triangle6", "line", "wedge"])),
              ("exodus: point data", exodus(["quad"], 3, [("b", None, "f8"), ("temperature", 3, "f8"), ("k", 2, "i8")])), ("exodus: point sets", exodus(["quad"], 3, [], ["left", "right side", "x"])),
              ("exodus: point data and sets", exodus(["line"], 2, [("ab", None, "f4"), ("aX", None, "f8")], ["s"]))]
