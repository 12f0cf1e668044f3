"""Legacy VTK files: the real writer, then the real reader on the file it wrote (filem.py holds the assumed contracts of
files).  The decoding of the cell stream (vtk_cells_from_data, translate_cells) is used by its contract, which C09 proves
on the body: the caller has to hand over the stream of the mesh, cell for cell; the result is then the blocks of the mesh,
adjacent ones of one type as one.  The meshes have a fixed list of non-empty blocks of any size."""
from ..symmesh import *
from ..obl import *
from ..roundtrip import *
from .. import seq

WEDGE = [0, 2, 1, 3, 5, 4]
VT = {"vertex": 1, "line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14, "line3": 21, "triangle6": 22, "quad8": 23, "tetra10": 24, "hexahedron20": 25, "wedge15": 26, "pyramid13": 27, "quad9": 28, "hexahedron27": 29, "wedge18": 32, "hexahedron24": 33, "line4": 35}


def expect_stream(s, conn, offs, types, raw, legacy):
    """obligations on the caller: the stream is the one of the mesh"""
    i = z3.Int("i")
    n = sum(s.L, z3.IntVal(0))
    ensure("as many types as cells", ex(types.shape[0]) == n)
    if not legacy:
        ensure("as many offsets as cells", ex(offs.shape[0]) == n)
    size = sum([l * (NN[t] + legacy) for l, t in zip(s.L, s.types)], z3.IntVal(0))
    ensure("length of the connectivity", ex(conn.shape[0]) == size)
    S, K = z3.IntVal(0), z3.IntVal(0)
    sums = [] if legacy else [p for p, _ in seq.ps_terms([offs.elem(i)])]
    for b, t in enumerate(s.types):
        w = NN[t]
        # offsets that are added up: induction over the cells of the block
        for p in sums:
            with given(0 <= i, i < s.L[b], p.at(S + i) == K + i * w):
                ensure("running end of the cell (step)", p.at(S + i + 1) == K + (i + 1) * w)
        with given(0 <= i, i < s.L[b], *[p.at(S + x) == K + x * w for p in sums for x in (i, i + 1)]):
            ensure("type of the cell", types.elem(S + i) == VT[t])
            at = K + i * (w + legacy)
            if legacy:
                ensure("number of nodes of the cell", conn.elem(at) == w)
            else:
                ensure("end of the cell", offs.elem(S + i) == at + w)
            for j in range(w):
                ensure("nodes of the cell", conn.elem(at + legacy + j) == s.D[b](i, WEDGE[j] if t == "wedge" else j))
        S, K = z3.simplify(S + s.L[b]), z3.simplify(K + s.L[b] * (w + legacy))
        for p in sums:
            require(p.at(S) == K)
    ents = M.dict_ents(raw).concrete()
    ensure("names of the cell data", ents is not None and sorted(str(k) for k, _ in ents) == sorted(s.cdata))
    for k, v in ents:
        if k in s.cdata:
            want = A.concatenate(Seq([Items(s.cdata[k])]))
            same_array("cell data " + k, v, want)


def groups(s):
    """adjacent blocks of one type"""
    out = []
    for b, t in enumerate(s.types):
        if out and s.types[out[-1][-1]] == t:
            out[-1].append(b)
        else:
            out.append([b])
    return out


def joined(xs):
    return xs[0] if len(xs) == 1 else A.concatenate(Seq([Items(xs)]))


def decode(s, log, legacy):
    """vtk_cells_from_data and translate_cells by contract"""
    CB = M.load("meshio._mesh").vars["CellBlock"]

    def stub(conn, *a):
        offs, types, raw = (None, *a) if legacy else a
        log.append(1)
        expect_stream(s, npm.asarray(conn), offs, npm.asarray(types), raw, legacy)
        gs = groups(s)
        cells = [(s.types[g[0]], joined([s.blocks[b] for b in g])) for g in gs]
        cd = PDict(Seq.of(*[(k, PList(Seq.of(*[joined([v[b] for b in g]) for g in gs]))) for k, v in s.cdata.items()]))
        return PList(Seq.of(*[c if legacy else cell_block(CB, *c) for c in cells])), cd
    return stub


def vtk(version, binary, blocks, pdim=3, point_data=(), cell_data=(), pdt="f8", cdt="i8"):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=point_data, cell_data=cell_data, pdt=rnp.dtype(pdt), cdt=rnp.dtype(cdt))
        log = []
        legacy = int(version == "4.2")
        if legacy:
            M.load("meshio.vtk._vtk_42").vars["translate_cells"] = M.Native("translate_cells", decode(s, log, 1))
        else:
            M.load("meshio.vtk._vtk_51").vars["vtk_cells_from_data"] = M.Native("vtk_cells_from_data", decode(s, log, 0))
        r = roundtrip("vtk", s, wkw={"fmt_version": version, "binary": binary}, module="meshio.vtk._main", path="a.vtk")
        if r is None:
            return
        ensure("the stream is decoded", len(log) == 1)
        same_points(r, s)
        gs = groups(s)
        same_cells(r, [(s.types[g[0]], joined([s.blocks[b] for b in g])) for g in gs])
        same_data("point data", r.attrs["point_data"], s.pdata)
        same_data("cell data", r.attrs["cell_data"], {k: [joined([v[b] for b in g]) for g in gs] for k, v in s.cdata.items()})
    return run


CONTRACTS = []
for ver in ["5.1", "4.2"]:
    for binary in [True, False]:
        nm = f"vtk {ver} {'binary' if binary else 'ascii'}: "
        C = lambda t, *a, **k: CONTRACTS.append((nm + t, vtk(ver, binary, *a, **k)))
        C("one block", ["tetra"])
        C("2D", ["triangle", "quad"], 2)
        C("wedges among others", ["hexahedron", "wedge", "pyramid"])
        C("adjacent blocks of one type", ["triangle", "line", "line", "triangle"])
        C("point data", ["triangle"], point_data=[("a", None, "f8"), ("b", 3, "f8"), ("c", None, "i4")])
        C("cell data", ["triangle", "quad", "quad"], cell_data=[("a", None, "f8"), ("b", 3, "i8")])
        C("point and cell data", ["vertex", "tetra10"], point_data=[("a", 9, "f4")], cell_data=[("a", None, "i4")])


# ----------------------------------------------------------------------------- VTU
def vtu(blocks, pdim=3, point_data=(), cell_data=(), pdt="f8", cdt="i8", **kw):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=point_data, cell_data=cell_data, pdt=rnp.dtype(pdt), cdt=rnp.dtype(cdt))
        log = []
        M.load("meshio.vtu._vtu").vars["vtk_cells_from_data"] = M.Native("vtk_cells_from_data", decode(s, log, 0))
        r = roundtrip("vtu", s, wkw=kw, module="meshio.vtu._vtu", path="a.vtu")
        if r is None:
            return
        ensure("the stream is decoded", len(log) == 1)
        t = (lambda a: rounded(a, ".11e") if a.dt.kind == "f" else a) if kw.get("binary") is False else (lambda a: a)
        same_points(r, s, t(padded(s)))
        gs = groups(s)
        same_cells(r, [(s.types[g[0]], joined([s.blocks[b] for b in g])) for g in gs])
        same_data("point data", r.attrs["point_data"], {k: t(v) for k, v in s.pdata.items()})
        same_data("cell data", r.attrs["cell_data"], {k: [joined([v[b] for b in g]) for g in gs] for k, v in s.cdata.items()})
    return run


for nm, kw in [("ascii", {"binary": False}), ("uncompressed", {"compression": None}), ("uncompressed UInt64", {"compression": None, "header_type": "UInt64"}),
               ("zlib", {}), ("lzma", {"compression": "lzma"}), ("zlib UInt64", {"header_type": "UInt64"})]:
    C = lambda t, *a, **k: CONTRACTS.append((f"vtu {nm}: {t}", vtu(*a, **k, **kw)))
    C("one block", ["tetra"])
    C("2D", ["triangle", "quad"], 2)
    C("wedges among others", ["hexahedron", "wedge", "pyramid"])
    C("adjacent blocks of one type", ["triangle", "line", "line", "triangle"])
    C("point data", ["triangle"], point_data=[("a", None, "f8"), ("b", 2, "f8"), ("c", None, "i4")])
    C("cell data", ["triangle", "quad", "quad"], cell_data=[("a", None, "i4"), ("b", 3, "i8")])
    C("point and cell data", ["vertex", "tetra10"], point_data=[("a", 9, "i8")], cell_data=[("a", None, "i4")])
