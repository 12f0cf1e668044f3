"""Surface formats: what a writer puts into a file is read back by the reader of the format.  Both functions are the real
ones; the file between them is the one of filem.py (assumed contracts of files and of the text of numbers).  The meshes have
a fixed list of blocks and any number of points and cells, any coordinates and any connectivity."""
from ..symmesh import *
from ..obl import *
from ..roundtrip import *


def off(blocks):
    def run():
        s = struct_mesh(blocks)
        r = roundtrip("off", s)
        if r is None:
            return
        same_points(r, s)
        same_cells(r, [("triangle", cat_blocks(s, "triangle"))])
    return run


CONTRACTS = [("off: one block", off(["triangle"])), ("off: two blocks", off(["triangle", "triangle"])), ("off: other cells are skipped", off(["triangle", "line", "triangle"]))]


def neuroglancer(blocks):
    def run():
        s = struct_mesh(blocks)
        r = roundtrip("neuroglancer", s)
        if r is None:
            return
        same_points(r, s, narrowed(s.points, "f4"))
        same_cells(r, [("triangle", cat_blocks(s, "triangle"))])
    return run


def obj(blocks, data=()):
    def run():
        s = struct_mesh(blocks, pts_nonempty=True, point_data=data)
        r = roundtrip("obj", s)
        if r is None:
            return
        same_points(r, s)
        same_cells(r, merged(s), drop_empty=True)
        same_data("point data", r.attrs["point_data"], s.pdata)
    return run


CONTRACTS += [("neuroglancer: one block", neuroglancer(["triangle"])), ("neuroglancer: two blocks", neuroglancer(["triangle", "triangle"])), ("neuroglancer: other cells are skipped", neuroglancer(["quad", "triangle", "line"]))]
CONTRACTS += [("obj: triangles", obj(["triangle"])), ("obj: quads", obj(["quad"])), ("obj: triangles and quads", obj(["triangle", "quad"])), ("obj: adjacent blocks", obj(["quad", "triangle", "triangle"])), ("obj: normals and texture", obj(["triangle"], [("obj:vn", 3, "f8"), ("obj:vt", 2, "f8")]))]


def stl_facets(aslist):
    """the points that the STL reader makes of the corners of all facets: every corner of every facet keeps its coordinates"""
    def run():
        n = z3.Int("nfacets")
        require(n >= 1)
        C = F("corner", IS, IS, IS, FS)
        full = SArr.make([n, 3, 3], lambda i, j, c: C(i, j, c), FLD)
        facets = PList(Seq([Gen(n, lambda i: SArr.make([3, 3], lambda j, c: C(i, j, c), FLD))])) if aslist else full
        if "data_from_facets" not in M.load("meshio.stl._stl").vars:
            raise Unsupported("the reader has no such function")
        kind, r = call("meshio.stl._stl", "data_from_facets", [facets])
        if kind != "return" or not isinstance(r, tuple) or len(r) != 2:
            raise Unsupported("another interface")
        pts, cells = npm.asarray(r[0]), M.force(r[1])
        b = M.force(cells).seq.concrete() if isinstance(cells, PList) else None
        if b is None or len(b) != 1 or not isinstance(b[0], Obj):
            raise Unsupported("another interface")
        d = npm.asarray(b[0].attrs["data"])
        ensure("triangles", b[0].attrs["type"] == "triangle")
        ensure("one cell per facet", z3.And(ex(d.shape[0]) == n, ex(d.shape[1]) == 3))
        i = z3.Int("i")
        require(z3.And(0 <= i, i < n))
        for j in range(3):
            q = d.elem(i, z3.IntVal(j))
            ensure(f"corner {j} is a point", z3.And(0 <= q, q < ex(pts.shape[0])))
            for c in range(3):
                ensure(f"coordinate {c} of corner {j}", pts.elem(q, z3.IntVal(c)) == C(i, z3.IntVal(j), z3.IntVal(c)))
    return run


CONTRACTS += [("stl: corners of the facets", stl_facets(False)), ("stl: corners of a list of facets", stl_facets(True))]
