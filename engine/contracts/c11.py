"""Gmsh files: the real writer, then the real reader on the file it wrote."""
from ..symmesh import *
from ..obl import *
from ..roundtrip import *
from .. import seq


def groups(s, merge):
    out = []
    for b, t in enumerate(s.types):
        if merge and out and s.types[out[-1][-1]] == t:
            out[-1].append(b)
        else:
            out.append([b])
    return out


def joined(xs):
    return xs[0] if len(xs) == 1 else A.concatenate(Seq([Items(xs)]))


def gmsh(version, binary, blocks, pdim=3, point_data=(), cell_data=(), tags=(), cdt="i8", names=(), periodic=()):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=point_data, cell_data=list(cell_data) + [(t, None, "i4") for t in tags], cdt=rnp.dtype(cdt))
        fd = [(n, SArr.make([2], lambda i, n=n: F("phys_" + n, IS, IS)(i), INT)) for n in names]
        s.obj.attrs["field_data"] = PDict(Seq.of(*fd))
        per = []
        for q, affine in enumerate(periodic):
            dim, st, mt, n = z3.Ints(f"pdim{q} ptag{q} mtag{q} pn{q}")
            require(n >= 0)
            SM = F(f"SM{q}", IS, IS, IS)
            sm = SArr.make([n, 2], lambda i, j, SM=SM: SM(i, j), rnp.dtype("i4"))
            aff = SArr.make([16], lambda i, q=q: F(f"aff{q}", IS, FS)(i), FLD) if affine else None
            per.append((dim, (st, mt), aff, sm))
        if periodic:
            s.obj.attrs["gmsh_periodic"] = PList(Seq.of(*[PList(Seq.of(mk(d), (mk(t[0]), mk(t[1])), a, sm)) for d, t, a, sm in per]))
        r = roundtrip("gmsh", s, wkw={"fmt_version": version, "binary": binary}, module="meshio.gmsh.main", path="a.msh")
        if r is None:
            return
        gs = groups(s, version == "2.2")
        same_points(r, s)
        same_cells(r, [(s.types[g[0]], joined([s.blocks[b] for b in g])) for g in gs])
        want = {k: [joined([v[b] for b in g]) for g in gs] for k, v in s.cdata.items()}
        if version == "2.2":
            for t in ("gmsh:physical", "gmsh:geometrical"):
                want.setdefault(t, [joined([SArr.make([s.L[b]], lambda i: z3.IntVal(0), INT) for b in g]) for g in gs])
        if version == "4.1":
            want.setdefault("gmsh:geometrical", [SArr.make([s.L[0]], lambda i: z3.IntVal(0), INT)])
            s.pdata["gmsh:dim_tags"] = SArr.make([s.P, 2], lambda i, j: z3.If(j == 0, z3.IntVal(DIMS[blocks[0]]), z3.IntVal(0)), INT)
        if version == "4.0":
            want.setdefault("gmsh:geometrical", [SArr.make([s.L[b]], lambda i: z3.IntVal(1), INT) for b in range(len(blocks))])
        same_data("point data", r.attrs["point_data"], s.pdata)
        same_data("cell data", r.attrs["cell_data"], want)
        same_data("physical names", r.attrs["field_data"], dict(fd))
        if periodic:
            got = r.attrs["gmsh_periodic"].seq.concrete()
            ensure("as many periodic relations", len(got) == len(per))
            for g, (d, t, a, sm) in zip(got, per):
                g = g.seq.concrete()
                ensure_same("dimension of the relation", g[0], mk(d))
                ensure_same("entities of the relation", g[1][0], mk(t[0]))
                ensure_same("entities of the relation", g[1][1], mk(t[1]))
                if a is None and g[2] is not None:
                    # the 4.1 reader has an empty array for "none"
                    ensure("no affine transformation", npm.asarray(g[2]).size() == 0)
                ensure("affine transformation", a is None or g[2] is not None)
                if a is not None and g[2] is not None:
                    same_array("affine transformation", A.reshape(npm.asarray(g[2]), [16]), a)
                same_array("pairs of points", g[3], sm)
        else:
            ensure("no periodic relations", r.attrs["gmsh_periodic"] is None)
    return run


DIMS = {"vertex": 0, "line": 1, "triangle": 2, "quad": 2, "tetra": 3, "hexahedron20": 3, "wedge15": 3, "pyramid13": 3, "tetra10": 3}
CONTRACTS = []
for ver in ["4.0", "2.2"]:
    for binary in [True, False]:
        nm = f"gmsh {ver} {'binary' if binary else 'ascii'}: "
        C = lambda t, *a, **k: CONTRACTS.append((nm + t, gmsh(ver, binary, *a, **k)))
        C("one block", ["tetra"])
        C("2D", ["triangle", "quad"], 2)
        C("node orders", ["tetra10", "hexahedron20", "wedge15", "pyramid13"])
        C("adjacent blocks of one type", ["triangle", "line", "line", "triangle"])
        C("point data", ["triangle"], point_data=[("a", None, "f8"), ("b", 3, "f8")])
        C("cell data", ["triangle", "quad", "quad"], cell_data=[("a", None, "f8"), ("b", 9, "f8")])
        C("tags", ["triangle", "line", "triangle"], tags=["gmsh:physical", "gmsh:geometrical"])
        C("physical names", ["triangle"], names=["left"])
        C("periodic relations", ["triangle"], periodic=[0, 1])

for binary in [True, False]:
    nm = f"gmsh 4.1 {'binary' if binary else 'ascii'}: "
    C = lambda t, *a, **k: CONTRACTS.append((nm + t, gmsh("4.1", binary, *a, **k)))
    C("one block", ["tetra"])
    C("2D", ["quad"], 2)
    for t in ["tetra10", "hexahedron20", "wedge15", "pyramid13"]:
        C("node order of " + t, [t])
    C("point data", ["triangle"], point_data=[("a", None, "f8"), ("b", 3, "f8")])
    C("cell data", ["quad"], cell_data=[("a", None, "f8"), ("b", 9, "f8")])
    C("periodic relations", ["triangle"], periodic=[0, 1])


def entities(binary, blocks, pdim=3, physical=False, point_data=()):
    """4.1 with entities: the points belong to two entities in any way, every block of cells to one of them"""
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=point_data)
        ent = F("ent", IS, BS)
        w = z3.Ints("w0 w1")
        require(z3.And(0 <= w[0], w[0] < s.P, ent(w[0]), 0 <= w[1], w[1] < s.P, z3.Not(ent(w[1]))))
        d = sorted({DIMS[b] for b in blocks})
        d = d if len(d) == 2 else [d[0] - 1, d[0]]
        t = z3.Ints("t0 t1")
        dt = SArr.make([s.P, 2], lambda i, j: z3.If(j == 0, z3.If(ent(i), z3.IntVal(d[0]), z3.IntVal(d[1])), z3.If(ent(i), t[0], t[1])), INT)
        s.pdata["gmsh:dim_tags"] = dt
        const = lambda b, v: SArr.make([s.L[b]], lambda i: v, INT)
        s.cdata["gmsh:geometrical"] = [const(b, t[d.index(DIMS[x])]) for b, x in enumerate(blocks)]
        if physical:
            ph = [z3.Int(f"ph{b}") for b in range(len(blocks))]
            s.cdata["gmsh:physical"] = [const(b, ph[b]) for b in range(len(blocks))]
            require(z3.Or(*[x != 0 for x in ph]))
        a = s.obj.attrs
        a["point_data"] = PDict(Seq.of(*s.pdata.items()))
        a["cell_data"] = PDict(Seq.of(*[(n, PList(Seq.of(*v))) for n, v in s.cdata.items()]))
        CTX.hooks["rows of"] = w
        try:
            r = roundtrip("gmsh", s, wkw={"fmt_version": "4.1", "binary": binary}, module="meshio.gmsh.main", path="a.msh")
            if r is None:
                return
            same_points(r, s)
            same_cells(r, list(zip(blocks, s.blocks)))
            same_data("point data", r.attrs["point_data"], s.pdata)
            same_data("cell data", r.attrs["cell_data"], s.cdata)
        finally:
            CTX.hooks.pop("rows of", None)
    return run


for binary in [True, False]:
    nm = f"gmsh 4.1 {'binary' if binary else 'ascii'}: "
    C = lambda t, *a, **k: CONTRACTS.append((nm + t, entities(binary, *a, **k)))
    C("entities", ["line", "triangle"])
    C("entities without cells", ["tetra"])
    C("entities with physical tags", ["triangle", "tetra"], physical=True)
    C("entities with point data", ["line", "triangle"], 2, point_data=[("a", None, "f8"), ("b", 3, "f8")])


def lemma_sorted():
    """n different integers in 0..n-1, in increasing order g(0) < g(1) < ..., are 0, 1, 2, ... (by induction up and down)"""
    g, n, i = F("g", IS, IS), z3.Int("n"), z3.Int("i")
    p, q = loopvar("p"), loopvar("q")
    require(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= g(p), g(p) < n)), patterns=[g(p)]))
    require(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n), g(p) < g(q)), patterns=[z3.MultiPattern(g(p), g(q))]))
    ensure("g(0) >= 0", z3.Implies(n > 0, g(0) >= 0))
    ensure("g(i) >= i implies g(i+1) >= i+1", z3.Implies(z3.And(0 <= i, i + 1 < n, g(i) >= i), g(i + 1) >= i + 1))
    ensure("g(n-1) <= n-1", z3.Implies(n > 0, g(n - 1) <= n - 1))
    ensure("g(i+1) <= i+1 implies g(i) <= i", z3.Implies(z3.And(0 <= i, i + 1 < n, g(i + 1) <= i + 1), g(i) <= i))


CONTRACTS.append(("lemma: sorted numbers below n", lemma_sorted))
