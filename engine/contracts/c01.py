from ..symmesh import *
from ..obl import *


def dims():
    """topological dimension of every type, from the names: the specification, independent of the code's table"""
    d = {"vertex": 0, "polygon": 2}
    for t, k in (("line", 1), ("triangle", 2), ("quad", 2), ("tetra", 3), ("hexahedron", 3), ("wedge", 3), ("pyramid", 3)):
        d[t] = k
    for t, k in (("CURVE", 1), ("TRIANGLE", 2), ("QUADRILATERAL", 2), ("TETRAHEDRON", 3), ("HEXAHEDRON", 3), ("WEDGE", 3), ("PYRAMID", 3)):
        d["VTK_LAGRANGE_" + t] = k
    return d


def spec_dim(t):
    d = dims()
    return d[t] if t in d else d[t.rstrip("0123456789")]


def cell_block():
    t = new_string("t")
    n, w = z3.Ints("n w")
    require(z3.And(n >= 0, w >= 0))
    D = F("D", IS, IS, IS)
    data = SArr.make([n, w], lambda a, b: D(a, b), INT)
    data.buf.owner = "data"
    tg = F("tg", IS, SS)
    nt = z3.Int("nt")
    require(nt >= 0)
    tags = own(PList(Seq([Gen(nt, lambda q: mk(tg(q)))])), "tags")
    use = CTX.choose(2)
    mod = M.load("meshio._mesh")
    poly = M.truth(M.call(M.getattr_(t, "startswith"), ["polyhedron"], {}))
    if poly:
        return
    frame_start()
    kind, b = call_any(mod.vars["CellBlock"], [t, data] + ([tags] if use else []))
    frame_end()
    tab = mod.vars["topological_dimension"]
    known = bex(M.dict_contains(tab, t))
    if kind == "raise":
        ensure("raises only for an unknown type", z3.Not(known))
        return
    ensure_same("type kept", b.attrs["type"], t)
    ensure_same("connectivity kept", b.attrs["data"], data)
    ensure_same("tags kept", b.attrs["tags"], tags if use else PList())
    ensure("known type", known)
    ensure("dimension", ex(b.attrs["dim"]) == ex(M.dict_get(tab, t)))


def dim_table():
    """finite: the table has the right dimension for each of its types"""
    mod = M.load("meshio._mesh")
    nn = M.load("meshio._common").vars["num_nodes_per_cell"]
    tab = dict(M.dict_ents(mod.vars["topological_dimension"]).concrete())
    for t, d in tab.items():
        ensure("topological dimension of every type", d == spec_dim(t))
    for t, _ in M.dict_ents(nn).concrete():
        ensure("every type with a node count has a dimension", t in tab)


def init_inputs(kind):
    s = SymMesh()
    s.N, s.T, s.L, s.W = z3.Int("N"), F("T", IS, SS), F("L", IS, IS), F("W", IS, IS)
    s.D = F("D", IS, IS, IS, IS)
    s.P, s.pd, s.X = z3.Int("P"), z3.Int("pdim"), F("X", IS, IS, FS)
    k = loopvar("k")
    require(z3.And(s.N >= 0, s.P >= 0, s.pd >= 1))
    for f in (s.L, s.W):
        require(z3.ForAll([k], f(k) >= 0, patterns=[f(k)]))
    s.points = SArr.make([s.P, s.pd], lambda i, j: s.X(i, j), FLD)
    s.block_data = lambda i: SArr.make([s.L(i), s.W(i)], lambda a, b: s.D(i, a, b), INT)
    tab = M.load("meshio._mesh").vars["topological_dimension"]
    require(z3.ForAll([k], M.table(tab).pres(s.T(k)), patterns=[s.T(k)]))
    ph = str_pred("sw", "polyhedron")
    require(z3.ForAll([k], z3.Not(ph(s.T(k))), patterns=[s.T(k)]))
    if kind == "tuples":
        s.cells = own(PList(Seq([Gen(s.N, lambda i: (mk(s.T(i)), s.block_data(i)))])), "cells")
    elif kind == "blocks":
        CB = M.load("meshio._mesh").vars["CellBlock"]
        s.dim = F("dimk", IS, IS)
        s.cells = own(PList(Seq([Gen(s.N, lambda i: own(Obj(CB, {"type": mk(s.T(i)), "data": s.block_data(i), "dim": mk(s.dim(i)), "tags": PList()}), "cells"))])), "cells")
    else:
        names_distinct(s.N, s.T)
        s.cells = own(PDict(Seq([Gen(s.N, lambda i: (mk(s.T(i)), s.block_data(i)))])), "cells")
    s.NP, s.PN, s.PL, s.PV = z3.Int("NPD"), F("PN", IS, SS), F("PL", IS, IS), F("PV", IS, IS, FS)
    names_distinct(s.NP, s.PN)
    require(z3.ForAll([k], s.PL(k) >= 0, patterns=[s.PL(k)]))
    s.parr = lambda i: SArr.make([s.PL(i)], lambda a: s.PV(i, a), FLD)
    s.point_data = PDict(Seq([Gen(s.NP, lambda i: (mk(s.PN(i)), s.parr(i)))]))
    s.NC, s.CN, s.CB, s.CL, s.CV = z3.Int("NCD"), F("CN", IS, SS), F("CB", IS, IS), F("CL", IS, IS, IS), F("CV", IS, IS, IS, FS)
    names_distinct(s.NC, s.CN)
    b = loopvar("b")
    require(z3.ForAll([k], s.CB(k) >= 0, patterns=[s.CB(k)]))
    require(z3.ForAll([k, b], s.CL(k, b) >= 0, patterns=[s.CL(k, b)]))
    s.carr = lambda i, q: SArr.make([s.CL(i, q)], lambda a: s.CV(i, q, a), FLD)
    s.cell_data = PDict(Seq([Gen(s.NC, lambda i: (mk(s.CN(i)), PList(Seq([Gen(s.CB(i), lambda q: s.carr(i, q))]))))]))
    return s


def mesh_init(how):
    def run():
        s = init_inputs(how)
        kind, m = call_any(M.load("meshio._mesh").vars["Mesh"], [s.points, s.cells, s.point_data, s.cell_data])
        k, b = loopvar("k"), loopvar("b")
        good = z3.And(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.NP), s.PL(k) == s.P), patterns=[s.PL(k)]),
                      z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.NC), s.CB(k) == s.N), patterns=[s.CB(k)]),
                      z3.ForAll([k, b], z3.Implies(z3.And(0 <= k, k < s.NC, 0 <= b, b < s.N), s.CL(k, b) == s.L(b)), patterns=[s.CL(k, b)]))
        if kind == "raise":
            ensure("refuses only inconsistent input", z3.Not(good))
            return
        i, q = z3.Ints("i0 q0")
        ensure("point data have one entry per point", s.PL(i) == s.P, [0 <= i, i < s.NP])
        ensure("cell data have one array per block", s.CB(i) == s.N, [0 <= i, i < s.NC])
        ensure("cell data have one entry per cell", s.CL(i, q) == s.L(q), [0 <= i, i < s.NC, 0 <= q, q < s.N])
        ensure_same("points kept", m.attrs["points"], s.points)
        cells = m.attrs["cells"]
        ensure("number of blocks", cells.seq.length() == s.N)
        require(z3.And(0 <= i, i < s.N))
        if CTX.infeasible():
            return
        blk = cells.seq.get(i)
        ensure_same("block type kept, in order", blk.attrs["type"], mk(s.T(i)))
        ensure_same("connectivity kept, in order", blk.attrs["data"], s.block_data(i))
        ensure_same("point data kept", m.attrs["point_data"], PDict(Seq([Gen(s.NP, lambda i: (mk(s.PN(i)), s.parr(i)))])))
        ensure_same("cell data kept", m.attrs["cell_data"], PDict(Seq([Gen(s.NC, lambda i: (mk(s.CN(i)), PList(Seq([Gen(s.N, lambda q: s.carr(i, q))]))))])))
        for a in ("point_sets", "cell_sets", "field_data"):
            ensure_same(a + " default", m.attrs[a], PDict())
    return run


CONTRACTS = [("CellBlock.__init__", cell_block), ("topological_dimension", dim_table)] + [("Mesh.__init__(%s)" % h, mesh_init(h)) for h in ("tuples", "blocks", "dict")]
