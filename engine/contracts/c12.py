"""XDMF: the real writer, then the real reader on the files it wrote."""
from ..symmesh import *
from ..obl import *
from ..roundtrip import *
from .. import h5model
from .. import seq
from .. import builtins_ as B


def xdmf(blocks, pdim=3, point_data=(), cell_data=(), pdt="f8", cdt="i8", **kw):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=point_data, cell_data=cell_data, pdt=rnp.dtype(pdt), cdt=rnp.dtype(cdt))
        r = roundtrip("xdmf", s, wkw=kw, module="meshio.xdmf.main", path="a.xdmf")
        if r is None:
            return
        same_points(r, s, s.points)
        same_cells(r, list(zip(s.types, s.blocks)))
        same_data("point data", r.attrs["point_data"], s.pdata)
        same_data("cell data", r.attrs["cell_data"], s.cdata)
    return run


CONTRACTS = []
for fmt in ["XML", "Binary", "HDF"]:
    C = lambda t, *a, **k: CONTRACTS.append((f"xdmf {fmt}: {t}", xdmf(*a, **k, data_format=fmt)))
    C("one block", ["tetra"])
    C("2D", ["quad"], 2)
    C("data", ["hexahedron"], 3, [("b", None, "f8"), ("a", 3, "i4")], [("y", 2, "f8"), ("x", None, "i8")])


# ----------------------------------------------------------------------------- mixed topologies
class MixedStream:
    """(code, [number of nodes for vertices and lines], nodes) of cell after cell; cell k begins at OF(k)"""

    def __init__(self):
        c = M.load("meshio.xdmf.common").vars
        self.ty, self.nn = M.table(c["xdmf_idx_to_meshio_type"]), M.table(c["num_nodes_per_cell"])
        self.n, self.LC = z3.Ints("n LC")
        self.C, self.TY, self.OF = F("C", IS, IS), F("TY", IS, IS), F("OF", IS, IS)
        k = loopvar("k")
        self.two = lambda k: z3.Or(self.TY(k) == 1, self.TY(k) == 2)
        self.head = lambda k: z3.If(self.two(k), z3.IntVal(2), z3.IntVal(1))
        self.name = lambda k: self.ty.f(self.TY(k))
        nn = dict(M.dict_ents(c["num_nodes_per_cell"]).concrete())
        codes = [(i, nn[t]) for i, t in M.dict_ents(c["xdmf_idx_to_meshio_type"]).concrete()]

        def size(k):
            r = z3.IntVal(codes[-1][1])
            for i, w in reversed(codes[:-1]):
                r = z3.If(self.TY(k) == i, z3.IntVal(w), r)
            return r
        self.size = size
        self.node = lambda k, o: self.C(self.OF(k) + self.head(k) + o)
        self.data = SArr.make([self.LC], lambda p: self.C(p), INT)
        self.data.buf.owner = "in"
        require(z3.And(self.n >= 1, self.OF(0) == 0, self.OF(self.n) == self.LC))
        require(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), self.good(k)), patterns=[self.TY(k)]))

    def good(self, k):
        return z3.And(self.ty.pres(self.TY(k)), self.C(self.OF(k)) == self.TY(k), z3.Implies(self.two(k), self.C(self.OF(k) + 1) == self.TY(k)),
                      self.OF(k) >= 0, self.OF(k + 1) == self.OF(k) + self.head(k) + self.size(k), self.OF(k + 1) <= self.LC, self.size(k) >= 1)


class Inv:
    def __init__(self, n, fn, facts=lambda k: None):
        self.n, self.fn, self.facts = n, fn, facts

    def __call__(self, k):
        return self.fn(k)


def translate():
    s = MixedStream()
    upto = lambda f, k: PList(Seq([Gen(k, lambda j: mk(f(j)))]))
    CTX.hooks["while"] = {"meshio.xdmf.common.translate_mixed_cells": {0: Inv(s.n, lambda k: {"types": upto(s.TY, k), "offsets": upto(s.OF, k), "r": mk(s.OF(k))}, lambda k: require(s.good(k)))}}
    frame_start()
    kind, r = call("meshio.xdmf.common", "translate_mixed_cells", [s.data])
    frame_end()
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    gs = r.seq.segs
    W = list(CTX.wheres.values())
    if len(gs) != 1 or not isinstance(gs[0], Gen) or gs[0].cond is not None or gs[0].flat or len(W) != 1:
        raise Unsupported("the blocks are not built run by run")
    g, (W, rank, cnt, np_, _) = gs[0], W[0]
    S = lambda k: z3.If(k >= 1, 1 + W(k - 1), 0)
    E = lambda k: z3.If(k < cnt(), 1 + W(k), s.n)
    k, p, row, col = z3.Ints("k p row col")
    ensure("the runs cover the stream", z3.And(g.n == cnt() + 1, S(z3.IntVal(0)) == 0, E(g.n - 1) == s.n))
    with given(0 <= k, k < g.n):
        ensure("runs follow one another", z3.Implies(k + 1 < g.n, E(k) == S(k + 1)))
        b = g.fn(k)
        t, d = b.attrs["type"], b.attrs["data"]
        ensure("inside the stream", z3.And(0 <= S(k), S(k) < E(k), E(k) <= s.n))
        require(z3.And(0 <= S(k), S(k) < E(k), E(k) <= s.n))
        require(s.good(S(k)))
        ensure_same("type of the block", t, mk(s.name(S(k))))
        ensure("one row per cell", ex(d.shape[0]) == E(k) - S(k))
        ensure("as many columns as nodes", ex(d.shape[1]) == s.size(S(k)))
        with given(S(k) <= p, p + 1 < E(k), z3.Int("h") == rank(p)):
            ensure("one type per run (step)", s.TY(p) == s.TY(p + 1))
        x = S(k) + row
        # by induction over the cells of the run
        with given(0 <= row, row < E(k) - S(k), 0 <= col, col < s.size(S(k)), s.TY(x) == s.TY(S(k)), s.good(x)):
            ensure("nodes of the cell", d.elem(row, col) == s.node(x, col))


CONTRACTS += [("translate_mixed_cells", translate)]


CODE = {"vertex": 1, "line": 2, "triangle": 4, "quad": 5, "tetra": 6, "pyramid": 7, "wedge": 8, "hexahedron": 9, "line3": 0x22, "quad9": 0x23, "triangle6": 0x24, "quad8": 0x25, "tetra10": 0x26}


def groups(s):
    out = []
    for b, t in enumerate(s.types):
        if out and s.types[out[-1][-1]] == t:
            out[-1].append(b)
        else:
            out.append([b])
    return out


def joined(xs):
    return xs[0] if len(xs) == 1 else A.concatenate(Seq([Items(xs)]))


def mixed_stub(s, log):
    """translate_mixed_cells by its contract: the caller hands over the stream of the mesh, cell after cell"""
    CB = M.load("meshio._mesh").vars["CellBlock"]

    def stub(data):
        log.append(1)
        data = npm.asarray(data)
        i, K = z3.Int("i"), z3.IntVal(0)
        heads = [2 if t in ("vertex", "line") else 1 for t in s.types]
        ensure("the stream is one array", data.ndim == 1)
        ensure("length of the stream", ex(data.shape[0]) == sum([l * (NN[t] + h) for l, t, h in zip(s.L, s.types, heads)], z3.IntVal(0)))
        for b, t in enumerate(s.types):
            w = NN[t] + heads[b]
            with given(0 <= i, i < s.L[b]):
                ensure("code of the cell", data.elem(K + i * w) == CODE[t])
                if heads[b] == 2:
                    ensure("number of nodes of the cell", data.elem(K + i * w + 1) == NN[t])
                for j in range(NN[t]):
                    ensure("nodes of the cell", data.elem(K + i * w + heads[b] + j) == s.D[b](i, j))
            K = z3.simplify(K + s.L[b] * w)
        return PList(Seq.of(*[cell_block(CB, s.types[g[0]], joined([s.blocks[b] for b in g])) for g in groups(s)]))
    return stub


def mixed(blocks, pdim=3, point_data=(), cell_data=(), **kw):
    def run():
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True, point_data=point_data, cell_data=cell_data)
        log = []
        M.load("meshio.xdmf.main").vars["translate_mixed_cells"] = M.Native("translate_mixed_cells", mixed_stub(s, log))
        r = roundtrip("xdmf", s, wkw=kw, module="meshio.xdmf.main", path="a.xdmf")
        if r is None:
            return
        ensure("the stream is decoded", len(log) == 1)
        same_points(r, s, s.points)
        gs = groups(s)
        same_cells(r, [(s.types[g[0]], joined([s.blocks[b] for b in g])) for g in gs])
        same_data("point data", r.attrs["point_data"], s.pdata)
        same_data("cell data", r.attrs["cell_data"], {k: [joined([v[b] for b in g]) for g in gs] for k, v in s.cdata.items()})
    return run


for fmt in ["XML", "Binary", "HDF"]:
    C = lambda t, *a, **k: CONTRACTS.append((f"xdmf {fmt} mixed: {t}", mixed(*a, **k, data_format=fmt)))
    C("two types", ["triangle", "quad"], 2)
    C("vertices and lines", ["vertex", "tetra10", "line"])
    C("adjacent blocks of one type", ["triangle", "line", "line", "triangle"], cell_data=[("a", None, "f8"), ("b", 3, "i8")])
    C("data", ["quad8", "tetra"], 3, [("b", None, "f8"), ("a", 3, "i4")], [("y", 2, "f8"), ("x", None, "i4")])


# ----------------------------------------------------------------------------- time series
def method(o, name, *a, **k):
    return call_any(B.getattr_(o, name), list(a), k)


def series(blocks, fmt, steps, order, pdim=3, prefix=""):
    """steps: per step ([point data], [cell data]); the steps are read in the given order"""
    def run():
        names = sorted({n for p, c in steps for n in p + c})
        s = struct_mesh(blocks, pdim=pdim, nonempty=True, pts_nonempty=True)
        log = []
        mod = M.load("meshio.xdmf.time_series")
        if len(blocks) > 1:
            mod.vars["translate_mixed_cells"] = M.Native("translate_mixed_cells", mixed_stub(s, log))
        gs = groups(s)
        path = "a.xdmf"
        kind, w = call_any(mod.vars["TimeSeriesWriter"], [path], {"data_format": fmt})
        ensure("the writer can be made", kind == "return")
        if kind != "return":
            return
        ts = [z3.Const(f"t{q}", FS) for q in range(len(steps))]
        data = []
        ok = []

        def do(o, n, *a):
            kind, r = method(o, n, *a)
            if kind != "return" and CUR.get("verbose"):
                print("   raises", n, r)
            ok.append(kind == "return")
            return r
        do(w, "__enter__")
        do(w, "write_points_cells", s.points, s.obj.attrs["cells"])
        for q, (pn, cn) in enumerate(steps):
            pd = {n: data_array(f"pd{q}_{n}", [s.P], c, d) for n, c, d in pn}
            cd = {n: [data_array(f"cd{q}_{n}_{b}", [s.L[b]], c, d) for b in range(len(blocks))] for n, c, d in cn}
            data.append((pd, cd))
            do(w, "write_data", mk(ts[q]), PDict(Seq.of(*pd.items())), PDict(Seq.of(*[(n, PList(Seq.of(*v))) for n, v in cd.items()])))
        do(w, "__exit__", None, None, None)
        ensure("writing does not raise", all(ok))
        if not all(ok):
            return
        kind, r = call_any(mod.vars["TimeSeriesReader"], [path])
        ensure("reading does not raise", kind == "return")
        if kind != "return":
            return
        ensure_same("number of steps", B.getattr_(r, "num_steps"), len(steps))
        kind, pc = method(r, "read_points_cells")
        ensure("reading the mesh does not raise", kind == "return")
        if kind != "return":
            return
        same_array("points", pc[0], s.points)
        same_cells(Obj(None, {"cells": pc[1]}), [(s.types[g[0]], joined([s.blocks[b] for b in g])) for g in gs])
        for q in order:
            kind, tpc = method(r, "read_data", q)
            ensure("reading a step does not raise", kind == "return")
            if kind != "return":
                return
            ensure_same("time of the step", tpc[0], mk(ts[q]))
            same_data("point data of the step", tpc[1], data[q][0])
            same_data("cell data of the step", tpc[2], {k: [joined([v[b] for b in g]) for g in gs] for k, v in data[q][1].items()})
    return run


S3 = [([("a", None, "f8"), ("b", 3, "f8")], [("c", None, "i4")]), ([("b", 3, "f8")], []), ([], [("c", None, "f8"), ("d", 2, "f8")])]
for fmt in ["XML", "Binary", "HDF"]:
    CONTRACTS.append((f"time series {fmt}: one block", series(["tetra"], fmt, S3, [0, 1, 2])))
    CONTRACTS.append((f"time series {fmt}: 2D, several types, read backwards", series(["triangle", "line", "line"], fmt, S3, [2, 0, 1, 0], 2)))
