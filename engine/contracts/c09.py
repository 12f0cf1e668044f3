"""VTK cell streams.  The raw cell data contain a column that numbers the cells of the stream, so that the result says
by itself which cell of the stream each of its cells is."""
from ..symmesh import *
from ..obl import *

SPECIAL = ["polygon", "VTK_LAGRANGE_CURVE", "VTK_LAGRANGE_TRIANGLE", "VTK_LAGRANGE_QUADRILATERAL", "VTK_LAGRANGE_TETRAHEDRON",
           "VTK_LAGRANGE_HEXAHEDRON", "VTK_LAGRANGE_WEDGE", "VTK_LAGRANGE_PYRAMID"]
WEDGE = [0, 2, 1, 3, 5, 4]


class Stream:
    def __init__(self):
        c = M.load("meshio._vtk_common").vars
        self.vt, self.nn = M.table(c["vtk_to_meshio_type"]), M.table(c["num_nodes_per_cell"])
        self.n = z3.Int("n")
        self.LC = z3.Int("LC")
        self.C, self.O, self.TY = F("C", IS, IS), F("O", IS, IS), F("TY", IS, IS)
        self.D = F("Dat", IS, IS, IS)
        self.lemmas = lambda *a: None
        self.Ddecl = self.D(z3.IntVal(0), z3.IntVal(0)).decl()
        require(z3.And(self.n >= 0, self.LC >= 0))
        k = loopvar("k")
        require(z3.ForAll([k], self.D(k, 0) == k, patterns=[self.D(k, 0)]))
        self.conn = SArr.make([self.LC], lambda p: self.C(p), INT)
        self.offs = SArr.make([self.n], lambda p: self.O(p), INT)
        self.types = SArr.make([self.n], lambda p: self.TY(p), INT)
        self.raw = own(PDict(Seq.of(("data", SArr.make([self.n, 2], lambda a, c: self.D(a, c), INT)))), "in")
        for a in (self.conn, self.offs, self.types):
            a.buf.owner = "in"
        self.beg = lambda k: z3.If(k == 0, z3.IntVal(0), self.O(k - 1))
        self.known = lambda k: self.vt.pres(self.TY(k))
        self.name = lambda k: self.vt.f(self.TY(k))
        self.special = lambda k: z3.Or(*[self.name(k) == CTX.strc(x) for x in SPECIAL])
        self.size = lambda k: self.O(k) - self.beg(k)
        self.node = lambda k, o: self.C(self.beg(k) + o)
        # ends increase and stay inside the connectivity; cells of a fixed-size type have that many nodes
        require(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), z3.And(self.beg(k) <= self.O(k), self.O(k) <= self.LC, 0 <= self.beg(k),
                z3.Implies(z3.And(self.known(k), z3.Not(self.special(k))), z3.And(self.nn.pres(self.name(k)), self.size(k) == self.nn.f(self.name(k)))))), patterns=[self.O(k)]))


def leaves(a, b, hyps=(), at=()):
    """pairs of elements of two sequences of the same shape: (element, element, hypotheses, position variables)"""
    if len(a.segs) != len(b.segs):
        raise Unsupported("cells and cell data are built in different ways")
    for i, (p, q) in enumerate(zip(a.segs, b.segs)):
        if isinstance(p, Items) and isinstance(q, Items) and len(p.xs) == len(q.xs):
            for j, (x, y) in enumerate(zip(p.xs, q.xs)):
                yield x, y, list(hyps), at + (("c", i, j),)
        elif isinstance(p, Gen) and isinstance(q, Gen) and p.flat == q.flat and p.cond is None and q.cond is None:
            ensure("as many data arrays as blocks", p.n == q.n, hyps)
            k = z3.Int(CTX.name("at"))
            h = list(hyps) + [0 <= k, k < p.n]
            if p.flat:
                yield from leaves(p.fn(k), q.fn(k), h, at + (("g", i, k),))
            else:
                yield p.fn(k), q.fn(k), h, at + (("g", i, k),)
        else:
            raise Unsupported("cells and cell data are built in different ways")


def hint(decls, params, t):
    """mention the rank of a position in the np.where of the code (makes the solver use its definition)"""
    return [z3.Int(CTX.name("hint")) == rank(*params[:np_], t) for W, rank, c, np_, _ in decls if np_ <= len(params)]


def from_data():
    s = Stream()
    frame_start()
    kind, r = call("meshio._vtk_common", "vtk_cells_from_data", [s.conn, s.offs, s.types, s.raw])
    frame_end()
    ensure("does not raise", kind == "return")
    if kind == "return":
        decoded(s, r)


def decoded(s, r):
    """the result lists exactly the cells of known type of the stream"""
    cells, data = r
    c = M.dict_ents(data)
    if c.concrete() is not None:
        ents = c.concrete()
    else:
        ents = [(k, m.value) for k, m in (data.maybe or {}).items()]
    ensure("only the names of the raw data", all(k == "data" for k, _ in ents) and len(ents) <= 1)
    dl = ents[0][1].seq if ents else Seq()
    if CTX.branch(s.n == 0):
        for g in cells.seq.segs:
            k = z3.Int(CTX.name("k"))
            ensure("no cells from an empty stream", not isinstance(g, Items) and z3.And(z3.BoolVal(not g.flat), z3.Not(z3.And(0 <= k, k < g.n, g.cond(k) if g.cond else True))))
        return
    cs, dl = unconditional(cells.seq), unconditional(dl)
    L = list(leaves(cs, dl))
    if not L:
        ensure("no cells only from an empty stream", s.n == 0)
    outer = [w for w in CTX.wheres.values() if w[3] == 0]
    inner = [w for w in CTX.wheres.values() if w[3] == 1]
    for blk, dat, hyps, at in L:
        leaf(s, blk, dat, hyps, at, outer, inner)
    if not L:
        return
    # read one after the other, the blocks list every cell of a known type once and in stream order
    W, _, cnt, _, _ = outer[0] if len(outer) == 1 else (None, None, None, None, None)
    if W is None or len(dl.segs) != 1 or not isinstance(dl.segs[0], Gen):
        raise Unsupported("the blocks are not built run by run")
    S = lambda k: z3.If(k >= 1, 1 + W(k - 1), 0)
    E = lambda k: z3.If(k < cnt(), 1 + W(k), s.n)
    g = dl.segs[0]
    k = z3.Int("k")
    ensure("the runs cover the stream", z3.And(g.n == cnt() + 1, S(z3.IntVal(0)) == 0, E(g.n - 1) == s.n))
    with given(0 <= k, k < g.n):
        ensure("runs follow one another", z3.Implies(k + 1 < g.n, E(k) == S(k + 1)))
        end = chain(s, g.fn(k) if g.flat else Seq.of(g.fn(k)), S(k))
        with given(s.known(S(k))):
            ensure("no cell of a known type is lost", end == E(k))
        with given(z3.Not(s.known(S(k)))):
            ensure("cells of an unknown type are left out", end == S(k))


def ident(s, dat, q):
    """which cell of the stream the row is of"""
    e = z3.simplify(dat.elem(q, z3.IntVal(0)))
    return e.arg(0) if z3.is_app(e) and e.decl() == s.Ddecl and z3.simplify(e.arg(1) == 0).eq(z3.BoolVal(True)) else e


def unconditional(sq):
    """drop conditions that always hold"""
    out = []
    for g in sq.segs:
        if isinstance(g, Gen) and g.cond is not None:
            k = z3.Int(CTX.name("k"))
            ensure("every run gives its blocks", g.cond(k), [0 <= k, k < g.n])
            g = Gen(g.n, g.fn, flat=g.flat)
        out.append(g)
    return Seq(out)


def chain(s, sq, a):
    """the blocks of the sequence follow one another without a gap from cell a on; returns where they end"""
    z = z3.IntVal(0)
    for g in sq.segs:
        if isinstance(g, Items):
            for dat in g.xs:
                ensure("blocks follow one another", z3.And(ident(s, dat, z) == a, ex(dat.shape[0]) >= 1))
                a = a + ex(dat.shape[0])
        elif g.cond is not None:
            raise Unsupported("conditional blocks")
        elif g.flat:
            ensure("one choice of blocks", z3.And(0 <= g.n, g.n <= 1))
            with given(g.n == 1) as ok:
                b = chain(s, g.fn(z), a) if ok else a
            a = z3.If(g.n == 1, b, a)
        else:
            j = z3.Int(CTX.name("j"))
            first = lambda j: ident(s, g.fn(j), z)
            rows = lambda j: ex(g.fn(j).shape[0])
            with given(g.n >= 1):
                ensure("blocks follow one another", first(z) == a)
            with given(0 <= j, j < g.n):
                ensure("no empty block", rows(j) >= 1)
                ensure("blocks follow one another", z3.Implies(j + 1 < g.n, first(j) + rows(j) == first(j + 1)))
            a = z3.If(g.n >= 1, first(g.n - 1) + rows(g.n - 1), a)
    return z3.simplify(a)


def leaf(s, blk, dat, hyps, at, outer, inner):
    row, col, p, S, E, x0, x = z3.Ints("row col p S E x0 x")
    pv = [v[2] for v in at if v[0] == "g"]
    btype, bd = parts(blk)
    rows = ex(dat.shape[0])

    with given(*hyps) as ok:
        if not ok:
            return
        ensure("one data row per cell", ex(bd.shape[0]) == rows)
        require(ex(bd.shape[0]) == rows)
        if len(outer) == 1 and pv:
            W, _, cnt, _, _ = outer[0]
            k = pv[0]
            require(S == z3.If(k >= 1, 1 + W(k - 1), 0))
            require(E == z3.If(k < cnt(), 1 + W(k), s.n))
        else:
            require(z3.And(S == 0, E == s.n))
        with given(0 <= row, row < rows) as ok2:
            if not ok2:
                return
            require(x0 == ident(s, dat, z3.IntVal(0)))
            require(x == ident(s, dat, row))
            ensure("cells of the stream", z3.And(0 <= x, x < s.n))
            ensure("consecutive cells of the stream", z3.And(x == x0 + row, ident(s, dat, rows - 1) == x0 + rows - 1))
            require(z3.And(x == x0 + row, 0 <= x, x < s.n))
            ensure("inside a run of the stream", z3.And(0 <= S, S <= x0, x0 + rows <= E, E <= s.n))
            require(z3.And(0 <= S, S <= x0, x0 + rows <= E, E <= s.n))
            with given(S <= p, p + 1 < E, *hint(outer, pv, p)):
                ensure("one type per run (step)", s.TY(p) == s.TY(p + 1))
            # induction over p from S: all cells of the run are of the type of its first one
            for q in (x0, x):
                require(s.TY(q) == s.TY(S))
            ensure("known type", s.known(S))
            require(s.known(S))
            ensure_same("type", btype, mk(s.name(S)))
            with given(x0 <= p, p + 1 < x0 + rows, s.TY(p) == s.TY(S), s.TY(p + 1) == s.TY(S), z3.Int("h1") == s.O(p), z3.Int("h2") == s.O(p + 1), z3.Int("h3") == s.O(p - 1), *hint(inner, pv, p - S)):
                s.lemmas(p, p + 1)
                ensure("one node count per block (step)", s.size(p) == s.size(p + 1))
            s.lemmas(x0, x)
            # induction over p from x0
            require(s.size(x) == s.size(x0))
            hh = [z3.Int("h3") == s.O(x), z3.Int("h4") == s.O(x0)]
            ensure("as many nodes as the cell", ex(bd.shape[1]) == s.size(x), hh)
            o = z3.If(s.TY(S) == 13, pick(WEDGE, col), col)
            ensure("nodes of the cell in meshio order", bd.elem(row, col) == s.node(x, o), hh + [0 <= col, col < s.size(x)])
            ensure("data of the cell", dat.elem(row, z3.IntVal(1)) == s.D(x, 1))


def parts(blk):
    if isinstance(blk, tuple):
        return blk
    return blk.attrs["type"], blk.attrs["data"]


class LegacyStream:
    """(number of nodes, nodes) of cell after cell; beg(k): where the entry of cell k begins"""

    def __init__(self, wellformed):
        c = M.load("meshio._vtk_common").vars
        self.vt, self.nn = M.table(c["vtk_to_meshio_type"]), M.table(c["num_nodes_per_cell"])
        self.n = z3.Int("n")
        self.LC = z3.Int("LC")
        self.C, self.TY = F("C", IS, IS), F("TY", IS, IS)
        self.D, self.beg = F("Dat", IS, IS, IS), F("beg", IS, IS)
        self.lemmas = lambda *a: None
        self.Ddecl = self.D(z3.IntVal(0), z3.IntVal(0)).decl()
        require(z3.And(self.n >= 0, self.LC >= 0, self.beg(0) == 0))
        k = loopvar("k")
        require(z3.ForAll([k], self.D(k, 0) == k, patterns=[self.D(k, 0)]))
        require(z3.ForAll([k], z3.Implies(k >= 0, self.beg(k + 1) == self.beg(k) + 1 + self.C(self.beg(k))), patterns=[self.beg(k + 1)]))
        require(z3.ForAll([k], z3.And(self.TY(k) >= 0, self.TY(k) != 7), patterns=[self.TY(k)]))
        self.conn = SArr.make([self.LC], lambda p: self.C(p), INT)
        self.types = SArr.make([self.n], lambda p: self.TY(p), INT)
        self.raw = own(PDict(Seq.of(("data", SArr.make([self.n, 2], lambda a, c: self.D(a, c), INT)))), "in")
        for a in (self.conn, self.types):
            a.buf.owner = "in"
        self.known = lambda k: self.vt.pres(self.TY(k))
        self.name = lambda k: self.vt.f(self.TY(k))
        self.special = lambda k: z3.Or(*[self.name(k) == CTX.strc(x) for x in SPECIAL])
        self.size = lambda k: self.C(self.beg(k))
        self.node = lambda k, o: self.C(self.beg(k) + 1 + o)
        self.O = self.beg
        if wellformed:
            require(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), z3.And(self.known(k), z3.Not(self.special(k)), self.nn.pres(self.name(k)), self.size(k) == self.nn.f(self.name(k)),
                    self.beg(k) >= 0, self.beg(k) < self.LC, self.beg(k + 1) <= self.LC)), patterns=[self.TY(k)]))

    def code_offsets(self, ps):
        """the offsets that the code sums up are the positions of the entries: induction over the cell"""
        k = z3.Int("k")
        if len(ps) != 1 or ps[0].params:
            raise Unsupported("offsets are not one running sum")
        P = ps[0].at
        ensure("first entry", P(z3.IntVal(0)) == self.beg(0))
        with given(0 <= k, k < self.n, P(k) == self.beg(k), z3.Int("h") == self.TY(k)):
            ensure("next entry", P(k + 1) == self.beg(k + 1))

        def lemmas(*xs):
            for x in xs:
                require(z3.And(P(x) == self.beg(x), P(x + 1) == self.beg(x + 1)))
        self.lemmas = lemmas


def legacy(wellformed=False):
    def run():
        s = LegacyStream(wellformed)
        frame_start()
        kind, r = call("meshio.vtk._vtk_42", "translate_cells", [s.conn, s.types, s.raw])
        frame_end()
        if wellformed and kind != "return" and CTX.ps:
            s.code_offsets(CTX.ps)
            k = loopvar("k")
            P = CTX.ps[0].at
            require(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= s.n), P(k) == s.beg(k)), patterns=[P(k)]))
        if wellformed:
            ensure("does not raise", kind == "return")
        if kind != "return":
            return
        s.code_offsets(CTX.ps)
        decoded(s, r)
    return run


def organize():
    """the pieces of a VTU file; the callee vtk_cells_from_data is replaced by its contract: some blocks and their data"""
    NP, NB, OF = z3.Int("NP"), F("NB", IS, IS), F("OF", IS, IS)
    BT, BL, BW, BN, BD = F("BT", IS, IS, SS), F("BL", IS, IS, IS), F("BW", IS, IS, IS), F("BN", IS, IS, IS, IS, IS), F("BD", IS, IS, IS, FS)
    TYP, NT = F("TYP", IS, IS, IS), F("NT", IS, IS)
    k, j, r, c = loopvar("k"), loopvar("j"), loopvar("r"), loopvar("c")
    require(NP >= 1)
    require(z3.ForAll([k], z3.And(NB(k) >= 1, NT(k) >= 0), patterns=[NB(k)]))
    require(z3.ForAll([k], NT(k) >= 0, patterns=[NT(k)]))
    require(z3.ForAll([k, j], z3.And(BL(k, j) >= 1, BW(k, j) >= 1), patterns=[BL(k, j)]))
    require(z3.ForAll([k, j], TYP(k, j) != 42, patterns=[TYP(k, j)]))
    ph, td = str_pred("sw", "polyhedron"), M.table(M.load("meshio._mesh").vars["topological_dimension"])
    require(z3.ForAll([k, j], z3.And(z3.Not(ph(BT(k, j))), td.pres(BT(k, j))), patterns=[BT(k, j)]))
    m = M.load("meshio.vtu._vtu")
    CB = M.load("meshio._mesh").vars["CellBlock"]
    calls = []

    def stub(conn, offs, types, cdr):
        k = cdr.piece
        calls.append((conn.elem(z3.IntVal(0)), types.elem(z3.IntVal(0)), k))
        cells = PList(Seq([Gen(NB(k), lambda j: Obj(CB, {"type": mk(BT(k, j)), "data": SArr.make([BL(k, j), BW(k, j)], lambda a, b: BN(k, j, a, b), INT)}))]))
        dd = PDict(Seq.of(("data", PList(Seq([Gen(NB(k), lambda j: SArr.make([BL(k, j)], lambda a: BD(k, j, a), FLD))])))))
        return cells, dd
    m.vars["vtk_cells_from_data"] = M.Native("vtk_cells_from_data", stub)
    CN, ON = F("CN", IS, IS, IS), F("ON", IS, IS, IS)

    def piece(k):
        return PDict(Seq.of(("connectivity", SArr.make([NT(k)], lambda p: CN(k, p), INT)), ("offsets", SArr.make([NT(k)], lambda p: ON(k, p), INT)), ("types", SArr.make([NT(k)], lambda p: TYP(k, p), INT))))

    def raw(k):
        d = PDict(Seq.of(("data", SArr.make([NT(k)], lambda p: TYP(k, p), INT))))
        d.piece = k
        return d
    offs = own(PList(Seq([Gen(NP, lambda k: mk(OF(k)))])), "in")
    frame_start()
    kind, res = call("meshio.vtu._vtu", "_organize_cells", [offs, own(PList(Seq([Gen(NP, piece)])), "in"), own(PList(Seq([Gen(NP, raw)])), "in")])
    frame_end()
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    cells, data = res
    ensure("every piece is decoded", len(calls) >= 1)
    for a, t, k in calls:
        ensure("each piece from its own arrays", z3.And(a == CN(k, 0), t == TYP(k, 0)))
    ensure_same("blocks of the pieces in file order", PList(Seq([Gen(NP, lambda k: Seq([Gen(NB(k), lambda j: (mk(BT(k, j)), SArr.make([BL(k, j), BW(k, j)], lambda a, b: BN(k, j, a, b) + OF(k), INT)))]), flat=True)])), PList(cells.seq.map(parts)) if hasattr(cells.seq, "map") else cells)
    ents = M.dict_ents(data).concrete()
    ents = ents if ents is not None else [(k, m.value) for k, m in (data.maybe or {}).items()]
    ensure("only the names of the raw data", all(k == "data" for k, _ in ents) and len(ents) <= 1)
    for _, v in ents:
        ensure_same("data of the pieces in file order", v, PList(Seq([Gen(NP, lambda k: Seq([Gen(NB(k), lambda j: SArr.make([BL(k, j)], lambda a: BD(k, j, a), FLD))]), flat=True)])))


def pick(xs, c):
    r = z3.IntVal(xs[-1])
    for i in range(len(xs) - 2, -1, -1):
        r = z3.If(c == i, z3.IntVal(xs[i]), r)
    return r


CONTRACTS = [("vtk_cells_from_data", from_data), ("translate_cells", legacy()), ("translate_cells, well-formed stream", legacy(True)), ("_organize_cells", organize)]
