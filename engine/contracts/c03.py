"""Sets and integer data.  label(j, p): what the first j sets say about p (-1, or the last of them that contains p)."""
from ..symmesh import *
from ..obl import *
from .. import obl
from .. import arr as A


def membership(name, nsets, length, elem, nparams):
    """ghost predicate in(set, ..., p) with its definition (the witness is a function)"""
    inn, wit = F("in_" + name, *([IS] * (nparams + 1)), BS), F("wit_" + name, *([IS] * (nparams + 1)), IS)
    ps = [loopvar("s%d" % i) for i in range(nparams)]
    p, c = loopvar("p"), loopvar("c")
    require(z3.ForAll(ps + [p], z3.Implies(inn(*ps, p), z3.And(0 <= wit(*ps, p), wit(*ps, p) < length(*ps), elem(*ps, wit(*ps, p)) == p)), patterns=[inn(*ps, p)]))
    require(z3.ForAll(ps + [c], z3.Implies(z3.And(0 <= c, c < length(*ps)), inn(*ps, elem(*ps, c))), patterns=[elem(*ps, c)]))
    return inn


def recursions(e):
    """the recursively described values in a term: (recursion, arguments of the enclosing iterations, index)"""
    by = {rec_name(r): r for r in CTX.recs if r.t.kind == "buf"}
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        r = by.get(x.decl().name())
        if r is not None and x.num_args():
            m = len(r.outer)
            a = x.children()
            out.append((r, x, a[:m], a[m], a[m + 1:]))
        else:
            todo += x.children()
    return out


def rec_name(r):
    for nd in (1, 2, 0, 3):
        try:
            return r.t.f(z3.IntVal(0), *[z3.IntVal(0)] * nd).decl().name()
        except z3.Z3Exception:
            pass


def pattern(e):
    return e.arg(e.num_args() - 1) if z3.is_and(e) else e


def labels(e, inset, n, p):
    """e: an element of the array that the code builds up set by set; it is the label of p: induction over the sets"""
    rs = recursions(e)
    if not rs:
        raise Unsupported("the array is not built set by set")
    lab = F(CTX.name("label"), IS, IS)
    q, i = z3.Int(CTX.name("q")), loopvar("i")
    require(lab(0) == -1)
    for r, term, outer, upto, idx in rs:
        sub = lambda x: z3.substitute(x, *zip(r.outer, outer)) if r.outer else x
        f = lambda j: sub(r.t.f(j, *idx))
        j = z3.Int(CTX.name("j"))
        base, step = [sub(x) for x in r.facts(j, *idx)]
        ensure("all sets are looked at", upto == n)
        with given(base):
            ensure("label before the first set", f(z3.IntVal(0)) == -1)
        with given(0 <= j, j < n, step, f(j) == lab(j)):
            ensure("label after the next set", f(j + 1) == z3.If(inset(j, p), j, lab(j)))
        require(f(n) == lab(n))
    # what label means, from its definition label(0) = -1, label(j+1) = j if p is in set j else label(j): induction over j
    inv = lambda q: z3.And(-1 <= lab(q), lab(q) < q, z3.Or(lab(q) == -1, inset(lab(q), p)), z3.ForAll([i], z3.Implies(z3.And(lab(q) < i, i < q), z3.Not(inset(i, p))), patterns=[pattern(inset(i, p))]))
    ensure("meaning of the label, no sets", inv(z3.IntVal(0)))
    with given(0 <= q, q < n, inv(q), lab(q + 1) == z3.If(inset(q, p), q, lab(q))):
        ensure("meaning of the label, next set", inv(q + 1))
    return lab(n)


def entries(label, d, name, nold, key, old, new):
    """dictionary d: the nold old entries in order, with the entry of that name replaced or added at the end"""
    ents = M.dict_ents(d)
    tot = ents.length()
    j = loopvar("j")
    had = z3.Exists([j], z3.And(0 <= j, j < nold, key(j) == name))
    ensure(label + ": number of entries", tot == z3.If(had, nold, nold + 1))
    for pos, (k, v), hyps in each(ents):
        with given(*hyps) as ok:
            if not ok:
                continue
            with given(sstr(k) == name) as ok:
                if ok:
                    new(v)
            with given(sstr(k) != name) as ok:
                if ok:
                    ensure(label + ": only old entries besides", pos < nold)
                    ensure_same(label + ": other names kept", k, mk(key(pos)))
                    old(pos, v)
            ensure(label + ": a new name comes last", z3.Implies(sstr(k) == name, z3.Or(pos == nold, key(pos) == name)))


def untouched(s, but):
    o = s.obj.attrs
    for a in ("points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets"):
        if a not in but:
            if o[a] is getattr(s, a):
                obl.OBS.add("keeps " + a, "discharged")
            else:
                ensure_same("keeps " + a, o[a], getattr(s, a))


def emptied(label, d):
    ensure(label, isinstance(d, PDict) and M.dict_ents(d).concrete() == [])


def joined(n, f):
    """the name that the code makes of the set names"""
    js = getattr(CTX, "joins", [])
    ensure("one name made of the set names", len(js) >= 1 and all(j[1] == "-" for j in js))
    if not js:
        raise Unsupported("no name")
    for j in js:
        ensure_same("one name made of the set names", PList(j[2]), PList(Seq([Gen(n, lambda i: mk(f(i)))])))
    return js[-1][0]


def point_sets():
    s = sym_mesh(int_point_data=True)
    inn = membership("ps", s.NQ, s.QL, s.QM, 1)
    given_name = CTX.branch(z3.Bool("name_given"))
    dn = new_string("dn") if given_name else None
    frame_start(allow=[s.obj, s.point_data])
    kind, r = call("meshio._mesh", "Mesh.point_sets_to_data", [s.obj] + (["-", dn] if given_name else []))
    frame_end()
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    untouched(s, ("point_data", "point_sets"))
    o = s.obj.attrs
    if CTX.branch(s.NQ == 0):
        ensure("without sets there are none afterwards", M.dict_ents(o["point_sets"]).length() == 0)
        ensure_same("without sets nothing changes (data)", o["point_data"], PDict(Seq([Gen(s.NP, lambda i: (mk(s.PN(i)), SArr.make([s.P], lambda a: s.PV(i, a), INT)))])))
        return
    emptied("the sets are gone", o["point_sets"])
    name = joined(s.NQ, s.QN) if dn is None else dn.e
    p = z3.Int("p")

    def new(v):
        ensure("one label per point", z3.And(z3.BoolVal(v.ndim == 1), ex(v.shape[0]) == s.P))
        with given(0 <= p, p < s.P):
            lab = labels(v.elem(p), inn, s.NQ, p)
            ensure("label of a point: the last set that contains it, else -1", v.elem(p) == lab)

    def old(i, v):
        ensure_same("other data kept", v, SArr.make([s.P], lambda a: s.PV(i, a), INT))
    entries("point data", o["point_data"], name, s.NP, s.PN, old, new)


def cell_sets():
    s = sym_mesh(int_cell_data=True)
    inn = membership("cs", s.NS, s.SL, s.SM, 2)
    given_name = CTX.branch(z3.Bool("name_given"))
    dn = new_string("dn") if given_name else None
    frame_start(allow=[s.obj, s.cell_data])
    kind, r = call("meshio._mesh", "Mesh.cell_sets_to_data", [s.obj] + ([dn] if given_name else []))
    frame_end()
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    untouched(s, ("cell_data", "cell_sets"))
    o = s.obj.attrs
    before = PDict(Seq([Gen(s.NC, lambda i: (mk(s.CN(i)), PList(Seq([Gen(s.N, lambda b: s.cdarr(i, b))]))))]))
    if CTX.branch(s.NS == 0):
        ensure("without sets there are none afterwards", M.dict_ents(o["cell_sets"]).length() == 0)
        ensure_same("without sets nothing changes (data)", o["cell_data"], before)
        return
    emptied("the sets are gone", o["cell_sets"])
    name = joined(s.NS, s.SN) if dn is None else dn.e
    p, b = z3.Ints("p b")

    def new(v):
        g = v.seq.single()
        if g is None or g.cond is not None or g.flat:
            raise Unsupported("the list is not built block by block")
        ensure("one array per block", g.n == s.N)
        with given(0 <= b, b < s.N):
            a = g.fn(b)
            ensure("one label per cell", z3.And(z3.BoolVal(a.ndim == 1), ex(a.shape[0]) == s.L(b)))
            with given(0 <= p, p < s.L(b)):
                lab = labels(a.elem(p), lambda i, p: z3.And(s.SH(i, b), inn(i, b, p)), s.NS, p)
                ensure("label of a cell: the last set that contains it, else -1", a.elem(p) == lab)

    def old(i, v):
        ensure_same("other data kept", v, PList(Seq([Gen(s.N, lambda b: s.cdarr(i, b))])))
    entries("cell data", o["cell_data"], name, s.NC, s.CN, old, new)


def fresh_names(key, n, f):
    """the sets that are there already have other names than the new ones (which are parts of the key or set-<key>-<value>)"""
    i, j, t = loopvar("i"), loopvar("j"), loopvar("t")
    part = z3.Function("split:-", SS, IS, SS)
    alt = lambda t: text_term("set-" + tokstr(mk(key), "") + "-" + tokstr(mk(t), ""))
    require(z3.ForAll([i, j], f(i) != part(key, j), patterns=[z3.MultiPattern(f(i), part(key, j))]))
    require(z3.ForAll([i, t], f(i) != alt(t), patterns=[z3.MultiPattern(f(i), alt(t))]))
    return part, alt


def point_data():
    s = sym_mesh(int_point_data=True)
    d = z3.Int("d0")
    require(z3.And(0 <= d, d < s.NP))
    key = s.PN(d)
    part, alt = fresh_names(key, s.NQ, s.QN)
    dist = CTX.branch(z3.Bool("parts_differ"))
    if dist:
        names_distinct(z3.Function("nsplit:-", SS, IS)(key), lambda i: part(key, i))
    frame_start(allow=[s.obj, s.point_data, s.point_sets])
    kind, r = call("meshio._mesh", "Mesh.point_data_to_sets", [s.obj, mk(key)])
    frame_end()
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    untouched(s, ("point_data", "point_sets"))
    o = s.obj.attrs
    pd = lambda i: (mk(s.PN(i)), SArr.make([s.P], lambda a: s.PV(i, a), INT))
    ensure_same("removes only that data array", o["point_data"], PDict(Seq([Gen(s.NP, pd, lambda i: i != d)])))
    ents = M.dict_ents(o["point_sets"])
    g0, g = old_and_new(ents, s.NQ)
    if g0 is not None:
        ensure_same("other sets kept", PDict(Seq([g0])), PDict(Seq([Gen(s.NQ, lambda i: (mk(s.QN(i)), SArr.make([s.QL(i)], lambda c: s.QM(i, c), INT)))])))
    u, u2, p, c = z3.Ints("u u2 p c")
    val = lambda p: s.PV(d, p)
    mem = lambda u: g.fn(u)[1]
    at = lambda u, c: mem(u).elem(c)
    size = lambda u: ex(mem(u).shape[0])
    tag = lambda u: val(at(u, z3.IntVal(0)))
    U, first, inv, m, _ = CTX.uniqs[-1] if CTX.uniqs else raise_(Unsupported("no np.unique"))
    rank = lambda u, p: [w[1](u, p) if w[3] == 1 else w[1](p) for w in CTX.wheres.values()]
    with given(0 <= u, u < g.n, *[z3.Int(CTX.name("hint")) == r for r in rank(u, first(u))]):
        ensure("no empty set", size(u) >= 1)
        require(size(u) >= 1)
        with given(0 <= c, c < size(u)):
            ensure("members are points", z3.And(0 <= at(u, c), at(u, c) < s.P))
            ensure("members have the value of the set", val(at(u, c)) == tag(u))
            ensure("members in increasing order", z3.Implies(c + 1 < size(u), at(u, c) < at(u, c + 1)))
        with given(0 <= p, p < s.P, val(p) == tag(u)):
            ensure("every point with the value is a member", z3.Or(*[z3.And(0 <= r, r < size(u), at(u, r) == p) for r in rank(u, p)]))
        with given(0 <= u2, u2 < u, size(u2) >= 1, *[z3.Int(CTX.name("hint")) == r for r in rank(u2, first(u2))]):
            ensure("different sets have different values, in increasing order", tag(u2) < tag(u))
        names(g, u, tag, key, part, alt, val, s.P, m, dist)
    with given(0 <= p, p < s.P):
        x = inv(p)
        ensure("every value has its set", z3.And(0 <= x, x < g.n, z3.Or(*[z3.And(0 <= r, r < size(x), at(x, r) == p) for r in rank(x, p)])), [z3.Int(CTX.name("hint")) == r for r in rank(x, p)])


def raise_(e):
    raise e


def old_and_new(ents, n):
    """the entries that were there and the entries of the new sets"""
    gs = [g for g in ents.segs if isinstance(g, Gen) and g.cond is None and not g.flat]
    if len(gs) != len(ents.segs) or not gs:
        raise Unsupported("the sets are not described generically")
    if len(gs) == 1:
        ensure("other sets kept", n == 0)
        return None, gs[0]
    if len(gs) != 2:
        raise Unsupported("the sets are not described generically")
    return gs


def names(g, u, tag, key, part, alt, val, total, m, dist):
    """the parts of the key if there are as many as values and -1 is no value, else set-<key>-<value>"""
    nm = sstr(g.fn(u)[0])
    np_ = z3.Function("nsplit:-", SS, IS)(key)
    q = loopvar("q")
    if isinstance(total, SymMesh):
        q2 = loopvar("q2")
        minus = z3.Exists([q, q2], z3.And(0 <= q, q < total.N, 0 <= q2, q2 < total.L(q), val(q, q2) == -1))
    else:
        minus = z3.Exists([q], z3.And(0 <= q, q < total, val(q) == -1))
    if dist:
        parts = z3.And(np_ == g.n, z3.Not(minus))
        with given(parts) as ok:
            if ok:
                ensure("named after the parts of the key", nm == part(key, u))
        sk = z3.Int(CTX.name("sk")), z3.Int(CTX.name("sk"))
        inv = CTX.uniqs[-1][2]
        where = [0 <= sk[0], sk[0] < total.N, 0 <= sk[1], sk[1] < total.L(sk[0]), val(*sk) == -1, z3.Int(CTX.name("hint")) == inv(off(total, sk[0]) + sk[1])] if isinstance(total, SymMesh) else \
                [0 <= sk[0], sk[0] < total, val(sk[0]) == -1, z3.Int(CTX.name("hint")) == inv(sk[0])]
        for h in ([np_ != g.n], where):
            with given(*h) as ok:
                if ok:
                    ensure("named after key and value", nm == alt(tag(u)))
    else:
        j = loopvar("j")
        ensure("named after the parts of the key or after key and value", z3.Or(nm == alt(tag(u)), z3.Exists([j], z3.And(0 <= j, j < np_, nm == part(key, j)))))


def cell_data():
    s = sym_mesh(int_cell_data=True)
    d = z3.Int("d0")
    require(z3.And(0 <= d, d < s.NC, s.N >= 1))
    key = s.CN(d)
    part, alt = fresh_names(key, s.NS, s.SN)
    dist = CTX.branch(z3.Bool("parts_differ"))
    if dist:
        names_distinct(z3.Function("nsplit:-", SS, IS)(key), lambda i: part(key, i))
    frame_start(allow=[s.obj, s.cell_data, s.cell_sets])
    kind, r = call("meshio._mesh", "Mesh.cell_data_to_sets", [s.obj, mk(key)])
    frame_end()
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    untouched(s, ("cell_data", "cell_sets"))
    o = s.obj.attrs
    cd = lambda i: (mk(s.CN(i)), PList(Seq([Gen(s.N, lambda b: s.cdarr(i, b))])))
    ensure_same("removes only that data array", o["cell_data"], PDict(Seq([Gen(s.NC, cd, lambda i: i != d)])))
    ents = M.dict_ents(o["cell_sets"])
    g0, g = old_and_new(ents, s.NS)
    if g0 is not None:
        ensure_same("other sets kept", PDict(Seq([g0])), PDict(Seq([Gen(s.NS, lambda i: (mk(s.SN(i)), PList(Seq([Gen(s.N, lambda q: s.csarr(i, q))]))))])))
    u, u2, p, b, c = z3.Ints("u u2 p b c")
    val = lambda b, p: s.CV(d, b, p)
    lst = g.fn(u)[1].seq.single()
    if lst is None or lst.cond is not None or lst.flat:
        raise Unsupported("the sets are not described block by block")
    mem = lambda u, b: g.fn(u)[1].seq.single().fn(b)
    at = lambda u, b, c: mem(u, b).elem(c)
    size = lambda u, b: ex(mem(u, b).shape[0])
    U, first, inv, m, _ = CTX.uniqs[-1] if CTX.uniqs else raise_(Unsupported("no np.unique"))
    rank = lambda u, b, p: [w[1](u, b, p) for w in CTX.wheres.values() if w[3] == 2]
    hints = lambda *x: [z3.Int(CTX.name("hint")) == r for r in rank(*x)]
    flat = lambda b, p: off(s, b) + p
    tag = lambda u: U(u)
    # U(u): the value of set u; it is the value of some cell
    j, a = loopvar("j"), loopvar("a")
    with given(0 <= u, u < g.n):
        ensure("one entry per block", lst.n == s.N)
        ensure("the value of a set is the value of some cell", z3.Exists([j, a], z3.And(0 <= j, j < s.N, 0 <= a, a < s.L(j), val(j, a) == tag(u))), [z3.Int("hf") == first(u)])
        with given(0 <= u2, u2 < u):
            ensure("different sets have different values, in increasing order", tag(u2) < tag(u))
        with given(0 <= b, b < s.N):
            with given(0 <= c, c < size(u, b)):
                ensure("members are cells of the block", z3.And(0 <= at(u, b, c), at(u, b, c) < s.L(b)))
                ensure("members have the value of the set", val(b, at(u, b, c)) == tag(u))
                ensure("members in increasing order", z3.Implies(c + 1 < size(u, b), at(u, b, c) < at(u, b, c + 1)))
            with given(0 <= p, p < s.L(b), val(b, p) == tag(u)):
                ensure("every cell with the value is a member", z3.Or(*[z3.And(0 <= r, r < size(u, b), at(u, b, r) == p) for r in rank(u, b, p)]))
        names(g, u, tag, key, part, alt, val, s, m, dist)
    with given(0 <= b, b < s.N, 0 <= p, p < s.L(b)):
        x = inv(flat(b, p))
        ensure("every value has its set", z3.And(0 <= x, x < g.n, tag(x) == val(b, p)))


def off(s, b):
    j = loopvar("j")
    return prefix_sum(j, s.L(j), b)


def lemma_roundtrip():
    """labels of non-empty disjoint sets that cover everything: the values are exactly 0..n-1, so the set of value u is the
    u-th new set, and its name is the u-th part of the joined name"""
    U, inv = F("U", IS, IS), F("inv", IS, IS)
    n, m, u = z3.Ints("n m u")
    i, j = loopvar("i"), loopvar("j")
    require(z3.And(n >= 1, m >= 0))
    require(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), U(i) < U(j)), patterns=[z3.MultiPattern(U(i), U(j))]))
    require(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= U(i), U(i) < n)), patterns=[U(i)]))
    require(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv(i), inv(i) < m, U(inv(i)) == i)), patterns=[inv(i)]))
    with given(z3.And(0 <= u, u < m), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < u), U(i) == i), patterns=[U(i)]), z3.Int("h") == U(u - 1), z3.Int("h1") == inv(u)):
        ensure("value u belongs to set u (strong induction)", U(u) == u)
    require(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), U(i) == i), patterns=[U(i)]))
    ensure("as many sets as names", m == n, [z3.Int("h") == U(m - 1), z3.Int("h1") == inv(n - 1)])


CONTRACTS = [("Mesh.cell_data_to_sets", cell_data), ("Mesh.point_data_to_sets", point_data)] + [("Mesh.cell_sets_to_data", cell_sets)] + [("Mesh.point_sets_to_data", point_sets)] + [("lemma_roundtrip", lemma_roundtrip)]
