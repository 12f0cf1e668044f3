from ..symmesh import *
from ..obl import *
from .. import arr as A


def get_cells_type():
    s = sym_mesh()
    t = new_string("t")
    kind, r = call("meshio._mesh", "Mesh.get_cells_type", [s.obj, t])
    want = Seq([Gen(s.N, s.block_data, lambda k: s.T(k) == t.e)])
    j = loopvar("j")
    present = z3.Exists([j], z3.And(0 <= j, j < s.N, s.T(j) == t.e))
    if kind == "raise":
        # only an unknown type without blocks (KeyError) or blocks of one type with different widths
        ensure("raises only for a type that is unknown and absent", z3.Not(present))
        return
    total = prefix_sum(j, z3.If(s.T(j) == t.e, s.L(j), z3.IntVal(0)), s.N)
    ensure("number of rows", ex(r.shape[0]) == total)
    if r.cat is not None:
        ensure_same("blocks of the type in block order", PList(r.cat), PList(want))
    else:
        ensure("empty only without blocks of the type", z3.Not(present))


CONTRACTS = [("Mesh.get_cells_type", get_cells_type)]


def get_cell_data():
    s = sym_mesh()
    t, i = new_string("t"), z3.Int("i0")
    require(z3.And(0 <= i, i < s.NC))
    kind, r = call("meshio._mesh", "Mesh.get_cell_data", [s.obj, mk(s.CN(i)), t])
    j = loopvar("j")
    present = z3.Exists([j], z3.And(0 <= j, j < s.N, s.T(j) == t.e))
    if kind == "raise":
        ensure("raises only for an absent type", z3.Not(present))
        return
    ensure_same("data of the blocks of the type in block order", cat_of(r), PList(Seq([Gen(s.N, lambda k: s.cdarr(i, k), lambda k: s.T(k) == t.e)])))


def cat_of(r):
    if r.cat is None:
        raise Unsupported("result is not described as a concatenation")
    return PList(r.cat)


def keys_goals(label, s, d, val):
    """d: dictionary of the result; its keys are the types, in order of first appearance"""
    ents = M.dict_ents(d)
    g = ents.single()
    if g is None:
        if ents.concrete() == []:
            ensure(label + " empty only without blocks", s.N <= 0)
            return
        raise Unsupported("result dictionary is not described generically")
    i, i2, k = z3.Int("u1"), z3.Int("u2"), z3.Int("kb")
    key = lambda q: sstr(g.fn(q)[0])
    ensure(label + ": every key is a type of the mesh", z3.Exists([k], z3.And(0 <= k, k < s.N, s.T(k) == key(i))), [0 <= i, i < g.n])
    ensure(label + ": keys are different", key(i) != key(i2), [0 <= i, i < i2, i2 < g.n])
    q = loopvar("q")
    has = bex(M.dict_contains(d, mk(s.T(k))))
    ensure(label + ": every type is a key", has, [0 <= k, k < s.N] + key_hints(has, k))
    for h, goal, l in val(i, g.fn(i)[1], key(i)):
        ensure(label + ": " + l, goal, [0 <= i, i < g.n] + list(h))


def cells_dict():
    s = sym_mesh()
    kind, d = call("meshio._mesh", "Mesh.cells_dict", [s.obj])
    ensure("does not raise", kind == "return")
    if kind == "return":
        keys_goals("cells_dict", s, d, lambda i, v, t: spec.goals(cat_of(v), PList(Seq([Gen(s.N, s.block_data, lambda k: s.T(k) == t)])), "rows"))


def cell_data_dict():
    s = sym_mesh()
    kind, d = call("meshio._mesh", "Mesh.cell_data_dict", [s.obj])
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    g = M.dict_ents(d).single()
    if g is None:
        if M.dict_ents(d).concrete() == []:
            ensure("empty only without cell data", s.NC <= 0)
            return
        raise Unsupported("result dictionary is not described generically")
    a = z3.Int("a0")
    ensure("one entry per cell data name", g.n == s.NC)
    require(z3.And(0 <= a, a < s.NC))
    if CTX.infeasible():
        return
    nm, inner = g.fn(a)
    ensure_same("name", nm, mk(s.CN(a)))
    keys_goals("cell_data_dict[name]", s, inner, lambda i, v, t: spec.goals(cat_of(v), PList(Seq([Gen(s.N, lambda k: s.cdarr(a, k), lambda k: s.T(k) == t)])), "values"))


CONTRACTS += [("Mesh.get_cell_data", get_cell_data), ("Mesh.cells_dict", cells_dict), ("Mesh.cell_data_dict", cell_data_dict)]


def cell_sets_dict():
    s = sym_mesh()
    frame_start()
    kind, d = call("meshio._mesh", "Mesh.cell_sets_dict", [s.obj])
    ensure("does not raise", kind == "return")
    frame_end()
    if kind != "return":
        return
    g = M.dict_ents(d).single()
    if g is None:
        if M.dict_ents(d).concrete() == []:
            ensure("empty only without cell sets", s.NS <= 0)
            return
        raise Unsupported("result dictionary is not described generically")
    a = z3.Int("a0")
    ensure("one entry per set name", g.n == s.NS)
    require(z3.And(0 <= a, a < s.NS))
    if CTX.infeasible():
        return
    nm, inner = g.fn(a)
    ensure_same("name", nm, mk(s.SN(a)))
    ie = M.dict_ents(inner)
    gi = ie.segs[0] if len(ie.segs) == 1 and isinstance(ie.segs[0], Gen) and not ie.segs[0].flat else None
    if gi is None:
        raise Unsupported("inner dictionary is not described generically")
    i = z3.Int("u1")
    require(z3.And(0 <= i, i < gi.n, gi.cond(i) if gi.cond else True))
    key = sstr(gi.fn(i)[0])
    j = loopvar("j")

    def off(b):
        return prefix_sum(j, z3.If(s.T(j) == key, s.L(j), z3.IntVal(0)), b)

    def shifted(b):
        v = s.csarr(a, b).value
        return SArr.make(v.shape, lambda c: v.elem(c) + off(b), INT)
    want = Seq([Gen(s.N, shifted, lambda b: z3.And(s.T(b) == key, s.SH(a, b)))])
    ensure_same("members shifted by the earlier cells of the type", cat_of(gi.fn(i)[1]), PList(want))


CONTRACTS += [("Mesh.cell_sets_dict", cell_sets_dict)]
