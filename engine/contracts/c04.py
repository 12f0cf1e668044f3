from ..symmesh import *
from ..obl import *


def blocks_lengths(s):
    """a list of blocks of which only the lengths matter: the cells of a mesh"""
    return s.cells


def off(s, b):
    j = loopvar("j")
    return prefix_sum(j, s.L(j), b)


def raw():
    s = sym_mesh(cd_cols=True)
    i = z3.Int("i0")
    require(s.N >= 1)
    frame_start()
    kind, d = call("meshio._common", "raw_from_cell_data", [s.cell_data])
    frame_end()
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    ents = M.dict_ents(d)
    g = ents.single()
    if g is None:
        ensure("empty only without data", s.NC <= 0)
        return
    ensure("one array per name", g.n == s.NC)
    require(z3.And(0 <= i, i < s.NC))
    if CTX.infeasible():
        return
    nm, a = g.fn(i)
    ensure_same("name", nm, mk(s.CN(i)))
    ensure_same("all values in block order", PList(a.cat) if a.cat is not None else a, PList(Seq([Gen(s.N, lambda b: s.cdarr(i, b))])))


def split_raw():
    """splitting any raw arrays of the right length"""
    s = sym_mesh()
    i, b = z3.Ints("i0 b0")
    NR, RN, R = z3.Int("NR"), F("RN", IS, SS), F("R", IS, IS, IS, FS)
    C = F("C", IS, IS)
    names_distinct(NR, RN)
    require(s.N >= 1)
    k = loopvar("k")
    require(z3.ForAll([k], C(k) >= 0, patterns=[C(k)]))
    tot = off(s, s.N)
    rawd = own(PDict(Seq([Gen(NR, lambda q: (mk(RN(q)), SArr.make([tot, C(q)], lambda a, c: R(q, a, c), FLD)))])), "raw")
    frame_start()
    kind, d = call("meshio._common", "cell_data_from_raw", [s.cells, rawd])
    frame_end()
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    g = M.dict_ents(d).single()
    if g is None:
        ensure("empty only without data", NR <= 0)
        return
    ensure("one list per name", g.n == NR)
    require(z3.And(0 <= i, i < NR))
    if CTX.infeasible():
        return
    nm, lst = g.fn(i)
    ensure_same("name", nm, mk(RN(i)))
    sq = M.iter_seq(lst)
    ensure("one array per block", sq.length() == s.N)
    require(z3.And(0 <= b, b < s.N))
    ensure_same("block b gets exactly the entries of its cells", sq.get(b), SArr.make([s.L(b), C(i)], lambda a, c: R(i, off(s, b) + a, c), FLD))


def roundtrip():
    """splitting what was joined restores it"""
    s = sym_mesh(cd_cols=True)
    i, b = z3.Ints("i0 b0")
    require(s.N >= 1)
    kind, d = call("meshio._common", "raw_from_cell_data", [s.cell_data])
    if kind != "return":
        ensure("does not raise", False)
        return
    kind, d = call("meshio._common", "cell_data_from_raw", [s.cells, d])
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    g = M.dict_ents(d).single()
    if g is None:
        ensure("empty only without data", s.NC <= 0)
        return
    ensure("one list per name", g.n == s.NC)
    require(z3.And(0 <= i, i < s.NC))
    if CTX.infeasible():
        return
    nm, lst = g.fn(i)
    ensure_same("name", nm, mk(s.CN(i)))
    sq = M.iter_seq(lst)
    ensure("one array per block", sq.length() == s.N)
    require(z3.And(0 <= b, b < s.N))
    ensure_same("block b restored", sq.get(b), s.cdarr(i, b))


CONTRACTS = [("raw_from_cell_data", raw), ("cell_data_from_raw", split_raw), ("cell_data_from_raw(raw_from_cell_data)", roundtrip)]
