"""Structured lattices: the real _generate_cells and _generate_points against the lattice they stand for."""
import itertools
from ..symmesh import *
from ..obl import *

def euclid(a, q, r, d):
    """lemma: 0 <= r < d and a = q d + r  ==>  a div d = q and a mod d = r (proved for all integers in lemma_euclid)"""
    require(z3.Implies(z3.And(0 <= r, r < d, a == q * d + r), z3.And(a / d == q, a % d == r)))


def lemma_euclid():
    a, q, r, d = z3.Ints("a q r d")
    require(z3.And(0 <= r, r < d, a == q * d + r))
    # a = (a div d) d + (a mod d), 0 <= a mod d < d: the two representations differ by a multiple of d smaller than d
    k = a / d - q
    ensure("unique quotient (difference k of the quotients)", z3.Implies(a == d * (a / d) + a % d, k * d == r - a % d))
    ensure("k = 0", z3.Implies(z3.And(k * d == r - a % d, 0 <= a % d, a % d < d), k == 0))


def layer(i, e):
    """0 <= i1 e0 + i0 < e0 e1, proved and then used"""
    c2 = i[1] * e[0] + i[0]
    ensure("lemma: monotone product", i[1] * e[0] <= (e[1] - 1) * e[0])
    ensure("lemma: position in the layer", z3.And(0 <= c2, c2 < e[0] * e[1]), [i[1] * e[0] <= (e[1] - 1) * e[0], i[1] * e[0] >= 0])
    ensure("lemma: product not negative", i[1] * e[0] >= 0)
    require(z3.And(0 <= c2, c2 < e[0] * e[1]))
    return c2


class Lattice:
    """a lattice of unknown size and one unknown cell of it"""
    def __init__(self, active):
        self.n = n = [z3.Int(f"n{a}") for a in range(3)]
        for a in range(3):
            require(n[a] > 1 if active[a] else n[a] == 1)
        self.dims = PList(Seq.of(*[mk(x) for x in n]))
        self.ax = [a for a in range(3) if active[a]]
        self.sd = len(self.ax)
        self.w = {1: 2, 2: 4, 3: 8}[self.sd]
        self.e = [n[a] - 1 for a in self.ax]
        self.ncells = self.e[0]
        for x in self.e[1:]:
            self.ncells = self.ncells * x

    def check(self, conn, types, head, offsets=None):
        n, ax, sd, e, w = self.n, self.ax, self.sd, self.e, self.w
        st = w + head
        i = [z3.Int(f"i{p}") for p in range(sd)]
        for p in range(sd):
            require(z3.And(0 <= i[p], i[p] < e[p]))
        ensure("one record per lattice cell", ex(types.shape[0]) == self.ncells)
        ensure("connectivity length", ex(conn.shape[0]) == self.ncells * st)
        # number of the cell, first axis fastest
        if sd == 1:
            c = i[0]
        elif sd == 2:
            c = layer(i, e)
            euclid(c, i[1], i[0], e[0])
        else:
            c2 = layer(i, e)
            c = i[2] * (e[0] * e[1]) + c2
            euclid(c, i[2], c2, e[0] * e[1])
            euclid(c2, i[1], i[0], e[0])
        stride = [z3.IntVal(1), n[0], n[0] * n[1]]     # node number of lattice node (i, j, k), first axis fastest
        node = lambda idx: sum([idx[p] * stride[ax[p]] for p in range(sd)], z3.IntVal(0))
        corners = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
                   3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}[sd]
        ensure("type", types.elem(c) == {1: 3, 2: 9, 3: 12}[sd])
        for p in range(st):
            euclid(c * st + p, c, z3.IntVal(p), z3.IntVal(st))
        row = lambda p: conn.elem(c * st + p)
        if head:
            ensure("number of nodes", row(0) == w)
        if offsets is not None:
            ensure("one offset per lattice cell", ex(offsets.shape[0]) == self.ncells)
            ensure("offset is the end of the cell", offsets.elem(c) == (c + 1) * w)
        for p, co in enumerate(corners):
            ensure(f"corner {p}", row(p + head) == node([x + y for x, y in zip(i, co)]))


def cells(mod, active):
    """active: which of the three axes have more than one node"""
    def run():
        l = Lattice(active)
        kind, r = call(mod, "_generate_cells", [l.dims])
        ensure("does not raise", kind == "return")
        if kind == "return":
            l.check(r[0], r[1], 1)
    return run


def check_points(pts, n, coord):
    i = [z3.Int(f"q{a}") for a in range(3)]
    for a in range(3):
        require(z3.And(0 <= i[a], i[a] < n[a]))
    ensure("one point per lattice node", z3.And(ex(pts.shape[0]) == n[0] * n[1] * n[2], ex(pts.shape[1]) == 3))
    c2 = layer(i, n)
    p = i[2] * (n[0] * n[1]) + c2
    euclid(p, i[2], c2, n[0] * n[1])
    euclid(c2, i[1], i[0], n[0])
    euclid(p, i[2] * n[1] + i[1], i[0], n[0])
    euclid(i[2] * n[1] + i[1], i[2], i[1], n[1])
    for a in range(3):
        x = pts.elem(p, z3.IntVal(a))
        ensure(f"coordinate {a} of node (i, j, k)", coord(a, i[a], x))


def points(mod):
    def run():
        n = [z3.Int(f"n{a}") for a in range(3)]
        A_ = [F(f"A{a}", IS, FS) for a in range(3)]
        for a in range(3):
            require(n[a] >= 1)
        axis = PList(Seq.of(*[SArr.make([n[a]], lambda q, a=a: A_[a](q), FLD) for a in range(3)]))
        frame_start()
        kind, r = call(mod, "_generate_points", [axis])
        frame_end()
        ensure("does not raise", kind == "return")
        if kind == "return":
            check_points(r, n, lambda a, k, x: x == A_[a](k))
    return run


def check_mesh(mod, active, ds, aspect=False):
    """the step of the reader that expands a grid, for each kind of data set"""
    def run():
        l = Lattice(active)
        A_ = [F(f"A{a}", IS, FS) for a in range(3)]
        O = [z3.Const(f"O{a}", FS) for a in range(3)]
        Sp = [z3.Const(f"S{a}", FS) for a in range(3)]
        info = M.call(M.load("meshio._vtk_common").vars["Info"], [], {})
        d = {"type": ds, "DIMENSIONS": l.dims}
        given_pts = SArr.make([l.n[0] * l.n[1] * l.n[2], 3], lambda p, c: F("GP", IS, IS, FS)(p, c), FLD)
        if ds == "RECTILINEAR_GRID":
            for a, c in enumerate("XYZ"):
                d[c + "_COORDINATES"] = SArr.make([l.n[a]], lambda q, a=a: A_[a](q), FLD)
        elif ds == "STRUCTURED_POINTS":
            real_arithmetic()
            d["ORIGIN"] = PList(Seq.of(*[mk(x) for x in O]))
            d["ASPECT_RATIO" if aspect else "SPACING"] = PList(Seq.of(*[mk(x) for x in Sp]))
        else:
            info.attrs["points"] = given_pts
        info.attrs["dataset"] = PDict(Seq([Items(list(d.items()))]))
        kind, r = call(mod, "_check_mesh", [info])
        ensure("does not raise", kind == "return")
        if kind != "return":
            return
        v51 = mod.endswith("51")
        l.check(info.attrs["connectivity"], info.attrs["types"], 0 if v51 else 1, info.attrs["offsets"] if v51 else None)
        pts = info.attrs["points"]
        if ds == "RECTILINEAR_GRID":
            check_points(pts, l.n, lambda a, k, x: x == A_[a](k))
        elif ds == "STRUCTURED_POINTS":
            def coord(a, k, x):
                if not active[a]:
                    return toR(x) == toR(O[a])
                ln = toR(x) - toR(O[a])
                # (n - 1) (x - O) = (n - 1) k S  ==>  x - O = k S
                return z3.Or(l.n[a] <= 1, ln == z3.ToReal(k) * toR(Sp[a]))
            check_points(pts, l.n, coord)
        else:
            ensure_same("points as read", pts, given_pts)
    return run


ALL = [a for a in itertools.product((True, False), repeat=3) if any(a)]
CONTRACTS = [("lemma_euclid", lemma_euclid)]
for _v in ("42", "51"):
    _m = "meshio.vtk._vtk_" + _v
    CONTRACTS += [(f"{_v}._generate_cells[" + "".join("n" if x else "1" for x in act) + "]", cells(_m, act)) for act in ALL]
    CONTRACTS += [(f"{_v}._generate_points", points(_m))]
    for _ds in ("RECTILINEAR_GRID", "STRUCTURED_POINTS", "STRUCTURED_GRID"):
        CONTRACTS += [(f"{_v}._check_mesh[{_ds}," + "".join("n" if x else "1" for x in act) + "]", check_mesh(_m, act, _ds)) for act in ALL]
    CONTRACTS += [(f"{_v}._check_mesh[ASPECT_RATIO]", check_mesh(_m, (True, True, True), "STRUCTURED_POINTS", True))]
