"""Assumed contracts of the numpy functions the code under contract calls, on symbolic arrays."""
from __future__ import annotations
import z3
import numpy as rnp
from .core import *
from .seq import *
from . import arr as A
from .arr import SArr
from . import builtins_ as B


def I():
    return B.I()


# ----------------------------------------------------------------------------- conversion
def as_operand(x):
    x = I().force(x)
    if isinstance(x, SArr) or is_num(x) or isinstance(x, (str, SStr)):
        return x
    if isinstance(x, (PList, tuple, PTuple, rnp.ndarray)):
        return asarray(x)
    if isinstance(x, Iter) and getattr(x, "range", False):
        return asarray(PList(B.seqof(x)))
    raise Unsupported(f"array operand {type(x).__name__}")


def asarray(x, dtype=None, copy=False, order=None, ndmin=0):
    x = I().force(x)
    if isinstance(x, SArr):
        dt = x.dt if dtype is None else B.to_dtype(dtype)
        if dt == x.dt:
            return x.copy() if copy else x
        return A.astype(x, dt)
    if isinstance(x, Obj) and hasattr(x.cls, "asarray"):
        r = x.cls.asarray(x)
        return r if dtype is None else A.astype(r, B.to_dtype(dtype))
    if is_num(x) or isinstance(x, (str, SStr)):
        a = A.lift(x)
        return a if dtype is None else A.astype(a, B.to_dtype(dtype))
    if isinstance(x, rnp.ndarray):
        a = A.from_concrete(x)
        return a if dtype is None else A.astype(a, B.to_dtype(dtype))
    if isinstance(x, (B.DictView, PDict, PSet)):
        raise Unsupported("array of a dictionary view")
    if isinstance(x, (PList, tuple, PTuple, Iter, range)):
        seq = I().iter_seq(x)
        if dtype is not None and B.to_dtype(dtype).kind in "iuf":
            seq = numbers_of(seq, B.float_ if B.to_dtype(dtype).kind == "f" else B.int_)
        a = from_seq(seq)
        if dtype is not None:
            a = A.astype(a, B.to_dtype(dtype))
        return a
    raise Unsupported(f"np.asarray of {type(x).__name__}")


def numbers_of(seq, conv):
    """texts in a nested sequence as numbers"""
    def one(v):
        if isinstance(v, (str, SStr)):
            return conv(v)
        if isinstance(v, PList):
            return PList(numbers_of(v.seq, conv))
        if isinstance(v, tuple):
            return tuple(one(y) for y in v)
        return v

    def has(v):
        if isinstance(v, (str, SStr)):
            return True
        if isinstance(v, tuple):
            return any(has(y) for y in v)
        return isinstance(v, PList) and seg_has(v.seq)

    def seg_has(sq):
        return any(any(has(y) for y in g.xs) if isinstance(g, Items) else False if g.flat or z3.is_int_value(z3.simplify(g.n)) and z3.simplify(g.n).as_long() <= 0 else has(g.fn(loopvar("k"))) for g in sq.segs)
    if not seg_has(seq):
        return seq
    return Seq([Items([one(y) for y in g.xs]) if isinstance(g, Items) else g if g.flat else Gen(g.n, lambda k, g=g: one(g.fn(k)), g.cond) for g in seq.segs])


def plain(v):
    """nested python value without symbols, or None"""
    if I().concrete_scalar(v):
        return v
    if isinstance(v, (PList, tuple)):
        xs = v.seq.concrete() if isinstance(v, PList) else list(v)
        if xs is None:
            raise KeyError
        return [plain(y) for y in xs]
    raise KeyError


def from_seq(seq):
    c = seq.concrete()
    if c is not None:
        try:
            return A.from_concrete(rnp.array([plain(v) for v in c]))
        except KeyError:
            pass
        except ValueError as e:
            raise PyExc(e)
        if not c:
            return A.from_concrete(rnp.array([]))
        els = [asarray(v) for v in c]
        return stack(els)
    g = seq.single()
    if g is None:
        if len(seq.segs) == 1 and isinstance(seq.segs[0], Gen) and not seq.segs[0].flat:
            return from_filtered(seq.segs[0])
        # segment by segment
        parts = []
        for g in seq.segs:
            if isinstance(g, Gen) and g.flat and g.cond is None:
                parts.append(from_flat(g))
                continue
            if isinstance(g, Gen) and (g.flat or g.cond is not None):
                raise Unsupported("array of a mixed sequence")
            if isinstance(g, Gen) and not CTX.implied(g.n >= 1) and not CTX.branch(g.n >= 1):
                continue
            parts.append(from_seq(Seq([g])))
        if len(parts) == 1:
            return parts[0]
        if not parts:
            return A.from_concrete(rnp.array([]))
        for p in parts[1:]:
            if p.ndim != parts[0].ndim or any(not A.eqdim(x, y) and not CTX.implied(ex(x) == ex(y)) for x, y in zip(p.shape[1:], parts[0].shape[1:])):
                raise Unsupported("array of rows of different length")
        return A.concatenate(Seq([Items(parts)]))
    k = loopvar("r")
    e = asarray(g.fn(k))
    shape = e.shape
    if e.ndim and not CTX.implied(g.n >= 1) and not CTX.branch(g.n >= 1):
        return A.from_concrete(rnp.array([]))
    for s in shape:
        if not isinstance(s, int) and k.decl().name() in free_consts(s):
            raise Unsupported("array of rows of different length")
    return SArr.make((g.n,) + tuple(shape), lambda i, *r: asarray(g.fn(i)).elem(*r), e.dt)


def from_flat(g):
    """array of the rows fn(0), fn(1), ... of numbers, one after the other; all rows have the same fixed length"""
    k = loopvar("r")
    row = lambda k: (lambda v: v.seq if isinstance(v, PList) else v)(g.fn(k))
    r = row(k)
    c = r.concrete() if isinstance(r, Seq) else list(r) if isinstance(r, (list, tuple)) else None
    if not c or not all(is_num(x) for x in c):
        raise Unsupported("array of a mixed sequence")
    w = len(c)

    def pick(i):
        xs = row(z3.simplify(i / w))
        xs = [ex(x) if not isf(x) else x.e for x in (xs.concrete() if isinstance(xs, Seq) else xs)]
        q = z3.simplify(i % w)
        o = xs[-1]
        for j in range(w - 2, -1, -1):
            o = z3.If(q == j, xs[j], o)
        return o
    return SArr.make([z3.simplify(ex(g.n) * w)], pick, dt_of(c[0]))


def from_filtered(g):
    """array of the elements fn(k) with cond(k), in order"""
    m = SArr.make((g.n,), lambda k: g.cond(k), BOOL)
    w = A.where1(m)
    k = loopvar("r")
    e = asarray(g.fn(k))
    if any(not isinstance(s, int) and k.decl().name() in free_consts(s) for s in e.shape):
        raise Unsupported("array of rows of different length")
    return SArr.make((w.shape[0],) + tuple(e.shape), lambda i, *r: asarray(g.fn(w.elem(i))).elem(*r), e.dt)


def stack(els, axis=0):
    dt = rnp.result_type(*[e.dt for e in els])
    sh0 = els[0].shape
    for e in els[1:]:
        if e.ndim != len(sh0):
            raise PyExc(ValueError("inhomogeneous shape"))
        for x, y in zip(e.shape, sh0):
            if not A.eqdim(x, y) and not CTX.branch(ex(x) == ex(y)):
                raise PyExc(ValueError("inhomogeneous shape"))
    fs = [e.snap() for e in els]

    def pick(p, idx):
        p = z3.simplify(p)
        if z3.is_int_value(p):
            i = p.as_long()
            if 0 <= i < len(els):
                return cast_e(fs[i](*idx), els[i].dt, dt)
        r = cast_e(fs[-1](*idx), els[-1].dt, dt)
        for i in range(len(els) - 2, -1, -1):
            r = z3.If(p == i, cast_e(fs[i](*idx), els[i].dt, dt), r)
        return r
    if axis < 0:
        axis += len(sh0) + 1
    shape = list(sh0[:axis]) + [len(els)] + list(sh0[axis:])
    return SArr.make(shape, lambda *i: pick(i[axis], i[:axis] + i[axis + 1:]), dt)


def array(x, dtype=None, copy=True, order=None, ndmin=0):
    return asarray(x, dtype, copy=True)


def shape_of(s):
    s = I().force(s)
    if isinstance(s, (PList, tuple, PTuple)):
        xs = I().iter_seq(s).concrete()
        if xs is None:
            raise Unsupported("symbolic number of dimensions")
        return [A.sh(x) if not isinstance(x, SNum) else A.sh(x.e) for x in xs]
    if isinstance(s, SArr):
        n = s.shape[0]
        if isinstance(n, int):
            return [A.sh(s.elem(z3.IntVal(i))) for i in range(n)]
        raise Unsupported("symbolic number of dimensions")
    return [A.sh(s) if not isinstance(s, SNum) else A.sh(s.e)]


def full(shape, v, dtype=None, order=None):
    dt = B.to_dtype(dtype) if dtype is not None else dt_of(v)
    e = cast_e(toe(v), dt_of(v), dt)
    return SArr.make(shape_of(shape), lambda *i: e, dt)


def zeros(shape, dtype=float, order=None):
    return full(shape, 0, dtype)


def ones(shape, dtype=float, order=None):
    return full(shape, 1, dtype)


def empty(shape, dtype=float, order=None):
    dt = B.to_dtype(dtype)
    shp = shape_of(shape)
    f = CTX.fresh_fun("uninit", [IS] * len(shp), A.zconst_sort(dt))
    return SArr.make(shp, lambda *i: f(*i), dt)


def zeros_like(a, dtype=None):
    a = asarray(a)
    return SArr.make(a.shape, lambda *i: cast_e(z3.IntVal(0), INT, B.to_dtype(dtype) if dtype else a.dt), B.to_dtype(dtype) if dtype else a.dt)


def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(tuple(mk(s) if not isinstance(s, int) else s for s in a.shape), v, dtype or a.dt)


def empty_like(a, dtype=None):
    a = asarray(a)
    return empty(tuple(mk(s) if not isinstance(s, int) else s for s in a.shape), dtype or a.dt)


def linspace(a, b, num=50, endpoint=True):
    if endpoint is not True:
        raise Unsupported("linspace without endpoint")
    a, b = cast_e(toe(a), dt_of(a), FLD), cast_e(toe(b), dt_of(b), FLD)
    n = ex(num)
    return SArr.make([n], lambda k: linspace_(a, b, n, k), FLD)


def arange(*a, dtype=None, step=None):
    a = [I().force(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if step is not None:
        st = step
    if any(isf(x) for x in (lo, hi, st)):
        raise Unsupported("arange of floats")
    dt = INT if dtype is None else B.to_dtype(dtype)
    lo, hi = ex(lo), ex(hi)
    if isinstance(st, int) and st > 0:
        n = z3.simplify(hi - lo) if st == 1 else z3.simplify((hi - lo + st - 1) / st)
    elif isinstance(st, SNum) and CTX.implied(st.e > 0):
        # number of terms below hi
        n = A.factor_out(z3.simplify(hi - lo), st.e)
        if n is None:
            n = (hi - lo + st.e - 1) / st.e
    else:
        raise Unsupported("arange step")
    if not CTX.implied(n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    s = ex(st)
    return SArr.make([z3.simplify(n)], lambda i: cast_e(z3.simplify(lo + s * i), INT, dt), dt)


# ----------------------------------------------------------------------------- joining
def seq_arrays(x):
    if isinstance(x, SArr):
        return I().iter_seq(x)
    return I().iter_seq(x)


def concatenate(x, axis=0, dtype=None):
    s = seq_arrays(x).map(lambda v: asarray(v))
    r = A.concatenate(s, axis)
    return r if dtype is None else A.astype(r, B.to_dtype(dtype))


def hstack(x):
    s = seq_arrays(x).map(lambda v: asarray(v))
    c = s.concrete()
    if c is not None:
        if not c:
            raise PyExc(ValueError("need at least one array"))
        c = [y if y.ndim else A.reshape(y, [1]) for y in c]
        return A.concatenate(Seq([Items(c)]), 0 if c[0].ndim == 1 else 1)
    g = s.segs[0]
    if isinstance(g, Gen) and asarray(g.fn(loopvar("h"))).ndim == 1:
        return A.concatenate(s, 0)
    raise Unsupported("hstack of a symbolic number of arrays")


def vstack(x):
    s = seq_arrays(x).map(lambda v: (lambda y: y if y.ndim >= 2 else A.reshape(y, [1] + list(y.shape)))(asarray(v)))
    return A.concatenate(s, 0)


def column_stack(x):
    c = seq_arrays(x).concrete()
    if c is None:
        raise Unsupported("column_stack of a symbolic number of arrays")
    cols = []
    for y in c:
        y = asarray(y)
        cols.append(y if y.ndim == 2 else y.view((y.shape[0], 1), lambda i, j: [i]))
    return A.concatenate(Seq([Items(cols)]), 1)


def pad(a, width, mode="constant", constant_values=0):
    a = asarray(a)
    if mode != "constant" or not (isinstance(constant_values, (int, float)) and constant_values == 0):
        raise Unsupported("np.pad")
    ws = []
    for w in I().iter_seq(width).concrete() if not isinstance(width, int) else [(width, width)] * a.ndim:
        p = I().iter_seq(w).concrete()
        if p is None or not all(isinstance(x, int) and x >= 0 for x in p):
            raise Unsupported("np.pad")
        ws.append(tuple(p) if len(p) == 2 else (p[0], p[0]))
    if len(ws) != a.ndim:
        raise Unsupported("np.pad")
    f, shp = a.snap(), list(a.shape)
    zero = fconst(0) if a.dt.kind == "f" else z3.BoolVal(False) if a.dt.kind == "b" else z3.IntVal(0)

    def el(*ix):
        cs = [c for i, n, (lo, hi) in zip(ix, shp, ws) for c in ([i >= lo] if lo else []) + ([i < ex(n) + lo] if hi else [])]
        v = f(*[i - lo if lo else i for i, (lo, hi) in zip(ix, ws)])
        return z3.If(z3.And(*cs), v, zero) if cs else v
    return SArr.make([A.sh(z3.simplify(ex(n) + lo + hi)) for n, (lo, hi) in zip(shp, ws)], el, a.dt)


def stack_(x, axis=0):
    s = seq_arrays(x)
    c = s.concrete()
    if c is None:
        if axis == 0:
            return from_seq(s)
        raise Unsupported("stack of a symbolic number of arrays")
    return stack([asarray(y) for y in c], axis)


# ----------------------------------------------------------------------------- reductions
def allidx(a):
    q = [loopvar("q") for _ in a.shape]
    rng = z3.And(*[z3.And(0 <= x, x < ex(s)) for x, s in zip(q, a.shape)]) if q else z3.BoolVal(True)
    return q, rng


def any_(a, axis=None):
    a = as_operand(a)
    if not isinstance(a, SArr):
        return a
    if axis is not None:
        raise Unsupported("np.any with an axis")
    q, rng = allidx(a)
    e = a.elem(*q)
    e = e if z3.is_bool(e) else e != 0
    return mk(z3.Exists(q, z3.And(rng, e))) if q else mk(e)


def all_(a, axis=None):
    a = as_operand(a)
    if not isinstance(a, SArr):
        return a
    if axis is not None:
        raise Unsupported("np.all with an axis")
    q, rng = allidx(a)
    e = a.elem(*q)
    e = e if z3.is_bool(e) else e != 0
    return mk(z3.ForAll(q, z3.Implies(rng, e))) if q else mk(e)


def sum_(a, axis=None, dtype=None):
    if isinstance(a, (PList, Iter, PTuple)) and a.seq.concrete() is None:
        return B.sum_(a)
    a = as_operand(a)
    if not isinstance(a, SArr):
        return a
    if a.dt.kind == "f":
        raise Unsupported("sum of floats")
    if a.ndim == 1 and axis in (None, 0, -1):
        if isinstance(a.shape[0], int):
            e = z3.IntVal(0)
            for i in range(a.shape[0]):
                x = a.elem(z3.IntVal(i))
                e = e + (z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x)
            return mk(z3.simplify(e))
        j = loopvar("s")
        x = a.elem(j)
        x = z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x
        return mk(prefix_sum(j, x, a.shape[0]))
    if a.ndim == 2 and axis in (1, -1) and isinstance(a.shape[1], int):
        f = a.snap()
        return SArr.make([a.shape[0]], lambda i: sum([f(i, z3.IntVal(j)) for j in range(a.shape[1])], z3.IntVal(0)), INT)
    raise Unsupported("np.sum")


def cumsum(a, axis=None, dtype=None, out=None):
    a = asarray(a)
    if out is not None:
        A.setitem(out, (Ellipsis,), cumsum(a))
        return out
    if a.ndim != 1 or a.dt.kind not in "iub":
        raise Unsupported("np.cumsum")
    if isinstance(a.shape[0], int):
        xs, tot = [], z3.IntVal(0)
        for i in range(a.shape[0]):
            x = a.elem(z3.IntVal(i))
            tot = z3.simplify(tot + (z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x))
            xs.append(mk(tot))
        return from_seq(Seq([Items(xs)])) if xs else a.copy()
    j = loopvar("s")
    x = a.elem(j)
    x = z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x
    return SArr.make(a.shape, lambda i: prefix_sum(j, x, z3.simplify(i + 1)), INT)


def prod_(a, axis=None, dtype=None):
    a = as_operand(a)
    if isinstance(a, SArr) and a.ndim == 1 and isinstance(a.shape[0], int) and a.dt.kind in "iu":
        e = z3.IntVal(1)
        for i in range(a.shape[0]):
            e = e * a.elem(z3.IntVal(i))
        return mk(z3.simplify(e))
    raise Unsupported("np.prod")


def minmax_arr(which, a, axis=None):
    a = asarray(a)
    if axis is not None or a.dt.kind == "f":
        raise Unsupported("min/max")
    q, rng = allidx(a)
    if not CTX.implied(a.size() > 0) and not CTX.branch(a.size() > 0):
        raise PyExc(ValueError("zero-size array to reduction operation"))
    m = CTX.fresh(which)
    wit = [CTX.fresh("at") for _ in q]
    CTX.axiom(z3.ForAll(q, z3.Implies(rng, m <= a.elem(*q) if which == "min" else m >= a.elem(*q))))
    CTX.axiom(z3.And(*[z3.And(0 <= w, w < ex(s)) for w, s in zip(wit, a.shape)], a.elem(*wit) == m))
    return mk(m)


def size(a):
    a = I().force(a)
    if is_num(a):
        return 1
    return mk(asarray(a).size())


def where(c, *xy):
    c = as_operand(c)
    if not xy:
        if not isinstance(c, SArr) or c.ndim != 1:
            raise Unsupported("np.where of a 2d mask")
        if c.dt.kind != "b":
            c = A.ew("ne", c, 0)
        return (A.where1(c),)
    x, y = A.lift(as_operand(xy[0])), A.lift(as_operand(xy[1]))
    dt = A.result_dt(as_operand(xy[0]), as_operand(xy[1]))
    c = A.lift(c)
    shape = A.bshape([c.shape, x.shape, y.shape])
    fc, fx, fy = c.snap(), x.snap(), y.snap()
    return SArr.make(shape, lambda *i: z3.If(fc(*A.bget(c, i)), cast_e(fx(*A.bget(x, i)), x.dt, dt), cast_e(fy(*A.bget(y, i)), y.dt, dt)), dt)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    if isinstance(I().force(a), PList) and not (return_index or return_inverse or return_counts):
        c = I().force(a).seq.concrete()
        if c and all(type(x) is str and not has_tok(x) for x in c):
            return asarray(PList(Seq.of(*sorted(set(c)))))
    a = asarray(a)
    if a.ndim == 2 and axis == 0 and not return_index and not return_counts and isinstance(a.shape[1], int) and a.dt.kind in "iu":
        return unique_rows(a, return_inverse)
    if a.ndim == 2 and axis == 0 and not return_counts and isinstance(a.shape[1], int) and a.dt.kind == "f":
        return unique_points(a, return_index, return_inverse)
    if a.ndim != 1:
        if a.ndim == 0 or axis is not None:
            raise Unsupported("np.unique")
        a = A.reshape(a, [a.size()])
    if return_counts or a.dt.kind not in "iu":
        raise Unsupported("np.unique of such data")
    n = ex(a.shape[0])
    m = CTX.fresh("nuniq")
    U = CTX.fresh_fun("uniq", [IS], IS)
    pos = CTX.fresh_fun("ufirst", [IS], IS)
    inv = CTX.fresh_fun("uinv", [IS], IS)
    f = a.snap()
    i, i2, p = loopvar("i"), loopvar("i2"), loopvar("p")
    CTX.axiom(z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
    CTX.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= pos(i), pos(i) < n, f(pos(i)) == U(i), inv(pos(i)) == i)), patterns=[U(i), pos(i)]))
    CTX.axiom(z3.ForAll([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < m), U(i) < U(i2)), patterns=[z3.MultiPattern(U(i), U(i2))]))
    CTX.axiom(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= inv(p), inv(p) < m, U(inv(p)) == f(p), pos(inv(p)) <= p)), patterns=[inv(p)]))
    u = SArr.make([m], lambda i: U(i), a.dt)
    u.uniq = (a, U, pos, inv, m)
    z0 = z3.IntVal(0)
    CTX.uniqs.append((U(z0).decl(), pos(z0).decl(), inv(z0).decl(), m, len(CTX.ivars())))
    out = [u]
    if return_index:
        out.append(SArr.make([m], lambda i: pos(i), INT))
    if return_inverse:
        out.append(SArr.make([n], lambda p: inv(p), INT))
    return out[0] if len(out) == 1 else tuple(out)


def unique_points(a, return_index, return_inverse):
    """the rows of a table of floats that differ (none of them NaN), in some order; the index is the one of the first such row"""
    CTX.assumptions.add("np.unique(axis=0): no coordinate is NaN")
    n, w, f = ex(a.shape[0]), a.shape[1], a.snap()
    m = CTX.fresh("nrows")
    pos, inv = CTX.fresh_fun("ufirst", [IS], IS), CTX.fresh_fun("uinv", [IS], IS)
    i, p = loopvar("i"), loopvar("p")
    CTX.axiom(z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
    CTX.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= pos(i), pos(i) < n, inv(pos(i)) == i)), patterns=[pos(i)]))
    CTX.axiom(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= inv(p), inv(p) < m, pos(inv(p)) <= p, *[f(pos(inv(p)), z3.IntVal(c)) == f(p, z3.IntVal(c)) for c in range(w)])), patterns=[inv(p)]))
    out = [SArr.make([m, w], lambda i, j: f(pos(i), j), a.dt)]
    if return_index:
        out.append(SArr.make([m], lambda i: pos(i), INT))
    if return_inverse:
        out.append(SArr.make([n], lambda p: inv(p), INT))
    return out[0] if len(out) == 1 else tuple(out)


def lex_less(x, y):
    out = z3.BoolVal(False)
    for p, q in reversed(list(zip(x, y))):
        out = z3.Or(p < q, z3.And(p == q, out))
    return out


def unique_rows(a, return_inverse):
    """the rows of a table of integers that differ, in lexicographic order"""
    n, w, f = ex(a.shape[0]), a.shape[1], a.snap()
    m = CTX.fresh("nrows")
    U = CTX.fresh_fun("urow", [IS, IS], IS)
    pos, inv = CTX.fresh_fun("ufirst", [IS], IS), CTX.fresh_fun("uinv", [IS], IS)
    i, i2, p = loopvar("i"), loopvar("i2"), loopvar("p")
    row = lambda i: [U(i, z3.IntVal(c)) for c in range(w)]
    CTX.axiom(z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
    has = lambda i: z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= pos(i), pos(i) < n, inv(pos(i)) == i, *[f(pos(i), z3.IntVal(c)) == U(i, z3.IntVal(c)) for c in range(w)]))
    less = lambda i, i2: z3.Implies(z3.And(0 <= i, i < i2, i2 < m), lex_less(row(i), row(i2)))
    of = lambda p: z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= inv(p), inv(p) < m, *[U(inv(p), z3.IntVal(c)) == f(p, z3.IntVal(c)) for c in range(w)]))
    CTX.axiom(z3.ForAll([i], has(i), patterns=[pos(i)]))
    CTX.axiom(z3.ForAll([i, i2], less(i, i2), patterns=[z3.MultiPattern(U(i, z3.IntVal(0)), U(i2, z3.IntVal(0)))]))
    CTX.axiom(z3.ForAll([p], of(p), patterns=[inv(p)]))
    k = None
    wit = CTX.hooks.get("rows of", [])
    if wit:
        # instances of the above (the contract knows points of each group)
        for e in wit:
            CTX.axiom(of(e))
        for q in range(len(wit) + 1):
            CTX.axiom(has(z3.IntVal(q)))
            for q2 in range(q):
                CTX.axiom(less(z3.IntVal(q2), z3.IntVal(q)))
        if CTX.implied(m == len(wit)):
            k = len(wit)
    if k is None:
        raise Unsupported("np.unique(axis=0) with an unknown number of rows")
    vals = [[pinned(U(z3.IntVal(q), z3.IntVal(c)), [f(e, z3.IntVal(c)) for e in wit]) for c in range(w)] for q in range(k)]
    def get(i, j):
        i, j = z3.simplify(i), z3.simplify(j)
        e = None
        for q in reversed(range(k)):
            for c in reversed(range(w)):
                if z3.is_int_value(i) and i.as_long() != q or z3.is_int_value(j) and j.as_long() != c:
                    continue
                cond = z3.simplify(z3.And(i == q, j == c))
                e = vals[q][c] if e is None or z3.is_true(cond) else z3.If(cond, vals[q][c], e)
        return e if e is not None else U(i, j)
    u = SArr.make([k, w], get, a.dt)
    if not return_inverse:
        return u
    return u, SArr.make([n], lambda p: inv(p), INT)


def pinned(e, cands=()):
    """the one value that the term can have, where there is one"""
    for c in [z3.IntVal(v) for v in range(4)] + list(cands):
        c = z3.simplify(c)
        if CTX.implied(e == c):
            return c
    return e


def bincount(a, weights=None, minlength=0):
    a = asarray(a)
    if a.ndim != 1 or weights is not None or not isinstance(a.shape[0], int) or not isinstance(minlength, int):
        raise Unsupported("np.bincount")
    es = [z3.simplify(a.elem(z3.IntVal(q))) for q in range(a.shape[0])]
    if not all(z3.is_int_value(e) for e in es):
        raise Unsupported("np.bincount of unknown numbers")
    out = rnp.bincount([e.as_long() for e in es], minlength=minlength)
    return SArr.of_np(out) if hasattr(SArr, "of_np") else asarray(PList(Seq.of(*[int(x) for x in out])))


def argsort(a, axis=-1, kind=None):
    """identity for increasing numbers; else a permutation that sorts them (stable only if kind asks for it)"""
    a = asarray(a)
    if a.ndim != 1 or a.dt.kind not in "iu":
        raise Unsupported("np.argsort of such data")
    n, f = ex(a.shape[0]), a.snap()
    i, j = loopvar("i"), loopvar("j")
    cmp_ = (lambda x, y: x <= y) if kind in ("stable", "mergesort") else (lambda x, y: x < y)
    if CTX.implied(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), cmp_(f(i), f(j))))):
        return SArr.make([n], lambda i: i, INT)
    inj = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), f(i) != f(j)))
    rng = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= f(i), f(i) < n)))
    o, v = CTX.fresh_fun("order", [IS], IS), CTX.fresh_fun("rank", [IS], IS)
    CTX.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= o(i), o(i) < n, v(o(i)) == i)), patterns=[o(i)]))
    CTX.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= v(i), v(i) < n, o(v(i)) == i)), patterns=[v(i)]))
    CTX.axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), f(o(i)) <= f(o(j))), patterns=[z3.MultiPattern(o(i), o(j))]))
    if kind in ("stable", "mergesort"):
        CTX.axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n, f(o(i)) == f(o(j))), o(i) < o(j)), patterns=[z3.MultiPattern(o(i), o(j))]))
    if CTX.implied(rng) and CTX.implied(inj):
        # n different numbers below n, sorted, are 0, 1, 2, ... (lemma of C11)
        CTX.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f(o(i)) == i), patterns=[o(i)]))
        r = SArr.make([n], lambda i: o(i), INT)
        r.sorts = f, o
        return r
    return SArr.make([n], lambda i: o(i), INT)


def split(a, ix, axis=0):
    a = asarray(a)
    if axis != 0:
        raise Unsupported("np.split axis")
    if is_num(ix):
        raise Unsupported("np.split in equal parts")
    ix = asarray(ix)
    m = ix.shape[0]
    fi = ix.snap()
    n = ex(a.shape[0])
    # boundaries 0, ix[0], ..., ix[m-1], n
    lo = lambda k: z3.If(k == 0, z3.IntVal(0), clipz(fi(k - 1), n))
    hi = lambda k: z3.If(k == ex(m), n, clipz(fi(k), n))
    if isinstance(m, int):
        out = []
        for k in range(m + 1):
            l = z3.IntVal(0) if k == 0 else clipz(fi(z3.IntVal(k - 1)), n)
            h = n if k == m else clipz(fi(z3.IntVal(k)), n)
            out.append(part(a, l, h))
        return PList(Seq([Items(out)]))
    return PList(Seq([Gen(z3.simplify(ex(m) + 1), lambda k: part(a, z3.simplify(lo(k)), z3.simplify(hi(k))))]))


def clipz(e, n):
    """slice bound semantics of a[x:y]"""
    e = z3.simplify(e)
    if z3.is_int_value(e) and e.as_long() == 0:
        return e
    j = z3.If(e < 0, e + n, e)
    return z3.If(j < 0, z3.IntVal(0), z3.If(j > n, n, j))


def part(a, l, h):
    ln = z3.If(h > l, h - l, z3.IntVal(0))
    return a.view([z3.simplify(ln)] + list(a.shape[1:]), lambda i, *r: [z3.simplify(l + i), *r])


def diff(a, n=1, axis=-1):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("np.diff")
    f = a.snap()
    m = z3.simplify(ex(a.shape[0]) - 1)
    if not CTX.implied(m >= 0):
        m = z3.If(m >= 0, m, z3.IntVal(0))
    return SArr.make([m], lambda i: e_bin("sub", f(i + 1), f(i)), a.dt)


def add_outer(a, b):
    a, b = asarray(a), asarray(b)
    fa, fb, n = a.snap(), b.snap(), a.ndim
    return SArr.make(list(a.shape) + list(b.shape), lambda *i: e_bin("add", fa(*i[:n]), fb(*i[n:])), A.result_dt(a, b))


def repeat(a, r, axis=None):
    a = asarray(a)
    r = I().force(r)
    if a.ndim == 1 and is_num(r):
        rr, f = ex(r), a.snap()
        return SArr.make([z3.simplify(ex(a.shape[0]) * rr)], lambda i: f(i / rr), a.dt)
    if is_num(r) and isinstance(axis, int):
        rr, f, d = ex(r), a.snap(), axis % a.ndim
        one = isinstance(a.shape[d], int) and a.shape[d] == 1
        at = lambda x: z3.IntVal(0) if one else x / rr
        return SArr.make(list(a.shape[:d]) + [z3.simplify(ex(a.shape[d]) * rr)] + list(a.shape[d + 1:]), lambda *i: f(*i[:d], at(i[d]), *i[d + 1:]), a.dt)
    raise Unsupported("np.repeat")


def array_equal(a, b):
    a, b = as_operand(a), as_operand(b)
    a, b = A.lift(a), A.lift(b)
    if a.ndim != b.ndim:
        return False
    eqs = [ex(x) == ex(y) for x, y in zip(a.shape, b.shape)]
    q, rng = allidx(a)
    body = e_cmp("eq", a.elem(*q), b.elem(*q))
    return mk(z3.And(*eqs, z3.ForAll(q, z3.Implies(rng, body))) if q else body)


def isin(a, b):
    a, b = asarray(a), asarray(b)
    fa, fb = a.snap(), b.snap()
    if b.ndim != 1:
        raise Unsupported("np.isin")
    n = ex(b.shape[0])

    def fn(*i):
        j = loopvar("m")
        return z3.Exists([j], z3.And(0 <= j, j < n, fb(j) == fa(*i)))
    return SArr.make(a.shape, fn, BOOL)


def can_cast(a, b, casting="safe"):
    d = a.dt if isinstance(a, SArr) else B.to_dtype(a)
    return bool(rnp.can_cast(d, B.to_dtype(b), casting))


def scalar_of(t, x=0):
    dt = rnp.dtype(t)
    x = I().force(x)
    if isinstance(x, (int, float, rnp.generic)):
        return t(x)
    if isinstance(x, SNum):
        return mk(cast_e(x.e, x.dt, dt), dt)
    if isinstance(x, str) and dt.kind in "iuf":
        return scalar_of(t, B.int_(x) if dt.kind in "iu" else B.float_(x))
    if isinstance(x, (str, bytes)) and dt.kind in "SU" and not (isinstance(x, str) and has_tok(x)):
        return x if dt.kind == "U" else x if isinstance(x, bytes) else x.encode()
    raise Unsupported("numpy scalar")


def transpose(a):
    return A.transpose(asarray(a))


# ----------------------------------------------------------------------------- attributes
def dims(a):
    return tuple(s if isinstance(s, int) else mk(s) for s in a.shape)


def arr_attr(a, n):
    NV = B.NV
    if n == "shape":
        return dims(a)
    if n == "dtype":
        return a.dt
    if n == "ndim":
        return a.ndim
    if n == "size":
        return mk(a.size())
    if n == "T":
        return A.transpose(a)
    if n == "itemsize":
        return a.dt.itemsize
    if n == "nbytes":
        return mk(z3.simplify(a.size() * a.dt.itemsize))
    if n == "flat":
        return flatten(a)
    if n == "flags":
        raise Unsupported("array flags")

    def astype(dt, order=None, copy=True, casting=None):
        d = B.to_dtype(dt)
        r = A.astype(a, d)
        if d == a.dt and not copy:
            return a
        return r
    m = {"astype": astype, "copy": lambda order=None: a.copy(), "reshape": lambda *s, order="C": do_reshape(a, s, order), "flatten": lambda order="C": flatten(a, order).copy(),
         "ravel": lambda order="C": flatten(a, order), "sum": lambda axis=None: sum_(a, axis), "any": lambda axis=None: any_(a, axis), "all": lambda axis=None: all_(a, axis),
         "min": lambda axis=None: minmax_arr("min", a, axis), "max": lambda axis=None: minmax_arr("max", a, axis), "tolist": lambda: tolist(a), "item": lambda *i: item(a, *i),
         "transpose": lambda: A.transpose(a), "squeeze": lambda: A.reshape(a, [s for s in a.shape if not (isinstance(s, int) and s == 1)]), "cumsum": lambda axis=None: cumsum(a),
         "view": lambda *x: B.unsupported("ndarray.view"), "fill": lambda v: A.setitem(a, (Ellipsis,), v), "prod": lambda: prod_(a), "newbyteorder": lambda *x: B.unsupported("newbyteorder"),
         "nonzero": lambda: where(a), "repeat": lambda r, axis=None: repeat(a, r, axis), "__len__": lambda: B.length(a)}
    ext = EXT_ATTR.get(n)
    if ext is not None:
        return NV("ndarray." + n, lambda *x, **k: ext(a, *x, **k))
    if n in m:
        return NV("ndarray." + n, m[n])
    if hasattr(rnp.ndarray, n):
        raise Unsupported("ndarray." + n)
    raise PyExc(AttributeError(n))


EXT_ATTR = {}


def item(a, *i):
    if i:
        return A.getitem(a, tuple(i))
    return a.scalar(*[0] * a.ndim)


def tolist(a):
    if a.ndim == 0:
        return a.scalar()
    if a.ndim == 1:
        return PList(I().iter_seq(a))
    return PList(I().iter_seq(a).map(lambda r: tolist(r)))


def fortran_flat(a):
    """1d array of the elements, first index fastest"""
    sh = [ex(x) for x in a.shape]
    f = a.snap()

    def fn(p):
        idx = []
        for n in sh[:-1]:
            idx.append(p % n)
            p = p / n
        return f(*idx, p)
    return SArr.make([a.size()], fn, a.dt)


class MGrid:
    name = "mgrid"

    def getitem(self, o, ix):
        n = []
        for s in ix if isinstance(ix, tuple) else (ix,):
            if not isinstance(s, slice) or s.step is not None:
                raise Unsupported("np.mgrid")
            lo, hi = ex(s.start if s.start is not None else 0), ex(s.stop)
            m = z3.simplify(hi - lo)
            n.append((lo, m if CTX.implied(m >= 0) else z3.If(m >= 0, m, z3.IntVal(0))))
        return PList(Seq.of(*[SArr.make([m for _, m in n], lambda *i, d=d: z3.simplify(n[d][0] + i[d]), INT) for d in range(len(n))]))


def unravel_f(q, dims):
    """column-major multi-index of the number q"""
    out = []
    for d in dims:
        out.append(q % d)
        q //= d
    return out


def f_flat(a):
    """column-major flattening of [n, d1, d2, ...] with known d1, d2, ..."""
    n, dims = ex(a.shape[0]), list(a.shape[1:])
    w = int(rnp.prod(dims))
    f = a.snap()
    def fn(k):
        k = z3.simplify(k)
        e = None
        for q in reversed(range(w)):
            t = f(z3.simplify(k - q * n), *[z3.IntVal(x) for x in unravel_f(q, dims)])
            e = t if e is None else z3.If(k < (q + 1) * n, t, e)
        return e
    return SArr.make([z3.simplify(n * w)], fn, a.dt)


def f_order_flat(a):
    if a.ndim == 1:
        return a.view(a.shape, lambda i: [i])
    if all(isinstance(d, int) for d in a.shape[1:]) and not isinstance(a.shape[0], int) and rnp.prod(a.shape[1:]) > 0:
        return f_flat(a)
    return fortran_flat(a)


def f_unflat(a, s):
    """column-major reshape of a flat array to [n, d1, d2, ...] with known d1, d2, ..."""
    s = [A.sh(x) if not (isinstance(x, int) and x == -1) else -1 for x in s]
    if -1 in s:
        k = s.index(-1)
        q = A.factor_out(a.size(), ex(s[0])) if k else None
        q = A.sh(q) if q is not None else None
        o = int(rnp.prod([x for x in s[1:] if x != -1])) if all(isinstance(x, int) for x in s[1:]) else 0
        if isinstance(q, int) and o > 0 and q % o == 0:
            s[k] = q // o
        else:
            s[k] = A.reshape(a, s).shape[k]
    n, dims = ex(s[0]), s[1:]
    if not all(isinstance(d, int) for d in dims):
        raise Unsupported("reshape order F with unknown trailing dimensions")
    w = int(rnp.prod(dims))
    if not CTX.implied(n * w == a.size()):
        if not CTX.branch(n * w == a.size()):
            raise_py(ValueError, "cannot reshape array")
    f = a.snap()
    def fn(i, *r):
        q, m = z3.IntVal(0), 1
        for x, d in zip(r, dims):
            q, m = q + x * m, m * d
        q = z3.simplify(q)
        if z3.is_int_value(q):
            return f(z3.simplify(i + q.as_long() * n))
        e = None
        for v in reversed(range(w)):
            t = f(z3.simplify(i + v * n))
            e = t if e is None else z3.If(q == v, t, e)
        return e
    return SArr.make([s[0]] + dims, fn, a.dt)


def do_reshape(a, s, order="C"):
    if order == "F":
        if len(s) == 1 and isinstance(s[0], int) and s[0] == -1 and a.ndim:
            return f_order_flat(a)
        if len(s) == 1 and isinstance(s[0], (tuple, PList, PTuple)):
            s = I().iter_seq(s[0]).concrete()
        if s is not None and a.ndim == 1:
            return f_unflat(a, [x if isinstance(x, int) else ex(x) for x in s])
        raise Unsupported("reshape order")
    if order != "C":
        raise Unsupported("reshape order")
    if len(s) == 1 and isinstance(s[0], (tuple, PList, PTuple)):
        s = I().iter_seq(s[0]).concrete()
        if s is None:
            raise Unsupported("reshape")
    return A.reshape(a, [x if isinstance(x, int) else ex(x) for x in s])


def reshape(a, shape, order="C"):
    return do_reshape(asarray(a), (shape,) if isinstance(shape, (tuple, PList)) else (shape,), order)


def flatten(a, order="C"):
    if order == "F" and a.ndim:
        return f_order_flat(a)
    if order != "C":
        raise Unsupported("flatten order")
    if a.ndim == 1:
        return a.view(a.shape, lambda i: [i])
    return A.reshape(a, [a.size()])


def dtype_attr(d, n):
    if n in ("kind", "name", "itemsize", "char", "type", "str", "byteorder", "num", "names", "fields", "shape"):
        return getattr(d, n)
    if n == "newbyteorder":
        return B.NV("dtype.newbyteorder", lambda *a: d.newbyteorder(*a))
    raise Unsupported("dtype." + n)


def scalar_attr(o, n):
    if n == "dtype":
        return o.dt if isinstance(o, SNum) else o.dtype
    if n == "item":
        return B.NV("item", lambda: o if isinstance(o, SNum) else o.item())
    if n in ("ndim",):
        return 0
    if n == "shape":
        return ()
    if n == "astype":
        return B.NV("astype", lambda t, **k: mk(cast_e(toe(o), dt_of(o), B.to_dtype(t)), B.to_dtype(t)))
    raise Unsupported("scalar." + n)


def make_module():
    M = I()
    V = {n: getattr(rnp, n) for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "bool_", "ndarray", "integer", "floating", "number", "generic", "dtype", "intp", "str_", "bytes_", "intc", "single", "double", "uintc", "uintp")}
    V["newaxis"] = None
    V["nan"], V["inf"], V["pi"] = float("nan"), float("inf"), 3.141592653589793
    V["int_"] = rnp.int64
    fs = {"asarray": asarray, "array": array, "asanyarray": asarray, "ascontiguousarray": asarray, "concatenate": concatenate, "hstack": hstack, "vstack": vstack, "column_stack": column_stack, "pad": pad, "stack": stack_, "full": full, "zeros": zeros, "ones": ones,
          "empty": empty, "zeros_like": zeros_like, "full_like": full_like, "empty_like": empty_like, "arange": arange, "linspace": linspace, "any": any_, "all": all_, "sum": sum_, "cumsum": cumsum, "prod": prod_, "min": lambda a, axis=None: minmax_arr("min", a, axis), "max": lambda a, axis=None: minmax_arr("max", a, axis),
          "amin": lambda a, axis=None: minmax_arr("min", a, axis), "amax": lambda a, axis=None: minmax_arr("max", a, axis),
          "size": size, "where": where, "unique": unique, "argsort": argsort, "bincount": bincount, "split": split, "diff": diff, "repeat": repeat, "array_equal": array_equal, "isin": isin, "can_cast": can_cast, "transpose": transpose, "reshape": reshape,
          "nonzero": lambda a: where(a), "flatnonzero": lambda a: where(a)[0], "ravel": lambda a: flatten(asarray(a)), "shape": lambda a: dims(asarray(a)), "ndim": lambda a: asarray(a).ndim, "copy": lambda a: asarray(a).copy(),
          "abs": lambda a: B.abs_(a), "issubdtype": lambda a, b: bool(rnp.issubdtype(B.to_dtype(a), b)), "result_type": lambda *a: rnp.result_type(*[x.dt if isinstance(x, SArr) else B.to_dtype(x) for x in a]),
          "isscalar": lambda x: is_num(x) or isinstance(x, (str, SStr)), "squeeze": lambda a: arr_attr(asarray(a), "squeeze").fn(), "logical_not": lambda a: A.ew1(lambda e: z3.Not(e), asarray(a), BOOL),
          "logical_and": lambda a, b: A.ew("and", as_operand(a), as_operand(b)), "logical_or": lambda a, b: A.ew("or", as_operand(a), as_operand(b)), "atleast_1d": lambda a: (lambda x: x if x.ndim else A.reshape(x, [1]))(asarray(a)),
          "atleast_2d": lambda a: (lambda x: x if x.ndim >= 2 else A.reshape(x, [1] + list(x.shape)))(asarray(a)), "append": lambda a, b: concatenate(PList(Seq.of(A.reshape(asarray(a), [asarray(a).size()]), A.reshape(asarray(b), [asarray(b).size()])))),
          "count_nonzero": lambda a: sum_(A.ew("ne", asarray(a), 0) if asarray(a).dt.kind != "b" else asarray(a)), "divmod": lambda a, b: (M.binop("floordiv", a, b), M.binop("mod", a, b)), "floor_divide": lambda a, b: M.binop("floordiv", a, b), "mod": lambda a, b: M.binop("mod", a, b), "remainder": lambda a, b: M.binop("mod", a, b),
          "multiply": lambda a, b: M.binop("mul", a, b), "subtract": lambda a, b: M.binop("sub", a, b), "maximum": lambda a, b: where(M.compare("gt", a, b), a, b), "minimum": lambda a, b: where(M.compare("lt", a, b), a, b),
          "expand_dims": lambda a, axis: A.reshape(asarray(a), list(asarray(a).shape[:axis]) + [1] + list(asarray(a).shape[axis:])) if isinstance(axis, int) and axis >= 0 else B.unsupported("expand_dims"),
          "row_stack": vstack, "finfo": lambda *a: B.unsupported("finfo"), "ones_like": lambda a, dtype=None: full_like(a, 1, dtype)}
    for n, f in fs.items():
        V[n] = M.Native("np." + n, f)
    m = M.Mod("numpy", V)
    m.ext = True
    V["mgrid"] = Obj(MGrid())
    add = Obj(UFunc("add"))
    V["add"] = add
    m.vars.update(V)
    M.EXTERNAL["numpy"] = m
    t = M.Mod("numpy.typing", {"ArrayLike": M.Opaque("ArrayLike")})
    M.EXTERNAL["numpy.typing"] = t
    return m


class UFunc:
    name = "ufunc"

    def __init__(self, op):
        self.op = op

    def getattr(self, o, n):
        if n == "outer" and self.op == "add":
            return B.NV("np.add.outer", add_outer)
        if n == "at":
            raise Unsupported("ufunc.at")
        raise Unsupported("ufunc." + n)

    def call(self, o, a, b):
        return I().binop(self.op, a, b)


make_module()
