"""Symbolic arrays: shape of z3 integers, element function over index expressions, views on buffers."""
from __future__ import annotations
import z3
import numpy as rnp
from .core import *
from .seq import *


def sh(x):
    """shape entry -> int or z3"""
    if isinstance(x, int):
        return x
    x = z3.simplify(ex(x))
    return x.as_long() if z3.is_int_value(x) else x


def eqdim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = ex(a), ex(b)
    return a.eq(b) or CTX.implied(a == b)


class Buffer(Heap):
    def __init__(self, shape, fn, dt):
        super().__init__()
        self.shape, self.fn, self.dt = tuple(sh(s) for s in shape), fn, rnp.dtype(dt)


class SArr:
    def __init__(self, buf, shape=None, imap=None, cat=None):
        self.buf, self.imap = buf, imap
        self.cat = cat
        self.shape = tuple(sh(s) for s in (buf.shape if shape is None else shape))
        self.order = None

    @staticmethod
    def make(shape, fn, dt, cat=None):
        return SArr(Buffer(shape, fn, dt), cat=cat)

    @property
    def cat(self):
        """the blocks this array is the concatenation of (if known and still true)"""
        return self._cat if self._cat is not None and self.buf.fn is self._catfn else None

    @cat.setter
    def cat(self, c):
        self._cat, self._catfn = c, self.buf.fn

    @property
    def dt(self):
        return self.buf.dt

    @property
    def ndim(self):
        return len(self.shape)

    def elem(self, *idx):
        assert len(idx) == self.ndim, (idx, self.shape)
        idx = [ex(i) for i in idx]
        return self.buf.fn(*(self.imap(*idx) if self.imap else idx))

    def snap(self):
        f, m = self.buf.fn, self.imap
        return (lambda *i: f(*m(*i))) if m else f

    def copy(self):
        return SArr.make(self.shape, self.snap(), self.dt, cat=self.cat)

    def view(self, shape, imap):
        m = self.imap
        return SArr(self.buf, shape, (lambda *i: m(*imap(*i))) if m else imap)

    def scalar(self, *idx):
        return mk(self.elem(*idx), self.dt)

    def size(self):
        n = z3.IntVal(1)
        for s in self.shape:
            n = n * ex(s)
        return z3.simplify(n)

    def _subst(self, pairs):
        f = self.snap()
        nd = self.ndim

        def g(*i):
            q = [loopvar("q") for _ in i]
            r = z3.substitute(f(*q), *pairs)
            return z3.substitute(r, *zip(q, i)) if i else r
        c = None
        if self.cat is not None:
            c = self.cat._subst(pairs)
        r = SArr.make([z3.substitute(ex(s), *pairs) for s in self.shape], g, self.dt, cat=c)
        r.buf.owner = self.buf.owner
        return r

    def __repr__(self):
        return f"<SArr {self.shape} {self.dt}>"


# ----------------------------------------------------------------------------- construction
def zconst_sort(dt):
    return FS if dt.kind == "f" else BS if dt.kind == "b" else SS if dt.kind in "US" else IS


def from_concrete(a):
    """real numpy array (or nested list) -> SArr with an if-chain"""
    a = rnp.asarray(a)
    if a.dtype.kind in "OV":
        raise Unsupported("object array")
    flat = a.reshape(-1)
    dt = a.dtype

    def val(x):
        return toe(x.item())
    vals = [val(x) for x in flat]
    if dt.kind == "f":
        vals = [fconst(float(x)) for x in flat]

    def fn(*idx):
        # row-major position
        if not vals:
            return {FS: fconst(0), BS: z3.BoolVal(False), SS: CTX.strc(""), IS: z3.IntVal(0)}[zconst_sort(dt)]
        p = z3.IntVal(0)
        for i, s in zip(idx, a.shape):
            p = p * s + i
        p = z3.simplify(p)
        if z3.is_int_value(p):
            q = p.as_long()
            return vals[q] if 0 <= q < len(vals) else vals[0]
        if len(vals) > 400:
            raise Unsupported("symbolic index into a long constant table")
        r = vals[-1]
        for q in range(len(vals) - 2, -1, -1):
            r = z3.If(p == q, vals[q], r)
        return r
    return SArr.make(a.shape, fn, dt)


def scalar_arr(x):
    return SArr.make((), lambda: toe(x), dt_of(x))


def result_dt(*xs):
    """numpy promotion for arrays and scalars (weak python scalars)"""
    ds, weak = [], []
    for x in xs:
        if isinstance(x, SArr):
            ds.append(x.dt)
        elif isinstance(x, rnp.generic):
            ds.append(x.dtype)
        elif isinstance(x, SNum) and x.dt not in (INT, FLD):
            ds.append(x.dt)
        else:
            weak.append(dt_of(x))
    if not ds:
        return rnp.result_type(*weak)
    r = rnp.result_type(*ds)
    for w in weak:
        if w.kind == "f" and r.kind in "iub":
            r = FLD
        elif w.kind in "iu" and r.kind == "b":
            r = INT
    return r


# ----------------------------------------------------------------------------- broadcasting
def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            x = s[k]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = x
            elif not eqdim(cur, x):
                one = [y for y in (cur, x) if not isinstance(y, int)]
                if CTX.branch(ex(cur) == ex(x)):
                    continue
                for y in one:
                    if CTX.branch(ex(y) == 1):
                        cur = x if y is cur else cur
                        break
                else:
                    raise_py(ValueError, "operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bget(a, idx):
    """element of a at a broadcast index"""
    off = len(idx) - a.ndim
    return [z3.IntVal(0) if isinstance(s, int) and s == 1 else idx[off + d] for d, s in enumerate(a.shape)]


def lift(x):
    if isinstance(x, SArr):
        return x
    if is_num(x) or isinstance(x, (str, SStr)):
        return SArr.make((), lambda: toe(x), rnp.dtype("U1") if isinstance(x, (str, SStr)) else dt_of(x))
    if isinstance(x, rnp.ndarray):
        return from_concrete(x)
    raise Unsupported(f"array operand {type(x)}")


def ew(op, a, b):
    """elementwise binary operation"""
    A, B = lift(a), lift(b)
    if op in CMP:
        dt = BOOL
    elif op in ("and", "or", "xor"):
        dt = result_dt(a, b)
    elif op == "truediv":
        dt = rnp.result_type(result_dt(a, b), rnp.float32) if result_dt(a, b) == rnp.float32 else FLD
    else:
        dt = result_dt(a, b)
    shape = bshape([A.shape, B.shape])
    fa, fb = A.snap(), B.snap()
    ash, bsh = A, B

    def fn(*i):
        x, y = fa(*bget(ash, i)), fb(*bget(bsh, i))
        if dt.kind == "f" and op not in CMP:
            x, y = cast_e(x, ash.dt, dt), cast_e(y, bsh.dt, dt)
        return e_bin(op, x, y)
    return SArr.make(shape, fn, dt)


def ew1(f, a, dt):
    fa = a.snap()
    return SArr.make(a.shape, lambda *i: f(fa(*i)), dt)


def astype(a, dt):
    dt = rnp.dtype(dt)
    fa, fr = a.snap(), a.dt
    if fr.kind == "f" and dt.kind in "iu":
        pass
    r = SArr.make(a.shape, lambda *i: cast_e(fa(*i), fr, dt), dt)
    if a.cat is not None and not (fr.kind == "f" and dt.kind == "f" and dt.itemsize < fr.itemsize):
        r.cat = a.cat.map(lambda x: astype(x, dt))
    return r


# ----------------------------------------------------------------------------- concatenation
def concatenate(seq, axis=0):
    c = seq.concrete()
    if c is not None:
        arrs = [lift(x) for x in c]
        if not arrs:
            raise_py(ValueError, "need at least one array to concatenate")
        if len(arrs) == 1:
            return arrs[0].copy()
        dt = rnp.result_type(*[a.dt for a in arrs])
        nd = arrs[0].ndim
        if any(a.ndim != nd for a in arrs):
            raise_py(ValueError, "all the input array dimensions must match")
        if nd == 0:
            raise_py(ValueError, "zero-dimensional arrays cannot be concatenated")
        if axis < 0:
            axis += nd
        shape = list(arrs[0].shape)
        for a in arrs[1:]:
            for d in range(nd):
                if d != axis and not eqdim(a.shape[d], shape[d]) and not CTX.branch(ex(a.shape[d]) == ex(shape[d])):
                    raise_py(ValueError, "all the input array dimensions except for the concatenation axis must match exactly")
        offs = [z3.IntVal(0)]
        for a in arrs:
            offs.append(z3.simplify(offs[-1] + ex(a.shape[axis])))
        shape[axis] = offs[-1]
        fs = [a.snap() for a in arrs]

        def fn(*i):
            p = i[axis]
            r = None
            for a, f, o in reversed(list(zip(arrs, fs, offs))):
                if isinstance(a.shape[axis], int) and a.shape[axis] == 0:
                    continue
                j = list(i)
                j[axis] = z3.simplify(p - o)
                v = cast_e(f(*j), a.dt, dt)
                r = v if r is None else z3.If(p < o + ex(a.shape[axis]), v, r)
            return z3.simplify(r) if r is not None else fs[0](*i)
        return SArr.make(shape, fn, dt)
    if axis != 0:
        raise Unsupported("concatenate along another axis of a symbolic number of arrays")
    # symbolic number of arrays
    n = seq.length()
    if not CTX.implied(n > 0):
        if not CTX.branch(n > 0):
            raise_py(ValueError, "need at least one array to concatenate")
    if len(seq.segs) == 1:
        return cat_gen(seq.segs[0])
    parts = []
    for s in seq.segs:
        if isinstance(s, Items):
            parts += [lift(x) for x in s.xs]
        else:
            parts.append(cat_gen(s))
    r = concatenate(Seq([Items(parts)]))
    r.cat = seq.map(lambda x: lift(x).copy())
    return r


def seg_probe(s):
    k = loopvar("p")
    return k, lift(s.fn(k))


def cat_chunks(s, k, ln, a0):
    """arrays of one constant length, only the last one shorter: element i is in number i div length"""
    todo, seen, nums = [z3.simplify(ln)], set(), []
    ite = False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        ite = ite or z3.is_app_of(x, z3.Z3_OP_ITE)
        if z3.is_int_value(x) and abs(x.as_long()) > 1:
            nums.append(abs(x.as_long()))
        todo.extend(x.children())
    if not ite or len(set(nums)) > 6:
        return None
    for b in sorted(set(nums), reverse=True):
        if CTX.implied(z3.Implies(z3.And(0 <= k, k < s.n - 1), ln == b)) and CTX.implied(z3.Implies(z3.And(0 <= k, k < s.n), z3.And(ln <= b, ln >= 0))):
            last = z3.substitute(ln, (k, z3.simplify(s.n - 1)))

            def fn(i):
                return lift(s.fn(z3.simplify(i / b))).elem(z3.simplify(i % b))
            return SArr.make([z3.simplify((s.n - 1) * b + last)], fn, a0.dt)
    return None


def cat_gen(s):
    if s.flat:
        raise Unsupported("concatenation of nested sequences")
    k, a0 = seg_probe(s)
    if a0.ndim == 0:
        raise_py(ValueError, "zero-dimensional arrays cannot be concatenated")
    cond = s.cond if s.cond is not None else (lambda j: z3.BoolVal(True))
    ln = z3.If(cond(k), ex(a0.shape[0]), z3.IntVal(0)) if s.cond is not None else ex(a0.shape[0])
    if s.cond is None and a0.ndim == 1:
        r = cat_chunks(s, k, ln, a0)
        if r is not None:
            return r
    total = prefix_sum(k, ln, s.n)
    PSk = lambda j: z3.substitute(prefix_sum(k, ln, k), (k, j)) if False else prefix_sum(k, ln, j)
    # trailing dimensions: those of some kept block
    rest = []
    for d in range(1, a0.ndim):
        x = a0.shape[d]
        if isinstance(x, int) or k.decl().name() not in free_consts(ex(x)):
            rest.append(x)
        else:
            w = CTX.fresh("width")
            rest.append(w)
            q = loopvar("q")
            same_w = z3.Implies(z3.And(0 <= q, q < s.n, cond(q)), z3.substitute(ex(x), (k, q)) == w)
            # numpy raises unless all widths agree; the agreeing case is the path that goes on
            pats = None
            CTX.axiom(z3.ForAll([q], same_w))
            CTX.assumptions.add("np.concatenate of blocks with different row widths raises; the path that goes on has equal widths")
    blk = CTX.fresh_fun("blk", [IS], IS)
    p = loopvar("p")
    b = blk(p)
    lb = z3.substitute(ex(a0.shape[0]), (k, b))
    CTX.axiom(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < total), z3.And(0 <= b, b < s.n, cond(b), PSk(b) <= p, p < PSk(b) + lb)), patterns=[b]))

    def fn(*i):
        bb = blk(i[0])
        e = lift(s.fn(bb)).elem(i[0] - PSk(bb), *i[1:])
        return e
    return SArr.make([total] + rest, fn, a0.dt, cat=Seq([Gen(s.n, lambda j: lift(s.fn(j)), s.cond)]))


# ----------------------------------------------------------------------------- indexing
def norm_int(i, n, what="index"):
    """index -> z3 in [0,n); IndexError path otherwise"""
    n = ex(n)
    if isinstance(i, (int, rnp.integer)) and not isinstance(i, bool):
        i = int(i)
        j = z3.IntVal(i) if i >= 0 else z3.simplify(n + i)
        ok = z3.And(j >= 0, j < n)
    else:
        e = ex(i)
        if CTX.implied(z3.And(e >= 0, e < n)):
            return e
        j = e
        if not CTX.implied(e >= 0):
            j = z3.If(e < 0, e + n, e)
        ok = z3.And(j >= 0, j < n)
    if not CTX.branch(ok):
        raise_py(IndexError, what + " out of range")
    return z3.simplify(j)


def clip(i, n):
    """slice bound -> z3 in [0,n]"""
    n = ex(n)
    if isinstance(i, int):
        if i >= 0:
            i = z3.IntVal(i)
            if i.as_long() == 0 or CTX.implied(i <= n):
                return i
            return z3.If(i <= n, i, n)
        j = z3.simplify(n + i)
        if CTX.implied(j >= 0):
            return j
        return z3.If(j >= 0, j, z3.IntVal(0))
    e = ex(i)
    if CTX.implied(z3.And(e >= 0, e <= n)):
        return e
    j = z3.If(e < 0, e + n, e)
    return z3.If(j < 0, z3.IntVal(0), z3.If(j > n, n, j))


def slice_bounds(s, n):
    """-> (start, length, step)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, SNum):
        raise Unsupported("symbolic slice step")
    n = ex(n)
    if step == -1 and s.start is None and s.stop is None:
        return z3.simplify(n - 1), n, -1
    if step <= 0:
        raise Unsupported("negative slice step")
    a = z3.IntVal(0) if s.start is None else clip(s.start, n)
    b = n if s.stop is None else clip(s.stop, n)
    if step == 1:
        ln = z3.simplify(b - a)
        if not CTX.implied(ln >= 0):
            ln = z3.If(ln >= 0, ln, z3.IntVal(0))
        return z3.simplify(a), ln, 1
    ln = (b - a + (step - 1)) / step
    if not CTX.implied(b >= a):
        ln = z3.If(b > a, ln, z3.IntVal(0))
    return z3.simplify(a), z3.simplify(ln), step


def idx_items(ix):
    return list(ix) if isinstance(ix, tuple) else [ix]


def as_index_array(x):
    """list/array used as an index -> SArr or None"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, rnp.ndarray):
        return from_concrete(x)
    if isinstance(x, PList):
        from .npm import asarray
        return asarray(x)
    return None


def expand(a, ix):
    ix = idx_items(ix)
    n_used = 0
    for x in ix:
        if x is None or x is Ellipsis:
            continue
        s = as_index_array(x)
        n_used += s.ndim if s is not None and s.dt.kind == "b" else 1
    if any(x is Ellipsis for x in ix):
        p = [i for i, x in enumerate(ix) if x is Ellipsis][0]
        ix = ix[:p] + [slice(None)] * (a.ndim - n_used) + ix[p + 1:]
    else:
        ix = ix + [slice(None)] * (a.ndim - n_used)
    if n_used > a.ndim:
        raise_py(IndexError, "too many indices for array")
    return ix


def in_range_all(idx, n):
    """all elements of the index array lie in [-n, n)?  -> (nonneg known, ok known)"""
    q = [loopvar("q") for _ in idx.shape]
    rng = z3.And(*[z3.And(0 <= x, x < ex(s)) for x, s in zip(q, idx.shape)]) if q else z3.BoolVal(True)
    e = idx.elem(*q)
    nonneg = CTX.check(rng, z3.Not(e >= 0), timeout=1500) == z3.unsat
    ok = CTX.check(rng, z3.Not(z3.And(e >= -ex(n), e < ex(n))), timeout=1500) == z3.unsat
    return nonneg, ok


def getitem(a, ix):
    ix = expand(a, ix)
    fancy = [(p, as_index_array(x)) for p, x in enumerate(ix) if as_index_array(x) is not None]
    if not fancy:
        shape, plan, d = [], [], 0
        for x in ix:
            if x is None:
                shape.append(1)
                plan.append(("new",))
                continue
            n = a.shape[d]
            if isinstance(x, slice):
                st, ln, step = slice_bounds(x, n)
                shape.append(ln)
                plan.append(("sl", st, step))
            elif is_num(x) and not isf(x):
                plan.append(("ix", norm_int(x, n)))
            else:
                raise Unsupported(f"index {type(x)}")
            d += 1

        def imap(*i):
            out, p = [], 0
            for q in plan:
                if q[0] == "new":
                    p += 1
                elif q[0] == "sl":
                    out.append(i[p] if q[2] == 1 and z3.is_int_value(q[1]) and q[1].as_long() == 0 else z3.simplify(q[1] + q[2] * i[p]))
                    p += 1
                else:
                    out.append(q[1])
            return out
        if not shape:
            return mk(a.elem(*imap()), a.dt)
        r = a.view(shape, imap)
        if all(isinstance(x, slice) and x.start is None and x.stop is None and x.step is None for x in ix):
            r.cat = a.cat
        return r
    # boolean mask over the leading axis
    if len(fancy) == 1 and fancy[0][1].dt.kind == "b":
        p, m = fancy[0]
        if m.ndim != 1:
            raise Unsupported("multi-dimensional mask")
        w = where1(m)
        return getitem(a, tuple(ix[:p] + [w] + ix[p + 1:]))
    if any(f.dt.kind == "b" for _, f in fancy):
        raise Unsupported("several masks")
    if any(x is None for x in ix):
        raise Unsupported("newaxis with fancy index")
    if len(fancy) == 1 and len(ix) == 1 and a.ndim == 1 and getattr(ix[0], "sorts", None) is not None:
        # the numbers 0, 1, 2, ... in their order (np.argsort)
        (f, o), q = ix[0].sorts, loopvar("q")
        if z3.eq(z3.simplify(ix[0].elem(q)), o(q)) and z3.eq(z3.simplify(f(q)), z3.simplify(a.elem(q))):
            return SArr.make(list(ix[0].shape), lambda i: i, a.dt)
    # integer fancy indices (adjacent or all), ints broadcast with them
    pos = [p for p, _ in fancy]
    ints = [p for p, x in enumerate(ix) if not isinstance(x, slice) and as_index_array(x) is None]
    allp = sorted(pos + ints)
    if allp != list(range(allp[0], allp[-1] + 1)):
        raise Unsupported("separated fancy indices")
    farr = {p: f for p, f in fancy}
    for p in ints:
        farr[p] = lift(ix[p])
    fshape = bshape([farr[p].shape for p in allp])
    norm = {}
    for p in allp:
        f, n = farr[p], a.shape[p]
        nonneg, ok = in_range_all(f, n)
        if not ok:
            CTX.assumptions.add("elements of index arrays are in range (numpy would raise IndexError)")
        fs = f.snap()
        norm[p] = (f, fs if nonneg else (lambda *i, fs=fs, n=n: z3.If(fs(*i) < 0, fs(*i) + ex(n), fs(*i))))
    shape, plan = [], []
    for p, x in enumerate(ix):
        if isinstance(x, slice):
            st, ln, step = slice_bounds(x, a.shape[p])
            shape.append(ln)
            plan.append((p, "sl", st, step))
        elif p == allp[0]:
            shape.extend(fshape)
            plan.append((p, "fa", len(fshape)))
        elif p in allp:
            plan.append((p, "fb"))
    fa = a.snap()
    nf = len(fshape)

    def fn(*i):
        out, q, f0 = [], 0, None
        for pl in plan:
            if pl[1] == "sl":
                out.append(z3.simplify(pl[2] + pl[3] * i[q]))
                q += 1
            elif pl[1] == "fa":
                f0 = i[q:q + nf]
                q += nf
                f, fs = norm[pl[0]]
                out.append(fs(*bget(f, f0)))
            else:
                f, fs = norm[pl[0]]
                out.append(fs(*bget(f, f0)))
        return fa(*out)
    return SArr.make(shape, fn, a.dt)


def setitem(a, ix, v):
    """a[ix] = v on a buffer (a itself or a simple view of it)"""
    ix = expand(a, ix)
    if isinstance(v, (str, SStr)) and a.dt.kind in "iuf":
        from . import builtins_ as B
        v = (B.float_ if a.dt.kind == "f" else B.int_)(v)
    if isinstance(v, PList) and a.dt.kind in "iuf":
        xs = v.seq.concrete()
        if xs and all(isinstance(x, (str, SStr)) for x in xs):
            # NumPy parses the texts
            from . import builtins_ as B
            v = PList(Seq.of(*[(B.float_ if a.dt.kind == "f" else B.int_)(x) for x in xs]))
    V = lift(v) if not isinstance(v, PList) else None
    if V is None:
        from .npm import asarray
        V = asarray(v)
    dt = a.dt
    old = a.snap()
    fancy = [(p, as_index_array(x)) for p, x in enumerate(ix) if as_index_array(x) is not None]
    fv, vdt = V.snap(), V.dt
    if not fancy:
        conds, shape = [], []
        d = 0
        for x in ix:
            n = a.shape[d]
            if isinstance(x, slice):
                st, ln, step = slice_bounds(x, n)
                conds.append(("sl", st, ln, step))
                shape.append(ln)
            elif is_num(x):
                conds.append(("ix", norm_int(x, n)))
            else:
                raise Unsupported("assignment index")
            d += 1
        full = [q for q, x in zip(conds, ix) if isinstance(x, slice) and x == slice(None)]
        bs = bshape([tuple(sh(s) for s in shape), V.shape]) if shape else ()
        if len(bs) != len(shape):
            raise_py(ValueError, "could not broadcast input array")

        def fn(*i):
            c, vi = [], []
            for q, x in zip(conds, i):
                if q[0] == "ix":
                    c.append(x == q[1])
                else:
                    _, st, ln, step = q
                    if step == 1:
                        if not any(q is y for y in full):
                            c.append(z3.And(x >= st, x < st + ln))
                        vi.append(z3.simplify(x - st))
                    else:
                        c.append(z3.And(x >= st, (x - st) % step == 0, (x - st) / step < ln) if step > 0 else z3.And(x >= 0, x <= st))
                        vi.append((x - st) / step if step > 0 else st - x)
            val = cast_e(fv(*bget(V, vi)) if V.ndim else fv(), vdt, dt)
            cc = z3.simplify(z3.And(*c)) if c else z3.BoolVal(True)
            if z3.is_true(cc):
                return val
            return z3.If(cc, val, old(*i))
    else:
        if len(fancy) != 1 or fancy[0][0] != 0:
            raise Unsupported("fancy assignment")
        f = fancy[0][1]
        if any(not (isinstance(x, slice) and x == slice(None)) for x in ix[1:]):
            raise Unsupported("fancy assignment with further indices")
        if f.dt.kind == "b":
            fm = f.snap()
            if V.ndim:
                raise Unsupported("masked assignment of an array")
            fn = lambda *i: z3.If(fm(i[0]), cast_e(fv(), vdt, dt), old(*i))
        else:
            if f.ndim != 1 and (V.ndim or f.ndim != 2):
                raise Unsupported("fancy assignment")
            nonneg, ok = in_range_all(f, a.shape[0])
            if not ok:
                CTX.assumptions.add("elements of index arrays are in range (numpy would raise IndexError)")
            fs0 = f.snap()
            N = ex(a.shape[0])
            fs = fs0 if nonneg else (lambda *i: z3.If(fs0(*i) < 0, fs0(*i) + N, fs0(*i)))
            # last occurrence of a position in the index array
            hit = CTX.fresh_fun("hit", [IS], IS)     # position in f, or -1
            x, q = loopvar("x"), loopvar("q")
            L = ex(f.shape[0])
            if f.ndim == 2:
                hit2, r = CTX.fresh_fun("hitc", [IS], IS), loopvar("r")
                L2 = ex(f.shape[1])
                pat = fs(q, r)
                CTX.axiom(z3.ForAll([x], z3.Or(hit(x) == -1, z3.And(0 <= hit(x), hit(x) < L, 0 <= hit2(x), hit2(x) < L2, fs(hit(x), hit2(x)) == x)), patterns=[hit(x)]))
                CTX.axiom(z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < L, 0 <= r, r < L2), hit(fs(q, r)) >= 0), patterns=[pat] if z3.is_app_of(pat, z3.Z3_OP_UNINTERPRETED) else []))
            else:
              CTX.axiom(z3.ForAll([x], z3.Or(hit(x) == -1, z3.And(0 <= hit(x), hit(x) < L, fs(hit(x)) == x)), patterns=[hit(x)]))
              CTX.axiom(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < L), z3.And(hit(fs(q)) >= q)), patterns=[fs(q)] if not z3.is_var(fs(q)) and fs(q).num_args() and z3.is_app_of(fs(q), z3.Z3_OP_UNINTERPRETED) else []))

            def fn(*i):
                h = hit(i[0])
                val = cast_e(fv(*bget(V, (h,) + tuple(i[1:]))) if V.ndim else fv(), vdt, dt)
                return z3.If(h >= 0, val, old(*i))
    if a.imap is not None:
        fn = through(a, fn)
    a.buf.set("fn", fn)


def through(a, fn):
    """content of the buffer after the view a of it got the content fn; views that select a slice or an index per axis"""
    if any(isinstance(s, int) and s == 0 for s in a.shape) or any(not isinstance(s, int) and CTX.implied(ex(s) <= 0) for s in a.shape):
        return a.buf.fn
    q = [loopvar("v") for _ in a.shape]
    names = {v.decl().name(): e for e, v in enumerate(q)}
    plan, used = [], set()
    for b in a.imap(*q):
        b = z3.simplify(ex(b))
        dep = [names[m] for m in free_consts(b) if m in names]
        if not dep:
            plan.append((None, b))
            continue
        c = z3.simplify(b - q[dep[0]])
        if len(dep) > 1 or dep[0] in used or any(m in names for m in free_consts(c)):
            raise Unsupported("assignment through a view")
        used.add(dep[0])
        plan.append((dep[0], c))
    for e, s in enumerate(a.shape):
        if e not in used and not (isinstance(s, int) and s == 1):
            raise Unsupported("assignment through a view")
    old = a.buf.fn

    def new(*x):
        vi, c = [z3.IntVal(0)] * len(q), []
        for (e, t), y in zip(plan, x):
            if e is None:
                c.append(y == t)
            else:
                vi[e] = z3.simplify(y - t)
                c += [vi[e] >= 0, vi[e] < ex(a.shape[e])]
        return z3.If(z3.simplify(z3.And(*c)), fn(*vi), old(*x))
    return new


def where1(m):
    """positions of the true elements, increasing"""
    n = ex(m.shape[0])
    if z3.is_true(z3.simplify(m.elem(loopvar("i")))):
        return SArr.make([m.shape[0]], lambda i: i, INT)
    c = CTX.fresh("cnt")
    W = CTX.fresh_fun("W", [IS], IS)
    rank = CTX.fresh_fun("rank", [IS], IS)
    fm = m.snap()
    i, j, p = loopvar("i"), loopvar("j"), loopvar("p")
    CTX.axiom(z3.And(c >= 0, c <= n))
    CTX.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c), z3.And(0 <= W(i), W(i) < n, fm(W(i)), rank(W(i)) == i)), patterns=[W(i)]))
    CTX.axiom(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < c), W(i) < W(j)), patterns=[z3.MultiPattern(W(i), W(j))]))
    CTX.axiom(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n, fm(p)), z3.And(0 <= rank(p), rank(p) < c, W(rank(p)) == p)), patterns=[rank(p)]))
    if isinstance(m.shape[0], int) and m.shape[0] <= 8:
        ks = [z3.IntVal(q) for q in range(m.shape[0])]
        CTX.axiom(c == (z3.Sum([z3.If(fm(k), z3.IntVal(1), z3.IntVal(0)) for k in ks]) if ks else 0))
        for k in ks:
            CTX.axiom(z3.Implies(fm(k), z3.And(0 <= rank(k), rank(k) < c, W(rank(k)) == k)))
    r = SArr.make([c], lambda i: W(i), INT)
    r.where = (m, W, rank, c)
    for n2, f2, c2 in CTX.wcounts:
        # two masks of which one is the negation of the other: the counts add up to the length
        if z3.eq(z3.simplify(n2), z3.simplify(n)) and CTX.implied(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), fm(p) == z3.Not(f2(p))))):
            CTX.axiom(c + c2 == n)
    if not CTX.ivars() and not CTX.tag:
        CTX.wcounts.append((n, fm, c))
    z0 = z3.IntVal(0)
    CTX.wheres[W(z0).decl().name()] = (W(z0).decl(), rank(z0).decl(), c.decl(), len(CTX.ivars()), m.shape[0])
    return r


# ----------------------------------------------------------------------------- reshape
def reshape(a, shape):
    shape = [sh(s) if not (isinstance(s, int) and s == -1) else -1 for s in shape]
    tot = a.size()
    if shape.count(-1) > 1:
        raise_py(ValueError, "can only specify one unknown dimension")
    if -1 in shape and a.ndim == 1 and isinstance(a.shape[0], int):
        # as many rows as the path says
        shape = [1 if not isinstance(s, int) and CTX.implied(ex(s) == 1) else s for s in shape]
    if -1 in shape:
        k = shape.index(-1)
        known = z3.IntVal(1)
        for s in shape:
            if s is not shape[k]:
                known = known * ex(s) if not (isinstance(s, int) and s == -1) else known
        known = z3.simplify(known)
        q = factor_out(tot, known)
        if q is None:
            if not CTX.implied(known > 0):
                raise Unsupported("reshape by a width not known to be positive")
            q = z3.simplify(tot / known)
            if not CTX.implied(q * known == tot):
                if not CTX.branch(q * known == tot):
                    raise_py(ValueError, "cannot reshape array")
        shape[k] = sh(q)
    else:
        new = z3.IntVal(1)
        for s in shape:
            new = new * ex(s)
        if not CTX.implied(new == tot):
            if not CTX.branch(new == tot):
                raise_py(ValueError, "cannot reshape array")
    if len(shape) == a.ndim and all(eqdim(x, y) for x, y in zip(shape, a.shape)):
        return a.view(a.shape, lambda *i: i)
    old = list(a.shape)
    # drop/insert axes of length one
    so, sn = [s for s in old if not (isinstance(s, int) and s == 1)], [s for s in shape if not (isinstance(s, int) and s == 1)]
    if len(so) == len(sn) and all(eqdim(x, y) for x, y in zip(so, sn)):
        po = [d for d, s in enumerate(old) if not (isinstance(s, int) and s == 1)]
        pn = [d for d, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]

        def imap(*i):
            out = [z3.IntVal(0)] * len(old)
            for x, y in zip(po, pn):
                out[x] = i[y]
            return out
        return a.view(shape, imap)
    if a.ndim == 2 and len(shape) == 1:
        w = old[1]
        return _flat2(a, w, shape)
    if a.ndim == 1 and len(shape) == 2:
        w = ex(shape[1])
        flat = getattr(a, "flat2", None)
        if flat is not None and eqdim(flat.shape[1], shape[1]):
            return flat.view(flat.shape, lambda *i: i)
        f0 = getattr(a, "flatconst", None)
        return a.view(shape, lambda i, j: [z3.simplify(i * w + j)])
    if a.ndim >= 2 and len(shape) == 1:
        return reshape(reshape(a, [old[0], prod(old[1:])]), shape)
    if a.ndim == 3 and len(shape) == 2 and eqdim(old[0], shape[0]):
        w = ex(old[2])
        return a.view(shape, lambda i, j: [i, j / w, j % w])
    if a.ndim == 2 and len(shape) == 3 and eqdim(old[0], shape[0]):
        w = ex(shape[2])
        return a.view(shape, lambda i, j, k: [i, j * w + k])
    if a.ndim == 2 and len(shape) == 2:
        return reshape(reshape(a, [tot]), shape)
    raise Unsupported(f"reshape {old} -> {shape}")


def prod(xs):
    r = 1
    for x in xs:
        r = sh(ex(r) * ex(x))
    return r


def factor_out(tot, known):
    """tot / known if tot is syntactically a product with factor known"""
    if z3.is_int_value(known) and known.as_long() == 1:
        return tot
    fs = factors(tot)
    for i, f in enumerate(fs):
        if z3.simplify(f == known).eq(z3.BoolVal(True)):
            r = z3.IntVal(1)
            for j, g in enumerate(fs):
                if j != i:
                    r = r * g
            return z3.simplify(r)
    if z3.is_int_value(known) and fs and z3.is_int_value(fs[0]) and known.as_long() and fs[0].as_long() % known.as_long() == 0:
        r = z3.IntVal(fs[0].as_long() // known.as_long())
        for g in fs[1:]:
            r = r * g
        return z3.simplify(r)
    return None


def factors(e):
    e = z3.simplify(e)
    if z3.is_app_of(e, z3.Z3_OP_MUL):
        return [g for c in e.children() for g in factors(c)]
    return [e]


def _flat2(a, w, shape):
    wz = ex(w)
    if isinstance(w, int) and w == 1:
        return a.view(shape, lambda i: [i, z3.IntVal(0)])
    if isinstance(w, int):
        r = a.view(shape, lambda p: [z3.simplify(p / w), z3.simplify(p % w)])
    else:
        r = a.view(shape, lambda p: [p / wz, p % wz])
    r.flat2 = a
    return r


def transpose(a):
    if a.ndim < 2:
        return a
    if a.ndim > 2:
        return a.view(a.shape[::-1], lambda *i: list(reversed(i)))
    return a.view(a.shape[::-1], lambda i, j: [j, i])
