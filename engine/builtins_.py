"""Built-in functions and methods of the interpreted program (assumed contracts of CPython's built-ins)."""
from __future__ import annotations
import builtins
import z3
import numpy as rnp
from .core import *
from .seq import *
from . import arr as A
from .arr import SArr

_I = None


def I():
    global _I
    if _I is None:
        from . import interp as m
        _I = m
    return _I


def NV(name, fn):
    return I().Native(name, fn)


def to_dtype(x):
    if isinstance(x, rnp.dtype):
        return x
    if isinstance(x, str) or isinstance(x, type):
        try:
            return rnp.dtype(x)
        except TypeError as e:
            raise PyExc(e)
    if isinstance(x, Obj) and "dtype" in x.attrs:
        return x.attrs["dtype"]
    if isinstance(x, I().Native) and hasattr(x, "pytype"):
        return rnp.dtype(x.pytype)
    if isinstance(x, (PList, tuple)):
        def conc(v):
            v = I().force(v)
            if isinstance(v, PList):
                v = v.seq.concrete()
                if v is None:
                    raise Unsupported("symbolic dtype")
                return [conc(y) for y in v]
            if isinstance(v, tuple):
                return tuple(conc(y) for y in v)
            if isinstance(v, str) and has_tok(v) or not isinstance(v, (str, int, type, rnp.dtype)):
                raise Unsupported("symbolic dtype")
            return v
        return rnp.dtype(conc(x))
    raise Unsupported(f"dtype {type(x).__name__}")


def text_len(v):
    """length of a text with symbols; the text of a number has at least one character"""
    e = z3.Function("len!", SS, IS)(text_term(v))
    return z3.simplify(sum(len(p) if isinstance(p, str) else isinstance(p.v, (SNum, SBool)) for p in tok_split(v)) + z3.If(e >= 0, e, z3.IntVal(0)))


def length(v):
    v = I().force(v)
    if isinstance(v, (PList, PTuple, Iter)):
        return mk(v.seq.length())
    if isinstance(v, PSet):
        if getattr(v, "dup", False):
            raise Unsupported("size of a symbolic set")
        return mk(v.seq.length())
    if isinstance(v, (tuple, bytes, range)):
        return len(v)
    if isinstance(v, str):
        if has_tok(v):
            return mk(text_len(v))
        return len(v)
    if isinstance(v, PDict):
        return mk(I().dict_ents(v).length())
    if isinstance(v, SArr):
        if v.ndim == 0:
            raise PyExc(TypeError("len() of unsized object"))
        s = v.shape[0]
        return s if isinstance(s, int) else mk(s)
    if isinstance(v, Obj):
        if hasattr(v.cls, "len"):
            return v.cls.len(v)
        f = v.cls.lookup("__len__") if hasattr(v.cls, "lookup") else None
        if f:
            return I().call(f, [v], {})
        raise PyExc(TypeError("object has no len()"))
    if v is None or is_num(v):
        raise PyExc(TypeError("object has no len()"))
    raise Unsupported(f"len of {type(v).__name__}")


def dictview(d, what):
    I()
    return DictView(d, what)


class DictView:
    """live view on a dictionary"""
    def __init__(self, d, what):
        self.d, self.what = d, what

    @property
    def seq(self):
        e = _I.dict_ents(self.d)
        i = {"keys": 0, "values": 1}.get(self.what)
        return e if i is None else e.map(lambda x: x[i])

    def _subst(self, pairs):
        return Iter(self.seq._subst(pairs))


def seqof(v):
    return I().iter_seq(v)


class Count:
    """itertools.count: numbers without end"""
    def __init__(self, start):
        self.start = start


def count_(start=0, step=1):
    if not is_num(start) or isf(start) or step != 1:
        raise Unsupported("itertools.count")
    return Count(start)


def zip_(*xs, strict=False):
    if not xs:
        return Iter(Seq())
    if any(isinstance(x, Count) for x in xs) and not all(isinstance(x, Count) for x in xs):
        rest = [x for x in xs if not isinstance(x, Count)]

        def row(v):
            i, r = v
            r = list(r)
            return tuple(I().binop("add", i, x.start) if isinstance(x, Count) else r.pop(0) for x in xs)
        sq = enumerate_(zip_(*rest)).seq if len(rest) > 1 else enumerate_(Iter(Seq([Items([(y,) for y in g.xs]) if isinstance(g, Items) else Gen(g.n, lambda k, g=g: (g.fn(k),), g.cond, g.flat) for g in seqof(rest[0]).segs]))).seq
        return Iter(Seq([Items([row(v) for v in g.xs]) if isinstance(g, Items) else Gen(g.n, lambda k, g=g: row(g.fn(k)), g.cond) for g in sq.segs]))
    if len(xs) == 1 and isinstance(xs[0], I().StarArg):
        return zip_star(xs[0].seq)
    if any(isinstance(x, I().StarArg) for x in xs):
        raise Unsupported("zip with *args")
    ss = [seqof(x) for x in xs]
    cs = [s.concrete() for s in ss]
    if all(c is not None for c in cs):
        return Iter(Seq([Items(list(zip(*cs)))]))
    # same segmentation
    if all(len(s.segs) == len(ss[0].segs) for s in ss):
        out = []
        for col in zip(*[s.segs for s in ss]):
            if all(isinstance(c, Items) for c in col) and len({len(c.xs) for c in col}) == 1:
                out.append(Items(list(zip(*[c.xs for c in col]))))
            elif all(isinstance(c, Gen) and not c.flat for c in col) and all(c.n.eq(col[0].n) for c in col) and conds_same(col):
                out.append(Gen(col[0].n, lambda k, col=col: tuple(c.fn(k) for c in col), col[0].cond))
            else:
                out = None
                break
        if out is not None:
            return Iter(Seq(out))
    ls = [s.length() for s in ss]
    m = ls[0]
    for l in ls[1:]:
        if not (m.eq(l) or CTX.implied(m == l)):
            if CTX.implied(m <= l):
                pass
            elif CTX.implied(l <= m):
                m = l
            else:
                m = z3.If(m <= l, m, l)
    m = z3.simplify(m)
    if z3.is_int_value(m):
        return Iter(Seq([Items([tuple(s.get(i) for s in ss) for i in range(m.as_long())])]))
    gs = [s.single() for s in ss]
    if all(g is not None for g in gs):
        return Iter(Seq([Gen(m, lambda k: tuple(g.fn(k) for g in gs))]))
    if all(g is not None or c is not None for g, c in zip(gs, cs)):
        # a concrete list zipped with a symbolic one: the number of items is bounded by the concrete one
        n = min(len(c) for c in cs if c is not None)
        out = []
        for i in range(n):
            if not CTX.implied(m > i) and not CTX.branch(m > i):
                break
            out.append(tuple(g.fn(z3.IntVal(i)) if g is not None else c[i] for g, c in zip(gs, cs)))
        return Iter(Seq([Items(out)]))
    raise Unsupported("zip of mixed sequences")


def conds_same(col):
    if all(c.cond is None for c in col):
        return True
    if any(c.cond is None for c in col):
        return False
    q = loopvar("q")
    return all(z3.simplify(c.cond(q)).eq(z3.simplify(col[0].cond(q))) for c in col)


def zip_star(seq):
    """zip(*rows): rows of a common symbolic length"""
    g = seq.single()
    if g is None:
        raise Unsupported("zip of a mixed number of sequences")
    j = loopvar("z")
    probe = seqof(g.fn(j))
    p = probe.single()
    if p is None:
        raise Unsupported("zip of a symbolic number of mixed sequences")
    n = p.n
    if j.decl().name() in free_consts(n):
        raise Unsupported("zip of sequences of different length")
    if not CTX.implied(g.n > 0) and not CTX.branch(g.n > 0):
        return Iter(Seq())

    def col(k):
        return PTuple(Seq([Gen(g.n, lambda i: seqof(g.fn(i)).single().fn(k))]))
    return Iter(Seq([Gen(n, col)]))


def enumerate_(x, start=0):
    s = seqof(x)
    out, off = [], ex(start)
    for g in s.segs:
        if isinstance(g, Items):
            out.append(Items([(mk(z3.simplify(off + i)), v) for i, v in enumerate(g.xs)]))
        elif g.cond is None and not g.flat:
            out.append(Gen(g.n, lambda k, g=g, off=off: (mk(z3.simplify(off + k)), g.fn(k))))
        elif not g.flat:
            j = loopvar("e")
            ln = z3.If(g.cond(j), z3.IntVal(1), z3.IntVal(0))
            out.append(Gen(g.n, lambda k, g=g, off=off: (mk(off + prefix_sum(j, ln, k)), g.fn(k)), g.cond))
        else:
            raise Unsupported("enumerate of nested sequences")
        off = z3.simplify(off + g.count())
    return Iter(Seq(out))


def range_(*a):
    a = [I().force(x) for x in a]
    if all(isinstance(x, (int, rnp.integer)) for x in a):
        return range(*[int(x) for x in a])
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else 1
    if not isinstance(st, int) or st <= 0:
        raise Unsupported("range with a symbolic step")
    lo, hi = ex(lo), ex(hi)
    n = z3.simplify(hi - lo) if st == 1 else z3.simplify((hi - lo + st - 1) / st)
    if not CTX.implied(n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    r = Iter(Seq([Gen(n, lambda k: mk(z3.simplify(lo + st * k)))]))
    r.range = True
    return r


def isinstance_(v, t):
    v = I().force(v)
    if isinstance(t, tuple):
        return any(isinstance_(v, x) for x in t)
    if isinstance(t, PTuple):
        raise Unsupported("isinstance")
    Cls, Opaque = I().Cls, I().Opaque
    if isinstance(t, Cls):
        return isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.issub(t)
    if isinstance(t, Opaque):
        raise Unsupported("isinstance of " + t.name)
    if isinstance(t, I().Native) and hasattr(t, "pytype"):
        t = t.pytype
    if not isinstance(t, type):
        raise Unsupported("isinstance")
    if isinstance(v, Obj) and hasattr(v.cls, "isinst"):
        return v.cls.isinst(v, t)
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        return t in v.cls.mro() or t is object
    if t is object:
        return True
    m = {PList: list, PTuple: tuple, PDict: dict, PSet: set, SArr: rnp.ndarray, SStr: str, SBool: bool}
    for k, p in m.items():
        if isinstance(v, k):
            return issubclass(p, t)
    if isinstance(v, I().SMap):
        return issubclass(dict, t)
    if isinstance(v, SNum):
        if getattr(v, "npscalar", False):
            return issubclass(v.dt.type, t)
        py = float if isf(v) else int
        if issubclass(py, t):
            return True
        if issubclass(t, rnp.generic) and (rnp.dtype(t).kind if t not in (rnp.integer, rnp.floating, rnp.number, rnp.generic) else "x") in "xiuf":
            raise Unsupported("python or numpy scalar?")
        return False
    if isinstance(v, (I().Func, I().Bound, I().Native)):
        return False
    if v is None or isinstance(v, (int, float, str, bytes, tuple, rnp.generic, rnp.dtype, range, slice)):
        return isinstance(v, t)
    raise Unsupported(f"isinstance of {type(v).__name__}")


def sum_(x, start=0):
    s = seqof(x)
    tot = start
    for g in s.segs:
        if isinstance(g, Items):
            for v in g.xs:
                tot = I().binop("add", tot, v)
        else:
            if g.flat:
                raise Unsupported("sum of nested sequences")
            j = loopvar("s")
            v = I().force(g.fn(j))
            if not is_num(v) or isf(v):
                raise Unsupported("sum of such elements")
            e = ex(v)
            if g.cond is not None:
                e = z3.If(g.cond(j), e, z3.IntVal(0))
            tot = I().binop("add", tot, mk(prefix_sum(j, e, g.n)))
    return tot


def any_(x):
    s = seqof(x)
    out = []
    for g in s.segs:
        if isinstance(g, Items):
            for v in g.xs:
                v = v if isinstance(v, (bool, SBool)) else I().truth(v)
                if v is True:
                    return True
                if v is not False:
                    out.append(v.e)
        else:
            if g.flat:
                raise Unsupported("any of nested sequences")
            j = loopvar("y")
            v = g.fn(j)
            if not isinstance(v, (bool, SBool)):
                raise Unsupported("any of non-booleans")
            out.append(z3.Exists([j], z3.And(0 <= j, j < g.n, g.cond(j) if g.cond else True, bex(v))))
    return mk(z3.Or(*out)) if out else False


def all_(x):
    s = seqof(x)
    out = []
    for g in s.segs:
        if isinstance(g, Items):
            for v in g.xs:
                v = v if isinstance(v, (bool, SBool)) else I().truth(v)
                if v is False:
                    return False
                if v is not True:
                    out.append(v.e)
        else:
            if g.flat:
                raise Unsupported("all of nested sequences")
            j = loopvar("y")
            v = g.fn(j)
            if not isinstance(v, (bool, SBool)):
                raise Unsupported("all of non-booleans")
            if v is True:
                continue
            out.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < g.n, g.cond(j) if g.cond else True), bex(v))))
    return mk(z3.And(*out)) if out else True


def minmax(which):
    def f(*xs, key=None, default=MISSING):
        if key is not None:
            raise Unsupported("min/max with a key")
        if len(xs) == 1:
            v = xs[0]
            if isinstance(v, SArr) and not isinstance(v.shape[0], int):
                return I().npm().minmax_arr(which, v)
            c = seqof(v).concrete()
            if c is None:
                raise Unsupported("min/max of a symbolic sequence")
            xs = c
            if not xs:
                if default is not MISSING:
                    return default
                raise PyExc(ValueError("min() arg is an empty sequence"))
        r = I().force(xs[0])
        for y in xs[1:]:
            y = I().force(y)
            if not is_num(r) or not is_num(y):
                raise Unsupported("min/max")
            if not isinstance(r, SNum) and not isinstance(y, SNum):
                r = (min if which == "min" else max)(r, y)
            else:
                a, b = ex(r), ex(y)
                r = mk(z3.If(a <= b, a, b) if which == "min" else z3.If(a >= b, a, b))
        return r
    return f


def less(a, b):
    """a < b (lexicographic for tuples)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if less(x, y):
                return True
            if less(y, x):
                return False
        return len(a) < len(b)
    return I().truth(I().compare(I().ast.Lt(), a, b))


def sorted_(x, key=None, reverse=False):
    c = seqof(x).concrete()
    if c is not None and all(I().concrete_scalar(v) or isinstance(v, tuple) and all(I().concrete_scalar(y) for y in v) for v in c) and key is None:
        return PList(Seq([Items(sorted(c, reverse=bool(reverse)))]))
    if c is not None and len(c) <= 3 and key is None and not reverse:
        out = []
        for v in c:
            i = len(out)
            while i > 0 and less(v, out[i - 1]):
                i -= 1
            out.insert(i, v)
        return PList(Seq([Items(out)]))
    g = seqof(x).single()
    if g is not None and key is None:
        # a permutation (which one is left open)
        perm, inv = CTX.fresh_fun("sortperm", [IS], IS), CTX.fresh_fun("sortinv", [IS], IS)
        k = loopvar("k")
        CTX.axiom(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g.n), z3.And(0 <= perm(k), perm(k) < g.n, inv(perm(k)) == k)), patterns=[perm(k)]))
        CTX.axiom(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g.n), z3.And(0 <= inv(k), inv(k) < g.n, perm(inv(k)) == k)), patterns=[inv(k)]))
        return PList(Seq([Gen(g.n, lambda q: g.fn(perm(q)))]))
    raise Unsupported("sorting symbolic values")


def reversed_(x):
    s = seqof(x)
    c = s.concrete()
    if c is not None:
        return Iter(Seq([Items(c[::-1])]))
    g = s.single()
    if g:
        return Iter(Seq([Gen(g.n, lambda k: g.fn(z3.simplify(g.n - 1 - k)))]))
    raise Unsupported("reversed")


def map_(f, *xs):
    if len(xs) == 1:
        s = seqof(xs[0])
        out = PList()
        I().run_for(s, lambda v: out.set("seq", out.seq.append(I().call(f, [v], {}))))
        return Iter(out.seq)
    out = PList()
    I().run_for(zip_(*xs).seq, lambda v: out.set("seq", out.seq.append(I().call(f, list(v), {}))))
    return Iter(out.seq)


def filter_(f, x):
    out = PList()

    def body(v):
        if I().truth(v if f is None else I().call(f, [v], {})):
            out.set("seq", out.seq.append(v))
    I().run_for(seqof(x), body)
    return Iter(out.seq)


def iter_(x):
    if isinstance(x, Cursor):
        return x
    return Cursor(seqof(x))


def next_(c, default=MISSING):
    if isinstance(c, Obj) and hasattr(c.cls, "next"):
        return c.cls.next(c, default)
    if isinstance(c, Iter):
        c = Cursor(c.seq)
    if not isinstance(c, Cursor):
        raise Unsupported("next of " + type(c).__name__)
    n = c.seq.length()
    if not CTX.branch(ex(c.pos) < n):
        if default is not MISSING:
            return default
        raise PyExc(StopIteration())
    v = c.seq.get(c.pos)
    c.set("pos", mk(z3.simplify(ex(c.pos) + 1)))
    return v


def int_(x=0, base=None):
    x = I().force(x)
    if isinstance(x, str):
        t = tok_parse(x.strip()) if has_tok(x) else None
        if t is not None:
            return tok_number(t, "i")
        if has_tok(x):
            raise Unsupported("number in mixed text")
        try:
            return int(x) if base is None else int(x, base)
        except ValueError as e:
            raise PyExc(e)
    if isinstance(x, (int, float, bytes, rnp.generic)):
        try:
            return int(x)
        except (ValueError, OverflowError) as e:
            raise PyExc(e)
    if isinstance(x, SNum):
        if isf(x):
            return mk(x.e.arg(0) if x.e.decl().eq(i2f) else f2i(x.e))
        return mk(x.e)
    if isinstance(x, SBool):
        return mk(ex(x))
    if isinstance(x, SArr) and (x.ndim == 0 or all(isinstance(s, int) for s in x.shape) and A.prod(x.shape) == 1):
        return int_(x.scalar(*[0] * x.ndim))
    if isinstance(x, (PList, PDict, tuple)) or x is None:
        raise PyExc(TypeError("int() argument"))
    raise Unsupported("int of " + type(x).__name__)


def float_(x=0.0):
    x = I().force(x)
    if isinstance(x, str):
        t = tok_parse(x.strip()) if has_tok(x) else None
        if t is not None:
            return tok_number(t, "f")
        if has_tok(x):
            raise Unsupported("number in mixed text")
        try:
            return float(x)
        except ValueError as e:
            raise PyExc(e)
    if isinstance(x, (int, float, bytes, rnp.generic)):
        return float(x)
    if isinstance(x, SNum):
        return SNum(fex(x), FLD)
    if isinstance(x, SArr) and x.ndim == 0:
        return float_(x.scalar())
    raise Unsupported("float of " + type(x).__name__)


def str_(x=""):
    return I().fmt_one(x)


def list_(x=None):
    if x is None:
        return PList()
    return PList(seqof(x))


def tuple_(x=None):
    if x is None:
        return ()
    if isinstance(x, tuple):
        return x
    s = seqof(x)
    c = s.concrete()
    return tuple(c) if c is not None else PTuple(s)


def dict_(x=None, **kw):
    d = PDict()
    if x is not None:
        if isinstance(x, PDict):
            e = I().dict_ents(x)
            d.set("ents", e)
        else:
            s = seqof(x)
            I().run_for(s, lambda e: (lambda k, v: I().dict_set(d, k, v))(*I().unpack(e, 2)))
    for k, v in kw.items():
        I().dict_set(d, k, v)
    return d


def set_(x=None):
    return I().make_set(seqof(x)) if x is not None else PSet()


def bool_(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum) and not isf(x):
        return mk(x.e != 0)
    return I().truth(x)


def type_(x):
    x = I().force(x)
    if isinstance(x, Obj) and isinstance(x.cls, I().Cls):
        return x.cls
    if isinstance(x, SArr):
        return rnp.ndarray
    for k, p in {PList: list, PTuple: tuple, PDict: dict, PSet: set, SStr: str, SBool: bool}.items():
        if isinstance(x, k):
            return p
    if isinstance(x, (int, float, str, bytes, tuple)) or x is None:
        return type(x)
    raise Unsupported("type()")


def fromkeys(seq, v=None):
    d = PDict()
    s = seqof(seq)
    c = s.concrete()
    if c is not None:
        for x in c:
            I().dict_set(d, x, v)
        return d
    g = s.single()
    if g is None:
        raise Unsupported("dict.fromkeys of a mixed sequence")
    j = loopvar("j")
    kj = g.fn(j)
    if not isinstance(kj, SStr):
        raise Unsupported("dict.fromkeys of such keys")
    i1, i2 = loopvar("i1"), loopvar("i2")
    a, b = z3.substitute(kj.e, (j, i1)), z3.substitute(kj.e, (j, i2))
    if CTX.check(0 <= i1, i1 < i2, i2 < g.n, a == b, timeout=2000) == z3.unsat:
        d.set("ents", Seq([Gen(g.n, lambda i: (g.fn(i), v))]))
        return d
    # distinct keys in order of first appearance
    grp = Group(g.n, lambda i: z3.substitute(kj.e, (j, i)), lambda i: z3.BoolVal(True), None, "keys")
    m, U, first, inv = grp.items()
    d.set("ents", Seq([Gen(m, lambda i: (mk(U(i)), v))]))
    return d


def call_type(t, args, kw):
    f = TYPES.get(t)
    if f is not None:
        return f(*args, **kw)
    if issubclass(t, BaseException):
        try:
            return t(*[a if I().concrete_scalar(a) else "?" for a in args])
        except Exception:
            return t()
    if issubclass(t, rnp.generic):
        return I().npm().scalar_of(t, *args)
    if t is rnp.dtype:
        return to_dtype(args[0])
    if t is bytes and len(args) == 1 and not kw:
        v = I().force(args[0])
        c = v.seq.concrete() if isinstance(v, PList) else list(v) if isinstance(v, (tuple, bytes)) else None
        if c is not None and all(type(x) is int for x in c):
            try:
                return bytes(c)
            except ValueError as e:
                raise PyExc(e)
    raise Unsupported("call of " + t.__name__)


TYPES = {int: int_, float: float_, str: str_, list: list_, tuple: tuple_, dict: dict_, set: set_, bool: bool_, frozenset: set_, object: lambda: Obj(object), slice: lambda *a: slice(*a)}
TYPES[range] = range_
TYPES[type] = type_


# ----------------------------------------------------------------------------- attributes
def getattr_(o, n, default=MISSING):
    M = I()
    o = M.force(o)
    if isinstance(o, M.Mod):
        if n in o.vars:
            return o.vars[n]
        if isinstance(o, M.LazyPkg):
            return o.get(n)
        sub = o.name + "." + n
        if M.module_file(sub)[0] is not None:
            return M.load(sub)
        if o.name in M.EXTERNAL or getattr(o, "ext", False):
            return M.Opaque(sub)
        if default is not MISSING:
            return default
        raise PyExc(AttributeError(n))
    if isinstance(o, M.Opaque):
        return M.Opaque(o.name + "." + n)
    if isinstance(o, Obj):
        if n in o.attrs:
            return o.attrs[n]
        if isinstance(o.cls, M.Cls):
            f = o.cls.lookup(n)
            if f is not None:
                if isinstance(f, M.Func):
                    if f.kind == "property":
                        return M.call(f, [o], {})
                    if f.kind == "staticmethod":
                        return f
                    if f.kind == "classmethod":
                        return M.Bound(f, o.cls)
                    return M.Bound(f, o)
                return f
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                raise Unsupported("__dict__")
        elif hasattr(o.cls, "getattr"):
            return o.cls.getattr(o, n)
        if default is not MISSING:
            return default
        raise PyExc(AttributeError(f"{o!r} has no attribute {n}"))
    if isinstance(o, M.Cls):
        f = o.lookup(n)
        if f is not None:
            if isinstance(f, M.Func) and f.kind == "classmethod":
                return M.Bound(f, o)
            return f
        if n == "__name__":
            return o.name
        raise PyExc(AttributeError(n))
    if isinstance(o, SArr):
        return M.npm().arr_attr(o, n)
    if isinstance(o, (str, SStr)):
        return NV("str." + n, str_method(o, n))
    if isinstance(o, PList):
        return list_attr(o, n)
    if isinstance(o, (PDict,)):
        return dict_attr(o, n)
    if isinstance(o, M.SMap):
        return smap_attr(o, n)
    if isinstance(o, PSet):
        return set_attr(o, n)
    if isinstance(o, (tuple, PTuple)):
        if n == "index":
            return NV("tuple.index", lambda x: list_index(o if isinstance(o, PTuple) else PTuple(Seq([Items(o)])), x))
        if n == "count" and isinstance(o, tuple):
            return NV("tuple.count", lambda x: sum(1 for y in o if M.eq_vals(x, y) is True))
    if isinstance(o, type):
        if o is dict and n == "fromkeys":
            return NV("dict.fromkeys", fromkeys)
        if n == "__name__":
            return o.__name__
        if o is str and n == "join":
            raise Unsupported("str.join")
        if issubclass(o, rnp.generic):
            raise Unsupported("attribute of a numpy type")
    if isinstance(o, rnp.dtype):
        return M.npm().dtype_attr(o, n)
    if isinstance(o, (rnp.generic, SNum)):
        return M.npm().scalar_attr(o, n)
    if isinstance(o, (int, float)):
        if n == "dtype":
            raise PyExc(AttributeError(n))
    if isinstance(o, bytes):
        return NV("bytes." + n, lambda *a, **k: bytes_method(o, n, *a, **k))
    if isinstance(o, BaseException):
        if n == "args":
            return o.args
    if isinstance(o, M.Func) and n == "__name__":
        return o.name.rpartition(".")[2]
    if o is None or isinstance(o, (int, float)):
        if default is not MISSING:
            return default
        raise PyExc(AttributeError(f"{type(o).__name__} has no attribute {n}"))
    if isinstance(o, Iter) or isinstance(o, DictView):
        raise Unsupported("attribute of an iterator")
    raise Unsupported(f"attribute {n} of {type(o).__name__}")


def setattr_(o, n, v):
    o = I().force(o)
    if isinstance(o, Obj):
        if isinstance(o.cls, I().Cls) or not hasattr(o.cls, "setattr"):
            o.setattr(n, v)
        else:
            o.cls.setattr(o, n, v)
        return
    if isinstance(o, SArr) and n == "shape":
        raise Unsupported("assignment to shape")
    raise Unsupported(f"attribute assignment on {type(o).__name__}")


def bytes_method(o, n, *a, **k):
    a = list(a)
    if n == "join" and len(a) == 1 and I().FILEMODEL is not None:
        sq = seqof(a[0])
        c = sq.concrete()
        if c is None or not all(isinstance(y, bytes) for y in c):
            return I().FILEMODEL.join_text(o.decode("latin-1"), sq, True)
        a = [PList(sq)]
    for q, x in enumerate(a):
        if isinstance(x, PList):
            a[q] = x.seq.concrete()
        if a[q] is None and x is not None or not (x is None or isinstance(a[q], (list, int, str, bytes))) or isinstance(a[q], list) and not all(isinstance(y, bytes) for y in a[q]):
            raise Unsupported("argument of bytes." + n)
    try:
        r = getattr(o, n)(*a, **k)
    except Exception as e:
        raise PyExc(e)
    return PList(Seq([Items(r)])) if isinstance(r, list) else r


# ----------------------------------------------------------------------------- lists
def list_extend(o, v):
    s = seqof(v)
    if isinstance(v, PList) and v is o:
        s = Seq(s.segs)
    o.set("seq", o.seq + s)


def first_index(o, x, msg):
    g = o.seq.single()
    if g is None:
        raise Unsupported("search in a mixed list")
    j = loopvar("j")
    r = bex(I().eq_vals(g.fn(j), x))
    if not CTX.branch(z3.Exists([j], z3.And(0 <= j, j < g.n, r))):
        raise PyExc(ValueError(msg))
    p = CTX.fresh("idx")
    CTX.axiom(z3.And(0 <= p, p < g.n, z3.substitute(r, (j, p))))
    CTX.axiom(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), z3.Not(r))))
    return p


def list_index(o, x, *rest):
    M = I()
    c = o.seq.concrete()
    if c is None and not rest:
        return mk(first_index(o, x, "x not in list"))
    if c is None or rest:
        raise Unsupported("index in a symbolic list")
    for i, y in enumerate(c):
        r = M.eq_vals(x, y)
        if r is True or r is not False and CTX.branch(bex(r)):
            return i
    raise PyExc(ValueError("not in list"))


def list_pop(o, i=-1):
    c = o.seq.concrete()
    if c is None:
        if i == -1 and o.seq.segs and isinstance(o.seq.segs[-1], Items):
            last = o.seq.segs[-1].xs
            o.set("seq", Seq(o.seq.segs[:-1] + [Items(last[:-1])]))
            return last[-1]
        raise Unsupported("pop from a symbolic list")
    if not c:
        raise PyExc(IndexError("pop from empty list"))
    if not isinstance(i, int):
        raise Unsupported("pop at a symbolic index")
    c = list(c)
    try:
        v = c.pop(i)
    except IndexError as e:
        raise PyExc(e)
    o.set("seq", Seq([Items(c)]))
    return v


def list_insert(o, i, v):
    c = o.seq.concrete()
    if i == 0:
        o.set("seq", Seq([Items([v])] + o.seq.segs))
        return
    if c is None or not isinstance(i, int):
        raise Unsupported("insert into a symbolic list")
    c = list(c)
    c.insert(i, v)
    o.set("seq", Seq([Items(c)]))


def list_remove(o, x):
    M = I()
    c = o.seq.concrete()
    if c is None:
        p = first_index(o, x, "list.remove(x): x not in list")
        g = o.seq.single()
        o.set("seq", Seq([Gen(z3.simplify(g.n - 1), lambda k: I().merge_at(k < p, g.fn(k), g.fn(z3.simplify(k + 1))))]))
        return
    for i, y in enumerate(c):
        r = M.eq_vals(x, y)
        if r is True or r is not False and CTX.branch(bex(r)):
            o.set("seq", Seq([Items(c[:i] + c[i + 1:])]))
            return
    raise PyExc(ValueError("list.remove(x): x not in list"))


def list_attr(o, n):
    m = {"append": lambda v: o.set("seq", o.seq.append(v)), "extend": lambda v: list_extend(o, v), "index": lambda *a: list_index(o, *a), "pop": lambda *a: list_pop(o, *a),
         "insert": lambda i, v: list_insert(o, i, v), "copy": lambda: PList(o.seq), "remove": lambda x: list_remove(o, x),
         "sort": lambda **k: o.set("seq", sorted_(o, **k).seq), "reverse": lambda: o.set("seq", reversed_(o).seq), "clear": lambda: o.set("seq", Seq()),
         "count": lambda x: sum_(Iter(o.seq.map(lambda y: mk(z3.If(bex(I().eq_vals(x, y)), z3.IntVal(1), z3.IntVal(0))))))}
    if n not in m:
        raise Unsupported("list." + n) if hasattr(list, n) else PyExc(AttributeError(n))
    return NV("list." + n, m[n])


def set_attr(o, n):
    M = I()

    def add(x):
        c = o.seq.concrete()
        if c is not None and not CTX.loops:
            for y in c:
                r = M.eq_vals(x, y)
                if r is True or r is not False and CTX.branch(bex(r)):
                    return
            o.set("seq", o.seq.append(x))
            return
        o.set("seq", o.seq.append(x))
        o.dup = True

    def discard(x, must=False):
        c = o.seq.concrete()
        if c is None:
            raise Unsupported("set.discard")
        for i, y in enumerate(c):
            r = M.eq_vals(x, y)
            if r is True or r is not False and CTX.branch(bex(r)):
                o.set("seq", Seq([Items(c[:i] + c[i + 1:])]))
                return
        if must:
            raise PyExc(KeyError(x))
    if n == "add":
        return NV("set.add", add)
    if n == "discard":
        return NV("set.discard", discard)
    if n == "remove":
        return NV("set.remove", lambda x: discard(x, True))
    raise Unsupported("set." + n)


def dict_attr(o, n):
    M = I()

    def pop(k, default=MISSING):
        present = M.truth(M.dict_contains(o, k))
        if not present:
            if default is not MISSING:
                return default
            raise PyExc(KeyError(k))
        v = M.dict_get(o, k)
        M.dict_del(o, k)
        return v

    def setdefault(k, v=None):
        if M.truth(M.dict_contains(o, k)):
            return M.dict_get(o, k)
        M.dict_set(o, k, v)
        return v if M.maybe_key(o, k) is None else M.maybe_key(o, k).value

    def update(other=None, **kw):
        if isinstance(other, PDict):
            M.run_for(M.dict_ents(other), lambda e: M.dict_set(o, e[0], e[1]))
        elif other is not None:
            M.run_for(seqof(other), lambda e: M.dict_set(o, *M.unpack(e, 2)))
        for k, v in kw.items():
            M.dict_set(o, k, v)

    m = {"keys": lambda: dictview(o, "keys"), "values": lambda: dictview(o, "values"), "items": lambda: dictview(o, "items"),
         "get": lambda k, d=None: M.dict_get(o, k, d), "pop": pop, "setdefault": setdefault, "update": update, "copy": lambda: dict_(o), "clear": lambda: o.set("ents", Seq())}
    if n not in m:
        raise Unsupported("dict." + n) if hasattr(dict, n) else PyExc(AttributeError(n))
    return NV("dict." + n, m[n])


def smap_attr(o, n):
    if n == "get":
        return NV("dict.get", lambda k, d=None: o.get(k, d))
    if n == "keys":
        return NV("dict.keys", lambda: o)
    if n == "pop":
        def pop(k, default=MISSING):
            v = o.get(k, default)
            o.put(k, None)
            return v
        return NV("dict.pop", pop)
    if n == "values" and getattr(o, "values", None):
        return NV("dict.values", lambda: o.values())
    if n == "items" and getattr(o, "items", None):
        return NV("dict.items", lambda: o.items())
    if n == "setdefault":
        def setdefault(k, v=None):
            if I().truth(o.contains(k)):
                return o.get(k)
            o.put(k, v)
            return v
        return NV("dict.setdefault", setdefault)
    if n == "update":
        def update(d):
            c = I().dict_ents(d).concrete()
            if c is None:
                raise Unsupported("update by a symbolic dictionary")
            for k, v in c:
                o.put(k, v)
        return NV("dict.update", update)
    raise Unsupported("dict." + n)


# ----------------------------------------------------------------------------- items
def getitem_(o, ix):
    M = I()
    o, ix = M.force(o), (M.force(ix) if not isinstance(ix, (tuple, slice)) else ix)
    if isinstance(o, SArr):
        if isinstance(ix, str):
            raise Unsupported("structured array")
        return A.getitem(o, ix)
    if isinstance(o, PDict):
        return M.dict_get(o, ix)
    if isinstance(o, M.SMap):
        return o.get(ix)
    if isinstance(o, (PList, PTuple, tuple)):
        seq = Seq([Items(o)]) if isinstance(o, tuple) else o.seq
        if isinstance(ix, slice):
            c = seq.concrete()
            st = ix.step
            if c is not None and all(x is None or isinstance(x, int) for x in (ix.start, ix.stop, st)):
                r = c[slice(ix.start, ix.stop, st)]
                return tuple(r) if isinstance(o, tuple) else PList(Seq([Items(r)])) if isinstance(o, PList) else tuple(r)
            if st == -1 and ix.start is None and ix.stop is None:
                r = reversed_(o).seq
            else:
                if st not in (None, 1):
                    raise Unsupported("slice step on a symbolic list")
                n = seq.length()
                a, ln, _ = A.slice_bounds(ix, n)
                r = seq.slice(mk(a), mk(z3.simplify(a + ln)))
            return PList(r) if isinstance(o, PList) else PTuple(r)
        if isinstance(ix, (SArr, str, SStr)) or ix is None or isf(ix):
            if isinstance(ix, SArr) and ix.ndim == 0:
                ix = ix.scalar()
            else:
                raise PyExc(TypeError("list indices must be integers"))
        c = seq.concrete()
        if c is not None and isinstance(ix, (int, rnp.integer)):
            try:
                return c[int(ix)]
            except IndexError as e:
                raise PyExc(e)
        n = seq.length()
        if isinstance(ix, int) and ix < 0 and seq.segs and isinstance(seq.segs[-1], Items) and -ix <= len(seq.segs[-1].xs):
            return seq.segs[-1].xs[ix]
        e = A.norm_int(ix, n, "list index")
        if c is not None:
            # symbolic index into distinct items: split cases
            for i in range(len(c) - 1):
                if CTX.branch(e == i):
                    return c[i]
            return c[-1]
        v = seq.get(e)
        return mark_temp(v)
    if isinstance(o, str):
        if has_tok(o):
            parts = tok_split(o)
            if isinstance(ix, int) and ix >= 0:
                if isinstance(parts[0], str) and ix < len(parts[0]):
                    return parts[0][ix]
                if ix == 0 and isinstance(parts[0].v, SNum):
                    return NUMCHAR
            if isinstance(ix, int) and ix < 0 and isinstance(parts[-1], str) and -ix <= len(parts[-1]):
                return parts[-1][ix]
            if isinstance(ix, slice) and ix.step is None:
                a, b = ix.start or 0, ix.stop
                lead = len(parts[0]) if isinstance(parts[0], str) else 0
                tail = len(parts[-1]) if isinstance(parts[-1], str) else 0
                if isinstance(a, int) and 0 <= a <= lead and (b is None or isinstance(b, int) and (0 <= b <= lead or b < 0 and -b <= tail)):
                    return o[a:b]
            raise Unsupported("character of symbolic text")
        try:
            return o[ix]
        except (IndexError, TypeError) as e:
            raise PyExc(e)
    if isinstance(o, bytes):
        return o[ix]
    if isinstance(o, SStr):
        raise Unsupported("character of a symbolic string")
    if isinstance(o, range):
        return o[ix]
    if isinstance(o, Obj):
        if hasattr(o.cls, "getitem"):
            return o.cls.getitem(o, ix)
        if isinstance(o.cls, M.Cls) and o.cls.lookup("__getitem__"):
            return M.call(o.cls.lookup("__getitem__"), [o, ix], {})
    if isinstance(o, M.Opaque):
        raise Unsupported("item of " + o.name)
    if o is None or is_num(o):
        raise PyExc(TypeError("object is not subscriptable"))
    if isinstance(o, type) or isinstance(o, M.Cls):
        return o          # generic alias in an annotation
    raise Unsupported(f"item of {type(o).__name__}")


def setitem_(o, ix, v):
    M = I()
    o, ix, v = M.force(o), M.force(ix), M.force(v)
    if isinstance(o, SArr):
        A.setitem(o, ix, v)
        return
    if isinstance(o, PDict):
        M.dict_set(o, ix, v)
        return
    if isinstance(o, M.SMap):
        o.put(ix, v)
        return
    if isinstance(o, PList):
        from .loops import samev
        c = o.seq.concrete()
        if isinstance(ix, slice):
            if ix == slice(None) :
                o.set("seq", seqof(v))
                return
            raise Unsupported("slice assignment to a list")
        if c is not None and isinstance(ix, (int, rnp.integer)):
            c = list(c)
            try:
                c[int(ix)] = v
            except IndexError as e:
                raise PyExc(e)
            o.set("seq", Seq([Items(c)]))
            return
        g = o.seq.single()
        if g is not None:
            e = A.norm_int(ix, g.n, "list assignment index")
            if samev(g.fn(e), v):
                return
            list_update(o, g, e, v)
            return
        raise Unsupported("assignment into a mixed list")
    if isinstance(o, Obj):
        if hasattr(o.cls, "setitem"):
            return o.cls.setitem(o, ix, v)
        if isinstance(o.cls, M.Cls) and o.cls.lookup("__setitem__"):
            return M.call(o.cls.lookup("__setitem__"), [o, ix, v], {})
    if isinstance(o, (tuple, PTuple, str)):
        raise PyExc(TypeError("object does not support item assignment"))
    raise Unsupported(f"item assignment on {type(o).__name__}")


def list_update(o, g, e, v):
    """o[e] = v on a list described generically"""
    M = I()
    if CTX.loops:
        raise Unsupported("assignment to a list element inside a symbolic loop")
    o.set("seq", Seq([Gen(g.n, lambda i: M.merge_at(i == e, v, g.fn(i)))]))


# ----------------------------------------------------------------------------- text
def str_method(o, n):
    M = I()

    def f(*a, **k):
        a = tuple(M.force(x) for x in a)
        if o == NUMCHAR and n not in ("strip",) or n in ("isalpha", "isnumeric", "isdigit", "isalnum") and isinstance(o, str) and has_tok(o):
            if n == "isalpha" and isinstance(o, str) and (o == NUMCHAR or any(not isinstance(p, str) and isinstance(p.v, SNum) and not isf(p.v) for p in tok_split(o))):
                return False
            raise Unsupported("kind of a character of a number")
        if n == "join":
            return str_join(o, a[0])
        if isinstance(o, str) and not has_tok(o) and all(not isinstance(x, SStr) and not (isinstance(x, str) and has_tok(x)) for x in a) and n != "format":
            aa = [tuple(x) if isinstance(x, tuple) else x for x in a]
            try:
                r = getattr(o, n)(*aa, **k)
            except AttributeError as e:
                raise PyExc(e)
            except (TypeError, ValueError) as e:
                raise PyExc(e)
            if isinstance(r, list):
                return PList(Seq([Items(r)]))
            return r
        if n == "format":
            return str_format(o, a, k)
        if n in ("startswith", "endswith"):
            args = a[0] if isinstance(a[0], tuple) else (a[0],)
            out = []
            for p in args:
                out.append(text_affix(o, n, p))
            if any(x is True for x in out):
                return True
            return M.mk(z3.Or(*[bex(x) for x in out])) if any(x is not False for x in out) else False
        if isinstance(o, SStr) or tok_parse(o) is not None and isinstance(tok_parse(o).v, SStr):
            e = sstr(o)
            if n in ("lower", "upper", "strip", "title", "lstrip", "rstrip") and not a:
                return mk(case_fn(n, e))
            if n == "split" and len(a) == 1 and isinstance(a[0], str):
                return PList(split_seq(e, a[0]))
            if n == "replace" and all(isinstance(x, str) for x in a):
                return mk(z3.Function(f"str.replace:{a[0]}:{a[1]}", SS, SS)(e))
            if n == "encode":
                return text_method(M.txt(o), n, a, k)
            raise Unsupported("str." + n + " of a symbolic string")
        return text_method(o, n, a, k)
    return f


def case_fn(n, e):
    g = z3.Function("str." + n, SS, SS)
    return e if e.decl().eq(g) else g(e)       # idempotent


def split_seq(e, sep):
    nf = z3.Function("nsplit:" + sep, SS, IS)
    pf = z3.Function("split:" + sep, SS, IS, SS)
    CTX.assume(nf(e) >= 1)
    return Seq([Gen(nf(e), lambda k: mk(pf(e, k)))])


def text_affix(o, n, p):
    if isinstance(o, str):
        parts = tok_split(o)
        x = parts[0] if n == "startswith" else parts[-1]
        if isinstance(p, str) and not has_tok(p):
            if isinstance(x, str):
                if (x.startswith(p) if n == "startswith" else x.endswith(p)):
                    return True
                if len(x) >= len(p) or not (p.startswith(x) if n == "startswith" else p.endswith(x)):
                    return False
            elif isinstance(x.v, SNum):
                c = p[0] if n == "startswith" else p[-1]
                if c not in "0123456789+-.eEinfa ":
                    return False
    if isinstance(p, str) and not has_tok(p):
        e = sstr(o)
        from . import interp as M_
        vs = M_.tab_values(e)
        if vs is not None and len({getattr(v, n)(p) for v in vs}) == 1:
            return getattr(next(iter(vs)), n)(p)
        return mk(str_pred("sw" if n == "startswith" else "ew", p)(e))
    raise Unsupported(n + " of symbolic text")


def text_method(o, n, a, k):
    """methods on text with placeholders: a placeholder stands for text without white space or separators"""
    M = I()
    if n in ("strip", "rstrip", "lstrip"):
        if not a or isinstance(a[0], str) and not any(c in "0123456789+-.eEinfa" or c.isalpha() for c in a[0]):
            return getattr(o, n)(*a)
    if n == "split":
        if not a or a[0] is None:
            return PList(Seq([Items(o.split())]))
        if isinstance(a[0], str) and a[0] and not any(c in "0123456789+-.eEinfa" or c.isalpha() for c in a[0]):
            return PList(Seq([Items(o.split(*a))]))
    if n in ("partition", "rpartition") and a[0] and not any(c in "0123456789+-.eEinfa" or c.isalpha() for c in a[0]):
        return getattr(o, n)(a[0])
    if n in ("lower", "upper") and not a:
        if all(isinstance(p, str) or isinstance(p.v, SNum) and not isf(p.v) for p in tok_split(o)):
            return getattr(o, n)()
        if all(isinstance(p, str) or isinstance(p.v, SStr) and not p.spec for p in tok_split(o)):
            # case mapping distributes over concatenation
            return "".join(getattr(p, n)() if isinstance(p, str) else tokstr(mk(case_fn(n, p.v.e)), "") for p in tok_split(o))
    if n == "encode":
        return EncText(o)
    if n == "replace" and isinstance(a[0], str) and isinstance(a[1], str) and a[0] and not any(c in "0123456789+-.eEinfa" or c.isalpha() for c in a[0]):
        return o.replace(*a)
    if n == "replace" and all(isinstance(x, str) and not has_tok(x) for x in a[:2]) and any(c not in "0123456789+-.eEinfa" for c in a[0]) and all(isinstance(p, str) or isinstance(p.v, SNum) for p in tok_split(o)):
        # no number contains it
        return o.replace(*a)
    if n in ("ljust", "rjust", "center"):
        return tokstr(mk(text_term(o)), f"{n}:{a}")
    raise Unsupported("str." + n + " of symbolic text")


NUMCHAR = "\ue100"       # some character of a number


class EncText:
    def __init__(self, s):
        self.s = s


def str_format(o, a, k):
    import re
    if has_tok(o):
        raise Unsupported("symbolic format string")
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported("format field " + field)
        if spec and "{" in spec:
            raise Unsupported("nested format spec")
        out.append(I().fmt_one(v, spec or "", conv))
    return "".join(out)


def str_join(sep, x):
    s = seqof(x)
    c = s.concrete()
    if c is not None:
        if not isinstance(sep, str):
            if len(c) == 0:
                return ""
            if len(c) == 1:
                return c[0]
            raise Unsupported("join with a symbolic separator")
        if all(isinstance(v, (str, SStr)) for v in c):
            return sep.join(I().txt(v) for v in c)
        if any(v is None or is_num(v) for v in c):
            raise PyExc(TypeError("sequence item: expected str instance"))
        raise Unsupported("join of such items")
    if not isinstance(sep, str):
        sep_e = sep.e
    g = s.single()
    if g is not None:
        j = loopvar("j")
        v = g.fn(j)
        if isinstance(v, SStr):
            # an opaque string that remembers what it joins
            r = CTX.fresh("joined", SS)
            CTX.joins = getattr(CTX, "joins", [])
            CTX.joins.append((r, sep, s))
            return SStr(r)
    return _join_text(sep, s)


def _join_text(sep, s):
    CTX.approx.append("join of a symbolic number of texts")
    return SStr(CTX.fresh("joined", SS))


# ----------------------------------------------------------------------------- table
def builtin_table():
    M = I()
    B = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
    B.update({"int": int, "float": float, "str": str, "list": list, "tuple": tuple, "dict": dict, "set": set, "bool": bool, "frozenset": frozenset, "object": object, "bytes": bytes, "bytearray": bytearray, "type": type,
              "None": None, "True": True, "False": False, "Ellipsis": Ellipsis, "NotImplemented": NotImplemented, "range": range, "slice": slice})
    fs = {"len": length, "zip": zip_, "enumerate": enumerate_, "isinstance": isinstance_, "sum": sum_, "any": any_, "all": all_, "min": minmax("min"), "max": minmax("max"),
          "sorted": sorted_, "reversed": reversed_, "map": map_, "filter": filter_, "iter": iter_, "next": next_, "abs": abs_, "print": lambda *a, **k: None, "exit": exit_, "quit": exit_,
          "repr": lambda x: M.fmt_one(x, "", "r"), "getattr": lambda o, n, *d: getattr_(o, n, *d), "hasattr": hasattr_, "callable": lambda f: isinstance(f, (M.Func, M.Native, M.Bound, M.Cls, type)),
          "open": lambda *a, **k: M.EXTERNAL["builtins_open"].vars["open"].fn(*a, **k) if "builtins_open" in M.EXTERNAL else unsupported("open"),
          "round": lambda x, n=None: unsupported("round"), "format": lambda v, s="": M.fmt_one(v, s), "ord": ord, "chr": chr, "id": lambda x: unsupported("id"), "vars": lambda x: unsupported("vars"),
          "super": lambda *a: unsupported("super"), "setattr": lambda o, n, v: setattr_(o, n, v), "issubclass": lambda a, b: unsupported("issubclass"), "divmod": lambda a, b: (M.binop("floordiv", a, b), M.binop("mod", a, b))}
    for n, f in fs.items():
        B[n] = M.Native(n, f)
    return B


def unsupported(what):
    raise Unsupported(what)


def exit_(code=None):
    raise PyExc(SystemExit(code))


def abs_(x):
    x = I().force(x)
    if isinstance(x, (int, float, rnp.generic)):
        return abs(x)
    if isinstance(x, SNum) and not isf(x):
        return mk(z3.If(x.e >= 0, x.e, -x.e), x.dt)
    if isinstance(x, SNum):
        return SNum(ffun("fabs", 1)(x.e), x.dt)
    if isinstance(x, SArr):
        return A.ew1((lambda e: ffun("fabs", 1)(e)) if x.dt.kind == "f" else (lambda e: z3.If(e >= 0, e, -e)), x, x.dt)
    raise Unsupported("abs")


def hasattr_(o, n):
    M = I()
    o = M.force(o)
    if isinstance(o, Obj):
        if n in o.attrs:
            return True
        if isinstance(o.cls, M.Cls):
            return o.cls.lookup(n) is not None
        if hasattr(o.cls, "hasattr"):
            return o.cls.hasattr(o, n)
    for k, p in {PList: list, PTuple: tuple, PDict: dict, PSet: set, SArr: rnp.ndarray, SStr: str, str: str, int: int, float: float, tuple: tuple}.items():
        if isinstance(o, k):
            return hasattr(p, n)
    raise Unsupported("hasattr")
