"""Equality of symbolic values: exact formulas (same) and skolemised proof goals (goals)."""
from __future__ import annotations
import z3
import numpy as rnp
from .core import *
from .seq import *
from .arr import SArr, lift, sh


def seq_of(v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, (PList, PTuple, Iter, PSet)):
        return v.seq
    if isinstance(v, tuple):
        return Seq([Items(v)])
    return None


def scalar_term(v):
    if isinstance(v, (SNum, SBool, SStr)):
        return v.e
    if isinstance(v, (bool, int, float, rnp.generic)):
        return toe(v)
    if isinstance(v, str):
        return sstr(v)
    return None


def conv(a, b):
    if a.sort() == b.sort():
        return a, b
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.sort() == FS and b.sort() == IS:
        b = i2f(b)
    if b.sort() == FS and a.sort() == IS:
        a = i2f(a)
    return a, b


def same(a, b, syntactic=False):
    """True / False / z3 formula.  With syntactic=True only True is meaningful (False = not obviously the same)."""
    if a is b:
        return True
    if a is None or b is None:
        if isinstance(a, SOpt) and b is None:
            return False if syntactic else z3.Not(a.cond)
        if isinstance(b, SOpt) and a is None:
            return False if syntactic else z3.Not(b.cond)
        return False
    x, y = scalar_term(a), scalar_term(b)
    if x is not None and y is not None:
        if isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
            return False
        x, y = conv(x, y)
        if x.sort() != y.sort():
            return False
        g = z3.simplify(x == y)
        if z3.is_true(g) or x.eq(y):
            return True
        if z3.is_false(g) or syntactic:
            return False
        return g
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.ndim != b.ndim or a.dt.kind != b.dt.kind:
            return False
        if a.buf is b.buf and a.imap is b.imap and all(z3.simplify(ex(p) == ex(q)).eq(z3.BoolVal(True)) for p, q in zip(a.shape, b.shape)):
            return True
        parts = [ex(p) == ex(q) for p, q in zip(a.shape, b.shape)]
        if syntactic and not all(z3.is_true(z3.simplify(p)) for p in parts):
            return False
        q = [loopvar("q") for _ in a.shape]
        u, v = a.elem(*q), b.elem(*q)
        if u.sort() != v.sort():
            return False
        if z3.simplify(u).eq(z3.simplify(v)):
            r = z3.simplify(z3.And(*parts)) if parts else z3.BoolVal(True)
            return True if z3.is_true(r) else r
        if syntactic:
            return False
        rng = z3.And(*[z3.And(0 <= i, i < ex(s)) for i, s in zip(q, a.shape)]) if q else z3.BoolVal(True)
        return z3.And(*parts, z3.ForAll(q, z3.Implies(rng, u == v))) if q else u == v
    if isinstance(a, SOpt) and isinstance(b, SOpt):
        c = z3.simplify(a.cond == b.cond)
        v = same(a.value, b.value, syntactic)
        if syntactic:
            return z3.is_true(c) and v is True
        return z3.And(c, z3.Implies(a.cond, bex(v)))
    s, t = seq_of(a), seq_of(b)
    if s is not None and t is not None:
        return same_seq(s, t, syntactic)
    if isinstance(a, PDict) and isinstance(b, PDict):
        if syntactic:
            if (a.group is None) != (b.group is None) or a.lay or b.lay or a.over or b.over:
                return False
            if a.group is not None:
                g, h = a.group, b.group
                if g.kind != h.kind or a.ents.segs or b.ents.segs or not z3.simplify(g.n).eq(z3.simplify(h.n)):
                    return False
                q = loopvar("g")
                if not all(z3.simplify(x(q)).eq(z3.simplify(y(q))) for x, y in ((g.key, h.key), (g.eff, h.eff))):
                    return False
                x, y = g.val(q), h.val(q)
                if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                    return z3.simplify(x).eq(z3.simplify(y))
                return same(x, y, True)
        from .interp import dict_ents
        return same_seq(dict_ents(a), dict_ents(b), syntactic)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls or set(a.attrs) != set(b.attrs):
            return False
        return conj2([same(a.attrs[k], b.attrs[k], syntactic) for k in a.attrs])
    if isinstance(a, (rnp.dtype, type, bytes)) and isinstance(b, (rnp.dtype, type, bytes)):
        return a == b
    if syntactic:
        return False
    if type(a) is not type(b):
        return False
    raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")


def conj2(rs):
    if any(r is False for r in rs):
        return False
    rs = [r for r in rs if r is not True]
    return True if not rs else z3.And(*rs)


def same_seq(s, t, syntactic):
    if len(s.segs) == len(t.segs):
        out = []
        for p, q in zip(s.segs, t.segs):
            if isinstance(p, Items) and isinstance(q, Items) and len(p.xs) == len(q.xs):
                out += [same(x, y, syntactic) for x, y in zip(p.xs, q.xs)]
            elif isinstance(p, Gen) and isinstance(q, Gen) and p.flat == q.flat and p.fn is not None and q.fn is not None:
                n = z3.simplify(p.n == q.n)
                if not z3.is_true(n):
                    if syntactic:
                        return False
                    out.append(n)
                k = loopvar("s")
                cp = p.cond(k) if p.cond else z3.BoolVal(True)
                cq = q.cond(k) if q.cond else z3.BoolVal(True)
                if not z3.simplify(cp).eq(z3.simplify(cq)):
                    if not syntactic:
                        raise Unsupported("exact comparison of filtered sequences")
                    return False
                r = same(p.fn(k), q.fn(k), syntactic)
                if r is False and syntactic:
                    return False
                if r is not True:
                    if p.cond is not None:
                        # only sufficient when some elements are filtered out
                        pass
                    out.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p.n, cp), bex(r))))
            elif isinstance(p, Gen) and isinstance(q, Gen) and p is q:
                continue
            else:
                if syntactic:
                    return False
                if s.concrete() is not None and t.concrete() is not None:
                    return False
                return same_by_index(s, t)
        return conj2(out)
    if syntactic:
        return False
    if s.concrete() is not None and t.concrete() is not None:
        return False
    return same_by_index(s, t)


def same_by_index(s, t):
    c = s.concrete() if s.concrete() is not None else t.concrete()
    o = t if s.concrete() is not None else s
    if c is None:
        raise Unsupported("equality of mixed sequences")
    g = o.single()
    if g is None:
        raise Unsupported("equality of mixed sequences")
    return conj2([g.n == len(c)] + [same(g.fn(z3.IntVal(i)), x) for i, x in enumerate(c)])


# ----------------------------------------------------------------------------- proof goals
def goals(a, b, label="", hyps=()):
    """list of (hyps, goal, label) that together imply a == b (a: what the code produced, b: the specification)"""
    hyps = list(hyps)
    if a is b:
        return []
    if a is None or b is None:
        if isinstance(a, SOpt):
            return [(hyps, z3.Not(a.cond), label + " is None")]
        if isinstance(b, SOpt):
            return [(hyps, z3.Not(b.cond), label + " is None")]
        return [(hyps, z3.BoolVal(False), label + ": one side is None")]
    if isinstance(a, SOpt) and isinstance(b, SOpt):
        return [(hyps, a.cond == b.cond, label + " presence")] + goals(a.value, b.value, label, hyps + [b.cond])
    if isinstance(b, SOpt):
        return [(hyps, b.cond, label + " presence")] + goals(a, b.value, label, hyps)
    if isinstance(a, SOpt):
        return [(hyps, a.cond, label + " presence")] + goals(a.value, b, label, hyps)
    x, y = scalar_term(a), scalar_term(b)
    if x is not None and y is not None:
        x, y = conv(x, y)
        if x.sort() != y.sort():
            return [(hyps, z3.BoolVal(False), label + ": different kinds of value")]
        return [(hyps, x == y, label)]
    if isinstance(a, SArr) and isinstance(b, SArr):
        return arr_goals(a, b, label, hyps)
    s, t = seq_of(a), seq_of(b)
    if s is not None and t is not None:
        return seq_goals(s, t, label, hyps)
    if isinstance(a, PDict) and isinstance(b, PDict):
        from .interp import dict_ents
        return seq_goals(dict_ents(a), dict_ents(b), label, hyps)
    if isinstance(a, Obj) and isinstance(b, Obj):
        out = []
        if a.cls is not b.cls:
            return [(hyps, z3.BoolVal(False), label + ": class")]
        for k in b.attrs:
            if k not in a.attrs:
                out.append((hyps, z3.BoolVal(False), f"{label}.{k} missing"))
            else:
                out += goals(a.attrs[k], b.attrs[k], f"{label}.{k}", hyps)
        return out
    if isinstance(a, (rnp.dtype, type, bytes)):
        return [(hyps, z3.BoolVal(a == b), label)]
    return [(hyps, z3.BoolVal(False), f"{label}: {type(a).__name__} instead of {type(b).__name__}")]


def arr_goals(a, b, label, hyps, dtype=False):
    out = []
    if a.ndim != b.ndim:
        return [(hyps, z3.BoolVal(False), label + ": number of dimensions")]
    if a.dt.kind != b.dt.kind and not (a.dt.kind in "iu" and b.dt.kind in "iu"):
        return [(hyps, z3.BoolVal(False), label + ": kind of dtype")]
    ca, cb = a.cat, b.cat
    if ca is not None and cb is not None:
        try:
            return seq_goals(ca, cb, label + " (blocks)", hyps)
        except Unsupported:
            pass
    for d, (p, q) in enumerate(zip(a.shape, b.shape)):
        if not (isinstance(p, int) and isinstance(q, int) and p == q):
            out.append((hyps, ex(p) == ex(q), f"{label}.shape[{d}]"))
    q = [loopvar("e") for _ in b.shape]
    rng = [z3.And(0 <= i, i < ex(s)) for i, s in zip(q, b.shape)]
    u, v = conv(a.elem(*q), b.elem(*q))
    out.append((hyps + rng, u == v, label + " elements"))
    return out


def seq_goals(s, t, label, hyps):
    cs, ct = s.concrete(), t.concrete()
    if cs is not None and ct is not None:
        if len(cs) != len(ct):
            return [(hyps, z3.BoolVal(False), f"{label}: {len(cs)} items instead of {len(ct)}")]
        return [g for i, (x, y) in enumerate(zip(cs, ct)) for g in goals(x, y, f"{label}[{i}]", hyps)]
    if len(s.segs) == len(t.segs) and all(type(p) is type(q) for p, q in zip(s.segs, t.segs)):
        out = []
        for p, q in zip(s.segs, t.segs):
            if isinstance(p, Items):
                if len(p.xs) != len(q.xs):
                    return [(hyps, z3.BoolVal(False), label + ": number of items")]
                for i, (x, y) in enumerate(zip(p.xs, q.xs)):
                    out += goals(x, y, f"{label}[{i}]", hyps)
            else:
                if p.flat != q.flat:
                    raise Unsupported("nested against flat sequence")
                out.append((hyps, p.n == q.n, label + " length"))
                k = loopvar("s")
                rng = z3.And(0 <= k, k < q.n)
                cp = p.cond(k) if p.cond else z3.BoolVal(True)
                cq = q.cond(k) if q.cond else z3.BoolVal(True)
                h = hyps + [rng]
                if not z3.simplify(cp).eq(z3.simplify(cq)):
                    out.append((h, cp == cq, label + " which elements"))
                if not z3.is_true(cq):
                    h = h + [cq]
                if p.flat:
                    out += seq_goals(p.fn(k), q.fn(k), label + "[k]", h)
                else:
                    out += goals(p.fn(k), q.fn(k), label + "[k]", h)
        return out
    # index by index
    out = [(hyps, s.length() == t.length(), label + " length")]
    k = loopvar("s")
    h = hyps + [z3.And(0 <= k, k < t.length())]
    n = z3.simplify(t.length())
    if z3.is_int_value(n):
        for i in range(n.as_long()):
            out += goals(s.get(i), t.get(i), f"{label}[{i}]", hyps)
        return out
    # piece by piece against a uniform sequence
    for u, v, flip in ((s, t, False), (t, s, True)):
        g = v.single()
        if g and g.fn is not None and len(u.segs) > 1 and all(isinstance(q, Items) or q.cond is None and not q.flat and q.fn is not None for q in u.segs):
            off = z3.IntVal(0)
            for q in u.segs:
                if isinstance(q, Items):
                    for i, x in enumerate(q.xs):
                        y = g.fn(z3.simplify(off + i))
                        out += goals(*((y, x) if flip else (x, y)), label + "[k]", hyps)
                else:
                    j = loopvar("s")
                    x, y = q.fn(j), g.fn(z3.simplify(off + j))
                    out += goals(*((y, x) if flip else (x, y)), label + "[k]", hyps + [z3.And(0 <= j, j < q.n)])
                off = z3.simplify(off + q.count())
            return out
    mark = len(CTX.pc)
    CTX.solver.push()
    try:
        CTX.assume(h[-1])
        try:
            out += goals(s.get(k), t.get(k), label + "[k]", h)
        except Unsupported:
            if CTX.implied(z3.Implies(z3.And(*hyps) if hyps else z3.BoolVal(True), out[0][1])):
                raise
    finally:
        CTX.solver.pop()
        del CTX.pc[mark:]
    return out
