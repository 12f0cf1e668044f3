"""Symbolic sequences, prefix sums and the mutable containers of the interpreted program."""
from __future__ import annotations
import itertools
import z3
import numpy as rnp
from .core import *
from . import core

# ----------------------------------------------------------------------------- prefix sums
def ps_sig(e):
    """names of the functions used"""
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args():
                out.add(x.decl().name())
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    return frozenset(out)


class PS:
    """f(params, m) = sum_{0<=j<m} summand(j); the meta-lemma used: pointwise equal summands give equal sums (induction)"""
    def __init__(self, f, params, j, summand):
        self.f, self.params, self.j, self.summand = f, params, j, summand
        self.nonneg = None
        self.sig = ps_sig(summand)

    def at(self, m, params=None):
        return self.f(*(params or self.params), m)

    def s(self, params, j):
        return z3.substitute(self.summand, *([(a, b) for a, b in zip(self.params, params)] + [(self.j, j)]))


def free_consts(e, acc=None, seen=None):
    acc = {} if acc is None else acc
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x
            else:
                todo.extend(x.children())
    return acc


def prefix_sum(j, summand, upto):
    """z3 term for sum_{0<=j<upto} summand"""
    summand = z3.simplify(summand)
    upto = ex(upto)
    fc = free_consts(summand)
    jn = j.decl().name()
    if jn not in fc:
        # constant summand
        return z3.simplify(summand * upto)
    params = [c for n, c in fc.items() if n in CTX.loopvars and n != jn]
    params.sort(key=lambda c: c.decl().name().rpartition("%")[2])
    for p in CTX.ps:
        if len(p.params) == len(params) and p.sig == ps_sig(summand):
            for pp in itertools.permutations(params) if len(params) <= 4 else [params]:
                a = p.s(list(pp), j)
                if z3.simplify(a).eq(summand):
                    return p.at(upto, list(pp))
    f = z3.Function(CTX.name("PS"), *([IS] * (len(params) + 1)), IS)
    p = PS(f, params, j, summand)
    CTX.ps.append(p)
    return p.at(upto)


def ps_terms(exprs):
    names = {p.f.name(): p for p in CTX.ps}
    out, seen, todo = [], set(), list(exprs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().name() in names:
                out.append((names[x.decl().name()], x))
            todo.extend(x.children())
    return out


def has_var(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if z3.is_var(y):
            return True
        todo.extend(y.children())
    return False


def ps_facts(p, term):
    """definitional facts for one application"""
    args = [term.arg(i) for i in range(term.num_args())]
    params, m = args[:-1], args[-1]
    out = [p.at(z3.IntVal(0), params) == 0]
    out.append(z3.Implies(m >= 1, term == p.at(m - 1, params) + p.s(params, m - 1)))
    out.append(z3.Implies(m >= 0, p.at(m + 1, params) == term + p.s(params, m)))
    return out


def ps_nonneg(p):
    if p.nonneg is None:
        q = loopvar("jj")
        p.nonneg = CTX.check(z3.And(q >= 0), z3.Not(p.s(p.params, q) >= 0), timeout=800) == z3.unsat
    return p.nonneg


def ps_congruence(goal, extra=()):
    """facts about the prefix sums in the goal and the path condition"""
    terms = [(p, t) for p, t in ps_terms([goal] + list(extra)) if not has_var(t)]
    if not terms and not CTX.ps:
        return []
    allt = [(p, t) for p, t in ps_terms([goal] + list(extra) + CTX.pc) if not has_var(t)]
    uniq = []
    for p, t in allt:
        if not any(t.eq(u) for _, u in uniq):
            uniq.append((p, t))
    out = []
    for p, t in uniq:
        out += ps_facts(p, t)
        if ps_nonneg(p):
            ps_mono(p, t, out)
    # all summands zero -> zero
    for p, t in uniq:
        j = loopvar("j")
        pp = [t.arg(i) for i in range(t.num_args() - 1)]
        inst = []
        for q, u in uniq:
            # the summand at j is part of every other non-negative sum that reaches beyond j
            if not u.eq(t) and ps_nonneg(q):
                qp = [u.arg(i) for i in range(u.num_args() - 1)]
                inst += [z3.Implies(j < u.arg(u.num_args() - 1), q.at(j, qp) + q.s(qp, j) <= u), z3.Implies(j >= 0, q.at(j, qp) >= 0)]
        if CTX.check(z3.And(j >= 0, j < t.arg(t.num_args() - 1)), *out, *inst, z3.Not(p.s(pp, j) == 0), timeout=1000) == z3.unsat:
            out.append(z3.Implies(t.arg(t.num_args() - 1) >= 0, t == 0))
    # equal summands -> equal sums
    for a in range(len(uniq)):
        for b in range(a):
            (p, t), (q, u) = uniq[a], uniq[b]
            if t.eq(u):
                continue
            pm, qm = t.arg(t.num_args() - 1), u.arg(u.num_args() - 1)
            pp = [t.arg(i) for i in range(t.num_args() - 1)]
            qp = [u.arg(i) for i in range(u.num_args() - 1)]
            if p is q and all(x.eq(y) for x, y in zip(pp, qp)):
                continue
            j = loopvar("j")
            s1, s2 = p.s(pp, j), q.s(qp, j)
            if s1.sort() != s2.sort():
                continue
            bound = z3.And(j >= 0, j < pm)
            if CTX.check(bound, *out, z3.Not(s1 == s2), timeout=1500) == z3.unsat:
                out.append(z3.Implies(pm == qm, t == u))
                # whole functions agree up to pm
                out.append(z3.Implies(z3.And(qm >= 0, qm <= pm), u == p.at(qm, pp)))
    return out


def ps_mono(p, t, out):
    params = [t.arg(i) for i in range(t.num_args() - 1)]
    a, b = loopvar("a"), loopvar("b")
    fa, fb = p.at(a, params), p.at(b, params)
    out.append(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), fa <= fb), patterns=[z3.MultiPattern(fa, fb)]))
    # a summand inside the range is part of the sum
    out.append(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b), fa + p.s(params, a) <= fb), patterns=[z3.MultiPattern(fa, fb)]))


# ----------------------------------------------------------------------------- sequences
class Items:
    def __init__(self, xs):
        self.xs = list(xs)

    def count(self):
        return z3.IntVal(len(self.xs))


class Gen:
    """elements fn(k) for 0<=k<n with cond(k); flat: fn(k) is itself a Seq that is spliced in"""
    def __init__(self, n, fn, cond=None, flat=False):
        self.n = ex(n)
        self.fn, self.cond, self.flat = fn, cond, flat

    def count(self):
        if self.cond is None and not self.flat:
            return self.n
        j = loopvar("c")
        e = self.fn(j).length() if self.flat else z3.IntVal(1)
        if self.cond is not None:
            e = z3.If(self.cond(j), e, z3.IntVal(0))
        return prefix_sum(j, e, self.n)


def loopvar(base):
    CTX.nlv += 1
    k = z3.Int(f"{base}%{CTX.nlv:06d}")
    CTX.loopvars[k.decl().name()] = k
    return k


class Seq:
    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, Items):
                if not s.xs:
                    continue
                if out and isinstance(out[-1], Items):
                    out[-1] = Items(out[-1].xs + s.xs)
                    continue
            elif z3.is_int_value(z3.simplify(s.n)):
                n = z3.simplify(s.n).as_long()
                if n <= 0:
                    continue
                if s.cond is None and n <= 64:
                    for i in range(n):
                        v = s.fn(z3.IntVal(i))
                        if s.flat:
                            for t in v.segs:
                                out.append(t)
                        elif out and isinstance(out[-1], Items):
                            out[-1] = Items(out[-1].xs + [v])
                        else:
                            out.append(Items([v]))
                    continue
            out.append(s)
        self.segs = out

    @staticmethod
    def of(*xs):
        return Seq([Items(xs)])

    def concrete(self):
        if not self.segs:
            return []
        if len(self.segs) == 1 and isinstance(self.segs[0], Items):
            return self.segs[0].xs
        return None

    def length(self):
        return z3.simplify(sum([s.count() for s in self.segs], z3.IntVal(0)))

    def __add__(self, o):
        return Seq(self.segs + o.segs)

    def append(self, x):
        return Seq(self.segs + [Items([x])])

    def single(self):
        """the single unconditional generic segment, or None"""
        if len(self.segs) == 1 and isinstance(self.segs[0], Gen) and self.segs[0].cond is None and not self.segs[0].flat:
            return self.segs[0]
        return None

    def get(self, i):
        """element at index i (z3 Int or int), which the caller knows to be in range"""
        c = self.concrete()
        i = z3.simplify(ex(i))
        if c is not None:
            if z3.is_int_value(i):
                return c[i.as_long()]
            raise Unsupported("symbolic index into a list of distinct items")
        g = self.single()
        if g and g.fn is None:
            raise Unsupported("element appended by an earlier iteration")
        if g:
            return g.fn(i)
        # walk over leading segments of concrete size
        off = z3.IntVal(0)
        for s in self.segs:
            n = s.count()
            if isinstance(s, Items):
                if z3.is_int_value(z3.simplify(i - off)):
                    d = z3.simplify(i - off).as_long()
                    if 0 <= d < len(s.xs):
                        return s.xs[d]
                elif len(s.xs) == 1 and (CTX.implied(i == off) or not CTX.implied(i != off) and CTX.branch(i == off)):
                    return s.xs[0]
            elif s.fn is None:
                # while the description of a loop is still being looked for: some element (every description is checked)
                before = [x for g in self.segs for x in (g.xs if isinstance(g, Items) else [])]
                if before and CTX.loops:
                    return before[-1]
                raise Unsupported("element appended by an earlier iteration")
            elif s.cond is None and not s.flat and CTX.implied(z3.And(i - off >= 0, i - off < n)):
                return s.fn(z3.simplify(i - off))
            off = z3.simplify(off + n)
        raise Unsupported("index into a filtered or mixed sequence")

    def map(self, f):
        out = []
        for s in self.segs:
            if isinstance(s, Items):
                out.append(Items([f(x) for x in s.xs]))
            elif s.flat:
                out.append(Gen(s.n, lambda k, s=s: s.fn(k).map(f), s.cond, True))
            else:
                out.append(Gen(s.n, lambda k, s=s: f(s.fn(k)), s.cond))
        return Seq(out)

    def slice(self, a, b):
        """elements a..b for a, b known to be in range"""
        c = self.concrete()
        if c is not None and isinstance(a, int) and isinstance(b, int):
            return Seq([Items(c[a:b])])
        g = self.single()
        if g:
            a, b = ex(a), ex(b)
            return Seq([Gen(z3.simplify(b - a), lambda k: g.fn(z3.simplify(k + a)))])
        if isinstance(a, int) and a == 0 and not self.segs:
            return self
        # drop concrete items at either end
        if isinstance(a, int) and self.segs and isinstance(self.segs[0], Items) and a <= len(self.segs[0].xs):
            rest = Seq([Items(self.segs[0].xs[a:])] + self.segs[1:])
            if CTX.implied(ex(b) == self.length()):
                return rest
        raise Unsupported("slice of a mixed sequence")

    def _subst(self, pairs):
        return Seq([Items([subst(x, pairs) for x in s.xs]) if isinstance(s, Items) else
                    Gen(z3.substitute(s.n, *pairs), (lambda k, s=s: _sub_fn(s.fn, k, pairs)), None if s.cond is None else (lambda k, s=s: _sub_fn(s.cond, k, pairs)), s.flat) for s in self.segs])


def _sub_fn(fn, k, pairs):
    # evaluate at a fresh point first so that k itself is not captured by the substitution
    q = loopvar("q")
    r = fn(q)
    return subst(subst(r, pairs), [(q, k)])


# ----------------------------------------------------------------------------- heap objects
class Heap:
    """objects with identity; all state changes go through set() and are undone by the trail"""
    owner = None         # name of the caller's object this is part of
    temp = False         # a copy of an element of a generic sequence: changes would be lost

    def __init__(self):
        self.oid = CTX.oid()

    def set(self, field, value):
        if self.temp:
            if self.owner and CTX.hooks.get("frame"):
                CTX.hooks["frame"](self, field)
            raise Unsupported(f"change of an element of a symbolic sequence ({type(self).__name__}.{field})")
        old = self.__dict__.get(field)
        CTX.log(lambda: self.__dict__.__setitem__(field, old))
        self.__dict__[field] = value
        note_write(self, field, old)


WRITES = []       # stack of dicts collecting the writes of a loop body


def note_write(obj, field, old):
    if obj.owner and CTX.hooks.get("frame"):
        CTX.hooks["frame"](obj, field)
    for w in WRITES:
        if obj.oid <= w["mark"]:
            w["locs"].setdefault((id(obj), field), (obj, field))


class PList(Heap):
    def __init__(self, seq=None):
        super().__init__()
        self.seq = seq if seq is not None else Seq()

    def _subst(self, pairs):
        r = PList(self.seq._subst(pairs))
        r.owner = self.owner
        return r

    def __repr__(self):
        return f"<PList {self.seq.segs}>"


class PTuple:
    """a tuple of symbolic length (immutable)"""
    def __init__(self, seq):
        self.seq = seq

    def _subst(self, pairs):
        return PTuple(self.seq._subst(pairs))


class Iter:
    """an iterable value: a sequence that is only walked over"""
    def __init__(self, seq):
        self.seq = seq

    def _subst(self, pairs):
        return Iter(self.seq._subst(pairs))


class Cursor(Heap):
    """an iterator with a position (iter(), generators, file lines)"""
    def __init__(self, seq):
        super().__init__()
        self.seq, self.pos = seq, 0


class MaybeEntry(Heap):
    """entry of a dictionary under a constant key that is there only if `pres`; the list is empty while it is not"""
    def __init__(self):
        super().__init__()
        self.pres = False
        self.value = PList()


class NeedKey(Exception):
    """a constant key is added to a dictionary inside a generic iteration"""
    def __init__(self, d, key):
        self.d, self.key = d, key


def external(d):
    return any(d.oid <= w["mark"] for w in WRITES)


class PDict(Heap):
    """ents: Seq of (key, value); keys are pairwise different.  group: content built by keying on symbolic strings"""
    def __init__(self, ents=None):
        super().__init__()
        self.ents = ents if ents is not None else Seq()
        self.group = None
        self.over = None          # [(index, value)]: updates of existing entries inside a generic iteration
        self.lay = None           # [(key term, "present"/"absent" before, value)]: keyed updates inside a generic iteration
        self.pres_atoms = []
        self.maybe = None         # constant key -> MaybeEntry

    @staticmethod
    def make(pairs):
        return PDict(Seq([Items([(k, v) for k, v in pairs])]))

    def _subst(self, pairs):
        r = PDict(self.ents._subst(pairs))
        r.owner = self.owner
        r.group = None if self.group is None else self.group._subst(pairs)
        if self.maybe:
            r.maybe = {}
            for k, e in self.maybe.items():
                r.maybe[k] = m = MaybeEntry()
                m.pres = z3.substitute(bex(e.pres), *pairs)
                m.value = e.value._subst(pairs)
        return r


class Group:
    """dict content after n generic iterations of `d[key(j)].append(val(j))` / `d[key(j)] += delta(j)` for eff(j)"""
    def __init__(self, n, key, eff, val, kind):
        self.n, self.key, self.eff, self.val, self.kind = ex(n), key, eff, val, kind
        self.view = None

    def _subst(self, pairs):
        s = lambda f: None if f is None else (lambda k: _sub_fn(f, k, pairs))
        return Group(z3.substitute(self.n, *pairs), s(self.key), s(self.eff), s(self.val), self.kind)

    def member(self, t, upto=None):
        """Seq of the values stored under key t"""
        return Seq([Gen(self.n if upto is None else upto, self.val, lambda k: z3.And(self.eff(k), self.key(k) == t))])

    def total(self, t, upto=None):
        j = loopvar("g")
        return prefix_sum(j, z3.If(z3.And(self.eff(j), self.key(j) == t), self.val(j), z3.IntVal(0)), self.n if upto is None else upto)

    def present(self, t, upto=None):
        """z3 Bool: some j < upto has key t"""
        j = z3.Int("pj!")          # always the same bound name: equal statements are then the same term
        n = self.n if upto is None else upto
        return z3.Exists([j], z3.And(0 <= j, j < n, self.eff(j), self.key(j) == t))

    def items(self):
        """distinct keys U(0..m) in order of first appearance"""
        if self.view is None:
            m = CTX.fresh("nkeys")
            U = CTX.fresh_fun("U", [IS], SS)
            first = CTX.fresh_fun("first", [IS], IS)
            inv = CTX.fresh_fun("kidx", [IS], IS)
            i, i2, j = loopvar("i"), loopvar("i2"), loopvar("j")
            CTX.axiom(z3.And(m >= 0, m <= self.n))
            CTX.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= first(i), first(i) < self.n, self.eff(first(i)), self.key(first(i)) == U(i))), patterns=[U(i)]))
            CTX.axiom(z3.ForAll([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < m), U(i) != U(i2)), patterns=[z3.MultiPattern(U(i), U(i2))]))
            CTX.axiom(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n, self.eff(j)), z3.And(0 <= inv(j), inv(j) < m, U(inv(j)) == self.key(j))), patterns=[inv(j)]))
            cnt = prefix_sum(j, z3.If(z3.And(self.eff(j), self.key(j) == U(i)), z3.IntVal(1), z3.IntVal(0)), self.n)
            CTX.axiom(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), cnt >= 1), patterns=[cnt] if z3.is_app_of(cnt, z3.Z3_OP_UNINTERPRETED) and cnt.num_args() else []))
            self.view = (m, U, first, inv)
            CTX.groups[m.decl().name()] = inv(z3.IntVal(0)).decl()
        return self.view

    def ents(self):
        m, U, first, inv = self.items()
        if self.kind == "list":
            return Seq([Gen(m, lambda i: (mk(U(i)), PList(self.member(U(i)))))])
        if self.kind == "num":
            return Seq([Gen(m, lambda i: (mk(U(i)), mk(self.total(U(i)))))])
        raise Unsupported("items of such a dict")


class SOpt:
    """value if cond, else None"""
    def __init__(self, cond, value):
        self.cond, self.value = cond, value

    def _subst(self, pairs):
        return SOpt(z3.substitute(self.cond, *pairs), subst(self.value, pairs))


def mark_temp(v):
    """v was taken out of a generic sequence"""
    if isinstance(v, Heap):
        v.temp = True
    elif isinstance(v, tuple):
        for x in v:
            mark_temp(x)
    elif isinstance(v, SOpt):
        mark_temp(v.value)
    elif hasattr(v, "buf"):
        v.buf.temp = True
    return v


class PSet(Heap):
    def __init__(self, seq=None):
        super().__init__()
        self.seq = seq if seq is not None else Seq()


class Obj(Heap):
    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})

    def getattr(self, n):
        return self.attrs[n]

    def setattr(self, n, v):
        old = self.attrs.get(n, MISSING)
        if self.temp:
            if self.owner and CTX.hooks.get("frame"):
                CTX.hooks["frame"](self, n)
            raise Unsupported(f"change of an element of a symbolic sequence (.{n})")

        def undo():
            if old is MISSING:
                self.attrs.pop(n, None)
            else:
                self.attrs[n] = old
        CTX.log(undo)
        self.attrs[n] = v
        note_write(self, ("attr", n), old)

    def _subst(self, pairs):
        r = Obj(self.cls, {k: subst(v, pairs) for k, v in self.attrs.items()})
        r.owner = self.owner
        return r

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)} object>"


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class Frame(Heap):
    """local variables of one call"""
    def __init__(self, fn, parent=None):
        super().__init__()
        self.fn, self.parent, self.vars = fn, parent, {}
        self.globs = set()
        self.nonl = set()

    def setvar(self, n, v):
        old = self.vars.get(n, MISSING)

        def undo():
            if old is MISSING:
                self.vars.pop(n, None)
            else:
                self.vars[n] = old
        CTX.log(undo)
        self.vars[n] = v
        note_write(self, ("var", n), old)


class Poison:
    """value of a loop temporary that must not be read before it is assigned"""
    def __init__(self, why, t=None):
        self.why, self.t = why, t

    def _subst(self, pairs):
        return self


class NeedRec(Exception):
    """a loop-carried value is read: the loop needs a recursively defined description of it"""
    def __init__(self, t):
        self.t = t
