"""Loops over sequences of symbolic length: one generic iteration, inferred inductive state descriptions, all exits.

For a loop over n elements the body is executed once for a generic index k on a state described by templates; the
templates are inferred (sum of increments, appended elements, grouped elements, recursively defined values) and each
inferred description is checked to be inductive by executing the body again on it.
"""
from __future__ import annotations
import z3
from .core import *
from .seq import *
from . import seq as S
from .arr import SArr, Buffer


DEBUG = False


class BreakEx(BaseException):
    pass


class ContinueEx(BaseException):
    pass


class ReturnEx(BaseException):
    def __init__(self, value):
        self.value = value


class Acc(Gen):
    """what the loop appended so far (opaque)"""
    def __init__(self, k, base):
        f = CTX.named_fun(base + ".acclen", [IS], IS)
        super().__init__(f(k), None)
        self.k = k
        CTX.assume(self.n >= 0)

    def count(self):
        return self.n


def reaches(v, o, seen=None):
    """can the object o be reached from the value v?"""
    seen = set() if seen is None else seen
    if v is o:
        return True
    if id(v) in seen or v is None or isinstance(v, (int, float, str, bytes, z3.AstRef, SNum, SStr, SBool)):
        return False
    seen.add(id(v))
    if isinstance(v, (list, tuple)):
        return any(reaches(x, o, seen) for x in v)
    if isinstance(v, dict):
        return any(reaches(x, o, seen) for p in v.items() for x in p)
    if isinstance(v, (PList, S.PSet)):
        return reaches(v.seq, o, seen)
    if isinstance(v, Seq):
        return any(reaches(g.xs if isinstance(g, Items) else g.fn, o, seen) for g in v.segs)
    if isinstance(v, PDict):
        return any(reaches(x, o, seen) for x in v.__dict__.values())
    if isinstance(v, Obj):
        return reaches(v.attrs, o, seen)
    if getattr(v, "__closure__", None):
        return any(reaches(c.cell_contents, o, seen) for c in v.__closure__)
    return False


def snapshot(v):
    return subst(v, [(z3.Int("snap!"), z3.Int("snap!"))])


def samev(a, b):
    """syntactically the same value?"""
    from .spec import same
    try:
        return same(a, b, syntactic=True) is True
    except Unsupported:
        return False


def getloc(obj, field):
    if isinstance(field, tuple):
        return (obj.vars if field[0] == "var" else obj.attrs).get(field[1], MISSING)
    return obj.__dict__.get(field)


def putloc(obj, field, v):
    """install a template (not a write of the program)"""
    if isinstance(field, tuple):
        d = obj.vars if field[0] == "var" else obj.attrs
        old = d.get(field[1], MISSING)

        def undo():
            if old is MISSING:
                d.pop(field[1], None)
            else:
                d[field[1]] = old
        CTX.log(undo)
        if v is MISSING:
            d.pop(field[1], None)
        else:
            d[field[1]] = v
    else:
        old = obj.__dict__.get(field)
        CTX.log(lambda: obj.__dict__.__setitem__(field, old))
        obj.__dict__[field] = v


def merge_vals(conds, vals):
    """if-then-else over the paths of a loop body"""
    if len(vals) == 1 or all(samev(vals[0], v) for v in vals[1:]):
        return vals[0]
    if all(is_num(v) for v in vals):
        es = [toe(v) for v in vals]
        if any(e.sort() == FS for e in es):
            es = [e if e.sort() == FS else i2f(e) for e in es]
        if any(z3.is_int(e) for e in es):
            es = [z3.If(e, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(e) else e for e in es]
        r = es[-1]
        for c, e in zip(reversed(conds[:-1]), reversed(es[:-1])):
            r = z3.If(c, e, r)
        return mk(r, getattr(vals[0], "dt", None))
    if all(isinstance(v, (str, SStr)) for v in vals):
        es = [sstr(v) for v in vals]
        r = es[-1]
        for c, e in zip(reversed(conds[:-1]), reversed(es[:-1])):
            r = z3.If(c, e, r)
        return mk(r)
    if all(isinstance(v, SArr) for v in vals) and len({v.ndim for v in vals}) == 1 and len({v.dt.kind for v in vals}) == 1:
        fs = [v.snap() for v in vals]

        def pick(xs):
            r = xs[-1]
            for c, e in zip(reversed(conds[:-1]), reversed(xs[:-1])):
                r = z3.If(c, e, r)
            return r
        return SArr.make([pick([ex(v.shape[d]) for v in vals]) for d in range(vals[0].ndim)], lambda *i: pick([f(*i) for f in fs]), vals[0].dt)
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(merge_vals(conds, list(x)) for x in zip(*vals))
    if all(isinstance(v, Obj) for v in vals) and len({id(v.cls) for v in vals}) == 1 and len({tuple(sorted(v.attrs)) for v in vals}) == 1:
        return Obj(vals[0].cls, {a: merge_vals(conds, [v.attrs[a] for v in vals]) for a in vals[0].attrs})
    if all(isinstance(v, PList) for v in vals):
        gs = [v.seq.single() for v in vals]
        if all(gs):
            n = gs[-1].n
            for c, g in zip(reversed(conds[:-1]), reversed(gs[:-1])):
                n = z3.If(c, g.n, n)
            return PList(Seq([Gen(n, lambda k: merge_vals(conds, [g.fn(k) for g in gs]))]))
        cs = [v.seq.concrete() for v in vals]
        if all(c is not None for c in cs) and len({len(c) for c in cs}) == 1:
            return PList(Seq([Items([merge_vals(conds, list(x)) for x in zip(*cs)])]))
    raise Unsupported("paths of a loop body produce values of different kinds")


def compl(a, b):
    return z3.is_not(a) and a.arg(0).eq(b) or z3.is_not(b) and b.arg(0).eq(a)


def merge_cases(cases, k, n, cond):
    """cases: [(literals, value or None)].  Two cases that differ in one complementary literal become one if one of
    the two values is right in both (checked)."""
    cases = [(list(c), v) for c, v in cases]
    while True:
        for i in range(len(cases)):
            hit = None
            for j in range(i):
                (A, v), (B, w) = cases[i], cases[j]
                if (v is None) != (w is None):
                    continue
                a = [x for x in A if not any(x.eq(y) for y in B)]
                b = [x for x in B if not any(x.eq(y) for y in A)]
                if not (len(a) == 1 and len(b) == 1 and compl(a[0], b[0])):
                    continue
                if v is None or samev(v, w):
                    hit = v
                elif try_same(v, w, B, k, n, cond):
                    hit = v
                elif try_same(w, v, A, k, n, cond):
                    hit = w
                else:
                    continue
                cases[j] = ([x for x in A if not x.eq(a[0])], hit)
                del cases[i]
                hit = "x"
                break
            if hit == "x":
                break
        else:
            return cases


def try_same(a, b, cs, k, n, cond):
    try:
        return prove_same(a, b, cs, k, n, cond)
    except Unsupported:
        return False


class Tmpl:
    """description of one mutable location before iteration k, for all k"""
    def __init__(self, obj, field, init, name):
        self.obj, self.field, self.init, self.name = obj, field, init, name
        self.closed = None       # function index expr -> value
        self.kind = None
        self.failed = False
        self.rec = None
        self.empty0 = type(init) is PList and init.seq.concrete() == []
        self.need = False
        if field in ("pos", "off", "sub") and type(obj).__name__ == "VFile":
            # position in a file: a loop reads one row per iteration (checked like every description)
            self.kind, self.sort, self.dt = "num", IS, INT
            self.delta = z3.IntVal(1 if field == "off" else 0)
            self.closed = (lambda j: mk(z3.simplify(ex(init) + ex(j)))) if field == "off" else (lambda j: init)
            self.file = True

    def start(self, k):
        """value before iteration k"""
        if self.closed is not None:
            return self.closed(k)
        return self.opaque(k)

    # opaque descriptions
    def opaque(self, k):
        i = self.init
        if isinstance(self.field, tuple) or self.field in ("pos", "off", "pres"):
            if is_num(i):
                if self.kind is None:
                    self.kind = "num"
                    self.sort = BS if isinstance(i, (bool, SBool)) else FS if isf(i) else IS
                    self.f = CTX.named_fun(f"{self.name}.v_{self.field[1] if isinstance(self.field, tuple) else self.field}", [IS], self.sort)
                    self.dt = dt_of(i)
                return mk(self.f(k), self.dt if self.sort != BS else None)
            if isinstance(i, (str, SStr)) and self.need:
                self.kind, self.sort, self.dt = "num", SS, None
                self.f = CTX.named_fun(f"{self.name}.v_{self.field[1]}", [IS], SS)
                return mk(self.f(k))
            empty = self.empty0 and self.field[0] == "var"
            if empty and self.need and not any(reaches(x, i) for m, x in self.obj.vars.items() if m != self.field[1]):
                # a list that is empty at the beginning of every iteration (checked in solve)
                self.kind = "empty"
                return PList()
            self.kind = "other"
            return i if self.field in ("pos", "off") else Poison(f"loop temporary {self.field}", self if isinstance(i, (str, SStr)) or empty else None)
        if isinstance(self.obj, (PList, S.PSet)) and self.field == "seq":
            self.kind = "list"
            self.acc = Acc(k, self.name)
            return Seq(i.segs + [self.acc])
        if isinstance(self.obj, Buffer) and self.field == "fn":
            if self.kind is None:
                self.kind = "buf"
                self.f = CTX.named_fun(self.name + ".B", [IS] * (1 + len(self.obj.shape)), sort_of(self.obj.dt))
            return lambda *idx: self.f(k, *idx)
        if isinstance(self.obj, PDict):
            self.kind = "dict:" + str(self.field)
            return i
        raise Unsupported(f"loop changes {type(self.obj).__name__}.{self.field}")


def sort_of(dt):
    return FS if dt.kind == "f" else BS if dt.kind == "b" else IS


def summarize(n, cond, step, peel=1):
    """execute `step(k)` for k in 0..n-1 (those with cond(k)).  Returns 'done' or 'break'; other exits propagate."""
    n = ex(n)
    mark, npc, phase = len(CTX.trail), len(CTX.pc), []
    try:
        return summarize_(n, cond, step, phase)
    except Unsupported as e:
        if phase or not peel or cond is not None or len(CTX.pc) != npc:
            raise
        CTX.rollback(mark)
        if DEBUG:
            print("peel after", e)
    # the first iteration on its own, then the others
    if not CTX.branch(n >= 1):
        return "done"
    try:
        step(z3.IntVal(0))
    except ContinueEx:
        pass
    except BreakEx:
        return "break"
    return summarize(z3.simplify(n - 1), None, lambda k: step(z3.simplify(k + 1)), peel - 1)


def summarize_(n, cond, step, phase):
    if CTX.implied(n <= 0):
        return "done"
    k = loopvar("k")
    mark = CTX.noid
    tm = {}
    lid = CTX.name("lp")
    names0 = dict(CTX.names)
    outs = None
    for rnd in range(9):
        try:
            outs, locs, axioms = run_generic(k, n, cond, step, tm, mark, names0)
        except NeedRec as e:
            if e.t.need or not any(e.t is x for x in tm.values()):
                raise
            e.t.need = True
            continue
        except S.NeedKey as e:
            if S.external(e.d) or e.d.group is not None or e.d.lay or e.d.over or getloc(e.d, "temp"):
                raise
            CTX.log(lambda d=e.d, old=e.d.maybe: setattr(d, "maybe", old))
            e.d.maybe = {**(e.d.maybe or {}), e.key: S.MaybeEntry()}
            mark = CTX.noid
            tm.clear()
            continue
        new = [key for key in locs if key not in tm]
        if new:
            for key in new:
                obj, field = locs[key]
                if isinstance(obj, PDict):
                    for f in ("ents", "group", "over", "lay"):
                        if (id(obj), f) not in tm:
                            tm[(id(obj), f)] = Tmpl(obj, f, getloc(obj, f), f"{lid}.{len(tm)}")
                else:
                    tm[key] = Tmpl(obj, field, getloc(obj, field), f"{lid}.{len(tm)}")
            continue
        if rnd:
            for t in tm.values():
                # a description counts as checked only in a round in which no other one changes
                if getattr(t, "checked", False) and not hasattr(t, "own"):
                    t.checked = False
        changed = solve(tm, outs, k, n, cond)
        if not changed:
            break
    else:
        raise Unsupported("no inductive description of a loop found")
    phase.append(1)
    for a in axioms:
        CTX.assume(a)
        CTX.raw[CTX.pc[-1].get_id()] = CTX.pc[-1]
    # recursive definitions for what has no closed form
    normal = [(c, e) for c, (kind, e) in outs if kind == "normal"]
    exits = [(c, kind) for c, (kind, e) in outs if kind != "normal"]
    for t in tm.values():
        if t.kind in ("num", "buf") and t.closed is None:
            make_rec(t, normal, k, n, cond)
    ok = lambda j: z3.substitute(z3.Or(*[z3.And(*c) if c else z3.BoolVal(True) for c, _ in normal]) if normal else z3.BoolVal(False), (k, j))
    alts = ["normal"] + (["exit"] if exits else [])
    if not normal:
        pass
    if len(alts) == 1 or CTX.choose(2) == 0:
        if exits:
            j = loopvar("j")
            rng = z3.And(0 <= j, j < n, cond(j)) if cond else z3.And(0 <= j, j < n)
            bad = z3.substitute(z3.Or(*[z3.And(*c) if c else z3.BoolVal(True) for c, _ in exits]), (k, j))
            CTX.assume(z3.ForAll([j], z3.Implies(rng, z3.Not(bad))))
            if not normal and cond is None:
                CTX.assume(n <= 0)
            if normal:
                CTX.assume(z3.ForAll([j], z3.Implies(rng, z3.simplify(ok(j)))))
            if CTX.check(timeout=3000) == z3.unsat:
                raise PathEnd()
        install(tm, n, k, normal, final=True)
        return "done"
    # first exit at k0
    k0 = CTX.fresh("k0")
    CTX.assume(z3.And(0 <= k0, k0 < n))
    if not normal and cond is None:
        CTX.assume(k0 == 0)         # every iteration leaves the loop
    if cond:
        CTX.assume(cond(k0))
    bad = lambda j: z3.substitute(z3.Or(*[z3.And(*c) if c else z3.BoolVal(True) for c, _ in exits]), (k, j))
    CTX.assume(bad(k0))
    j = loopvar("j")
    CTX.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k0, cond(j) if cond else True), z3.Not(bad(j)))))
    if normal:
        CTX.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k0, cond(j) if cond else True), z3.simplify(ok(j)))))
    if CTX.check(timeout=3000) == z3.unsat:
        raise PathEnd()
    install(tm, k0, k, normal, final=False)
    try:
        step(k0)
    except ContinueEx:
        raise PathEnd()
    except BreakEx:
        return "break"
    raise PathEnd()      # this alternative is only about the exits


def run_generic(k, n, cond, step, tm, mark, names):
    L = LoopCtx(k, n, cond)
    w = {"mark": mark, "locs": {}}
    CTX.loops.append(L)
    S.WRITES.append(w)

    def one():
        CTX.names = dict(names)
        CTX.assume(z3.And(0 <= k, k < n))
        if cond is not None:
            CTX.assume(cond(k))
        npc = len(CTX.pc)
        if CTX.check(timeout=1500) == z3.unsat:
            raise PathEnd()
        inner = CTX.loops.pop()
        try:
            for t in tm.values():
                putloc(t.obj, t.field, t.start(k))
        finally:
            CTX.loops.append(inner)
        kind = "normal"
        try:
            step(k)
        except ContinueEx:
            pass
        except BreakEx:
            kind = "break"
        except ReturnEx:
            kind = "return"
        except PyExc:
            kind = "raise"
        eff = {}
        if kind == "normal":
            for key, t in tm.items():
                if t.kind == "empty":
                    v = getloc(t.obj, t.field)
                    if not (isinstance(v, PList) and v.seq.concrete() == []) or any(reaches(getloc(u.obj, u.field), v) for u in tm.values() if u is not t):
                        raise Unsupported(f"loop temporary {t.field}: a list that is not empty after the iteration, or has a second name")
                eff[key] = snap_loc(getloc(t.obj, t.field))
        return kind, eff, CTX.pc[npc:]
    try:
        top = CTX.names
        outs = CTX.sub(one)
        CTX.names = {a: max(top.get(a, 0), b) for a, b in CTX.names.items()} | {a: b for a, b in top.items() if a not in CTX.names}
    finally:
        S.WRITES.pop()
        CTX.loops.pop()
    res = []
    for _, (kind, eff, conds) in outs:
        res.append((conds, (kind, eff)))
    # axioms recorded for fresh symbols are no path conditions
    return strip_axioms(res), w["locs"], list(L.axioms)


def strip_axioms(res):
    """path conditions without the definitional facts (they are asserted for all k separately)"""
    return [([c for c in cs if c.get_id() not in CTX.raw], r) for cs, r in res]


def snap_loc(v):
    if v is MISSING or isinstance(v, Poison) or v is None:
        return v
    if callable(v) and not hasattr(v, "_subst"):
        return v
    if isinstance(v, list):
        return [snap_loc(x) for x in v]
    try:
        return snapshot(v)
    except Unsupported:
        return v


def cond_of(c):
    return z3.And(*c) if len(c) > 1 else c[0] if c else z3.BoolVal(True)


def mentions_fn(e, f):
    """does e contain an application of the opaque function behind template f?"""
    name = f(z3.IntVal(0)).decl().name() if True else None
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() == name:
                return True
            todo.extend(x.children())
    return False


def solve(tm, outs, k, n, cond):
    """try to find closed forms; -> True if some template changed (run again)"""
    normal = [(c, e) for c, (kind, e) in outs if kind == "normal"]
    if not normal:
        return False
    changed = False
    conds = [cond_of(c) for c, _ in normal]
    for key, t in tm.items():
        if t.kind == "num" and t.sort == IS and t.closed is None and not t.failed:
            vals = [e[key] for _, e in normal]
            if not all(is_num(v) and not isf(v) for v in vals):
                t.failed = True
                continue
            ds = [z3.simplify(ex(v) - t.f(k)) for v in vals]
            if any(mentions_fn(d, t.f) for d in ds) or len(ds) > 1 and any(mentions_fn(c, t.f) for c in conds):
                t.failed = True
                continue
            d = ds[-1]
            for c, x in zip(reversed(conds[:-1]), reversed(ds[:-1])):
                d = z3.If(c, x, d)
            if all(x.eq(ds[0]) for x in ds):
                d = ds[0]
            if cond is not None:
                d = z3.If(cond(k), d, z3.IntVal(0))
            d = z3.simplify(d)
            t.closed = lambda j, t=t, d=d: mk(ex(t.init) + prefix_sum(k, d, j), t.dt)
            t.delta = d
            changed = True
        elif t.kind == "num" and t.sort == BS and t.closed is None and not t.failed:
            # flags that are only ever raised
            vals = [bex(e[key]) for _, e in normal]
            old = t.f(k)
            if not all(z3.is_true(v) or v.eq(old) for v in vals):
                t.failed = True
                continue
            up = [[x for x in c if not (x.eq(old) or z3.is_not(x) and x.arg(0).eq(old))] for (c, _), v in zip(normal, vals) if z3.is_true(v)]
            if any(mentions_fn(cond_of(c), t.f) for c in up):
                t.failed = True
                continue
            eff = z3.Or(*[cond_of(c) for c in up]) if up else z3.BoolVal(False)
            if cond is not None:
                eff = z3.And(cond(k), eff)
            i = loopvar("f")
            t.closed = lambda j, t=t, eff=eff, i=i: mk(z3.simplify(z3.Or(bex(t.init), z3.Exists([i], z3.And(0 <= i, i < j, z3.substitute(eff, (k, i)))))))
            t.eff = eff
            changed = True
        elif t.kind == "num" and t.sort == BS and t.closed is not None and not t.failed and not getattr(t, "checked", False):
            t.checked = True
            cur = bex(t.closed(k))
            for (c, e) in normal:
                v = bex(e[key])
                # new value == current or the iteration raises the flag
                if CTX.check(0 <= k, k < n, *c, z3.Not(v == z3.Or(cur, t.eff)), timeout=3000) != z3.unsat:
                    t.closed, t.failed = None, True
                    changed = True
                    break
        elif t.kind == "num" and t.sort != BS and t.closed is not None and not t.failed and not getattr(t, "checked", False):
            vals = [e[key] for _, e in normal]
            t.checked = True
            for c, v in zip(conds, vals):
                g = z3.simplify(ex(v) - ex(t.closed(k)))
                if not g.eq(z3.simplify(t.delta)) and CTX.check(0 <= k, k < n, c, *( [cond(k)] if cond is not None else []), z3.Not(g == t.delta), timeout=3000) != z3.unsat:
                    if hasattr(t, "file"):
                        raise Unsupported("a loop that does not read one row of the file per iteration")
                    t.closed, t.failed = None, True
                    changed = True
        elif t.kind == "buf":
            changed |= solve_buf(tm, t, key, normal, k, n, cond)
        elif t.kind == "list":
            changed |= solve_list(t, key, normal, conds, k, n, cond)
        elif t.kind and t.kind.startswith("dict:") and t.field == "lay":
            changed |= solve_dict(tm, t, key, normal, conds, k, n, cond)
    return changed


def written_at(c, i0):
    """(index, other conditions) of a condition  i0 == index and others"""
    cs = list(c.children()) if z3.is_and(c) else [c]
    for q, x in enumerate(cs):
        if z3.is_eq(x) and (x.arg(0).eq(i0) or x.arg(1).eq(i0)):
            e = x.arg(1) if x.arg(0).eq(i0) else x.arg(0)
            if i0.decl().name() not in free_consts(e):
                return e, cs[:q] + cs[q + 1:]
        if z3.is_eq(x) and z3.is_int(x.arg(0)):
            # a + i0 == b
            e = z3.simplify(x.arg(1) - x.arg(0) + i0)
            if i0.decl().name() not in free_consts(e):
                return e, cs[:q] + cs[q + 1:]
            e = z3.simplify(x.arg(0) - x.arg(1) + i0)
            if i0.decl().name() not in free_consts(e):
                return e, cs[:q] + cs[q + 1:]
    return None


def solve_buf(tm, t, key, normal, k, n, cond):
    """an array that is filled row after row: position lo + k gets its value in iteration k"""
    if t.failed or cond is not None or getattr(t, "checked", False):
        return False
    idx = [loopvar("b") for _ in t.obj.shape]
    if t.closed is None:
        if any(x.kind == "num" and x.closed is None and not x.failed for x in tm.values()):
            return False
        if len(normal) != 1:
            t.failed = True
            return False
        t.failed = True
        r = z3.simplify(normal[0][1][key](*idx))
        old = t.f(k, *idx)
        if not (z3.is_app_of(r, z3.Z3_OP_ITE) and r.arg(2).eq(old)) or mentions_fn_name(r.arg(1), old.decl().name()) or mentions_fn_name(r.arg(0), old.decl().name()):
            return False
        w = written_at(r.arg(0), idx[0])
        if w is None:
            return False
        lo = z3.simplify(w[0] - k)
        if k.decl().name() not in free_consts(w[0]) and CTX.implied(n == 1):
            lo = w[0]           # the only iteration
        if k.decl().name() in free_consts(lo) or any(x.kind == "num" and x.closed is None and hasattr(x, "f") and mentions_fn(lo, x.f) for x in tm.values()):
            return False
        v, more = r.arg(1), w[1]

        def closed(j):
            def fn(*i):
                pairs = [(k, z3.simplify(i[0] - lo))] + list(zip(idx, i))
                c = [z3.substitute(x, *pairs) for x in more]
                return z3.If(z3.simplify(z3.And(lo <= i[0], i[0] < lo + ex(j), *c)), z3.substitute(v, *pairs), t.init(*i))
            return fn
        t.closed, t.failed = closed, False
        return True
    t.checked = True
    for c, e in normal:
        if CTX.check(0 <= k, k < n, *c, z3.Not(e[key](*idx) == t.closed(z3.simplify(k + 1))(*idx)), timeout=4000) != z3.unsat:
            t.closed, t.failed, t.checked = None, True, False
            return True
    return False


def mentions_fn_name(e, name):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() == name:
                return True
            todo.extend(x.children())
    return False


def appended(sq, t):
    """segments after the opaque part (or after the closed description)"""
    m = t.mark_len
    if len(sq.segs) < m:
        raise Unsupported("list was cut in a loop")
    return sq.segs[m:]


def guarded(segs, c):
    """the segments if c, nothing otherwise"""
    out = []
    for g in segs:
        if isinstance(g, Items):
            out += [Gen(z3.If(c, z3.IntVal(1), z3.IntVal(0)), lambda i, x=x: x) for x in g.xs]
        else:
            out.append(Gen(z3.If(c, g.n, z3.IntVal(0)), g.fn, g.cond, g.flat))
    return out


def solve_list(t, key, normal, conds, k, n, cond):
    apps = []
    for _, e in normal:
        sq = e[key]
        segs = sq.segs
        base = len(t.init.segs) + 1
        # the initial part is kept literally
        if t.closed is None:
            if len(segs) < base:
                raise Unsupported("list was cut in a loop")
            apps.append(segs[base:])
        else:
            b = len(t.closed(k).segs)
            apps.append(segs[b:])
    if t.closed is not None:
        if getattr(t, "checked", False):
            return False
    flat = False
    items = []
    for a in apps:
        if not a:
            items.append(None)
        elif len(a) == 1 and isinstance(a[0], Items) and len(a[0].xs) == 1:
            items.append(a[0].xs[0])
        else:
            flat = True
            items.append(Seq(a))
    if flat:
        items = [None if x is None else x if isinstance(x, Seq) else Seq.of(x) for x in items]
    if not flat and len(items) > 1:
        mc = merge_cases([(c, x) for (c, _), x in zip(normal, items)], k, n, cond)
        conds, items = [cond_of(c) for c, _ in mc], [x for _, x in mc]
    have = [(c, x) for c, x in zip(conds, items) if x is not None]
    if flat and len(have) > 1:
        # paths that append the same
        eq = []
        for c, v in have:
            for q in eq:
                if samev(q[1], v):
                    q[0].append(c)
                    break
            else:
                eq.append(([c], v))
        if len(eq) == 1:
            every = len(have) == len(items)
            have = [(z3.Or(*c), v) for c, v in eq]
            items = have if every else items
    if not have:
        # nothing appended on any path
        new = ("none",)
        x, cnd = None, None
    else:
        cs = [c for c, _ in have]
        if flat:
            x = have[0][1] if len(have) == 1 else Seq([g for c, v in have for g in guarded(v.segs, c)])
        else:
            x = merge_vals(cs, [v for _, v in have])
        cnd = None
        if len(have) < len(items) and not (flat and len(have) > 1):
            cnd = z3.Or(*cs) if len(cs) > 1 else cs[0]
        if cond is not None:
            cnd = cond(k) if cnd is None else z3.And(cond(k), cnd)
    if x is None:
        fn, cf = (lambda j: None), (lambda j: z3.BoolVal(False))
        if t.closed is None:
            t.closed = lambda j: t.init
            t.fn, t.cond, t.flat, t.x = fn, None, False, None
            t.checked = True
            return True
        if getattr(t, "x", None) is not None:
            t.tries = getattr(t, "tries", 0) + 1
            if t.tries > 4:
                raise Unsupported("list description does not stabilise")
            t.closed = lambda j: t.init
            t.fn, t.cond, t.flat, t.x = fn, None, False, None
            return True
        return False
    fn = lambda j, x=x: subst(x, [(k, j)])
    cf = None if cnd is None else (lambda j, cnd=cnd: z3.substitute(cnd, (k, j)))
    old = getattr(t, "x", None)
    if t.closed is not None and old is not None and flat == t.flat and (cnd is None) == (t.cnd is None) and (cnd is None or z3.simplify(cnd).eq(z3.simplify(t.cnd)) or CTX.check(0 <= k, k < n, *([cond(k)] if cond is not None else []), cnd != t.cnd, timeout=3000) == z3.unsat) and (samev(old, x) or try_same(old, x, [cnd] if cnd is not None else [], k, n, cond)):
        t.checked = True
        return False
    t.tries = getattr(t, "tries", 0) + 1
    if DEBUG:
        print("list", t.name, t.field, flat, "x:", x, "cnd:", cnd, "was", old, getattr(t, "cnd", None))
    if t.tries > 4:
        raise Unsupported("list description does not stabilise")
    t.fn, t.cond, t.flat, t.x, t.cnd = fn, cf, flat, x, cnd
    t.closed = lambda j, t=t: Seq(t.init.segs + [Gen(ex(j), t.fn, t.cond, t.flat)])
    return True


def solve_dict(tm, t, key, normal, conds, k, n, cond):
    """grouped dictionaries and updates of a dictionary's own keys"""
    d = t.obj
    if getattr(t, "checked", False):
        return False
    lays = [e[key] or [] for _, e in normal]
    overs = [e[(id(d), "over")] or [] for _, e in normal]
    tg, te, to = tm[(id(d), "group")], tm[(id(d), "ents")], tm[(id(d), "over")]
    if any(overs):
        # d[KEY(k)] = v in a loop over d's own keys
        if any(len(o) != 1 or not o[0][0].eq(k) for o in overs):
            raise Unsupported("dictionary updated at foreign keys in a loop")
        g = te.init.single()
        v = merge_vals(conds, [o[0][1] for o in overs])
        t.own = (g, v)
        t.checked = True
        to.closed = lambda j: None
        te.closed = lambda j, te=te: te.init
        te.post = lambda j: Seq([Gen(g.n, lambda i: (g.fn(i)[0], subst(v, [(k, i)])))])
        return True
    if not any(lays):
        return False
    one = [l[0] if l else None for l in lays]
    if all(len(l) <= 1 and all(x[1] == "absent" for x in l) for l in lays) and not hasattr(t, "sig") and distinct_keys([x[0] for x in one if x], k, n, cond):
        return solve_dict_val(tm, t, d, [None if x is None else (x[0], x[2]) for x in one], [c for c, _ in normal], k, n, cond)
    keys, eff, vals, kinds = [], [], [], set()
    for c, lay in zip(conds, lays):
        ch = []
        for (kt, old, new) in lay:
            if isinstance(new, PList):
                segs = new.seq.segs
                base = 1 if old == "present" else 0
                app = segs[base:]
                if not app:
                    continue
                if len(app) != 1 or not isinstance(app[0], Items) or len(app[0].xs) != 1:
                    raise Unsupported("several appends to a group")
                ch.append((kt, app[0].xs[0]))
                kinds.add("list")
            elif is_num(new):
                if old == "present":
                    dl = z3.simplify(ex(new) - tg.closed(k).total(kt))
                else:
                    dl = ex(new)
                if z3.is_int_value(dl) and dl.as_long() == 0 and old == "present":
                    continue
                ch.append((kt, mk(dl)))
                kinds.add("num")
            else:
                ch.append((kt, new))
                kinds.add("val")
        if len(ch) > 1:
            raise Unsupported("several keys changed in one iteration")
        eff.append(ch[0] if ch else None)
    if len(kinds) > 1:
        raise Unsupported("mixed group values")
    if kinds == {"val"}:
        return solve_dict_val(tm, t, d, eff, [c for c, _ in normal], k, n, cond)
    # effects must not depend on whether the key was there
    pres = {a.get_id() for a in getattr(d, "pres_atoms", [])}

    def stripc(cs):
        return [c for c in cs if not (c.get_id() in pres or z3.is_not(c) and c.arg(0).get_id() in pres)]
    groups = {}
    for (cs, _), ef in zip(normal, eff):
        sc = stripc(cs)
        kk = tuple(sorted(z3.simplify(cond_of(sc)).sexpr() for _ in [0]))
        groups.setdefault(kk, []).append((sc, ef))
    reps = []
    for kk, lst in groups.items():
        f0 = lst[0][1]
        for sc, ef in lst[1:]:
            if (ef is None) != (f0 is None) or ef is not None and not (ef[0].eq(f0[0]) and (samev(ef[1], f0[1]) or prove_same(ef[1], f0[1], lst[0][0], k, n, cond))):
                raise Unsupported("group update depends on whether the key is there")
        reps.append((lst[0][0], f0))
    have = [(c, e) for c, e in reps if e is not None]
    if not have:
        return False
    kt = have[0][1][0]
    if any(not e[0].eq(kt) for _, e in have):
        raise Unsupported("different keys on different paths")
    reps = [(cond_of(c), None if v is None else (kt, v)) for c, v in merge_cases([(c, None if e is None else e[1]) for c, e in reps], k, n, cond)]
    have = [(c, e) for c, e in reps if e is not None]
    val = merge_vals([c for c, _ in have], [e[1] for _, e in have])
    effc = None if len(have) == len(reps) else (z3.Or(*[c for c, _ in have]) if len(have) > 1 else have[0][0])
    if cond is not None:
        effc = cond(k) if effc is None else z3.And(cond(k), effc)
    effc = z3.BoolVal(True) if effc is None else effc
    sig = (kt, effc, val)
    old = getattr(t, "sig", None)
    if old is not None and old[0].eq(kt) and z3.simplify(old[1]).eq(z3.simplify(effc)) and samev(old[2], val):
        t.checked = True
        return False
    t.tries = getattr(t, "tries", 0) + 1
    if DEBUG:
        print("group sig", t.name, kt, "| eff", z3.simplify(effc), "| val", val if not isinstance(val, SArr) else (val.shape, val.elem(z3.Int("i0"))))
    if t.tries > 4:
        raise Unsupported("group description does not stabilise")
    t.sig = sig
    kind = "list" if kinds == {"list"} else "num"
    vf = (lambda j: subst(val, [(k, j)])) if kind == "list" else (lambda j: z3.substitute(ex(val), (k, j)))
    mkgroup = lambda j: Group(ex(j), lambda i: z3.substitute(kt, (k, i)), lambda i: z3.substitute(effc, (k, i)), vf, kind)
    if te.init.segs or tg.init is not None:
        raise Unsupported("grouping into a non-empty dictionary")
    tg.closed = mkgroup
    t.closed = lambda j: None
    te.closed = lambda j: te.init
    to.closed = lambda j: None
    return True


def prove_same(a, b, cs, k, n, cond):
    from .spec import same
    g = same(a, b)
    if g is True:
        return True
    if g is False:
        return False
    return CTX.check(0 <= k, k < n, *cs, z3.Not(bex(g)), timeout=3000) == z3.unsat


def I_():
    from . import interp
    return interp


def distinct_keys(kts, k, n, cond):
    if any(not x.eq(kts[0]) for x in kts):
        return False
    i1, i2 = loopvar("i1"), loopvar("i2")
    a, b = z3.substitute(kts[0], (k, i1)), z3.substitute(kts[0], (k, i2))
    cs = [cond(i1), cond(i2)] if cond is not None else []
    return CTX.check(0 <= i1, i1 < i2, i2 < n, *cs, I_().text_eq(a == b), timeout=3000) == z3.unsat


def solve_dict_val(tm, t, d, eff, raw, k, n, cond):
    """d[key(k)] = v(k) with keys that are pairwise different (keys of another dictionary): a map comprehension"""
    have = [e for e in eff if e is not None]
    kt = have[0][0]
    if any(not e[0].eq(kt) for e in have):
        raise Unsupported("different keys on different paths")
    reps = merge_cases([(c, None if e is None else e[1]) for c, e in zip(raw, eff)], k, n, cond)
    conds = [cond_of(c) for c, v in reps if v is not None]
    effc = None if all(v is not None for _, v in reps) else z3.Or(*conds) if len(conds) > 1 else conds[0]
    if cond is not None:
        effc = cond(k) if effc is None else z3.And(cond(k), effc)
    if not distinct_keys([kt], k, n, cond):
        raise Unsupported("dictionary keys not known to be different")
    val = merge_vals(conds, [v for _, v in reps if v is not None])
    te = tm[(id(d), "ents")]
    init = te.init
    if getattr(t, "valsig", None) is not None and samev(t.valsig, val) and (effc is None) == (t.valeff is None) and (effc is None or z3.simplify(effc).eq(z3.simplify(t.valeff))):
        t.checked = True
        return False
    t.tries = getattr(t, "tries", 0) + 1
    if t.tries > 4:
        raise Unsupported("dictionary description does not stabilise")
    t.valsig, t.valeff = val, effc
    te.closed = lambda j: Seq(init.segs + [Gen(ex(j), lambda i: (mk(z3.substitute(kt, (k, i))), subst(val, [(k, i)])), None if effc is None else (lambda i: z3.substitute(effc, (k, i))))])
    for f in ("group", "over", "lay"):
        tm[(id(d), f)].closed = lambda j: None
    return True


class Rec:
    def __init__(self, t, step, n, k):
        self.t, self.step, self.n, self.k = t, step, n, k
        self.outer = CTX.ivars()

    def facts(self, j, *idx):
        """f(0)=init, f(j+1)=step(j) as ground facts"""
        t = self.t
        if t.kind == "num":
            return [t.f(z3.IntVal(0)) == toe(t.init), z3.Implies(z3.And(0 <= j, j < self.n), t.f(j + 1) == z3.substitute(self.step(), (self.k, j)))]
        init = t.init(*idx)
        return [t.f(z3.IntVal(0), *idx) == init, z3.Implies(z3.And(0 <= j, j < self.n), t.f(j + 1, *idx) == z3.substitute(self.step(*idx), (self.k, j)))]


def make_rec(t, normal, k, n, cond):
    key = (id(t.obj), t.field)
    conds = [cond_of(c) for c, _ in normal]

    def step(*idx):
        if t.kind == "num":
            es = [toe(e[key]) for _, e in normal]
            if t.sort == FS:
                es = [x if x.sort() == FS else i2f(x) for x in es]
            last = t.f(k)
        else:
            es = [e[key](*idx) for _, e in normal]
            last = t.f(k, *idx)
        r = last
        for c, e in zip(reversed(conds), reversed(es)):
            r = z3.If(c, e, r)
        if cond is not None:
            r = z3.If(cond(k), r, last)
        return r
    if t.kind == "num" and any(not (isinstance(e[key], (str, SStr)) if t.sort == SS else is_num(e[key])) for _, e in normal):
        if t.need:
            raise Unsupported("loop-carried value changes its kind")
        t.kind = "other"
        return
    t.rec = Rec(t, step, n, k)
    t.fname = t.f(*[z3.IntVal(0)] * (1 if t.kind == "num" else 1 + len(t.obj.shape))).decl().name()
    CTX.recs.append(t.rec)


def unchanged(v, init):
    if v is init or not v and not init and not isinstance(v, Seq):
        return True
    if isinstance(v, Seq) and isinstance(init, Seq):
        return samev(v, init)
    return False


def install(tm, j, k, normal, final):
    for key, t in tm.items():
        if hasattr(t, "post"):
            if final:
                putloc(t.obj, t.field, t.post(j))
            continue
        if t.closed is not None:
            putloc(t.obj, t.field, t.closed(j))
        elif t.kind in ("num", "buf") and t.rec is not None:
            if t.kind == "num":
                putloc(t.obj, t.field, mk(t.f(j), t.dt if t.sort != BS else None))
            else:
                putloc(t.obj, t.field, lambda *i, t=t, j=j: t.f(j, *i))
        elif t.kind == "other":
            if isinstance(t.field, tuple):
                vals = [e[key] for _, e in normal]
                v0 = vals[0] if vals else None
                same_as_init = vals and t.init is not MISSING and all(samev(v, t.init) for v in vals if not isinstance(v, Poison)) and not any(isinstance(v, Poison) for v in vals)
                if same_as_init:
                    putloc(t.obj, t.field, t.init)
                elif final and vals and not any(isinstance(v, Poison) or v is MISSING for v in vals) and len(vals) == 1:
                    # the value of the last iteration
                    if CTX.implied(j >= 1):
                        putloc(t.obj, t.field, subst(v0, [(k, z3.simplify(j - 1))]))
                    else:
                        putloc(t.obj, t.field, Poison("last value of a loop that may not run"))
                else:
                    putloc(t.obj, t.field, Poison("value of a loop temporary"))
            else:
                raise Unsupported("loop-carried state " + str(t.field))
        elif t.kind and t.kind.startswith("dict:"):
            if any(not unchanged(e[key], t.init) for _, e in normal):
                raise Unsupported("loop changes a dictionary in a way that has no description")
            putloc(t.obj, t.field, t.init)
        elif t.kind == "empty":
            putloc(t.obj, t.field, PList())
        elif t.kind == "list":
            raise Unsupported("list without description")
        else:
            putloc(t.obj, t.field, t.init)
