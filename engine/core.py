"""Symbolic core: path exploration (by re-execution with a decision prefix), undo trail, solver, scalars, strings.

Every obligation goes through Ctx.prove: path condition + recorded definitional axioms + negated goal -> z3.
`unsat` = discharged.  `sat` = refuted (unless the path contains abstracted values).  Otherwise undecided.
"""
from __future__ import annotations
import itertools, os, time
import z3
import numpy as rnp          # the real numpy: dtypes and concrete constants only

IS, BS = z3.IntSort(), z3.BoolSort()
FS = z3.DeclareSort("F")     # opaque floating point value
SS = z3.DeclareSort("S")     # opaque string
i2f = z3.Function("i2f", IS, FS)
f2i = z3.Function("f2i", FS, IS)
cast32 = z3.Function("cast32", FS, FS)


class PathEnd(BaseException):
    """this path is finished (infeasible)"""


class Unsupported(Exception):
    """the code left the verified subset: undecided, never a violation"""


class Undecided(Exception):
    pass


class PyExc(BaseException):
    """an exception raised by the interpreted program"""
    def __init__(self, value):
        self.value = value


def raise_py(cls, msg=""):
    raise PyExc(cls(msg))


def limit(solver, ms):
    """the limit of a query counts solver steps, so that the answer does not depend on the speed or load of the machine;
    the wall-clock limit is a safety net whose use never counts as an answer"""
    solver.set("rlimit", int(ms) * 3000)
    solver.set("timeout", int(ms) * 8)


def closed(iv, g, e):
    """ForAll iv: g ==> e, in one quantifier (with e's triggers) if e is one itself"""
    hyp = z3.And(*g) if g else z3.BoolVal(True)
    if z3.is_quantifier(e) and e.is_forall() and e.num_patterns():
        vs = [z3.Const(f"{e.var_name(i)}", e.var_sort(i)) for i in range(e.num_vars())]
        sub = list(reversed(vs))
        body = z3.substitute_vars(e.body(), *sub)
        names = {v.decl().name() for v in iv}
        pats = []
        for i in range(e.num_patterns()):
            ts = [z3.substitute_vars(t, *sub) for t in e.pattern(i).children()]
            have = set()
            for t in ts:
                have |= consts_in(t)
            if names <= have:
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        if pats and not names & {v.decl().name() for v in vs}:
            return z3.ForAll(list(iv) + vs, z3.Implies(hyp, body), patterns=pats)
    return z3.ForAll(iv, z3.Implies(hyp, e))


def consts_in(e):
    out, todo = set(), [e]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    return out


class LoopCtx:
    def __init__(self, k, n, cond):
        self.k, self.n, self.cond = k, n, cond
        self.axioms = []
        self.pc0 = len(CTX.pc)


class Ctx:
    def __init__(self):
        self.timeout_ms = 8000
        self.nqueries = 0
        self.solver_time = 0.0
        self.deadline = None
        self.assumptions = set()
        self.max_paths = 600
        self.stack = []
        self.loading = 0
        self.nogo = False
        self.start([])

    strict = False

    def start(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.pc = []
        self.names = {}
        self.nlv = 0
        self.noid = 0
        self.trail = []
        self.loops = []
        self.tag = ""
        self.loopvars = {}
        self.strconst = {}
        self.distinct_done = 0
        self.pred_done = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.solver.set("smt.mbqi", False)
        self.tokens = []
        self.approx = []
        self.ps = []              # prefix sums
        self.tables = {}
        self.tab_done = set()
        self.events = []
        self.frame = []           # (description, conditions) of writes to caller-owned objects
        self.cache = {}
        self.raw = {}
        self.files = {}
        self.warned = 0
        self.hooks = {}
        self.recs = []
        self.uniqs = []
        self.groups = {}
        self.wheres = {}
        self.wcounts = []
        self.joins = []

    # --- trail
        if self.strict:
            # casts to narrower integers wrap around
            self.hooks["narrow"] = {}
            for t in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"):
                f = self.hooks["narrow"][t] = z3.Function("wrap_" + t, IS, IS)
                lo, hi = int(rnp.iinfo(t).min), int(rnp.iinfo(t).max)
                x = z3.Int("wrap%x")
                self.assume(z3.ForAll([x], z3.And(lo <= f(x), f(x) <= hi, z3.Implies(z3.And(lo <= x, x <= hi), f(x) == x)), patterns=[f(x)]))

    def log(self, undo):
        self.trail.append(undo)

    def rollback(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()()

    def oid(self):
        if self.loading:
            return 0
        self.noid += 1
        return self.noid

    def name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        tag = self.tag + self.ptag() if self.loops else ""
        return f"{base}!{n}" + ("@" + tag if tag else "") if n or tag else base

    def ptag(self):
        return "".join(("T" if c else "F") if isinstance(c, bool) else "" if c[0] == "f" else f"c{c[1]}" for c in self.prefix[:self.pos])

    # fresh symbols: inside generic iterations they are functions of the iteration variables
    def ivars(self):
        return [l.k for l in self.loops]

    def fresh(self, base, sort=IS):
        return self.fresh_fun(base, [], sort)()

    def fresh_fun(self, base, argsorts, sort):
        return self.named_fun(self.name(base), argsorts, sort)

    def named_fun(self, nm, argsorts, sort):
        iv = self.ivars()
        if not iv and not argsorts:
            c = z3.Const(nm, sort)
            return lambda: c
        f = z3.Function(nm, *([IS] * len(iv) + list(argsorts)), sort)
        return lambda *a: f(*iv, *a)

    def assume(self, e):
        e = bex(e)
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)

    def axiom(self, e):
        """holds by construction of fresh symbols; closed over the generic iteration variables"""
        e = bex(e)
        if z3.is_true(e):
            return
        self.assume(e)
        self.raw[self.pc[-1].get_id()] = self.pc[-1]
        for i, l in enumerate(self.loops):
            iv = [x.k for x in self.loops[i:]]
            # only under the conditions of the path on which the symbols were made
            g = [c for c in self.pc[l.pc0:-1] if c.get_id() not in self.raw]
            l.axioms.append(closed(iv, g, e))

    # --- solver
    def check(self, *extra, timeout=None):
        self.nqueries += 1
        if self.deadline and time.time() > self.deadline:
            raise Undecided("time budget exhausted")
        t = time.time()
        self.flush()
        self.solver.push()
        try:
            limit(self.solver, timeout or self.timeout_ms)
            for e in extra:
                self.solver.add(e)
            if self.ps and not self.nogo:
                from .seq import ps_congruence
                self.nogo = True
                try:
                    for e in ps_congruence(z3.And(*extra) if extra else z3.BoolVal(True)):
                        self.solver.add(e)
                finally:
                    self.nogo = False
            r = self.solver.check()
            self.last_model = self.solver.model() if r == z3.sat else None
            self.reason = self.solver.reason_unknown() if r == z3.unknown else ""
        finally:
            self.solver.pop()
            self.solver_time += time.time() - t
        return r

    def implied(self, e, timeout=1500):
        e = z3.simplify(bex(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = (e.get_id(), tuple(c.get_id() for c in self.pc))
        if key in self.cache:
            return self.cache[key][0]
        r = self.check(z3.Not(e), timeout=timeout) == z3.unsat
        self.cache[key] = (r, e, list(self.pc))
        return r

    def prove(self, goal, timeout=None):
        goal = z3.simplify(bex(goal))
        if z3.is_true(goal):
            return "discharged", None
        from .seq import ps_congruence
        self.nogo = True
        try:
            extra = ps_congruence(goal) if self.ps else []
            r = self.check(z3.Not(goal), *extra, timeout=timeout)
        finally:
            self.nogo = False
        if r == z3.unsat:
            return "discharged", None
        approx = self.approx or self.undescribed(goal)
        if r == z3.sat:
            if approx:
                return "undecided", "counter-model on a path with abstracted values: " + "; ".join(sorted(set(approx))[:3])
            return "refuted", str(self.last_model)[:3000]
        reasons = [self.reason]
        for opts in ({"smt.mbqi": True}, {"smt.mbqi": False, "smt.arith.solver": 2}):
            s = z3.Solver()
            limit(s, timeout or self.timeout_ms)
            s.set(**opts)
            s.add(*self.all_assertions(), *extra, z3.Not(goal))
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            self.nqueries += 1
            if r == z3.unsat:
                return "discharged", None
            if r == z3.sat:
                if approx:
                    return "undecided", "counter-model on a path with abstracted values: " + "; ".join(sorted(set(approx))[:3])
                return "refuted", str(s.model())[:3000]
            reasons.append(s.reason_unknown())
        if os.environ.get("VP_DUMP"):
            s = z3.Solver()
            s.add(*self.all_assertions(), *extra, z3.Not(goal))
            open(os.environ["VP_DUMP"] + f"/q{self.nqueries}.smt2", "w").write(s.to_smt2())
        if not any("incomplete" in x for x in reasons):
            # every attempt ran out of steps or time: no answer, neither way
            return "undecided", "solver: out of resources (no answer): " + "; ".join(reasons)
        if approx:
            return "undecided", "counter-model on a path with abstracted values: " + "; ".join(sorted(set(approx))[:3])
        return "undecided", "solver: the facts of the path do not imply the goal (no further instances)"

    def undescribed(self, goal):
        """the state of a loop that has no closed form, if the goal or the path speaks of it: no refutation rests on it"""
        names = {r.t.fname for r in self.recs if r.t.closed is None}
        if not names:
            return []
        todo, seen = [goal] + self.all_assertions(), set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
            elif z3.is_app(e):
                if e.decl().name() in names:
                    return ["state of a loop without a closed form"]
                todo += e.children()
        return []

    def all_assertions(self):
        self.flush()
        return list(self.solver.assertions())

    # --- branching
    def branch(self, e):
        e = z3.simplify(bex(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            if isinstance(c, tuple):
                return c[1]
            self.assume(e if c else z3.Not(e))
            return c
        t = self.check(e, timeout=2000)
        if t == z3.unsat:
            c, both = False, False
        else:
            c, both = True, self.check(z3.Not(e), timeout=2000) != z3.unsat
        if both:
            self.stack.append(self.prefix[:self.pos] + [False])
        self.prefix.append(c if both else ("f", c))
        self.pos += 1
        if not both:
            return c
        self.assume(e if c else z3.Not(e))
        return c

    def choose(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            return c[1]
        for i in range(n - 1, 0, -1):
            self.stack.append(self.prefix[:self.pos] + [("c", i)])
        self.prefix.append(("c", 0))
        self.pos += 1
        return 0

    def infeasible(self):
        return self.check(timeout=3000) == z3.unsat

    def sub(self, fn):
        """explore fn exhaustively from the current state; the state is restored after each path.
        -> list of (path conditions, result)"""
        saved = (self.prefix, self.pos, self.stack)
        tag0 = self.tag
        self.tag = tag0 + self.ptag() + "."
        self.stack = [[]]
        out = []
        n = 0
        try:
            while self.stack:
                self.prefix = self.stack.pop()
                self.pos = 0
                n += 1
                if n > 200:
                    raise Undecided("path budget exhausted in a loop body")
                mark, npc = len(self.trail), len(self.pc)
                self.solver.push()
                strs = dict(self.strconst), self.distinct_done, set(self.pred_done)
                tabs = dict(self.tables)
                tdone = set(self.tab_done)
                nps = len(self.ps)
                try:
                    r = fn()
                    out.append((self.pc[npc:], r))
                except PathEnd:
                    pass
                finally:
                    self.rollback(mark)
                    self.solver.pop()
                    del self.pc[npc:]
                    # ground facts about strings and tables were popped: assert them again when needed
                    self.distinct_done = 0
                    self.pred_done = strs[2]
                    self.tables = tabs
                    self.tab_done = tdone
        finally:
            self.prefix, self.pos, self.stack = saved
            self.tag = tag0
        return out

    # --- strings
    def strc(self, s):
        if s not in self.strconst:
            self.strconst[s] = z3.Const("str:" + s, SS)
        return self.strconst[s]

    def flush(self):
        for t in list(self.tables.values()):
            if t.name not in self.tab_done:
                self.tab_done.add(t.name)
                for k, v in t.ents:
                    c = z3.IntVal(k) if t.ints else self.strc(k)
                    if t.f is not None:
                        self.solver.add(t.f(c) == toe(v))
                if t.ints:
                    continue
                q = z3.Const("tq", SS)
                self.solver.add(z3.ForAll([q], z3.Implies(t.pres(q), z3.Or(*[q == self.strc(k) for k, _ in t.ents])), patterns=[t.pres(q)]) if len(t.ents) <= 12 else z3.BoolVal(True))
        n = len(self.strconst)
        if n != self.distinct_done:
            if n > 1:
                self.solver.add(z3.Distinct(*self.strconst.values()))
            self.distinct_done = n
        for s, c in list(self.strconst.items()):
            for p, f in list(PREDS.items()):
                if (s, p) not in self.pred_done:
                    self.pred_done.add((s, p))
                    kind, arg = p
                    if kind == "tab":
                        self.solver.add(f[0](c) == z3.BoolVal(s in f[1]))
                        continue
                    val = s.startswith(arg) if kind == "sw" else s.endswith(arg) if kind == "ew" else arg in s
                    self.solver.add(f(c) == z3.BoolVal(val))


PREDS = {}


def str_pred(kind, arg):
    key = (kind, arg)
    if key not in PREDS:
        PREDS[key] = z3.Function(f"{kind}:{arg}", SS, BS)
    return PREDS[key]


CTX = None
CTX = Ctx()


def explore(fn, max_paths=None):
    """run fn once per feasible path"""
    CTX.stack = [[]]
    n = 0
    while CTX.stack:
        prefix = CTX.stack.pop()
        n += 1
        if n > (max_paths or CTX.max_paths):
            raise Undecided("path budget exhausted")
        CTX.start(prefix)
        try:
            fn()
        except PathEnd:
            pass
        finally:
            CTX.rollback(0)
    return n


# ----------------------------------------------------------------------------- scalars
def ex(x):
    """-> z3 Int"""
    if isinstance(x, SNum):
        if x.e.sort() == FS:
            raise Unsupported("float used as integer")
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, rnp.bool_, int, rnp.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported(f"not an integer: {type(x)}")


def fconst(v):
    v = float(v)
    if v == v and abs(v) != float("inf") and v == int(v):
        return i2f(z3.IntVal(int(v)))
    return z3.Const(f"flt:{v!r}", FS)


def fex(x):
    if isinstance(x, SNum):
        x = x.e
    if isinstance(x, z3.ExprRef):
        if x.sort() == FS:
            return x
        if z3.is_bool(x):
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return i2f(x)
    if isinstance(x, SBool):
        return i2f(ex(x))
    if isinstance(x, (int, float, rnp.integer, rnp.floating, bool, rnp.bool_)):
        return fconst(x)
    raise Unsupported(f"not a float: {type(x)}")


def bex(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, rnp.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SNum):
        return x.e != 0
    raise Unsupported(f"not a bool {type(x)}")


FLD = rnp.dtype(float)
INT = rnp.dtype(int)
BOOL = rnp.dtype(bool)


def mk(e, dt=None):
    """wrap a z3 expression; numerals collapse to python values"""
    if not isinstance(e, z3.ExprRef):
        return e
    if z3.is_bool(e):
        e = z3.simplify(e)
        return True if z3.is_true(e) else False if z3.is_false(e) else SBool(e)
    if z3.is_int(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return SNum(e, dt if dt is not None and dt.kind in "iu" else INT)
    if e.sort() == SS:
        n = e.decl().name()
        if e.num_args() == 0 and n.startswith("str:"):
            return n[4:]
        return SStr(e)
    return SNum(e, dt if dt is not None else FLD)


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<SBool {self.e}>"


class SNum:
    __slots__ = ("e", "dt")

    def __init__(self, e, dt=None):
        self.e = e
        self.dt = dt if dt is not None else (FLD if e.sort() == FS else INT)

    def __repr__(self):
        return f"<{self.e}>"


class SStr:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<SStr {self.e}>"


def sstr(x):
    """-> z3 S"""
    if isinstance(x, SStr):
        return x.e
    if isinstance(x, str):
        t = tok_parse(x)
        if t is not None and isinstance(t.v, SStr):
            return t.v.e
        if has_tok(x):
            return text_term(x)
        return CTX.strc(x)
    raise Unsupported(f"not a string {type(x)}")


_TXT = {}


def text_term(x):
    """text with placeholders as an uninterpreted (injective per template) term"""
    parts = tok_split(x)
    key = "txt:" + "|".join(p if isinstance(p, str) else "%" + str(p.spec) for p in parts)
    args = []
    for p in parts:
        if not isinstance(p, str):
            v = p.v
            args.append(v.e if isinstance(v, (SNum, SStr)) else bex(v))
    sig = tuple(a.sort().name() for a in args)
    if (key, sig) not in _TXT:
        _TXT[(key, sig)] = z3.Function(key + str(len(_TXT)), *[a.sort() for a in args], SS)
    return _TXT[(key, sig)](*args)


_F = {}


def ffun(name, n=2, res=None):
    key = (name, n, str(res))
    if key not in _F:
        _F[key] = z3.Function(name, *([FS] * n), res if res is not None else FS)
    return _F[key]


toR = z3.Function("toR", FS, z3.RealSort())
linspace_ = z3.Function("linspace", FS, FS, IS, IS, FS)


def real_arithmetic():
    """floating point operations read as operations on real numbers (rounding is not modelled)"""
    CTX.assumptions.add("floating point arithmetic is treated as real arithmetic (rounding not modelled)")
    a, b = z3.Consts("fa! fb!", FS)
    n, k = z3.Ints("n! k!")
    for op, g in (("fadd", lambda x, y: x + y), ("fsub", lambda x, y: x - y), ("fmul", lambda x, y: x * y)):
        CTX.axiom(z3.ForAll([a, b], toR(ffun(op)(a, b)) == g(toR(a), toR(b)), patterns=[ffun(op)(a, b)]))
    d = ffun("ftruediv")
    CTX.axiom(z3.ForAll([a, b], z3.Implies(toR(b) != 0, toR(d(a, b)) * toR(b) == toR(a)), patterns=[d(a, b)]))
    CTX.axiom(z3.ForAll([n], toR(i2f(n)) == z3.ToReal(n), patterns=[i2f(n)]))
    L = linspace_(a, b, n, k)
    CTX.axiom(z3.ForAll([a, b, n, k], z3.Implies(n > 1, toR(L) * z3.ToReal(n - 1) == toR(a) * z3.ToReal(n - 1) + z3.ToReal(k) * (toR(b) - toR(a))), patterns=[L]))
    CTX.axiom(z3.ForAll([a, b, n], linspace_(a, b, n, z3.IntVal(0)) == a, patterns=[linspace_(a, b, n, z3.IntVal(0))]))


def isf(x):
    if isinstance(x, SNum):
        return x.e.sort() == FS
    return isinstance(x, (float, rnp.floating))


def is_num(x):
    return isinstance(x, (int, float, SNum, SBool, rnp.integer, rnp.floating, rnp.bool_))


def dt_of(x):
    if isinstance(x, SNum):
        return x.dt
    if isinstance(x, (bool, SBool, rnp.bool_)):
        return BOOL
    if isinstance(x, rnp.generic):
        return x.dtype
    if isinstance(x, int):
        return INT
    if isinstance(x, float):
        return FLD
    raise Unsupported(f"dtype of {type(x)}")


FSPECIAL = {("add", 0): "r", ("mul", 1): "r"}


def e_bin(op, a, b):
    """binary operation on z3 expressions"""
    if z3.is_bool(a) and z3.is_bool(b) and op in ("and", "or", "xor"):
        return {"and": z3.And(a, b), "or": z3.Or(a, b), "xor": z3.Xor(a, b)}[op]
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if op in CMP:
        return e_cmp(op, a, b)
    if a.sort() == FS or b.sort() == FS or op == "truediv":
        a = a if a.sort() == FS else i2f(a)
        b = b if b.sort() == FS else i2f(b)
        return ffun("f" + op)(a, b)
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op in ("floordiv", "mod"):
        bs = z3.simplify(b)
        if (z3.is_int_value(bs) and bs.as_long() > 0) or CTX.implied(b > 0):
            return a / b if op == "floordiv" else a % b
        raise Unsupported("division by a value not known to be positive")
    if op == "pow":
        bs = z3.simplify(b)
        if z3.is_int_value(bs) and 0 <= bs.as_long() <= 4:
            r = z3.IntVal(1)
            for _ in range(bs.as_long()):
                r = r * a
            return r
    raise Unsupported("operator " + op)


CMP = {"eq", "ne", "lt", "le", "gt", "ge"}


def e_cmp(op, a, b):
    if a.sort() == SS:
        return a == b if op == "eq" else a != b
    if z3.is_bool(a) and z3.is_bool(b) and op in ("eq", "ne"):
        return a == b if op == "eq" else a != b
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.sort() == FS or b.sort() == FS:
        a = a if a.sort() == FS else i2f(a)
        b = b if b.sort() == FS else i2f(b)
        if a.decl().eq(i2f) and b.decl().eq(i2f):
            return e_cmp(op, a.arg(0), b.arg(0))
        if op in ("eq", "ne"):
            return a == b if op == "eq" else a != b
        if op in ("gt", "ge"):
            a, b, op = b, a, {"gt": "lt", "ge": "le"}[op]
        return ffun("f" + op, 2, BS)(a, b)
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]


def toe(x):
    """python or symbolic scalar -> z3 expression"""
    if isinstance(x, (SNum, SBool, SStr)):
        return x.e
    if isinstance(x, (bool, rnp.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, rnp.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, rnp.floating)):
        return fconst(x)
    if isinstance(x, str):
        return sstr(x)
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported(f"no scalar: {type(x)}")


def float_int(e):
    """integer part; the float of an integer gives that integer back (mathematical integers)"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and e.sort() == FS:
        return z3.If(e.arg(0), float_int(e.arg(1)), float_int(e.arg(2)))
    return e.arg(0) if e.decl().eq(i2f) else f2i(e)


def narrow32(e):
    """rounding to 32 bits; values that are already rounded stay as they are"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), narrow32(e.arg(1)), narrow32(e.arg(2)))
    return e if z3.is_app(e) and e.decl().eq(cast32) else cast32(e)


def data_decls(e):
    """the element types of the data arrays of the caller that occur in a term"""
    out, seen, todo = [], set(), [e]
    rg = CTX.hooks.get("ranges", {})
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            d = rg.get(x.decl().name())
            if d is not None:
                out.append(d)
            todo += x.children()
    return out


def fits(frm, to):
    a, b = rnp.iinfo(frm), rnp.iinfo(to)
    return b.min <= a.min and a.max <= b.max


def cast_e(e, frm, to):
    """numpy cast of an element expression. Integers are mathematical (no overflow) and float values opaque."""
    if z3.is_bool(e):
        if to.kind == "b":
            return e
        e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
    if e.sort() == SS:
        return e
    if to.kind == "f":
        e = e if e.sort() == FS else i2f(e)
        if to.itemsize < 8 and not (frm is not None and frm.kind == "f" and frm.itemsize <= to.itemsize) and not (z3.is_app(e) and e.decl().eq(i2f) and z3.is_int_value(e.arg(0)) and abs(e.arg(0).as_long()) < 1000):
            return narrow32(e)
        return e
    if to.kind in "iu":
        if e.sort() == FS:
            return float_int(e)
        if CTX.hooks.get("narrow") and frm is not None and frm.kind in "iu" and (to.itemsize < frm.itemsize or to.itemsize == frm.itemsize and to.kind != frm.kind or to.kind == "u" and frm.kind == "i") and not z3.is_int_value(e):
            # the value wraps around unless it fits
            if CTX.strict == "data" and all(fits(d, to) for d in data_decls(e)):
                return e
            return CTX.hooks["narrow"][to.name](e)
        return e
    if to.kind == "b":
        return e != 0 if e.sort() != FS else e != fconst(0)
    return e


# ----------------------------------------------------------------------------- text placeholders
T0, T1 = "\ue000", "\ue001"
_DIG = [chr(0xe010 + i) for i in range(10)]
_UND = {c: str(i) for i, c in enumerate(_DIG)}


class Token:
    __slots__ = ("v", "spec")

    def __init__(self, v, spec):
        self.v, self.spec = v, spec


def tokstr(v, spec):
    CTX.tokens.append(Token(v, spec))
    return T0 + "".join(_DIG[int(c)] for c in str(len(CTX.tokens) - 1)) + T1


def has_tok(s):
    return T0 in s


def _tok(body):
    return CTX.tokens[int("".join(_UND[c] for c in body))]


def tok_parse(s):
    if len(s) > 2 and s[0] == T0 and s[-1] == T1 and s.count(T0) == 1:
        return _tok(s[1:-1])
    return None


def tok_split(s):
    out, i = [], 0
    while True:
        j = s.find(T0, i)
        if j < 0:
            if i < len(s):
                out.append(s[i:])
            return out
        if j > i:
            out.append(s[i:j])
        e = s.index(T1, j)
        out.append(_tok(s[j + 1:e]))
        i = e + 1


def text_round(e, spec):
    """value read back from the text of float e written with a format.  Assumed contract of CPython/numpy:
    str, repr and >= 17 significant digits restore the exact float64; less is an uninterpreted rounding."""
    if z3.is_app(e) and e.decl().eq(i2f) and z3.is_int_value(e.arg(0)) and abs(e.arg(0).as_long()) < 10:
        return e
    sp = spec.replace("{:", "").replace("}", "").replace("%", "")
    if sp in ("", "r", "s", "!r"):
        return e
    t = sp[-1]
    if t in "eEg" and "." in sp:
        digits = int(sp[:-1].split(".")[1]) + (1 if t in "eE" else 0)
        if digits >= 17:
            return e
    return ffun("rt:" + sp, 1)(e)


def exact32(v, spec):
    """does the text of the number restore it, if it is a 32-bit float and read as one?"""
    if not (isf(v) and z3.is_app(v.e) and (v.e.decl().eq(cast32) or v.dt is not None and v.dt.itemsize == 4)):
        return False
    sp = spec.replace("{:", "").replace("}", "").replace("%", "")
    if sp in ("", "r", "s", "!r"):
        return v.dt is not None and v.dt.itemsize == 4 or v.e.decl().eq(cast32)
    return sp[-1] in "eEg" and "." in sp and int(sp[:-1].split(".")[1]) + (1 if sp[-1] in "eE" else 0) >= 9


def tok_number(tok, want):
    v, spec = tok.v, tok.spec
    if isinstance(v, (SStr, SBool)):
        raise Unsupported("number parsed from symbolic text")
    sp = spec.replace("%", "")
    isd = sp in ("", "r", "d", "i", "s") or sp[-1:] in "dri" and sp[:-1].lstrip("<>0").isdigit()
    if want == "i":
        if isf(v):
            raise_py(ValueError, "invalid literal for int()")
        if isd:
            return v
        raise Unsupported("int text format " + spec)
    if isf(v):
        if isd and v.dt is not None and v.dt.kind == "f" and v.dt.itemsize < 8:
            return SNum(ffun("rt:short32", 1)(v.e), FLD)
        return SNum(text_round(v.e, spec), FLD)
    if isd:
        return SNum(i2f(ex(v)), FLD)
    if sp[-1:] in "eEgf":
        return SNum(text_round(i2f(ex(v)), spec), FLD)
    raise Unsupported("float text format " + spec)


def subst_text(s, pairs):
    if not has_tok(s):
        return s
    out = []
    for p in tok_split(s):
        if isinstance(p, str):
            out.append(p)
        else:
            nv = subst(p.v, pairs)
            out.append(tokstr(nv, p.spec) if isinstance(nv, (SNum, SStr, SBool)) else fmt_concrete(nv, p.spec))
    return "".join(out)


def fmt_concrete(v, spec):
    if spec in ("r", "!r"):
        return repr(v)
    if spec.startswith("%"):
        return spec % v
    return format(v, spec)


def subst(v, pairs):
    """replace z3 constants in any value (used to instantiate what a generic iteration produced)"""
    if isinstance(v, (SNum, SBool, SStr)):
        return mk(z3.substitute(v.e, *pairs), getattr(v, "dt", None))
    if isinstance(v, str):
        return subst_text(v, pairs)
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if v is None or isinstance(v, (int, float, bytes, bool, rnp.generic, rnp.dtype, type)):
        return v
    if hasattr(v, "_subst"):
        return v._subst(pairs)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, slice):
        return slice(*(subst(x, pairs) for x in (v.start, v.stop, v.step)))
    if callable(v) or isinstance(v, rnp.ndarray):
        return v
    raise Unsupported(f"substitution into {type(v)}")


def conj(xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            x = x.e
        if x is True or isinstance(x, z3.ExprRef) and z3.is_true(x):
            continue
        if x is False or isinstance(x, z3.ExprRef) and z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]
