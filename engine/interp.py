"""Interpreter for the real source: every function body that is executed is the AST of the file under /repo/src."""
from __future__ import annotations
import ast, zlib, builtins, os, pathlib
import z3
import numpy as rnp
from .core import *
from . import core
from .seq import *
from . import arr as A
from .arr import SArr
from .loops import summarize, BreakEx, ContinueEx, ReturnEx

SRC = pathlib.Path(os.environ.get("VP_SRC", "/repo/src"))


class Mod:
    def __init__(self, name, vars=None):
        self.name, self.vars = name, dict(vars or {})

    def __repr__(self):
        return f"<module {self.name}>"


class Opaque:
    """something outside the model; any use leaves the verified subset"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class Func:
    def __init__(self, node, mod, closure, name, cls=None):
        self.node, self.mod, self.closure, self.name, self.cls = node, mod, closure, name, cls
        self.defaults, self.kwdefaults, self.kind = [], [], "fn"
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    @property
    def qual(self):
        return f"{self.mod.name}.{self.name}"

    def _subst(self, pairs):
        return self

    def __repr__(self):
        return f"<fn {self.qual}>"


def walk_own(fn):
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Cls:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            out += b.mro() if isinstance(b, Cls) else list(b.__mro__)
        return out

    def lookup(self, n):
        for c in self.mro():
            if isinstance(c, Cls) and n in c.ns:
                return c.ns[n]
        return None

    def issub(self, c):
        return c in self.mro()

    def _subst(self, pairs):
        return self

    def __repr__(self):
        return f"<class {self.name}>"


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Native:
    """assumed contract of a function outside the source (python function on symbolic values)"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def _subst(self, pairs):
        return self

    def __repr__(self):
        return f"<native {self.name}>"


MODULES = {}
FUNCS_RUN = set()         # qualified names of interpreted functions
OVERRIDE = {}             # qualified name -> Native: a callee replaced by its (separately checked or assumed) contract
EXTERNAL = {}             # module name -> Mod (models of dependencies)


def module_file(name):
    p = SRC.joinpath(*name.split("."))
    if (p / "__init__.py").exists():
        return p / "__init__.py", True
    if p.with_suffix(".py").exists():
        return p.with_suffix(".py"), False
    return None, False


def load(name):
    if name in MODULES:
        return MODULES[name]
    f, ispkg = module_file(name)
    if f is None:
        if name in EXTERNAL:
            return EXTERNAL[name]
        return Opaque(name)
    m = Mod(name)
    m.file = f
    m.pkg = name if ispkg else name.rpartition(".")[0]
    MODULES[name] = m
    tree = ast.parse(f.read_text())
    CTX.loading += 1
    trail, CTX.trail = CTX.trail, []
    try:
        fr = Frame(None)
        fr.vars = m.vars
        fr.mod = m
        m.vars["__name__"] = name
        m.vars["__file__"] = str(f)
        for st in tree.body:
            stmt(st, fr)
    finally:
        CTX.trail = trail
        CTX.loading -= 1
    return m


def resolve_import(mod, level, name):
    if level == 0:
        return name
    base = mod.pkg.split(".")
    base = base[:len(base) - (level - 1)]
    return ".".join(base + ([name] if name else []))


# ----------------------------------------------------------------------------- names
def lookup(fr, n):
    f = fr
    while f is not None:
        if n in f.vars and not (n in f.globs):
            v = f.vars[n]
            if isinstance(v, Poison):
                if v.t is not None:
                    raise NeedRec(v.t)
                raise Unsupported(f"read of {n}: {v.why}")
            return v
        f = f.parent
    m = fr.mod
    if n in m.vars:
        return m.vars[n]
    if n in BUILTINS:
        return BUILTINS[n]
    if fr.fn is not None and n in fr.localnames:
        raise PyExc(UnboundLocalError(n))
    raise PyExc(NameError(n))


def assign_name(fr, n, v):
    if n in fr.globs:
        raise Unsupported("assignment to a global")
    if n in fr.nonl:
        f = fr.parent
        while f is not None and n not in f.vars:
            f = f.parent
        f.setvar(n, v)
        return
    fr.setvar(n, v)


def new_frame(fn, mod, parent=None):
    fr = Frame(fn, parent)
    fr.mod = mod
    fr.localnames = ()
    return fr


# ----------------------------------------------------------------------------- truth and comparison
def force(v):
    """decide whether an optional value is there"""
    if isinstance(v, SOpt):
        return v.value if CTX.branch(v.cond) else None
    return v


def truth(v):
    if isinstance(v, SOpt):
        v = force(v)
    if v is None or isinstance(v, (bool, int, float, bytes, rnp.generic)):
        return bool(v)
    if isinstance(v, str):
        if has_tok(v):
            return True
        return bool(v)
    if isinstance(v, SBool):
        return CTX.branch(v.e)
    if isinstance(v, SNum):
        return CTX.branch(v.e != (0 if v.e.sort() == IS else fconst(0)))
    if isinstance(v, SStr):
        return CTX.branch(v.e != CTX.strc(""))
    if isinstance(v, (tuple, rnp.dtype)):
        return len(v) > 0 if isinstance(v, tuple) else True
    if isinstance(v, (PList, PSet, PTuple)):
        return CTX.branch(v.seq.length() > 0)
    if isinstance(v, PDict):
        return CTX.branch(dict_ents(v).length() > 0)
    if isinstance(v, SArr):
        if v.ndim == 0:
            return truth(v.scalar())
        if all(isinstance(s, int) for s in v.shape) and A.prod(v.shape) == 1:
            return truth(v.scalar(*[0] * v.ndim))
        raise Unsupported("truth value of an array")
    if isinstance(v, (Func, Native, Cls, Bound, Mod)):
        return True
    if isinstance(v, Obj):
        if isinstance(v.cls, Cls):
            f = v.cls.lookup("__bool__") or v.cls.lookup("__len__")
            if f:
                return truth(call(f, [v], {}))
        return True
    raise Unsupported(f"truth of {type(v)}")


def is_none(v):
    if isinstance(v, SOpt):
        return mk(z3.Not(v.cond))
    return v is None


def eq_vals(a, b):
    """python == ; -> bool / SBool / SArr"""
    a, b = force(a), force(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        if a is None or b is None or isinstance(a, (Func, Cls)) or isinstance(b, (Func, Cls)):
            return False
        return A.ew("eq", npm().as_operand(a), npm().as_operand(b))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and isinstance(b, str) and not has_tok(a) and not has_tok(b):
            if "\ue100" in (a, b) and a != b and (b if a == "\ue100" else a)[:1] in "0123456789+-.infa":
                raise Unsupported("character of a number")
            return a == b
        if isinstance(a, str) and isinstance(b, str) and has_tok(a) != has_tok(b) and not may_equal(*((a, b) if has_tok(a) else (b, a))):
            return False
        return mk(sstr(a) == sstr(b))
    if is_num(a) and is_num(b):
        if not isinstance(a, (SNum, SBool)) and not isinstance(b, (SNum, SBool)):
            return bool(a == b)
        return mk(e_cmp("eq", toe(a), toe(b)))
    if a is None or b is None:
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return and_all([eq_vals(x, y) for x, y in zip(a, b)])
    if isinstance(a, rnp.dtype) or isinstance(b, rnp.dtype):
        try:
            return rnp.dtype(to_dtype(a)) == rnp.dtype(to_dtype(b))
        except Exception:
            return False
    if isinstance(a, PList) and isinstance(b, PList) or isinstance(a, PTuple) and isinstance(b, (PTuple, tuple)):
        x, y = a.seq.concrete(), (b.seq.concrete() if not isinstance(b, tuple) else list(b))
        if x is not None and y is not None:
            if len(x) != len(y):
                return False
            return and_all([eq_vals(p, q) for p, q in zip(x, y)])
        from .spec import same
        return mk(bex(same(a, b)))
    if isinstance(a, PDict) and isinstance(b, PDict):
        x, y = dict_ents(a).concrete(), dict_ents(b).concrete()
        if x is not None and y is not None:
            if len(x) != len(y):
                return False
            if not x:
                return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        if isinstance(a.cls, Cls) and a.cls.lookup("__eq__"):
            return call(a.cls.lookup("__eq__"), [a, b], {})
        return a is b
    if isinstance(a, (bytes, type, Cls, Func)) or isinstance(b, (bytes, type, Cls, Func)):
        return a == b if type(a) is type(b) else False
    kinds = [PList, PTuple, PDict, Obj, str, tuple, int, float]
    ka, kb = [[k for k in kinds if isinstance(x, k)][:1] for x in (a, b)]
    if ka and kb and ka != kb and not (isinstance(a, SNum) or isinstance(b, SNum)):
        return False
    raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")


def may_equal(a, b):
    """can the text a with placeholders be the constant text b?"""
    import re
    pat = ""
    for p in tok_split(a):
        if isinstance(p, str):
            pat += re.escape(p)
        elif isinstance(p.v, SNum):
            pat += r"\s*[-+0-9.eEinfa]+\s*"
        else:
            pat += r"[\s\S]*"
    return re.fullmatch(pat, b) is not None


def and_all(xs):
    if any(isinstance(x, SArr) for x in xs):
        raise Unsupported("truth value of an array")
    r = conj([bex(x) for x in xs])
    return mk(r) if isinstance(r, z3.ExprRef) else r


def neg(v):
    if isinstance(v, bool):
        return not v
    return mk(z3.Not(bex(v)))


def contains(c, x):
    """x in c"""
    if isinstance(c, str):
        if isinstance(x, str) and not has_tok(c) and not has_tok(x):
            return x in c
        if isinstance(x, str) and not has_tok(x) and x:
            parts = tok_split(c)
            if any(isinstance(p, str) and x in p for p in parts):
                return True
            if all(isinstance(p, str) or isinstance(p.v, SNum) for p in parts) and not any(ch in "0123456789+-.eEinfa " for ch in x):
                return False
        raise Unsupported("substring test on symbolic text")
    if isinstance(c, SStr):
        if isinstance(x, str):
            return mk(str_pred("in", x)(c.e))
        raise Unsupported("substring test on symbolic text")
    if isinstance(c, PDict):
        return dict_contains(c, x)
    if isinstance(c, SMap):
        return c.contains(x)
    if isinstance(c, DictView) and c.what == "keys":
        return contains(c.d, x)
    if isinstance(c, range) and isinstance(x, int):
        return x in c
    if isinstance(c, (tuple, PList, PSet, PTuple, Iter, DictView)):
        seq = Seq([Items(c)]) if isinstance(c, tuple) else c.seq
        out = []
        for s in seq.segs:
            if isinstance(s, Items):
                for y in s.xs:
                    r = eq_vals(x, y)
                    if r is True:
                        return True
                    if r is not False:
                        out.append(bex(r))
            else:
                if s.flat:
                    raise Unsupported("membership in a nested sequence")
                j = loopvar("m")
                r = eq_vals(x, s.fn(j))
                out.append(z3.Exists([j], z3.And(0 <= j, j < s.n, s.cond(j) if s.cond else True, bex(r))))
        return mk(z3.Or(*out)) if out else False
    if isinstance(c, SArr):
        if isinstance(x, (str, SStr)):
            raise Unsupported("text in array")
        m = A.ew("eq", c, x)
        return npm().any_(m)
    if isinstance(c, Obj):
        f = getattr(c.cls, "lookup", lambda n: None)("__contains__")
        if f:
            return call(f, [c, x], {})
        if hasattr(c.cls, "contains"):
            return c.cls.contains(c, x)
    raise Unsupported(f"membership in {type(c).__name__}")


# ----------------------------------------------------------------------------- dictionaries
def text_eq(e):
    """texts of one template that differ in one number only are equal iff the numbers are"""
    if z3.is_eq(e):
        a, b = e.arg(0), e.arg(1)
        while z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()) and a.decl().name().startswith("txt:"):
            diff = [(x, y) for x, y in zip(a.children(), b.children()) if not x.eq(y)]
            if len(diff) != 1 or not (z3.is_int(diff[0][0]) or diff[0][0].sort() == SS):
                break
            a, b = diff[0]
        return a == b
    return e


def keyeq(a, b):
    """static knowledge about key equality: True / False / z3"""
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        r = eq_vals(a, b)
        return r if isinstance(r, bool) else text_eq(r.e)
    if type(a) is tuple and type(b) is tuple:
        r = eq_vals(a, b)
        return r if isinstance(r, bool) else r.e
    if is_num(a) and is_num(b):
        r = eq_vals(a, b)
        return r if isinstance(r, bool) else r.e
    if isinstance(a, (str, SStr, int, tuple)) and isinstance(b, (str, SStr, int, tuple)) or a is None or b is None:
        return a is b
    if isinstance(a, (rnp.dtype, type, bytes)) or isinstance(b, (rnp.dtype, type, bytes)):
        try:
            return bool(a == b)
        except Exception:
            return False
    if isinstance(a, Obj) and isinstance(b, Obj) and "_c" in a.attrs and "_c" in b.attrs:
        return a.attrs["_c"] == b.attrs["_c"]
    raise Unsupported(f"dictionary key {type(a).__name__}")


def kterm(k):
    if isinstance(k, (str, SStr)):
        return sstr(k)
    if is_num(k):
        return toe(k)
    raise Unsupported("key of a grouped dictionary")


def dict_normal(d):
    """group contents as entries"""
    if d.group is not None and not d.lay:
        g = d.group
        old = (d.ents, d.group)

        def undo():
            d.ents, d.group = old
        CTX.log(undo)
        d.ents, d.group = g.ents(), None
    return d


def dict_ents(d):
    if d.lay:
        raise Unsupported("dictionary read while it is being grouped")
    dict_normal(d)
    if d.over:
        raise Unsupported("dictionary read while its entries are being replaced")
    if d.maybe:
        return Seq(d.ents.segs + [Gen(z3.If(bex(m.pres), z3.IntVal(1), z3.IntVal(0)), lambda i, k=k, m=m: (k, m.value)) for k, m in d.maybe.items()])
    return d.ents


def simple_concrete(d):
    """all keys known?"""
    return d.group is None and not d.lay and not d.maybe and d.ents.concrete() is not None


def gen_index(d, k):
    """index of the key in the generic entries, if the key is syntactically one of them"""
    g = d.ents.single()
    if g is None or not isinstance(k, SStr):
        return None
    j = loopvar("ki")
    probe = g.fn(j)[0]
    if not isinstance(probe, SStr):
        return None
    m = match(probe.e, j, k.e)
    return m


def shifted(pat, j, k):
    """the only j with j + c == k, for a pattern of this form"""
    if not is_num(pat) or not is_num(k) or isf(pat) or isf(k):
        return None
    c = z3.simplify(ex(pat) - j)
    return z3.simplify(ex(k) - c) if j.decl().name() not in free_consts(c) else None


def uniform(d, k):
    """(is there an entry, its value) of a dictionary from numbers to numbers in which all values are the key plus the same constant"""
    if not is_num(k) or isf(k):
        return None
    cs, here = [], []

    def entry(x, v):
        if not (is_num(x) and is_num(v)) or isf(x) or isf(v):
            return False
        cs.append(z3.simplify(ex(v) - ex(x)))
        return cs[-1].eq(cs[0])
    for s in d.ents.segs:
        if isinstance(s, Items):
            for x, v in s.xs:
                if not entry(x, v):
                    return None
                here.append(ex(x) == ex(k))
        else:
            j = loopvar("m")
            x, v = s.fn(j)
            q = shifted(x, j, k)
            if q is None or not entry(x, v) or j.decl().name() in free_consts(cs[0]):
                return None
            here.append(z3.And(0 <= q, q < s.n, s.cond(q) if s.cond else True))
    return (z3.simplify(z3.Or(*here)), z3.simplify(ex(k) + cs[0])) if here else None


def match(pat, j, t):
    """t == pat[j := e] syntactically -> e"""
    sols = []

    def go(p, q):
        if p.eq(j):
            sols.append(q)
            return True
        if p.eq(q):
            return True
        if z3.is_app(p) and z3.is_app(q) and p.decl().eq(q.decl()) and p.num_args() == q.num_args() and p.num_args():
            return all(go(a, b) for a, b in zip(p.children(), q.children()))
        return False
    if go(pat, t) and sols and all(z3.simplify(s).eq(z3.simplify(sols[0])) for s in sols):
        return sols[0]
    return None


def maybe_key(d, k):
    """the conditional entry under k; None if there is no such entry"""
    if not d.maybe:
        return None
    if isinstance(k, str):
        return d.maybe.get(k)
    raise Unsupported("symbolic key in a dictionary with conditional entries")


def dict_contains(d, k):
    m = maybe_key(d, k)
    if m is not None:
        return mk(bex(m.pres))
    if d.lay:
        for (kt, old, v) in d.lay:
            e = kterm(k)
            if kt.eq(e):
                return True
        if any(True for _ in d.lay):
            for (kt, old, v) in d.lay:
                if CTX.branch(kt == kterm(k)):
                    return True
    if d.group is not None:
        atom = d.group.present(kterm(k))
        d.pres_atoms.append(atom)
        return mk(atom)
    c = d.ents.concrete()
    if c is not None:
        if is_table(k, c):
            t = table(d)
            return mk(t.pres(k.e))
        out = []
        for (x, _) in c:
            r = keyeq(x, k)
            if r is True:
                return True
            if r is not False:
                out.append(r)
        return mk(z3.Or(*out)) if out else False
    if gen_index(d, k) is not None:
        g = d.ents.single()
        e = gen_index(d, k)
        if CTX.implied(z3.And(0 <= e, e < g.n)):
            return True
    out = []
    for s in d.ents.segs:
        if isinstance(s, Items):
            for x, _ in s.xs:
                r = keyeq(x, k)
                if r is True:
                    return True
                if r is not False:
                    out.append(r)
        else:
            j = loopvar("m")
            r = keyeq(s.fn(j)[0], k)
            out.append(z3.Exists([j], z3.And(0 <= j, j < s.n, s.cond(j) if s.cond else True, bex(r))))
    return mk(z3.Or(*out)) if out else False


class Table:
    """a constant dictionary looked up with a symbolic string"""
    def __init__(self, d, ents):
        self.name = "tab:" + str(sum(map(ord, "".join(str(k) for k, _ in ents)))) + "." + str(len(ents)) + "." + str(zlib.crc32(str([v for _, v in ents]).encode()) % 9973)
        self.ents = ents
        vals = [v for _, v in ents]
        self.kind = "i" if all(isinstance(v, int) and not isinstance(v, bool) for v in vals) else "s" if all(isinstance(v, str) for v in vals) else "o"
        self.ints = not isinstance(ents[0][0], str)
        self.pres = z3.Function("in_" + self.name, SS, BS) if not self.ints else (lambda e: z3.Or(*[e == k for k, _ in ents]))
        self.f = z3.Function("at_" + self.name, IS if self.ints else SS, IS if self.kind == "i" else SS) if self.kind in "is" else None
        if self.ints and self.kind == "i":
            self.f = self.chain

    def chain(self, e):
        r = z3.IntVal(self.ents[-1][1])
        for k, v in reversed(self.ents[:-1]):
            r = z3.If(e == k, z3.IntVal(v), r)
        return r


def tab_values(e):
    """the strings that a looked-up value of a constant table can be (its key is in the table)"""
    if z3.is_app(e) and e.decl().name().startswith("at_tab:"):
        for t in CTX.tables.values():
            if "at_" + t.name == e.decl().name() and t.kind == "s":
                return {v for _, v in t.ents}
    return None


def in_table(t, e):
    vs = tab_values(e)
    if vs is not None and vs <= {k for k, _ in t.ents}:
        return True
    return CTX.branch(t.pres(e))


def is_table(k, c):
    if len(c) <= 4:
        return False
    if isinstance(k, SStr):
        return all(isinstance(x[0], str) for x in c)
    if isinstance(k, SNum) and z3.is_int(k.e):
        return all(isinstance(x[0], int) for x in c) and (all(isinstance(x[1], str) for x in c) or len(c) > 12 and all(isinstance(x[1], int) and not isinstance(x[1], bool) for x in c))
    return False


def table(d):
    key = id(d.ents)
    t = CTX.tables.get(key)
    if t is None:
        t = Table(d, d.ents.concrete())
        t.keep = d.ents
        CTX.tables[key] = t
        if not t.ints:
            names = {k for k, _ in t.ents}
            core.PREDS[("tab", t.name)] = (t.pres, names)
    return t


def dict_get(d, k, default=MISSING):
    m = maybe_key(d, k)
    if m is not None:
        if not CTX.branch(bex(m.pres)):
            if default is not MISSING:
                return default
            raise PyExc(KeyError(k))
        return m.value
    if d.lay:
        for (kt, old, v) in d.lay:
            if kt.eq(kterm(k)) or CTX.branch(kt == kterm(k)):
                return v
    if d.group is not None:
        e = kterm(k)
        if not truth(dict_contains(d, k)):
            if default is not MISSING:
                return default
            raise PyExc(KeyError(k))
        if d.group.kind == "list":
            v = PList(d.group.member(e))
        elif d.group.kind == "num":
            v = mk(d.group.total(e))
        else:
            raise Unsupported("value of a grouped dictionary")
        d.set("lay", list(d.lay or []) + [(e, "present", v)])
        return v
    if d.over:
        e = gen_index(d, k)
        for i, v in reversed(d.over):
            if e is not None and e.eq(i):
                return v
            raise Unsupported("dictionary read while its entries are being replaced")
    c = d.ents.concrete()
    if c is not None:
        if is_table(k, c):
            t = table(d)
            if not in_table(t, k.e):
                if default is not MISSING:
                    return default
                raise PyExc(KeyError(k))
            if t.f is not None:
                return mk(t.f(k.e))
            i = CTX.choose(len(c))
            CTX.assume(k.e == (CTX.strc(c[i][0]) if isinstance(c[i][0], str) else c[i][0]))
            if CTX.check(timeout=1000) == z3.unsat:
                raise PathEnd()
            return c[i][1]
        sym = []
        for (x, v) in c:
            r = keyeq(x, k)
            if r is True:
                return v
            if r is not False:
                sym.append((r, v))
        for r, v in sym:
            if CTX.branch(r):
                return v
        if default is not MISSING:
            return default
        raise PyExc(KeyError(k))
    u = uniform(d, k)
    if u is not None:
        if CTX.branch(u[0]):
            return mk(u[1])
        if default is not MISSING:
            return default
        raise PyExc(KeyError(k))
    e = gen_index(d, k)
    if e is not None:
        g = d.ents.single()
        inr = z3.And(0 <= e, e < g.n) if g.cond is None else z3.And(0 <= e, e < g.n, g.cond(e))
        if CTX.implied(inr):
            return mark_temp(g.fn(e)[1])
    for s in d.ents.segs:
        if isinstance(s, Items):
            for x, v in s.xs:
                r = keyeq(x, k)
                if r is True or r is not False and CTX.branch(r):
                    return v
        else:
            j = loopvar("m")
            r = bex(keyeq(s.fn(j)[0], k))
            here = lambda q: z3.And(0 <= q, q < s.n, s.cond(q) if s.cond else True, z3.substitute(r, (j, q)))
            if z3.is_false(z3.simplify(r)):
                continue
            q = shifted(s.fn(j)[0], j, k)
            if q is not None:
                if CTX.branch(here(q)):
                    return mark_temp(s.fn(q)[1])
                continue
            if CTX.branch(z3.Exists([j], here(j))):
                w = CTX.fresh("at")
                CTX.axiom(here(w))
                return mark_temp(s.fn(w)[1])
    if default is not MISSING:
        return default
    raise PyExc(KeyError(k))


def dict_set(d, k, v):
    if CTX.loops and isinstance(k, str) and has_tok(k):
        k = SStr(text_term(k))
    if d.temp and not CTX.loading:
        d.set("ents", d.ents)
    m = maybe_key(d, k)
    if m is not None:
        if not isinstance(v, PList) or v.oid != CTX.noid or v.seq.segs:
            raise Unsupported("conditional dictionary entry is not a new empty list")
        if CTX.branch(bex(m.pres)):
            m.value.set("seq", Seq())
        else:
            m.set("pres", True)
        return
    if d.lay or d.group is not None:
        e = kterm(k)
        lay = list(d.lay or [])
        for i, (kt, old, ov) in enumerate(lay):
            if kt.eq(e) or CTX.branch(kt == e):
                lay[i] = (kt, old, v)
                d.set("lay", lay)
                return
        if d.group is not None:
            old = "present" if truth(dict_contains(d, k)) else "absent"
        else:
            old = "absent"
        d.set("lay", lay + [(e, old, v)])
        return
    e = gen_index(d, k)
    if e is not None:
        g = d.ents.single()
        if CTX.implied(z3.And(0 <= e, e < g.n)):
            from .loops import samev
            if CTX.loops and CTX.loops[-1].k.eq(e):
                if samev(g.fn(e)[1], v) or v is g.fn(e)[1]:
                    return
                d.set("over", list(d.over or []) + [(e, v)])
                return
            if samev(g.fn(e)[1], v):
                return
            d.set("ents", Seq([Gen(g.n, lambda i: (g.fn(i)[0], merge_at(i == e, v, g.fn(i)[1])), g.cond)]))
            return
    c = d.ents.concrete()
    if c is not None:
        for i, (x, ov) in enumerate(c):
            r = keyeq(x, k)
            if r is True or r is not False and CTX.branch(r):
                n = list(c)
                n[i] = (x, v)
                d.set("ents", Seq([Items(n)]))
                return
        if CTX.loops and isinstance(k, (SStr, SNum)):
            # a symbolic key inside a generic iteration
            d.set("lay", [(kterm(k), "absent", v)])
            return
        if CTX.loops and external(d) and isinstance(k, str):
            raise NeedKey(d, k)
        d.set("ents", Seq([Items(list(c) + [(k, v)])]))
        return
    # mixed or generic entries
    for si, s in enumerate(d.ents.segs):
        if isinstance(s, Items):
            for i, (x, ov) in enumerate(s.xs):
                r = keyeq(x, k)
                if r is True or r is not False and CTX.branch(r):
                    n = list(s.xs)
                    n[i] = (x, v)
                    d.set("ents", Seq(d.ents.segs[:si] + [Items(n)] + d.ents.segs[si + 1:]))
                    return
        else:
            j = loopvar("m")
            r = bex(keyeq(s.fn(j)[0], k))
            if z3.is_false(z3.simplify(r)):
                continue
            here = lambda q: z3.And(0 <= q, q < s.n, s.cond(q) if s.cond else True, z3.substitute(r, (j, q)))
            if CTX.branch(z3.Exists([j], here(j))):
                w = CTX.fresh("at")
                CTX.axiom(here(w))
                n = Gen(s.n, lambda i, s=s: (s.fn(i)[0], merge_at(i == w, v, s.fn(i)[1])), s.cond)
                d.set("ents", Seq(d.ents.segs[:si] + [n] + d.ents.segs[si + 1:]))
                return
    if CTX.loops and isinstance(k, (SStr, SNum)):
        d.set("lay", [(kterm(k), "absent", v)])
        return
    d.set("ents", d.ents.append((k, v)))


def merge_at(c, v, w):
    from .loops import merge_vals
    c = z3.simplify(c)
    if z3.is_true(c):
        return v
    if z3.is_false(c):
        return w
    return merge_vals([c, z3.Not(c)], [v, w])


def dict_del(d, k):
    if d.maybe:
        raise Unsupported("deletion from a dictionary with conditional entries")
    if d.temp:
        d.set("ents", d.ents)
    dict_ents(d)
    segs = d.ents.segs
    for si, s in enumerate(segs):
        if isinstance(s, Items):
            for i, (x, _) in enumerate(s.xs):
                r = keyeq(x, k)
                if r is True or r is not False and CTX.branch(r):
                    d.set("ents", Seq(segs[:si] + [Items(s.xs[:i] + s.xs[i + 1:])] + segs[si + 1:]))
                    return
        else:
            e = gen_index(d, k)
            if e is None or not CTX.implied(z3.And(0 <= e, e < s.n)):
                j = loopvar("m")
                r = bex(keyeq(s.fn(j)[0], k))
                here = lambda q: z3.And(0 <= q, q < s.n, s.cond(q) if s.cond else True, z3.substitute(r, (j, q)))
                if not CTX.branch(z3.Exists([j], here(j))):
                    continue
                e = CTX.fresh("at")
                CTX.axiom(here(e))
            oc = s.cond
            g = Gen(s.n, s.fn, lambda i: z3.And(oc(i), i != e) if oc else i != e)
            d.set("ents", Seq(segs[:si] + [g] + segs[si + 1:]))
            return
    raise PyExc(KeyError(k))


class SMap(Heap):
    """a dictionary with unknown content, looked up by key only"""
    def __init__(self, name, value):
        super().__init__()
        self.name = name
        self.pres = lambda e, f=z3.Function("has_" + name, SS, BS): f(e)
        self.value = value          # key term -> value
        self.log = []               # (key, value or None)

    def contains(self, k):
        e = sstr(k)
        for kk, v in reversed(self.log):
            r = keyeq(kk, k)
            if r is True or r is not False and CTX.branch(r):
                return v is not None
        return mk(self.pres(e))

    def get(self, k, default=MISSING):
        for kk, v in reversed(self.log):
            r = keyeq(kk, k)
            if r is True or r is not False and CTX.branch(r):
                if v is None:
                    break
                return v
        else:
            if CTX.branch(self.pres(sstr(k))):
                v = self.value(k)
                if isinstance(v, Heap):
                    if CTX.loops:
                        mark_temp(v)
                    else:
                        v.owner = self.owner
                        old = self.log
                        CTX.log(lambda: self.__dict__.__setitem__("log", old))
                        self.log = self.log + [(k, v)]      # the same object next time (not a change of the map)
                return v
        if default is not MISSING:
            return default
        raise PyExc(KeyError(k))

    def put(self, k, v):
        self.set("log", self.log + [(k, v)])

    @property
    def seq(self):
        """the keys, in some order"""
        n = CTX.named_fun("nkeys_" + self.name, [], IS)()
        f = z3.Function("key_" + self.name, IS, SS)
        CTX.assume(n >= 0)
        if self.log:
            raise Unsupported("iteration over a changed map")
        return Seq([Gen(n, lambda k: mk(f(k)))])


def npm():
    from . import npm as m
    return m


# ----------------------------------------------------------------------------- iteration
def iter_seq(v):
    """-> Seq of the elements of an iterable"""
    v = force(v)
    if isinstance(v, (PList, PTuple, PSet, Iter, DictView, SMap)):
        return v.seq
    if isinstance(v, tuple):
        return Seq([Items(v)])
    if isinstance(v, PDict):
        return dict_ents(v).map(lambda e: e[0])
    if isinstance(v, str):
        if has_tok(v):
            raise Unsupported("iteration over symbolic text")
        return Seq([Items(list(v))])
    if isinstance(v, range):
        return Seq([Items(list(v))]) if len(v) <= 4096 else Seq([Gen(len(v), lambda k: mk(z3.simplify(v.start + v.step * k)))])
    if isinstance(v, SArr):
        if v.ndim == 0:
            raise PyExc(TypeError("iteration over a 0-d array"))
        n = v.shape[0]
        if isinstance(n, int):
            return Seq([Items([A.getitem(v, i) for i in range(n)])])

        def row(k):
            if v.ndim == 1:
                return v.scalar(k)
            return v.view(v.shape[1:], lambda *i: [k, *i])
        return Seq([Gen(n, row)])
    if isinstance(v, Cursor):
        return cursor_rest(v)
    if type(v) is bytes:
        return Seq.of(*v)
    if isinstance(v, Obj):
        if hasattr(v.cls, "iter"):
            return iter_seq(v.cls.iter(v))
        if isinstance(v.cls, Cls) and v.cls.lookup("__iter__"):
            return iter_seq(call(v.cls.lookup("__iter__"), [v], {}))
    if isinstance(v, SOpt):
        return iter_seq(force(v))
    raise Unsupported(f"iteration over {type(v).__name__}")


def cursor_rest(c):
    n = c.seq.length()
    s = c.seq.slice(c.pos, mk(n))
    c.set("pos", mk(n))
    return s


def run_for(seq, body, reads=False):
    """body(value) for every element; BreakEx propagates as return value 'break'"""
    for s in seq.segs:
        if isinstance(s, Items):
            for x in s.xs:
                try:
                    body(x)
                except ContinueEx:
                    pass
                except BreakEx:
                    return "break"
        elif s.flat:
            def inner(k, s=s):
                if run_for(s.fn(k), body) == "break":
                    raise BreakEx()
            if summarize(s.n, s.cond, inner) == "break":
                return "break"
        else:
            n, base = s.n, z3.IntVal(0)
            while reads and s.cond is None:
                # a loop that reads lines: one part for every run of equal lines of the file
                f = FILEMODEL.active_rows(True)
                if f is None:
                    break
                p = f.ps[f.pos]
                m = z3.simplify(p.n - ex(f.off))
                if CTX.implied(n <= m):
                    break
                if not CTX.implied(n >= m) and not CTX.branch(n >= m):
                    break
                if summarize(m, None, lambda k, s=s, base=base: body(mark_temp(s.fn(z3.simplify(base + k))))) == "break":
                    return "break"
                if f.ps[f.pos] is p:
                    if not CTX.implied(ex(f.off) == p.n):
                        raise Unsupported("loop over the lines of a file")
                    FILEMODEL.skip(f)
                n, base = z3.simplify(n - m), z3.simplify(base + m)
            if summarize(n, s.cond, lambda k, s=s, base=base: body(mark_temp(s.fn(z3.simplify(base + k) if reads else k)))) == "break":
                return "break"
    return "done"


# ----------------------------------------------------------------------------- statements
def block(body, fr):
    for s in body:
        stmt(s, fr)


def stmt(s, fr):
    try:
        STMT[type(s)](s, fr)
    except KeyError as e:
        if e.args and e.args[0] is type(s):
            raise Unsupported("statement " + type(s).__name__)
        raise


def s_expr(s, fr):
    ev(s.value, fr)


def s_assign(s, fr):
    v = ev(s.value, fr)
    for t in s.targets:
        assign(t, v, fr)


def assign(t, v, fr):
    if isinstance(t, ast.Name):
        assign_name(fr, t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        v = force(v)
        stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        xs = unpack(v, len(t.elts), stars[0] if stars else None)
        for x, y in zip(t.elts, xs):
            assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
    elif isinstance(t, ast.Attribute):
        setattr_(ev(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript):
        setitem_(ev(t.value, fr), ev_index(t.slice, fr), v)
    else:
        raise Unsupported("assignment target")


def unpack(v, n, star=None):
    if isinstance(v, tuple):
        xs = list(v)
    else:
        seq = iter_seq(v)
        xs = seq.concrete()
        if xs is None:
            L = seq.length()
            if star is None:
                if not CTX.implied(L == n) and not CTX.branch(L == n):
                    raise PyExc(ValueError("wrong number of values to unpack"))
                return [seq.get(i) for i in range(n)]
            raise Unsupported("starred unpacking of a symbolic sequence")
    if star is not None:
        m = len(xs) - (n - 1)
        if m < 0:
            raise PyExc(ValueError("not enough values to unpack"))
        return xs[:star] + [PList(Seq([Items(xs[star:star + m])]))] + xs[star + m:]
    if len(xs) != n:
        raise PyExc(ValueError("wrong number of values to unpack"))
    return xs


def s_augassign(s, fr):
    op = OPS[type(s.op)]
    t = s.target
    if isinstance(t, ast.Name):
        old = lookup(fr, t.id)
        new = inplace(op, old, ev(s.value, fr))
        if new is not old:
            assign_name(fr, t.id, new)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, fr)
        old = getattr_(o, t.attr)
        new = inplace(op, old, ev(s.value, fr))
        if new is not old:
            setattr_(o, t.attr, new)
    elif isinstance(t, ast.Subscript):
        o, ix = ev(t.value, fr), ev_index(t.slice, fr)
        old = getitem_(o, ix)
        if isinstance(o, SArr):
            setitem_(o, ix, binop(op, old, ev(s.value, fr)))
        else:
            new = inplace(op, old, ev(s.value, fr))
            setitem_(o, ix, new)
    else:
        raise Unsupported("augmented assignment")


def inplace(op, old, v):
    if isinstance(old, SArr):
        r = binop(op, old, v)
        if old.ndim == 0:
            return r
        if r.dt.kind == "f" and old.dt.kind in "iu":
            raise PyExc(TypeError("cannot cast ufunc output"))
        A.setitem(old, (Ellipsis,), r)
        return old
    if isinstance(old, PList) and op == "add":
        list_extend(old, v)
        return old
    return binop(op, old, v)


def s_annassign(s, fr):
    if s.value is not None:
        assign(s.target, ev(s.value, fr), fr)


def s_if(s, fr):
    if truth(ev(s.test, fr)):
        block(s.body, fr)
    else:
        block(s.orelse, fr)


FILEMODEL = None


def run_over(v, body, reads=False):
    v = force(v)
    if FILEMODEL is not None and isinstance(v, FILEMODEL.VFile):
        return FILEMODEL.for_lines(v, body)
    return run_for(iter_seq(v), body, reads and FILEMODEL is not None)


def s_for(s, fr):
    it = ev(s.iter, fr)

    def body(v):
        assign(s.target, v, fr)
        block(s.body, fr)
    if run_over(it, body, reads_lines(s, fr)) == "done":
        block(s.orelse, fr)


def reads_lines(s, fr=None):
    r = getattr(s, "_reads", None)
    if r is None:
        r = s._reads = any(isinstance(x, ast.Attribute) and x.attr in ("readline", "readlines") or isinstance(x, ast.Name) and x.id == "next" for x in ast.walk(s))
        if not r and fr is not None:
            # functions of the module that it calls
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    f = fr.mod.vars.get(x.func.id)
                    if isinstance(f, Func) and reads_lines(f.node, Frame_of(f)):
                        r = s._reads = True
                        break
    return r


class Frame_of:
    def __init__(self, f):
        self.mod = f.mod


def while_inv(s, fr, inv):
    """a while loop with an invariant that the contract gives: inv(k) -> {name: value at the start of iteration k} for
    k = 0, ..., inv.n; all other names that the body sets are unknown afterwards"""
    from . import spec, seq as S_
    names = list(inv(z3.IntVal(0)))
    if any(n not in fr.vars for n in names):
        raise Unsupported("the variables of the loop are not the ones of its invariant")
    assigned = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def holds(k, what):
        want = inv(k)
        for n in names:
            try:
                gs = spec.goals(fr.vars[n], want[n], n, ())
            except Unsupported as e:
                raise Undecided(f"loop invariant ({what}): {n}: {e}")
            for h, g, l in gs:
                npc = len(CTX.pc)
                CTX.solver.push()
                try:
                    for x in h:
                        CTX.assume(x)
                    st, det = CTX.prove(bex(g), timeout=8000)
                    if st != "discharged" and not CTX.infeasible():
                        raise Undecided(f"loop invariant ({what}) is not shown for {n}: goal {z3.simplify(bex(g))} under {h} {det or chr(32)}"[:900])
                finally:
                    CTX.solver.pop()
                    del CTX.pc[npc:]

    def put_state(k):
        for n, v in inv(k).items():
            fr.setvar(n, v)
        for n in assigned - set(names):
            if n in fr.vars:
                fr.setvar(n, Poison(n))
    holds(z3.IntVal(0), "entry")
    if CTX.choose(2) == 0:
        k = z3.Int(CTX.name("iter"))
        CTX.assume(z3.And(0 <= k, k < inv.n))
        inv.facts(k)
        put_state(k)
        w = {"mark": CTX.noid, "locs": {}}
        mine = {id(fr.vars[n]) for n in names}
        S_.WRITES.append(w)
        try:
            if not truth(ev(s.test, fr)):
                raise Undecided("loop invariant: the loop may end early")
            try:
                block(s.body, fr)
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx):
                raise Undecided("loop invariant: the loop may end early")
        finally:
            S_.WRITES.pop()
        for obj, field in w["locs"].values():
            if obj is not fr and id(obj) not in mine and not (isinstance(obj, Frame) and obj is fr):
                raise Unsupported("a loop with an invariant writes to other objects: " + type(obj).__name__)
        holds(z3.simplify(k + 1), "step")
        raise PathEnd()
    put_state(inv.n)
    if truth(ev(s.test, fr)):
        raise Undecided("loop invariant: the loop may go on")


def counter(s):
    """the variable that a while loop counts up by a constant in every round, with the step"""
    r = getattr(s, "_counter", None)
    if r is not None:
        return r[0]
    s._counter = [None]
    walk = [x for b in s.body for x in ast.walk(b)]
    if any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.FunctionDef, ast.Lambda)) for x in walk):
        return None
    stores = [x.id for x in walk if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]
    tested = {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}
    for i, b in enumerate(s.body):
        if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name):
            v, st = b.target.id, b.value
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.BinOp) and isinstance(b.value.op, ast.Add):
            v, st = b.targets[0].id, b.value.right
            if not (isinstance(b.value.left, ast.Name) and b.value.left.id == v):
                continue
        else:
            continue
        names = {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}
        if v in tested and stores.count(v) == 1 and not any(t in stores for t in tested - {v}) and not names & set(stores) and not any(isinstance(x, ast.Call) for x in ast.walk(st)):
            s._counter = [(v, st)]
            return s._counter[0]
    return None


def count_while(s, fr):
    """`while test(v): ...; v += c` as a loop over the number m of rounds: the test holds before rounds 0..m-1 and fails
    after them (that the loop ends at all is not shown here)"""
    c = counter(s)
    if c is None or reads_lines(s) or fr.fn is None or c[0] not in fr.vars:
        return False
    v, st = c
    v0 = force(fr.vars[v])
    if not is_num(v0) or isf(v0) or isinstance(v0, bool):
        return False
    step = force(ev(st, fr))
    if not is_num(step) or isf(step) or isinstance(step, bool):
        return False
    t0 = ev(s.test, fr)
    if not isinstance(t0, SBool):
        return False

    def test(k):
        fr.setvar(v, mk(z3.simplify(ex(v0) + ex(k) * ex(step))))
        return bex(ev(s.test, fr))
    n0 = len(CTX.pc)
    m = CTX.fresh("rounds")
    CTX.assume(m >= 0)
    CTX.assume(z3.Not(test(m)))
    CTX.assume(z3.Implies(m >= 1, test(z3.simplify(m - 1))))
    CTX.assume(z3.Implies(m >= 1, test(z3.IntVal(0))))
    fr.setvar(v, v0)
    CTX.assumptions.add("loops `while test(v): ...; v += c` end")

    def body(k):
        t = test(ex(k))
        CTX.assume(t)
        block(s.body, fr)
    if run_for(Seq([Gen(m, lambda k: mk(k))]), body) != "done":
        raise Unsupported("while loop")
    fr.setvar(v, mk(z3.simplify(ex(v0) + m * ex(step))))
    return True


def s_while(s, fr):
    inv = CTX.hooks.get("while")
    if inv is not None and fr.fn is not None and fr.fn.qual in inv and not s.orelse:
        i = [x for x in ast.walk(fr.fn.node) if isinstance(x, ast.While)].index(s)
        if i in inv[fr.fn.qual]:
            while_inv(s, fr, inv[fr.fn.qual][i])
            return
    if count_while(s, fr):
        block(s.orelse, fr)
        return
    n = 0

    def once():
        if not truth(ev(s.test, fr)):
            raise BreakEx()
        block(s.body, fr)
    while True:
        f = FILEMODEL.active_rows() if FILEMODEL is not None and reads_lines(s) else None
        if f is not None:
            n += 1
            if n > 400:
                raise Unsupported("unbounded while loop")
            p = f.ps[f.pos]
            if CTX.implied(p.n == 0):
                FILEMODEL.skip(f)
                continue
            if not reads_lines(s.test) and not isinstance(s.test, ast.Constant) and not truth(ev(s.test, fr)):
                break
            r = FILEMODEL.while_rows(f, p, once)
            if r == "break":
                return
            if r != "past":
                FILEMODEL.skip(f)
            continue
        if not truth(ev(s.test, fr)):
            break
        n += 1
        if n > 400:
            raise Unsupported("unbounded while loop")
        try:
            block(s.body, fr)
        except ContinueEx:
            continue
        except BreakEx:
            return
    block(s.orelse, fr)


def s_return(s, fr):
    raise ReturnEx(None if s.value is None else ev(s.value, fr))


def s_raise(s, fr):
    if s.exc is None:
        raise PyExc(fr.curexc)
    e = ev(s.exc, fr)
    if isinstance(e, (Cls, type)):
        e = call(e, [], {})
    raise PyExc(e)


def exc_match(v, t):
    if isinstance(t, tuple):
        return any(exc_match(v, x) for x in t)
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        return t in v.cls.mro()
    if isinstance(t, type) and isinstance(v, BaseException):
        return isinstance(v, t)
    return False


def s_try(s, fr):
    try:
        try:
            block(s.body, fr)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None or exc_match(e.value, ev(h.type, fr)):
                    if h.name:
                        assign_name(fr, h.name, e.value)
                    fr.curexc = e.value
                    block(h.body, fr)
                    break
            else:
                raise
        else:
            block(s.orelse, fr)
    except (PyExc, ReturnEx, BreakEx, ContinueEx):
        block(s.finalbody, fr)
        raise
    block(s.finalbody, fr)


def s_with(s, fr):
    stack = []
    for it in s.items:
        m = ev(it.context_expr, fr)
        v = enter(m)
        stack.append(m)
        if it.optional_vars is not None:
            assign(it.optional_vars, v, fr)
    try:
        block(s.body, fr)
    except (PyExc, ReturnEx, BreakEx, ContinueEx):
        for m in reversed(stack):
            leave(m)
        raise
    for m in reversed(stack):
        leave(m)


def enter(m):
    if isinstance(m, Obj):
        if hasattr(m.cls, "enter"):
            return m.cls.enter(m)
        if isinstance(m.cls, Cls) and m.cls.lookup("__enter__"):
            return call(m.cls.lookup("__enter__"), [m], {})
    raise Unsupported("context manager")


def leave(m):
    if isinstance(m, Obj):
        if hasattr(m.cls, "leave"):
            return m.cls.leave(m)
        if isinstance(m.cls, Cls) and m.cls.lookup("__exit__"):
            return call(m.cls.lookup("__exit__"), [m, None, None, None], {})


def s_def(s, fr):
    f = Func(s, fr.mod, fr if fr.fn is not None else None, (fr.fn.name + "." if fr.fn is not None else "") + s.name)
    f.defaults = [ev(d, fr) for d in s.args.defaults]
    f.kwdefaults = [None if d is None else ev(d, fr) for d in s.args.kw_defaults]
    v = f
    for d in reversed(s.decorator_list):
        n = d.id if isinstance(d, ast.Name) else getattr(d, "attr", None)
        if n == "property":
            f.kind = "property"
        elif n == "classmethod":
            f.kind = "classmethod"
        elif n == "staticmethod":
            f.kind = "staticmethod"
        elif n == "contextmanager":
            f.kind = "contextmanager"
        else:
            raise Unsupported("decorator")
    fr.setvar(s.name, v)


def s_class(s, fr):
    bases = [ev(b, fr) for b in s.bases]
    cf = new_frame(fr.fn, fr.mod, fr if fr.fn is not None else None)
    for st in s.body:
        if isinstance(st, ast.FunctionDef):
            s_def(st, cf)
            f = cf.vars[st.name]
            f.name = s.name + "." + st.name
        else:
            stmt(st, cf)
    bs = []
    for b in bases:
        if isinstance(b, Opaque):
            raise Unsupported("base class")
        bs.append(b)
    c = Cls(s.name, bs, cf.vars, fr.mod)
    for f in cf.vars.values():
        if isinstance(f, Func):
            f.cls = c
    fr.setvar(s.name, c)


class LazyPkg(Mod):
    """the package itself, imported by one of its modules: names are looked up where its __init__ takes them from"""
    def get(self, n):
        f, _ = module_file(self.name)
        for st in ast.parse(f.read_text()).body:
            if isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if (a.asname or a.name) == n:
                        src = resolve_import(self, st.level, st.module)
                        if module_file(src + "." + a.name)[0] is not None:
                            return load(src + "." + a.name)
                        return load(src).vars[a.name]
        raise PyExc(AttributeError(n))


def s_import(s, fr):
    for a in s.names:
        if a.name == fr.mod.name.split(".")[0] and a.name not in MODULES and module_file(a.name)[1]:
            m = LazyPkg(a.name)
            m.pkg = a.name
            fr.setvar(a.asname or a.name, m)
            continue
        if a.asname:
            fr.setvar(a.asname, load(a.name))
        else:
            top = a.name.split(".")[0]
            load(a.name)
            fr.setvar(top, load(top))


def s_importfrom(s, fr):
    name = resolve_import(fr.mod, s.level, s.module)
    if name == "__future__":
        return
    f, ispkg = module_file(name)
    m = MODULES.get(name)
    for a in s.names:
        # a submodule is loaded without running the package's __init__
        if ispkg and module_file(name + "." + a.name)[0] is not None and not (m and a.name in m.vars):
            v = load(name + "." + a.name)
        else:
            m = load(name)
            if isinstance(m, Opaque):
                v = Opaque(name + "." + a.name)
            elif a.name in m.vars:
                v = m.vars[a.name]
            elif m.name in EXTERNAL:
                v = Opaque(name + "." + a.name)
            else:
                raise PyExc(ImportError(a.name))
        fr.setvar(a.asname or a.name, v)


def s_delete(s, fr):
    for t in s.targets:
        if isinstance(t, ast.Subscript):
            o, ix = ev(t.value, fr), ev_index(t.slice, fr)
            if isinstance(o, PDict):
                dict_del(o, ix)
            elif isinstance(o, SMap):
                o.put(ix, None)
            else:
                raise Unsupported("del of an item")
        elif isinstance(t, ast.Name):
            pass
        else:
            raise Unsupported("del")


def s_assert(s, fr):
    if not truth(ev(s.test, fr)):
        raise PyExc(AssertionError())


def s_global(s, fr):
    fr.globs.update(s.names)


def s_nonlocal(s, fr):
    fr.nonl.update(s.names)


def s_break(s, fr):
    raise BreakEx()


def s_continue(s, fr):
    raise ContinueEx()


STMT = {ast.Expr: s_expr, ast.Assign: s_assign, ast.AugAssign: s_augassign, ast.AnnAssign: s_annassign, ast.If: s_if, ast.For: s_for, ast.While: s_while,
        ast.Return: s_return, ast.Raise: s_raise, ast.Try: s_try, ast.With: s_with, ast.FunctionDef: s_def, ast.ClassDef: s_class, ast.Import: s_import,
        ast.ImportFrom: s_importfrom, ast.Delete: s_delete, ast.Assert: s_assert, ast.Global: s_global, ast.Nonlocal: s_nonlocal,
        ast.Pass: lambda s, fr: None, ast.Break: s_break, ast.Continue: s_continue}


# ----------------------------------------------------------------------------- expressions
OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
       ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift", ast.MatMult: "matmul"}
CMPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
PYOP = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "truediv": lambda a, b: a / b, "floordiv": lambda a, b: a // b,
        "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
        "lshift": lambda a, b: a << b, "rshift": lambda a, b: a >> b}


def concrete_scalar(x):
    return isinstance(x, (int, float, bytes, rnp.generic)) or isinstance(x, str) and not has_tok(x)


def binop(op, a, b):
    a, b = force(a), force(b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("use of a loop temporary")
    if concrete_scalar(a) and concrete_scalar(b):
        if op == "mod" and isinstance(a, str):
            return fmt_percent(a, b)
        try:
            return PYOP[op](a, b)
        except ZeroDivisionError as e:
            raise PyExc(e)
        except TypeError as e:
            raise PyExc(e)
    if isinstance(a, SArr) or isinstance(b, SArr):
        if isinstance(a, str) or isinstance(b, str):
            raise Unsupported("text and array")
        return A.ew(op, npm().as_operand(a), npm().as_operand(b))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and op == "add":
        return txt(a) + txt(b)
    if isinstance(a, str) and op == "mod":
        return fmt_percent(a, b)
    if isinstance(a, str) and isinstance(b, int) and op == "mul":
        return a * b
    if is_num(a) and is_num(b):
        e = e_bin(op, toe(a), toe(b))
        return mk(e, A.result_dt(a, b))
    if isinstance(a, PList) and isinstance(b, PList) and op == "add":
        return PList(a.seq + b.seq)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "add":
        return a + b
    if isinstance(a, (PList, tuple)) and is_num(b) and op == "mul" or isinstance(b, (PList, tuple)) and is_num(a) and op == "mul":
        if is_num(a):
            a, b = b, a
        xs = list(a) if isinstance(a, tuple) else a.seq.concrete()
        if isinstance(b, int):
            if xs is None:
                raise Unsupported("repetition of a symbolic list")
            return a * b if isinstance(a, tuple) else PList(Seq([Items(xs * b)]))
        if xs is not None and len(xs) == 1:
            x = xs[0]
            return PList(Seq([Gen(ex(b) if CTX.implied(ex(b) >= 0) else z3.If(ex(b) >= 0, ex(b), z3.IntVal(0)), lambda k: x)]))
        raise Unsupported("repetition of a list by a symbolic count")
    if isinstance(a, Obj) and hasattr(a.cls, "binop"):
        return a.cls.binop(op, a, b)
    if isinstance(b, Obj) and hasattr(b.cls, "rbinop"):
        return b.cls.rbinop(op, a, b)
    if op == "or" and isinstance(a, PSet) and isinstance(b, PSet):
        raise Unsupported("set operation")
    if (a is None or b is None) or isinstance(a, (PList, tuple)) and is_num(b):
        raise PyExc(TypeError("unsupported operand"))
    raise Unsupported(f"{op} of {type(a).__name__} and {type(b).__name__}")


def txt(x):
    """string value -> text with placeholders"""
    if isinstance(x, str):
        return x
    if isinstance(x, SStr):
        return tokstr(x, "")
    raise Unsupported(f"text of {type(x).__name__}")


def fmt_one(v, spec="", conv=None):
    """format(v, spec) / str(v) / repr(v)"""
    v = force(v)
    if isinstance(v, SStr):
        if conv == "r":
            return "'" + tokstr(v, "") + "'"
        return tokstr(v, spec)
    if isinstance(v, (SNum,)):
        return tokstr(v, "r" if conv == "r" else spec)
    if isinstance(v, SBool):
        return tokstr(v, spec)
    if isinstance(v, str):
        if conv == "r":
            return repr(v) if not has_tok(v) else "'" + v + "'"
        if has_tok(v):
            return v if not spec else tokstr(mk(text_term(v)), spec)
        return format(v, spec)
    if v is None or isinstance(v, (int, float, bytes, rnp.generic, rnp.dtype, type)):
        if conv == "r":
            return repr(v)
        return format(v, spec) if spec else str(v)
    if isinstance(v, SArr) and v.ndim == 0:
        return fmt_one(v.scalar(), spec, conv)
    if isinstance(v, BaseException):
        return str(v)
    if isinstance(v, Obj) and hasattr(v.cls, "text"):
        return fmt_one(v.cls.text(v), spec, conv)
    # only used in messages
    return tokstr(SStr(CTX.fresh("text", SS)), "")


def fmt_percent(a, b):
    args = list(b) if isinstance(b, tuple) else [b]
    import re
    out, pos = [], 0
    for m in re.finditer(r"%(%|[-+ #0]*(\d+|\*)?(\.\d+)?[a-zA-Z])", a):
        out.append(a[pos:m.start()])
        pos = m.end()
        sp = m.group(0)
        if sp == "%%":
            out.append("%")
            continue
        v = force(args.pop(0))
        if isinstance(v, SArr) and v.ndim == 0:
            v = v.scalar()
        if sp[-1] in "di" and isf(v):
            v = mk(float_int(v.e))
        if concrete_scalar(v):
            out.append(sp % v)
        elif sp == "%s":
            out.append(fmt_one(v))
        else:
            out.append(tokstr(v, sp))
    return "".join(out) + a[pos:]


def ev(n, fr):
    f = EXPR.get(type(n))
    if f is None:
        raise Unsupported("expression " + type(n).__name__)
    return f(n, fr)


def e_const(n, fr):
    return n.value


def e_name(n, fr):
    return lookup(fr, n.id)


def e_binop(n, fr):
    return binop(OPS[type(n.op)], ev(n.left, fr), ev(n.right, fr))


def e_unary(n, fr):
    v = force(ev(n.operand, fr))
    if isinstance(n.op, ast.Not):
        if isinstance(v, (SBool, bool)):
            return neg(v)
        return not truth(v)
    if isinstance(n.op, ast.USub):
        if isinstance(v, (int, float, rnp.generic)):
            return -v
        if isinstance(v, SArr):
            return A.ew("sub", 0, v) if v.dt.kind in "iu" else A.ew1(lambda e: ffun("fneg", 1)(e), v, v.dt)
        if isinstance(v, SNum):
            return mk(-v.e, v.dt) if v.e.sort() == IS else SNum(ffun("fneg", 1)(v.e), v.dt)
    if isinstance(n.op, ast.Invert):
        if isinstance(v, SArr) and v.dt.kind == "b":
            return A.ew1(lambda e: z3.Not(e), v, v.dt)
        if isinstance(v, SBool):
            return mk(z3.Not(v.e))
    if isinstance(n.op, ast.UAdd):
        return v
    raise Unsupported("unary operator")


def e_boolop(n, fr):
    isand = isinstance(n.op, ast.And)
    v = None
    for i, x in enumerate(n.values):
        v = ev(x, fr)
        if i == len(n.values) - 1:
            return v
        if truth(v) != isand:
            return (False if isand else True) if isinstance(v, SBool) else v
    return v


def e_compare(n, fr):
    a = ev(n.left, fr)
    res = True
    for op, rn in zip(n.ops, n.comparators):
        b = ev(rn, fr)
        r = compare(op, a, b)
        if len(n.ops) == 1:
            return r
        if not truth(r):
            return False
        a = b
    return True


def compare(op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        if b is None or a is None:
            r = is_none(a if b is None else b)
        elif isinstance(a, (bool, type, Cls, Func, Native)) or isinstance(b, (bool, type, Cls, Func, Native)) or a is b or a is Ellipsis:
            if isinstance(a, SBool) or isinstance(b, SBool):
                raise Unsupported("identity of a symbolic bool")
            r = a is b
        elif isinstance(a, Heap) and isinstance(b, Heap) and not a.temp and not b.temp:
            r = a is b
        else:
            raise Unsupported("identity test")
        return neg(r) if isinstance(op, ast.IsNot) else r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(force(b), force(a))
        return neg(r) if isinstance(op, ast.NotIn) else r
    a, b = force(a), force(b)
    o = CMPS[type(op)]
    if o == "eq":
        return eq_vals(a, b)
    if o == "ne":
        if isinstance(a, SArr) or isinstance(b, SArr):
            if a is None or b is None:
                return True
            return A.ew("ne", npm().as_operand(a), npm().as_operand(b))
        return neg(eq_vals(a, b))
    if isinstance(a, SArr) or isinstance(b, SArr):
        return A.ew(o, npm().as_operand(a), npm().as_operand(b))
    if is_num(a) and is_num(b):
        if not isinstance(a, (SNum, SBool)) and not isinstance(b, (SNum, SBool)):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[o]
        return mk(e_cmp(o, toe(a), toe(b)))
    if concrete_scalar(a) and concrete_scalar(b):
        return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[o]()
    if isinstance(a, tuple) and isinstance(b, tuple) and all(concrete_scalar(x) for x in a + b):
        return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[o]()
    raise Unsupported(f"order of {type(a).__name__} and {type(b).__name__}")


def e_ifexp(n, fr):
    return ev(n.body if truth(ev(n.test, fr)) else n.orelse, fr)


def e_tuple(n, fr):
    return tuple(elements(n.elts, fr)) if not any(isinstance(x, ast.Starred) for x in n.elts) else star_tuple(n.elts, fr)


def elements(elts, fr):
    return [ev(x, fr) for x in elts]


def star_seq(elts, fr):
    seq = Seq()
    for x in elts:
        if isinstance(x, ast.Starred):
            seq = seq + iter_seq(ev(x.value, fr))
        else:
            seq = seq.append(ev(x, fr))
    return seq


def star_tuple(elts, fr):
    s = star_seq(elts, fr)
    c = s.concrete()
    return tuple(c) if c is not None else PTuple(s)


def e_list(n, fr):
    return PList(star_seq(n.elts, fr))


def e_set(n, fr):
    return make_set(star_seq(n.elts, fr))


def make_set(seq):
    c = seq.concrete()
    if c is not None and all(concrete_scalar(x) or isinstance(x, tuple) for x in c):
        out = []
        for x in c:
            if not any(eq_vals(x, y) is True for y in out):
                out.append(x)
        return PSet(Seq([Items(out)]))
    s = PSet(seq)
    s.dup = True
    return s


def e_dict(n, fr):
    d = PDict()
    for k, v in zip(n.keys, n.values):
        if k is None:
            o = ev(v, fr)
            run_for(dict_ents(o), lambda e: dict_set(d, e[0], e[1]))
        else:
            dict_set(d, ev(k, fr), ev(v, fr))
    return d


def comp_frame(fr):
    f = new_frame(fr.fn, fr.mod, fr)
    f.localnames = ()
    f.comp = True
    return f


def comp_run(gens, fr, emit):
    def go(i):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = ev(g.iter, fr)

        def body(v):
            assign(g.target, v, fr)
            for c in g.ifs:
                if not truth(ev(c, fr)):
                    return
            go(i + 1)
        run_over(it, body)
    go(0)


def e_listcomp(n, fr):
    f = comp_frame(fr)
    out = PList()
    comp_run(n.generators, f, lambda: out.set("seq", out.seq.append(ev(n.elt, f))))
    return out


def e_genexp(n, fr):
    return Iter(e_listcomp(n, fr).seq)


def e_setcomp(n, fr):
    return make_set(e_listcomp(n, fr).seq)


def e_dictcomp(n, fr):
    f = comp_frame(fr)
    d = PDict()
    comp_run(n.generators, f, lambda: dict_set(d, ev(n.key, f), ev(n.value, f)))
    return d


def e_lambda(n, fr):
    f = Func(n, fr.mod, fr, "<lambda>")
    f.defaults = [ev(d, fr) for d in n.args.defaults]
    return f


def e_joined(n, fr):
    out = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            out.append(v.value)
        else:
            spec = ""
            if v.format_spec is not None:
                spec = e_joined(v.format_spec, fr)
            conv = {115: "s", 114: "r", 97: "a"}.get(v.conversion)
            out.append(fmt_one(ev(v.value, fr), spec, conv))
    return "".join(out)


def e_attr(n, fr):
    return getattr_(ev(n.value, fr), n.attr)


def ev_index(n, fr):
    if isinstance(n, ast.Slice):
        return slice(*(None if x is None else force(ev(x, fr)) for x in (n.lower, n.upper, n.step)))
    if isinstance(n, ast.Tuple):
        return tuple(ev_index(x, fr) for x in n.elts)
    return ev(n, fr)


def e_subscript(n, fr):
    return getitem_(ev(n.value, fr), ev_index(n.slice, fr))


class SuperCls:
    name = "super"

    def getattr(self, o, n):
        obj, cls = o.attrs["_o"], o.attrs["_k"]
        mro = obj.cls.mro()
        for c in mro[mro.index(cls) + 1:]:
            if isinstance(c, Cls) and n in c.ns:
                return Bound(c.ns[n], obj)
        if n == "__init__":
            return Native("object.__init__", lambda *a, **k: None)
        raise Unsupported("super()." + n)


def e_super(fr):
    f = fr
    while f is not None and (f.fn is None or f.fn.cls is None):
        f = f.parent
    if f is None or isinstance(f.fn.node, ast.Lambda) or not f.fn.node.args.args:
        raise Unsupported("super")
    return Obj(SuperCls(), {"_o": f.vars[f.fn.node.args.args[0].arg], "_k": f.fn.cls})


def e_call(n, fr):
    if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and not n.keywords:
        return e_super(fr)
    fn = ev(n.func, fr)
    args, kw = [], {}
    for a in n.args:
        if isinstance(a, ast.Starred):
            s = iter_seq(ev(a.value, fr))
            c = s.concrete()
            if c is None:
                args.append(StarArg(s))
            else:
                args.extend(c)
        else:
            args.append(ev(a, fr))
    for k in n.keywords:
        if k.arg is None:
            d = ev(k.value, fr)
            if isinstance(d, KwMap):
                kw["**"] = d
                continue
            c = dict_ents(d).concrete()
            if c is None:
                raise Unsupported("symbolic keyword arguments")
            for x, y in c:
                kw[x] = y
        else:
            kw[k.arg] = ev(k.value, fr)
    return call(fn, args, kw)


class StarArg:
    """*args of symbolic length"""
    def __init__(self, seq):
        self.seq = seq


class KwMap:
    """opaque **kwargs that are only passed on"""
    def _subst(self, pairs):
        return self


def e_starred(n, fr):
    raise Unsupported("starred expression")


def e_named(n, fr):
    v = ev(n.value, fr)
    f = fr
    while getattr(f, "comp", False):
        f = f.parent
    assign(n.target, v, f)
    return v


def e_yield(n, fr):
    v = None if n.value is None else ev(n.value, fr)
    fr.yields.set("seq", fr.yields.seq.append(v))
    return None


EXPR = {ast.Constant: e_const, ast.Name: e_name, ast.BinOp: e_binop, ast.UnaryOp: e_unary, ast.BoolOp: e_boolop, ast.Compare: e_compare, ast.IfExp: e_ifexp,
        ast.Tuple: e_tuple, ast.List: e_list, ast.Set: e_set, ast.Dict: e_dict, ast.ListComp: e_listcomp, ast.GeneratorExp: e_genexp, ast.SetComp: e_setcomp,
        ast.DictComp: e_dictcomp, ast.Lambda: e_lambda, ast.JoinedStr: e_joined, ast.Attribute: e_attr, ast.Subscript: e_subscript, ast.Call: e_call,
        ast.Starred: e_starred, ast.NamedExpr: e_named, ast.Yield: e_yield}


# ----------------------------------------------------------------------------- calls
DEPTH = [0]


def call(fn, args, kw):
    if isinstance(fn, Bound):
        return call(fn.fn, [fn.obj] + list(args), kw)
    if isinstance(fn, Func):
        q = fn.qual
        if q in OVERRIDE:
            return OVERRIDE[q](*args, **kw)
        h = CTX.hooks.get("call")
        if h is not None and h(fn, args, kw):
            raise Unsupported("blocked call")
        return call_func(fn, args, kw)
    if isinstance(fn, Native):
        return fn.fn(*args, **kw)
    if isinstance(fn, Cls):
        if fn.mod.name + "." + fn.name in OVERRIDE:
            return OVERRIDE[fn.mod.name + "." + fn.name](*args, **kw)
        o = Obj(fn)
        init = fn.lookup("__init__")
        if init is not None:
            call(init, [o] + list(args), kw)
        elif any(isinstance(c, type) and issubclass(c, BaseException) for c in fn.mro()):
            o.attrs["args"] = tuple(args)
        elif args or kw:
            raise PyExc(TypeError("object takes no arguments"))
        return o
    if isinstance(fn, type):
        return call_type(fn, args, kw)
    if isinstance(fn, rnp.dtype):
        raise PyExc(TypeError("dtype is not callable"))
    if isinstance(fn, Obj):
        if hasattr(fn.cls, "call"):
            return fn.cls.call(fn, *args, **kw)
        if isinstance(fn.cls, Cls) and fn.cls.lookup("__call__"):
            return call(fn.cls.lookup("__call__"), [fn] + list(args), kw)
    if isinstance(fn, Opaque):
        raise Unsupported("call of " + fn.name)
    if fn is None:
        raise PyExc(TypeError("NoneType is not callable"))
    raise Unsupported(f"call of {type(fn).__name__}")


_LOCALS = {}


def localnames(node):
    if node not in _LOCALS:
        s = set()
        for n in walk_own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.add(n.id)
        _LOCALS[node] = s
    return _LOCALS[node]


def call_func(fn, args, kw):
    if not CTX.loading:
        FUNCS_RUN.add(fn.qual)
    DEPTH[0] += 1
    if DEPTH[0] > 60:
        DEPTH[0] = 0
        raise Unsupported("recursion")
    try:
        fr = new_frame(fn, fn.mod, fn.closure)
        fr.localnames = localnames(fn.node)
        bind(fn, fr, list(args), dict(kw))
        if isinstance(fn.node, ast.Lambda):
            return ev(fn.node.body, fr)
        if fn.kind == "contextmanager":
            raise Unsupported("context manager function")
        if fn.isgen:
            fr.yields = PList()
        try:
            block(fn.node.body, fr)
            r = None
        except ReturnEx as e:
            r = e.value
        if fn.isgen:
            return Cursor(fr.yields.seq)
        return r
    finally:
        DEPTH[0] -= 1


def bind(fn, fr, args, kw):
    a = fn.node.args
    if any(isinstance(x, StarArg) for x in args):
        if a.vararg is None or len(args) != 1 or a.args:
            raise Unsupported("symbolic *args")
        fr.setvar(a.vararg.arg, PTuple(args[0].seq))
        return
    pos = [p.arg for p in a.posonlyargs + a.args]
    vals = {}
    kwmap = kw.pop("**", None)
    for n, v in zip(pos, args):
        vals[n] = v
    extra = args[len(pos):]
    if extra:
        if a.vararg is None:
            raise PyExc(TypeError(f"{fn.name}() takes {len(pos)} positional arguments but {len(args)} were given"))
    if a.vararg is not None:
        vals[a.vararg.arg] = tuple(extra)
    kwrest = []
    for k, v in kw.items():
        if k in pos or k in [x.arg for x in a.kwonlyargs]:
            if k in vals:
                raise PyExc(TypeError(f"{fn.name}() got multiple values for argument '{k}'"))
            vals[k] = v
        elif a.kwarg is not None:
            kwrest.append((k, v))
        else:
            raise PyExc(TypeError(f"{fn.name}() got an unexpected keyword argument '{k}'"))
    for n, d in zip(pos[len(pos) - len(fn.defaults):], fn.defaults):
        vals.setdefault(n, d)
    for p, d in zip(a.kwonlyargs, fn.kwdefaults):
        if p.arg not in vals:
            vals[p.arg] = d
    if a.kwarg is not None:
        if kwmap is not None:
            if kwrest:
                raise Unsupported("keyword arguments mixed with unknown ones")
            vals[a.kwarg.arg] = kwmap
        else:
            vals[a.kwarg.arg] = PDict.make(kwrest)
    elif kwmap is not None:
        raise Unsupported("unknown keyword arguments")
    for n in pos + [x.arg for x in a.kwonlyargs]:
        if n not in vals:
            raise PyExc(TypeError(f"{fn.name}() missing argument '{n}'"))
    for n, v in vals.items():
        fr.setvar(n, v)


from .builtins_ import getattr_, setattr_, getitem_, setitem_, call_type, to_dtype, list_extend, builtin_table, DictView          # noqa: E402

BUILTINS = builtin_table()
