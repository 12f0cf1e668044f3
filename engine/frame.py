"""Frame conditions.  Every store, deletion, in-place operation and mutating call in a function (and in everything it calls) is
an obligation: the object that is changed is not one of the caller's.  They are discharged by an ownership analysis of the real
source: flow-sensitive, calls are followed into the callee, objects are named by where they are made, the caller's mesh is an
unknown tree of objects, numpy operations give a fresh array, a view or one of both (assumed table), all branches are taken.
No bound on sizes, values or iterations (loops run to a fixed point of the abstract state)."""
from __future__ import annotations
import ast, os, pathlib, sys
from .interp import SRC, module_file


class Unknown(Exception):
    pass


# ----------------------------------------------------------------------------- abstract values
class Imm:
    def __repr__(self):
        return "imm"


IMM = Imm()
VI = frozenset([IMM])
V0 = frozenset()


class Loc:
    """an abstract object: kind arr, list, dict, set, tuple, obj, ext (of a library), any"""
    def __init__(self, kind, site, owner=None, path="", cls=None):
        self.kind, self.site, self.owner, self.path, self.cls = kind, site, owner, path, cls
        self.many = False
        self.schema = None

    def __repr__(self):
        return f"<{self.owner or 'fresh'} {self.kind} {self.path or self.site}>"


class Fn:
    def __init__(self, node, mod, closure=None, cls=None):
        self.node, self.mod, self.closure, self.cls = node, mod, closure, cls
        self.name = getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return (self.mod.name + "." if self.mod else "") + (self.cls.name + "." if self.cls else "") + self.name


class ClsV:
    def __init__(self, node, mod, bases):
        self.node, self.mod, self.bases, self.name = node, mod, bases, node.name
        self.fns, self.consts = {}, {}

    def find(self, n):
        if n in self.fns:
            return self.fns[n]
        for b in self.bases:
            if isinstance(b, ClsV):
                f = b.find(n)
                if f is not None:
                    return f
        return None


class ModV:
    def __init__(self, name, pkg):
        self.name, self.pkg, self.vars = name, pkg, {}


class Ext:
    """a name of a library: module, function or class"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "ext:" + self.name


_EXT = {}


def ext(name):
    return _EXT.setdefault(name, Ext(name))


class Method:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class State:
    def __init__(self, env, heap):
        self.env, self.heap = env, heap

    def copy(self):
        return State(dict(self.env), {k: dict(v) for k, v in self.heap.items()})


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {}
    for k in a.env.keys() | b.env.keys():
        env[k] = a.env.get(k, V0) | b.env.get(k, V0)
    heap = {}
    for l in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(l), b.heap.get(l)
        if x is None or y is None:
            # an object that only one branch made: its content is that branch's; a caller's object has its first content elsewhere
            if l.schema is None and l not in BASE:
                heap[l] = dict(y if x is None else x)
                continue
            x, y = x or {}, y or {}
        h = {}
        for k in x.keys() | y.keys():
            h[k] = (x[k] if k in x else initial(l, k)) | (y[k] if k in y else initial(l, k))
        heap[l] = h
    return State(env, heap)


def same(a, b):
    if a is None or b is None:
        return a is b
    return a.env == b.env and a.heap == b.heap


BASE = {}          # content of the objects of modules


def initial(l, attr):
    if l.schema is not None:
        v = l.schema(attr)
        if v is not None:
            return v
    return BASE.get(l, {}).get(attr, V0)


# ----------------------------------------------------------------------------- the caller's objects
def caller(kind, path, schema=None, cls=None):
    l = Loc(kind, None, "caller", path, cls)
    memo = {}

    def sch(a):
        if a not in memo:
            memo[a] = schema(a) if schema else None
            if memo[a] is None:
                memo[a] = V0
        return memo[a]
    l.schema = sch
    return l


def c_arr(path):
    l = caller("arr", path)
    me = frozenset([l])
    l.schema = lambda a: me if a == "[]" else V0
    return l


def c_any(path):
    l = caller("any", path)
    sub = []

    def sch(a):
        if not sub:
            sub.append(frozenset([c_any(path + "[..]") if path.count("[..]") < 3 else l, IMM]))
        return sub[0]
    l.schema = sch
    return l


def c_list(path, elem):
    return caller("list", path, lambda a: frozenset([elem()]) if a == "[]" else V0)


def c_dict(path, elem):
    return caller("dict", path, lambda a: frozenset([elem()]) if a == "[]" else V0)


def c_mesh(an, path="mesh"):
    mod = an.module("meshio._mesh")
    MeshC, BlockC = [next(iter(mod.vars[n])) for n in ("Mesh", "CellBlock")]

    def block():
        p = path + ".cells[]"

        def sch(a):
            if a == "data":
                return frozenset([c_arr(p + ".data")])
            if a == "tags":
                return frozenset([c_list(p + ".tags", lambda: IMM)])
            if a in ("type", "dim"):
                return VI
            return V0
        return caller("obj", p, sch, BlockC)

    def sch(a):
        q = path + "." + a
        if a == "points":
            return frozenset([c_arr(q)])
        if a == "cells":
            return frozenset([c_list(q, block)])
        if a in ("point_data", "point_sets", "field_data"):
            return frozenset([c_dict(q, lambda: c_arr(q + "[]"))])
        if a in ("cell_data", "cell_sets"):
            return frozenset([c_dict(q, lambda: c_list(q + "[]", lambda: c_arr(q + "[][]")))])
        if a in ("gmsh_periodic", "info"):
            return frozenset([c_any(q), IMM])
        return V0
    return caller("obj", path, sch, MeshC)


# ----------------------------------------------------------------------------- libraries (assumed)
NP_FRESH = set("""concatenate column_stack hstack vstack dstack stack zeros ones full empty arange linspace eye identity unique sort argsort where sum prod all any max min
amax amin cumsum cumprod diff isin in1d intersect1d union1d setdiff1d isclose allclose array_equal cross dot matmul einsum searchsorted bincount zeros_like ones_like full_like empty_like
lexsort repeat tile append insert delete abs absolute sqrt mean std floor ceil round around rint log log10 exp isnan isfinite logical_and logical_or logical_not logical_xor nonzero flatnonzero
argwhere argmin argmax count_nonzero maximum minimum mod sign power cos sin tan arctan2 meshgrid outer inner clip roll flip fliplr flipud rot90 take choose select digitize histogram
fromiter fromstring frombuffer fromfile loadtxt genfromtxt vectorize array_repr iinfo finfo dtype result_type can_cast issubdtype promote_types ndim size shape isscalar copy
float64 float32 int64 int32 int8 int16 uint8 uint16 uint32 uint64 intc bool_ str_ bytes_ object_ c_ r_ trapz interp median var ptp nan_to_num array2string array_str kron trace pad block
add subtract multiply divide true_divide floor_divide negative equal not_equal less less_equal greater greater_equal bitwise_and bitwise_or left_shift right_shift unravel_index ravel_multi_index
broadcast_shapes may_share_memory shares_memory set_printoptions core.defchararray.encode char.encode char.decode char.add savetxt save tri triu tril apply_along_axis packbits unpackbits
format_float_scientific format_float_positional linalg.norm linalg.det linalg.inv linalg.solve random.rand random.seed isreal iscomplex iscomplexobj isrealobj real_if_close cumulative_sum deg2rad rad2deg hypot square""".split())
NP_ALIAS = set("asarray ascontiguousarray asfortranarray asanyarray atleast_1d atleast_2d atleast_3d ravel reshape squeeze transpose broadcast_to swapaxes expand_dims moveaxis require split array_split hsplit vsplit broadcast_arrays real imag asarray_chkfinite nditer rollaxis diagonal".split())
NP_MUTATE0 = set("copyto put place putmask fill_diagonal random.shuffle put_along_axis".split())
ARR_FRESH = set("copy flatten sum min max all any tolist tobytes tostring tofile argsort nonzero mean cumsum round dot repeat take searchsorted item prod std conj compress argmin argmax choose clip cumprod trace var ptp dump dumps".split())
ARR_ALIAS = set("reshape ravel view transpose squeeze swapaxes newbyteorder diagonal".split())
ARR_MUTATE = set("sort fill resize put itemset partition setfield setflags".split())
ARR_IMM = set("shape ndim size dtype itemsize nbytes strides flags".split())
ARR_ALIAS_ATTR = set("T flat real imag base data".split())
LIST_MUT = set("append extend insert pop remove clear sort reverse appendleft popleft add discard update setdefault popitem difference_update intersection_update __setitem__ __delitem__ move_to_end".split())
PURE_MODULES = set("""h5py netCDF4 struct zlib lzma base64 json re os pathlib sys datetime time string io xml lxml rich warnings shlex subprocess configparser math operator typing random contextlib
logging textwrap uuid tempfile shutil importlib gzip bz2 argparse getpass platform locale traceback types enum dataclasses abc ctypes array numbers fractions decimal hashlib""".split())
IMM_BUILTINS = set("len int float str bytes bool print isinstance issubclass hasattr range any all abs round type id open repr ord chr hash divmod format callable complex pow bin hex oct input memoryview bytearray slice exit quit".split())


class Analysis:
    def __init__(self):
        self.mods = {}
        self.obl = {}            # (function, what) -> set of failing paths (empty: discharged)
        self.unknown = {}        # reasons
        self.assumed = set()
        self.functions = set()
        self.stack = []
        self.locs = {}
        self.steps = 0
        self.quiet = 0
        self.active = {}

    # ---- modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        f, ispkg = module_file(name)
        m = ModV(name, name if ispkg else name.rpartition(".")[0])
        self.mods[name] = m
        tree = ast.parse(f.read_text())
        m.tree = tree
        old, self.stack = self.stack, [("module", name)]
        self.quiet += 1
        st = State(m.vars, {})
        fr = Frame(self, None, m)
        st = fr.block(tree.body, st) or st
        m.vars = st.env if st.env is not None else m.vars
        for l, h in st.heap.items():
            l.owner = l.owner or "module"
            b = BASE.setdefault(l, {})
            for k, v in h.items():
                b[k] = b.get(k, V0) | v
        self.quiet -= 1
        self.stack = old
        return m

    def note(self, why):
        self.unknown[why] = self.unknown.get(why, 0) + 1

    def new(self, st, kind, node, tag="", cls=None):
        key = (tuple(self.stack), id(node), tag, kind)
        l = self.locs.get(key)
        if l is None:
            l = self.locs[key] = Loc(kind, getattr(node, "lineno", 0), cls=cls)
            l.node = node
        if l in st.heap:
            l.many = True
        else:
            st.heap[l] = {}
        return l


class Frame:
    """one activation of a function"""
    def __init__(self, an, fn, mod, closure=None):
        self.an, self.fn, self.mod, self.closure = an, fn, mod, closure
        self.ret, self.retstate, self.yields = V0, None, V0
        self.loops = []
        self.isgen = False
        self.globals = set()
        self.closures = []
        self.recursed, self.known = False, V0

    def where(self):
        return self.fn.qual if self.fn else self.mod.name

    # ---- heap
    def read(self, st, l, a):
        h = st.heap.get(l)
        if h is not None and a in h:
            return h[a]
        return initial(l, a)

    def weak(self, st, l, a, v):
        h = st.heap.setdefault(l, {})
        h[a] = (h[a] if a in h else initial(l, a)) | v

    def elems(self, st, vs):
        """what iterating over / taking an unknown element of the values gives"""
        out = set()
        for v in vs:
            if isinstance(v, Loc):
                if v.kind == "arr":
                    out |= {v, IMM} | self.read(st, v, "[]")
                elif v.kind in ("list", "dict", "set"):
                    out |= self.read(st, v, "[]")
                elif v.kind == "tuple":
                    out |= self.read(st, v, "[]")
                    i = 0
                    while self.read(st, v, str(i)):
                        out |= self.read(st, v, str(i))
                        i += 1
                elif v.kind == "ext":
                    out |= {v, IMM}
                elif v.kind == "any":
                    out |= self.read(st, v, "[]") | {v}
                else:
                    f = v.cls and v.cls.find("__iter__")
                    if f:
                        out |= self.elems(st, self.call_fn(st, f, [frozenset([v])], {}, None))
                    elif v.cls and v.cls.find("__getitem__"):
                        out |= self.call_fn(st, v.cls.find("__getitem__"), [frozenset([v]), VI], {}, None)
                    # else: TypeError, the path ends
            elif v is IMM:
                out.add(IMM)
            elif isinstance(v, (Ext, ModV, ClsV, Fn, Method)):
                out.add(IMM)
        return frozenset(out)

    def iterate(self, st, vs):
        out = set()
        for v in vs:
            if isinstance(v, Loc) and v.kind == "dict":
                out.add(IMM)
            else:
                out |= self.elems(st, [v])
        return frozenset(out)

    # ---- mutation
    def mutate(self, st, vs, what, node, maybe_scalar=False):
        if self.an.quiet:
            return
        key = (self.where(), what)
        bad = self.an.obl.setdefault(key, {})
        for v in vs:
            if isinstance(v, Loc) and v.owner == "caller":
                soft = maybe_scalar and IMM in vs
                bad[v.path] = bad.get(v.path, True) and soft

    # ---- statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        an = self.an
        an.steps += 1
        if an.steps > 400000:
            raise Unknown("too many steps")
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, st)
        elif t is ast.Assign:
            v = self.ev(s.value, st)
            for tg in s.targets:
                self.assign(tg, v, st, s)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st, s)
        elif t is ast.AugAssign:
            self.augassign(s, st)
        elif t is ast.If:
            self.ev(s.test, st)
            a = st.copy()
            r1 = self.block(s.body, self.narrow(s.test, True, st))
            r2 = self.block(s.orelse, self.narrow(s.test, False, a))
            return join(r1, r2)
        elif t in (ast.For, ast.While):
            return self.loop(s, st)
        elif t is ast.Return:
            if s.value is not None:
                self.ret = self.ret | self.ev(s.value, st)
            else:
                self.ret = self.ret | VI
            self.retstate = join(self.retstate, st)
            return None
        elif t is ast.Raise:
            if s.exc is not None:
                self.ev(s.exc, st)
            return None
        elif t is ast.Assert:
            self.ev(s.test, st)
        elif t is ast.Try:
            start = st.copy()
            mid = start.copy()
            cur = st
            for x in s.body:
                if cur is None:
                    break
                cur = self.stmt(x, cur)
                if cur is not None:
                    mid = join(mid, cur.copy())
            if cur is not None and s.orelse:
                cur = self.block(s.orelse, cur)
            out = cur
            for h in s.handlers:
                hs = mid.copy()
                if h.name:
                    hs.env[h.name] = VI
                out = join(out, self.block(h.body, hs))
            if s.finalbody:
                out = self.block(s.finalbody, out if out is not None else mid)
            return out
        elif t is ast.With:
            for it in s.items:
                v = self.ev(it.context_expr, st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, self.enter(st, v, it), st, s)
            return self.block(s.body, st)
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            f = self.closure_fn(s, st)
            decos = [self.ev(d, st) for d in s.decorator_list]
            f.decos = {x.name for d in decos for x in d if isinstance(x, Ext)}
            for d in decos:
                for x in d:
                    if not isinstance(x, Ext):
                        an.note(f"{self.where()}: decorator")
            st.env[s.name] = frozenset([f])
        elif t is ast.ClassDef:
            bases = [x for b in s.bases for x in self.ev(b, st)]
            c = ClsV(s, self.mod, bases)
            for x in s.body:
                if isinstance(x, ast.FunctionDef):
                    f = Fn(x, self.mod, None, c)
                    f.decos = {ast.unparse(d) for d in x.decorator_list}
                    c.fns[x.name] = f
                elif isinstance(x, ast.Assign):
                    v = self.ev(x.value, st)
                    for tg in x.targets:
                        if isinstance(tg, ast.Name):
                            c.consts[tg.id] = v
            st.env[s.name] = frozenset([c])
        elif t is ast.Import:
            for a in s.names:
                if a.name.split(".")[0] == "meshio":
                    st.env[a.asname or a.name.split(".")[0]] = frozenset([an.module(a.name if a.asname else a.name.split(".")[0])])
                else:
                    st.env[a.asname or a.name.split(".")[0]] = frozenset([ext(a.name if a.asname else a.name.split(".")[0])])
        elif t is ast.ImportFrom:
            self.importfrom(s, st)
        elif t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    st.env.pop(tg.id, None)
                elif isinstance(tg, ast.Subscript):
                    self.ev(tg.slice, st)
                    self.mutate(st, self.ev(tg.value, st), ast.unparse(s), s)
                elif isinstance(tg, ast.Attribute):
                    self.mutate(st, self.ev(tg.value, st), ast.unparse(s), s)
        elif t is ast.Global:
            self.globals |= set(s.names)
        elif t is ast.Nonlocal:
            an.note(f"{self.where()}: nonlocal")
        elif t is ast.Break:
            self.loops[-1]["break"] = join(self.loops[-1]["break"], st)
            return None
        elif t is ast.Continue:
            self.loops[-1]["continue"] = join(self.loops[-1]["continue"], st)
            return None
        elif t is ast.Pass:
            pass
        else:
            raise Unknown("statement " + t.__name__)
        return st

    def narrow(self, test, val, st):
        """x is None, isinstance(x, ...): only what the test leaves"""
        def go(t, val):
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                go(t.operand, not val)
            elif isinstance(t, ast.BoolOp):
                if isinstance(t.op, ast.And) == val:
                    for x in t.values:
                        go(x, val)
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and t.left.id in st.env:
                is_none = isinstance(t.ops[0], ast.Is) == val
                if isinstance(t.ops[0], (ast.Is, ast.IsNot)):
                    v = st.env[t.left.id]
                    st.env[t.left.id] = frozenset(x for x in v if x is IMM) if is_none else v
            elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and t.args[0].id in st.env:
                names = {ast.unparse(x) for x in (t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]])}
                v = st.env[t.args[0].id]
                k = {"list": "list", "dict": "dict", "tuple": "tuple", "np.ndarray": "arr", "set": "set"}
                kinds = {k[n] for n in names if n in k}
                if len(kinds) == len(names):
                    keep = lambda x: isinstance(x, Loc) and (x.kind in kinds or x.kind in ("any", "ext"))
                    st.env[t.args[0].id] = frozenset(x for x in v if keep(x)) if val else frozenset(x for x in v if not (isinstance(x, Loc) and x.kind in kinds))
        go(test, val)
        return st

    def loop(self, s, st):
        if isinstance(s, ast.For):
            it = self.ev(s.iter, st)
        ctx = {"break": None, "continue": None}
        self.loops.append(ctx)
        cur = st
        for rnd in range(30):
            before = cur.copy()
            b = cur.copy()
            if isinstance(s, ast.For):
                els = self.iterate(b, it)
                if not els:
                    break           # nothing to iterate over (so far: an enclosing loop comes back here)
                self.assign(s.target, els, b, s)
            else:
                self.ev(s.test, b)
            b = self.block(s.body, b)
            nxt = join(join(before, b), ctx["continue"])
            ctx["continue"] = None
            nxt = nxt.copy()
            if same(nxt, cur):
                break
            cur = nxt
        else:
            raise Unknown("a loop did not reach a fixed point")
        self.loops.pop()
        out = cur
        if s.orelse:
            out = self.block(s.orelse, out.copy())
        return join(out, ctx["break"])

    def enter(self, st, v, node):
        out = set()
        for x in v:
            if isinstance(x, Loc) and x.kind == "obj" and x.cls and x.cls.find("__enter__"):
                out |= self.call_fn(st, x.cls.find("__enter__"), [frozenset([x])], {}, node.context_expr)
            else:
                out.add(x)
        return frozenset(out)

    def importfrom(self, s, st):
        if s.level:
            base = self.mod.pkg.split(".")
            base = base[:len(base) - (s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == "__future__":
            return
        inner = name.split(".")[0] == "meshio"
        for a in s.names:
            if not inner:
                st.env[a.asname or a.name] = frozenset([ext(name + "." + a.name)])
                continue
            if module_file(name + "." + a.name)[0] is not None:
                m = self.an.mods.get(name)
                if not (m and a.name in m.vars and not any(isinstance(x, ModV) for x in m.vars[a.name])):
                    st.env[a.asname or a.name] = frozenset([self.an.module(name + "." + a.name)])
                    continue
            m = self.an.module(name)
            if a.name == "*":
                for k, v in m.vars.items():
                    if not k.startswith("_"):
                        st.env[k] = v
                continue
            if a.name not in m.vars:
                st.env[a.asname or a.name] = VI
                self.an.note(f"import of {name}.{a.name}")
                continue
            st.env[a.asname or a.name] = m.vars[a.name]

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            for f in self.closures:
                f.closure[t.id] = f.closure.get(t.id, V0) | v
            if t.id in self.globals:
                self.an.note(f"{self.where()}: assignment to global {t.id}")
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            for i, x in enumerate(t.elts):
                got = set()
                for y in v:
                    if isinstance(y, Loc) and y.kind == "tuple" and not star and self.read(st, y, str(i)):
                        got |= self.read(st, y, str(i))
                    else:
                        got |= self.iterate(st, [y])
                if isinstance(x, ast.Starred):
                    l = self.an.new(st, "list", x)
                    self.weak(st, l, "[]", frozenset(got))
                    self.assign(x.value, frozenset([l]), st, node)
                else:
                    self.assign(x, frozenset(got), st, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.mutate(st, o, f"{ast.unparse(t)} = ...", node)
            locs = [x for x in o if isinstance(x, Loc)]
            for x in locs:
                if x.kind in ("arr",):
                    continue
                if len(locs) == 1 and not x.many and len(o) == 1:
                    st.heap.setdefault(x, {})[t.attr] = v
                else:
                    self.weak(st, x, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.mutate(st, o, f"{ast.unparse(t)} = ...", node)
            for x in o:
                if isinstance(x, Loc):
                    self.store(st, x, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        else:
            raise Unknown("assignment to " + type(t).__name__)

    def store(self, st, x, v):
        if x.kind == "arr":
            # numpy copies the values; only arrays of objects keep references
            w = frozenset(y for y in v if isinstance(y, Loc) and y.kind in ("obj", "dict"))
            if w:
                self.weak(st, x, "[]", w)
        elif x.kind == "obj" and x.cls and x.cls.find("__setitem__"):
            self.call_fn(st, x.cls.find("__setitem__"), [frozenset([x]), VI, v], {}, None)
        else:
            self.weak(st, x, "[]", v)

    def augassign(self, s, st):
        v = self.ev(s.value, st)
        t = s.target
        load = ast.copy_location(type(t)(**{**{f: getattr(t, f) for f in t._fields}, "ctx": ast.Load()}), t)
        old = self.ev(load, st)
        mut = frozenset(x for x in old if isinstance(x, Loc) and x.kind in ("arr", "list", "set", "dict", "any"))
        if mut:
            self.mutate(st, mut | (VI if IMM in old else V0), ast.unparse(t) + " " + {"Add": "+=", "Sub": "-=", "Mult": "*="}.get(type(s.op).__name__, "op=") + " ...", s, maybe_scalar=True)
            for x in mut:
                if x.kind != "arr":
                    self.weak(st, x, "[]", self.elems(st, v))
        res = frozenset(mut | ({IMM} if IMM in old or not mut else set()) | {x for x in old if isinstance(x, Loc) and x.kind in ("tuple", "ext", "obj")})
        if not mut and any(isinstance(x, Loc) and x.kind == "arr" for x in v):
            # scalar op= array: a new array
            res = frozenset([self.an.new(st, "arr", s, "aug")]) | VI
        if any(isinstance(x, Loc) and x.kind == "tuple" for x in old):
            l = self.an.new(st, "tuple", s, "aug")
            self.weak(st, l, "[]", self.elems(st, old) | self.elems(st, v))
            res = frozenset(x for x in res if not (isinstance(x, Loc) and x.kind == "tuple")) | {l}
        if isinstance(t, ast.Name):
            st.env[t.id] = res
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.mutate(st, o, f"{ast.unparse(t)} op= ...", s)
            for x in o:
                if isinstance(x, Loc):
                    self.store(st, x, res)
        else:
            o = self.ev(t.value, st)
            self.mutate(st, o, f"{ast.unparse(t)} op= ...", s)
            for x in o:
                if isinstance(x, Loc):
                    self.weak(st, x, t.attr, res)

    # ---- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unknown("expression " + type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        return VI

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        c = self.closure
        if c is not None and name in c:
            return c[name]
        if self.mod and name in self.mod.vars:
            return self.mod.vars[name]
        return frozenset([ext("builtins." + name)])

    def e_Name(self, n, st):
        return self.lookup(n.id, st)

    def e_JoinedStr(self, n, st):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, st)
        return VI

    def e_FormattedValue(self, n, st):
        self.ev(n.value, st)
        return VI

    def fresh(self, st, node, kind, elem=V0, tag=""):
        l = self.an.new(st, kind, node, tag)
        if elem:
            self.weak(st, l, "[]", elem)
        return frozenset([l])

    def e_BinOp(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        locs = [x for x in a | b if isinstance(x, Loc)]
        if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            return VI
        out = set()
        kinds = {x.kind for x in locs}
        if "arr" in kinds or "any" in kinds or "ext" in kinds:
            out |= self.fresh(st, n, "arr", tag="b")
            out.add(IMM)
        for k in ("list", "tuple", "set"):
            if k in kinds:
                out |= self.fresh(st, n, k, self.elems(st, [x for x in locs if x.kind == k]), tag=k)
        if "obj" in kinds:
            for x in locs:
                if x.kind == "obj":
                    self.an.note(f"{self.where()}: operator on an object of {x.cls.name if x.cls else '?'}")
        if not out or not locs:
            out.add(IMM)
        return frozenset(out)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return VI
        if any(isinstance(x, Loc) for x in v):
            return self.fresh(st, n, "arr") | VI
        return VI

    def e_BoolOp(self, n, st):
        out = V0
        for x in n.values:
            out = out | self.ev(x, st)
        return out

    def e_Compare(self, n, st):
        vs = self.ev(n.left, st)
        for c in n.comparators:
            vs = vs | self.ev(c, st)
        if any(isinstance(x, Loc) and x.kind in ("arr", "any", "ext") for x in vs) and not all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops):
            return self.fresh(st, n, "arr") | VI
        return VI

    def e_IfExp(self, n, st):
        self.ev(n.test, st)
        return self.ev(n.body, st) | self.ev(n.orelse, st)

    def e_Tuple(self, n, st):
        l = self.an.new(st, "tuple", n)
        if any(isinstance(x, ast.Starred) for x in n.elts):
            for x in n.elts:
                self.weak(st, l, "[]", self.iterate(st, self.ev(x.value, st)) if isinstance(x, ast.Starred) else self.ev(x, st))
        else:
            for i, x in enumerate(n.elts):
                self.weak(st, l, str(i), self.ev(x, st))
        return frozenset([l])

    def e_List(self, n, st):
        v = V0
        for x in n.elts:
            v = v | (self.iterate(st, self.ev(x.value, st)) if isinstance(x, ast.Starred) else self.ev(x, st))
        return self.fresh(st, n, "list", v)

    def e_Set(self, n, st):
        v = V0
        for x in n.elts:
            v = v | (self.iterate(st, self.ev(x.value, st)) if isinstance(x, ast.Starred) else self.ev(x, st))
        return self.fresh(st, n, "set", v)

    def e_Dict(self, n, st):
        v = V0
        for k, x in zip(n.keys, n.values):
            if k is None:
                v = v | self.elems(st, self.ev(x, st))
            else:
                self.ev(k, st)
                v = v | self.ev(x, st)
        return self.fresh(st, n, "dict", v)

    def comp(self, n, st, elts, kind):
        saved = dict(st.env)
        for g in n.generators:
            it = self.iterate(st, self.ev(g.iter, st))
            if not it:
                st.env = saved
                return self.fresh(st, n, kind)
            self.assign(g.target, it, st, n)
            for c in g.ifs:
                self.ev(c, st)
        v = [self.ev(e, st) for e in elts][-1]
        # twice: what the first round stored is seen by the second
        v = v | [self.ev(e, st) for e in elts][-1]
        targets = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for t in targets:
            if t in saved:
                st.env[t] = saved[t]
            else:
                st.env.pop(t, None)
        return self.fresh(st, n, kind, v)

    def e_ListComp(self, n, st):
        return self.comp(n, st, [n.elt], "list")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, [n.elt], "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, [n.elt], "set")

    def e_DictComp(self, n, st):
        return self.comp(n, st, [n.key, n.value], "dict")

    def e_Lambda(self, n, st):
        f = self.closure_fn(n, st)
        f.decos = set()
        return frozenset([f])

    def closure_fn(self, n, st):
        key = ("fn", tuple(self.an.stack), id(n))
        f = self.an.locs.get(key)
        if f is None:
            f = self.an.locs[key] = Fn(n, self.mod, {} if self.fn else None)
        if self.fn:
            # the variables of the enclosing function, whenever the function is made or called
            for d in ([self.closure] if self.closure else []) + [st.env]:
                for k, v in d.items():
                    f.closure[k] = f.closure.get(k, V0) | v
            self.closures.append(f)
        return f

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        st.env[n.target.id] = v
        return v

    def e_Slice(self, n, st):
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                self.ev(x, st)
        return VI

    def e_Starred(self, n, st):
        return self.iterate(st, self.ev(n.value, st))

    def e_Yield(self, n, st):
        self.isgen = True
        if n.value is not None:
            self.yields = self.yields | self.ev(n.value, st)
        return VI

    def e_YieldFrom(self, n, st):
        self.isgen = True
        self.yields = self.yields | self.iterate(st, self.ev(n.value, st))
        return VI

    def e_Await(self, n, st):
        raise Unknown("await")

    def fancy(self, ix, st):
        """is the index certainly an array or list (numpy copies)"""
        parts = ix.elts if isinstance(ix, ast.Tuple) else [ix]
        for p in parts:
            if isinstance(p, ast.Slice) or isinstance(p, ast.Constant):
                continue
            if isinstance(p, (ast.List, ast.ListComp)):
                return True
            v = self.ev(p, st)
            if v and IMM not in v and all(isinstance(x, Loc) and x.kind in ("arr", "list") for x in v):
                return True
            if isinstance(p, (ast.Compare,)) and any(isinstance(x, Loc) for x in v):
                return True
            if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Invert):
                return True
        return False

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        ix = n.slice
        self.ev(ix, st)
        out = set()
        for x in o:
            if isinstance(x, Loc):
                if x.kind == "arr":
                    if self.fancy(ix, st):
                        f = self.fresh(st, n, "arr", frozenset(y for y in self.read(st, x, "[]") if y is not x), tag="fancy")
                        out |= f
                    else:
                        out |= {x, IMM} | self.read(st, x, "[]") if not isinstance(ix, (ast.Slice, ast.Tuple)) or (isinstance(ix, ast.Tuple) and not any(isinstance(p, ast.Slice) for p in ix.elts)) else {x}
                elif x.kind in ("list", "tuple") and isinstance(ix, ast.Slice):
                    out |= self.fresh(st, n, x.kind, self.elems(st, [x]), tag="slice")
                elif x.kind == "tuple" and isinstance(ix, ast.Constant) and isinstance(ix.value, int) and self.read(st, x, str(ix.value)):
                    out |= self.read(st, x, str(ix.value))
                elif x.kind == "obj":
                    f = x.cls and x.cls.find("__getitem__")
                    if f:
                        out |= self.call_fn(st, f, [frozenset([x]), VI], {}, n)
                    # else: TypeError, the path ends
                else:
                    out |= self.elems(st, [x])
            else:
                out.add(IMM)
        return frozenset(out) or VI

    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.attr(st, o, n.attr, n)

    def attr(self, st, o, a, node):
        out = set()
        for x in o:
            if isinstance(x, Loc):
                if x.kind == "arr":
                    if a in ARR_IMM:
                        out.add(IMM)
                    elif a in ARR_ALIAS_ATTR:
                        out.add(x)
                    else:
                        out.add(Method_(x, a))
                elif x.kind == "obj":
                    v = self.read(st, x, a)
                    f = x.cls.find(a) if x.cls else None
                    if v:
                        out |= v
                    elif f is not None:
                        if "property" in f.decos:
                            out |= self.call_fn(st, f, [frozenset([x])], {}, node)
                        else:
                            out.add(Method_(x, a))
                    elif x.cls and a in x.cls.consts:
                        out |= x.cls.consts[a]
                    elif a in ("__class__", "__doc__", "__name__", "__dict__"):
                        if a == "__dict__":
                            self.an.note(f"{self.where()}: __dict__")
                        out.add(IMM)
                    else:
                        out.add(IMM)
                elif x.kind == "ext":
                    out.add(Method_(x, a))
                    out.add(x)
                elif x.kind == "any":
                    if a in ARR_IMM:
                        out.add(IMM)
                    else:
                        out |= {Method_(x, a)} | {y for y in self.read(st, x, a) if y is not IMM}
                else:
                    out.add(Method_(x, a))
            elif isinstance(x, ModV):
                if a in x.vars:
                    out |= x.vars[a]
                elif module_file(x.name + "." + a)[0] is not None:
                    out.add(self.an.module(x.name + "." + a))
                else:
                    self.an.note(f"{x.name}.{a}")
                    out.add(IMM)
            elif isinstance(x, Ext):
                out.add(ext(x.name + "." + a))
            elif isinstance(x, ClsV):
                f = x.find(a)
                if f is not None:
                    out.add(f)
                elif a in x.consts:
                    out |= x.consts[a]
                else:
                    out.add(IMM)
            elif x is IMM:
                out.add(Method_(IMM, a))
            elif isinstance(x, Super):
                f = next((b.find(a) for b in x.cls.bases if isinstance(b, ClsV) and b.find(a)), None)
                out.add(Bound_(f, x.obj) if f else IMM)
            else:
                out.add(IMM)
        return frozenset(out)

    # ---- calls
    def e_Call(self, n, st):
        fv = self.ev(n.func, st)
        if not fv and not self.an.quiet:
            self.an.note(f"{self.where()}: nothing is known about {ast.unparse(n.func)}")
        args, star = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                tl = [x for x in v if isinstance(x, Loc)]
                if len(v) == 1 and tl and tl[0].kind == "tuple" and self.read(st, tl[0], "0"):
                    i = 0
                    while self.read(st, tl[0], str(i)):
                        args.append(self.read(st, tl[0], str(i)))
                        i += 1
                else:
                    star = self.iterate(st, v)
            else:
                args.append(self.ev(a, st))
        kw, kwstar = {}, V0
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, st)
                kwstar = kwstar | self.elems(st, v)
            else:
                kw[k.arg] = self.ev(k.value, st)
        return self.call(st, fv, args, kw, n, star, kwstar)

    def call(self, st, fv, args, kw, node, star=False, kwstar=V0):
        out = set()
        for f in fv:
            if isinstance(f, Fn):
                out |= self.call_fn(st, f, args, kw, node, star, kwstar)
            elif isinstance(f, BoundFn):
                out |= self.call_fn(st, f.fn, [frozenset([f.obj])] + args, kw, node, star, kwstar)
            elif isinstance(f, ClsV):
                out |= self.instantiate(st, f, args, kw, node, star, kwstar)
            elif isinstance(f, Ext):
                a = args + ([star] if star else [])
                k = dict(kw)
                if kwstar:
                    k["**"] = kwstar
                out |= self.call_ext(st, f.name, a, k, node)
            elif isinstance(f, Method):
                a = args + ([star] if star else [])
                k = dict(kw)
                if kwstar:
                    k["**"] = kwstar
                if isinstance(f.recv, Loc) and f.recv.kind == "obj" and f.recv.cls.find(f.name) is not None:
                    g = f.recv.cls.find(f.name)
                    dec = g.decos
                    out |= self.call_fn(st, g, ([] if "staticmethod" in dec else [frozenset([f.recv])]) + args, kw, node, star, kwstar)
                else:
                    out |= self.call_method(st, f.recv, f.name, a, k, node)
            elif f is IMM:
                if any(isinstance(x, Loc) and x.owner == "caller" for v in args + list(kw.values()) for x in v):
                    self.an.note(f"{self.where()}: call of an unknown function {ast.unparse(node.func) if isinstance(node, ast.Call) else ''}")
                out.add(IMM)
            elif isinstance(f, Loc):
                if f.kind == "obj" and f.cls and f.cls.find("__call__"):
                    out |= self.call_fn(st, f.cls.find("__call__"), [frozenset([f])] + args, kw, node, star, kwstar)
                elif f.kind == "ext":
                    out |= {f, IMM}
                    self.an.assumed.add("objects of libraries do not modify the arrays that are passed to them")
                elif f.kind == "any":
                    pass          # the value of an attribute; the method of that name is followed as well
                else:
                    out.add(IMM)
            else:
                out.add(IMM)
        return frozenset(out)

    def instantiate(self, st, c, args, kw, node, star=False, kwstar=V0):
        exc = self.is_exc(c)
        l = self.an.new(st, "obj", node or c.node, "inst" + c.name, cls=c)
        l.cls = c
        init = c.find("__init__")
        if init is not None:
            self.call_fn(st, init, [frozenset([l])] + args, kw, node, star, kwstar)
        elif any(isinstance(b, Ext) and b.name.endswith("namedtuple") for b in c.bases) or not exc:
            # dataclass / plain
            fields = [x.target.id for x in c.node.body if isinstance(x, ast.AnnAssign)]
            for fname, v in zip(fields, args):
                self.weak(st, l, fname, v)
            for k, v in kw.items():
                self.weak(st, l, k, v)
        return frozenset([l])

    def is_exc(self, c):
        return any((isinstance(b, Ext) and ("Exception" in b.name or "Error" in b.name)) or (isinstance(b, ClsV) and self.is_exc(b)) for b in c.bases)

    def call_fn(self, st, f, args, kw, node, star=False, kwstar=V0):
        an = self.an
        q = f.qual
        if q in OVERRIDES:
            return OVERRIDES[q](self, st, args, kw, node)
        key = (q, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        for fr0, args0, kw0 in an.active.get(q, []):
            if not star and not kwstar and len(args0) == len(args) and all(x <= y for x, y in zip(args, args0)) and kw.keys() == kw0.keys() and all(kw[k] <= kw0[k] for k in kw):
                # recursion on arguments that an active call already has: its result so far (that call is repeated until it is stable)
                fr0.recursed = True
                return fr0.ret | fr0.known
        if sum(1 for k in an.stack if k[0] == q) >= 6:
            an.note(f"{q}: recursion")
            return VI
        if len(an.stack) > 40:
            raise Unknown("call depth")
        an.functions.add(q)
        fr = Frame(an, f, f.mod, f.closure)
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        for nme, v in zip(pos, args):
            env[nme] = v
        extra = args[len(pos):]
        if a.vararg:
            l = an.new(st, "tuple", f.node, "vararg")
            st.heap[l] = {}
            for i, v in enumerate(extra):
                self.weak(st, l, str(i), v)
            if star:
                self.weak(st, l, "[]", star)
            env[a.vararg.arg] = frozenset([l])
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        rest = V0
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                rest = rest | v
        if a.kwarg:
            l = an.new(st, "dict", f.node, "kwarg")
            st.heap[l] = {}
            if rest | kwstar:
                self.weak(st, l, "[]", rest | kwstar)
            env[a.kwarg.arg] = frozenset([l])
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for nme in names:
            if nme not in env:
                v = V0
                if star:
                    v = v | star
                if kwstar:
                    v = v | kwstar
                if nme in defaults:
                    dfr = Frame(an, None, f.mod)
                    v = v | dfr.ev(defaults[nme], State({}, st.heap))
                env[nme] = v or VI
        an.stack.append(key)
        act = an.active.setdefault(q, [])
        try:
            known = V0
            for rnd in range(6):
                inner = State(dict(env), st.heap)
                fr = Frame(an, f, f.mod, f.closure)
                fr.known = known
                act.append((fr, list(args), dict(kw)))
                try:
                    if isinstance(f.node, ast.Lambda):
                        # a lambda sees the variables of its definition
                        r = fr.ev(f.node.body, inner)
                        st.heap = inner.heap
                        return r
                    end = fr.block(f.node.body, inner)
                finally:
                    act.pop()
                now = fr.ret | (VI if end is not None else V0)
                if not fr.recursed or now <= known:
                    break
                known = now | known
                o = join(fr.retstate, end)
                if o is not None:
                    st.heap = o.heap
            else:
                raise Unknown("recursion without fixed point")
        finally:
            an.stack.pop()
        out = join(fr.retstate, end)
        if out is not None:
            st.heap = out.heap
        r = fr.ret
        if end is not None:
            r = r | VI
        if fr.isgen:
            r = self.fresh(st, f.node, "list", fr.yields, tag="gen")
            if any("contextmanager" in d for d in f.decos):
                return fr.yields or VI
        if any("property" in d and d != "property" for d in f.decos):
            pass
        return r if r else VI

    # ---- libraries
    def touched(self, vs):
        return [x for v in vs for x in v if isinstance(x, Loc) and x.owner == "caller"]

    def call_ext(self, st, name, args, kw, node):
        an = self.an
        allv = list(args) + list(kw.values())
        first = args[0] if args else V0
        if name.startswith("builtins."):
            return self.call_builtin(st, name[9:], args, kw, node)
        top = name.split(".")[0]
        if top in ("numpy", "np"):
            f = name.partition(".")[2]
            if "out" in kw:
                self.mutate(st, kw["out"], f"np.{f}(out=...)", node)
            if f in NP_MUTATE0 or f.endswith(".at"):
                self.mutate(st, first, f"np.{f}({ast.unparse(node.args[0])}, ...)" if isinstance(node, ast.Call) and node.args else f, node)
                return VI
            if f == "array":
                if "copy" in kw and not self.const(node, "copy", True):
                    return self.np_alias(st, first, node)
                return self.np_fresh(st, first, node)
            if f in NP_ALIAS:
                return self.np_alias(st, first, node)
            if f in ("nan_to_num",) and "copy" in kw:
                self.mutate(st, first, "np.nan_to_num(copy=False)", node)
                return self.np_alias(st, first, node)
            if f in NP_FRESH or f.split(".")[0] in ("testing", "dtypes"):
                return self.np_fresh(st, V0, node) | VI
            if f in ("ndenumerate", "ndindex"):
                l = self.an.new(st, "tuple", node, "nde")
                self.weak(st, l, "0", VI)
                self.weak(st, l, "1", self.elems(st, first) or VI)
                return self.fresh(st, node, "list", frozenset([l]), tag="ndel")
            if self.touched(allv):
                an.note(f"{self.where()}: numpy function {f} is not in the table")
            return self.np_fresh(st, V0, node) | VI
        if name in ("copy.copy",):
            out = set()
            for x in first:
                if isinstance(x, Loc):
                    l = an.new(st, x.kind, node, "copy" + str(x.path or x.site), cls=x.cls)
                    attrs = set(st.heap.get(x, {})) | set(BASE.get(x, {})) | ({"points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets", "gmsh_periodic", "info", "data", "type", "tags", "dim"} if x.kind == "obj" else {"[]"})
                    st.heap[l] = {}
                    for a in attrs:
                        v = self.read(st, x, a)
                        if x.kind == "arr" and a == "[]":
                            v = frozenset(y for y in v if y is not x)
                        if v:
                            st.heap[l][a] = v
                    out.add(l)
                else:
                    out.add(x)
            return frozenset(out)
        if name == "copy.deepcopy":
            return frozenset(self.deep(st, x, node, {}) for x in first)
        if name in ("collections.defaultdict", "collections.OrderedDict", "collections.Counter"):
            v = V0
            if name.endswith("defaultdict"):
                for f in first:
                    if isinstance(f, (Fn, ClsV)) or (isinstance(f, Ext)):
                        v = v | self.call(st, frozenset([f]), [], {}, node)
            else:
                v = self.elems(st, first)
            return self.fresh(st, node, "dict", v)
        if name in ("collections.deque",):
            return self.fresh(st, node, "list", self.iterate(st, first))
        if name == "collections.namedtuple":
            an.note("namedtuple")
            return VI
        if top == "itertools":
            v = V0
            if name == "itertools.chain.from_iterable":
                v = self.iterate(st, self.iterate(st, first))
            elif name in ("itertools.groupby",):
                key = kw.get("key") or (args[1] if len(args) > 1 else V0)
                es = self.iterate(st, first)
                kv = self.call(st, key, [es], {}, node) if key else es
                g = self.fresh(st, node, "list", es, tag="grp")
                l = an.new(st, "tuple", node, "grpt")
                self.weak(st, l, "0", kv)
                self.weak(st, l, "1", g)
                v = frozenset([l])
            elif name in ("itertools.chain", "itertools.islice", "itertools.cycle", "itertools.repeat"):
                for a in args:
                    v = v | self.iterate(st, a)
            elif name == "itertools.count":
                v = VI
            else:
                l = an.new(st, "tuple", node, "itt")
                for a in args:
                    self.weak(st, l, "[]", self.iterate(st, a))
                v = frozenset([l])
            return self.fresh(st, node, "list", v, tag="iter")
        if name == "functools.partial":
            l = Fn(ast.parse("lambda *a, **k: None", mode="eval").body, self.mod)
            l.decos = set()
            an.note(f"{self.where()}: functools.partial") if self.touched(allv) else None
            return frozenset([Partial(first, args[1:], kw)])
        if name == "functools.reduce":
            es = self.iterate(st, args[1]) if len(args) > 1 else V0
            acc = es | (args[2] if len(args) > 2 else V0)
            for _ in range(3):
                acc = acc | self.call(st, first, [acc, es], {}, node)
            return acc
        if top == "registered writer":
            return VI
        if top in PURE_MODULES or top in ("collections", "functools"):
            if self.touched(allv):
                an.assumed.add(f"functions of {top} do not modify the arrays that are passed to them")
            return frozenset([self.an.new(st, "ext", node, name), IMM])
        if self.touched(allv):
            an.note(f"{self.where()}: library function {name} is not in the table")
        return frozenset([self.an.new(st, "ext", node, name), IMM])

    def const(self, node, kwname, value):
        for k in node.keywords:
            if k.arg == kwname:
                return isinstance(k.value, ast.Constant) and k.value.value is value
        return False

    def deep(self, st, x, node, memo):
        if not isinstance(x, Loc) or x.kind == "ext":
            return x
        if x in memo:
            return memo[x]
        l = self.an.new(st, x.kind, node, "deep" + (x.path or str(id(x))), cls=x.cls)
        memo[x] = l
        st.heap[l] = {}
        attrs = set(st.heap.get(x, {})) | set(BASE.get(x, {})) | ({"points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets", "gmsh_periodic", "info", "data", "type", "tags", "dim"} if x.kind == "obj" else {"[]"})
        for a in attrs:
            v = self.read(st, x, a)
            if v:
                st.heap[l][a] = frozenset(self.deep(st, y, node, memo) for y in v)
        return l

    def np_fresh(self, st, vs, node):
        l = self.an.new(st, "arr", node, "np")
        keep = frozenset(y for x in vs if isinstance(x, Loc) and x.kind in ("list", "tuple", "arr") for y in self.elems(st, [x]) if isinstance(y, Loc) and y.kind in ("obj", "dict"))
        if keep:
            self.weak(st, l, "[]", keep)
        return frozenset([l])

    def np_alias(self, st, vs, node):
        """the array itself if it is one, else a new one (of the elements of a list); np.split gives views"""
        out = set()
        for x in vs:
            if isinstance(x, Loc) and x.kind in ("arr", "any"):
                out.add(x)
            elif isinstance(x, Loc) and x.kind in ("list", "tuple", "set", "dict"):
                out |= self.np_fresh(st, frozenset([x]), node)
            else:
                out |= self.np_fresh(st, V0, node)
        return frozenset(out) or self.np_fresh(st, V0, node)

    def call_builtin(self, st, f, args, kw, node):
        first = args[0] if args else V0
        an = self.an
        if f in ("list", "sorted", "reversed", "iter"):
            if "key" in kw:
                self.call(st, kw["key"], [self.iterate(st, first)], {}, node)
            return self.fresh(st, node, "list", self.iterate(st, first), tag=f)
        if f == "tuple":
            return self.fresh(st, node, "tuple", self.iterate(st, first))
        if f in ("set", "frozenset"):
            return self.fresh(st, node, "set", self.iterate(st, first))
        if f == "dict":
            v = V0
            for x in first:
                if isinstance(x, Loc) and x.kind == "dict":
                    v = v | self.elems(st, [x])
                else:
                    for y in self.iterate(st, [x]):
                        if isinstance(y, Loc) and y.kind == "tuple" and self.read(st, y, "1"):
                            v = v | self.read(st, y, "1")
                        else:
                            v = v | self.elems(st, [y])
            for k in kw.values():
                v = v | k
            return self.fresh(st, node, "dict", v)
        if f == "enumerate":
            l = an.new(st, "tuple", node, "en")
            self.weak(st, l, "0", VI)
            self.weak(st, l, "1", self.iterate(st, first) or VI)
            return self.fresh(st, node, "list", frozenset([l]), tag="enl")
        if f == "zip":
            l = an.new(st, "tuple", node, "zip")
            for i, a in enumerate(args):
                self.weak(st, l, str(i), self.iterate(st, a) or VI)
            return self.fresh(st, node, "list", frozenset([l]), tag="zipl")
        if f == "map":
            es = [self.iterate(st, a) for a in args[1:]]
            return self.fresh(st, node, "list", self.call(st, first, es, {}, node), tag="map")
        if f == "filter":
            es = self.iterate(st, args[1]) if len(args) > 1 else V0
            self.call(st, first, [es], {}, node)
            return self.fresh(st, node, "list", es, tag="filter")
        if f in ("min", "max", "sum", "next"):
            if "key" in kw:
                self.call(st, kw["key"], [self.iterate(st, first)], {}, node)
            out = V0
            for a in args:
                out = out | (self.iterate(st, a) if len(args) == 1 or f in ("sum", "next") else a)
            if f == "sum":
                ls = [x for x in out if isinstance(x, Loc)]
                if ls:
                    return (self.fresh(st, node, ls[0].kind, self.elems(st, [x for x in ls if x.kind != "arr"]), tag="sum")) | VI
            return out | VI
        if f == "getattr":
            nm = node.args[1] if isinstance(node, ast.Call) and len(node.args) > 1 else None
            if isinstance(nm, ast.Constant):
                return self.attr(st, first, nm.value, node) | (args[2] if len(args) > 2 else V0)
            out = set()
            for x in first:
                if isinstance(x, Loc) and x.owner == "caller" and x.kind == "obj":
                    for a in ("points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets", "data", "tags"):
                        out |= self.read(st, x, a)
                elif isinstance(x, Loc):
                    for a in st.heap.get(x, {}):
                        out |= self.read(st, x, a)
            return frozenset(out) | VI
        if f in ("setattr", "delattr"):
            self.mutate(st, first, f"{f}({ast.unparse(node.args[0])}, ...)", node)
            nm = node.args[1] if len(node.args) > 1 else None
            for x in first:
                if isinstance(x, Loc) and len(args) > 2:
                    if isinstance(nm, ast.Constant):
                        self.weak(st, x, nm.value, args[2])
                    else:
                        an.note(f"{self.where()}: setattr of a computed name")
            return VI
        if f == "super":
            if self.fn and self.fn.cls and self.fn.node.args.args:
                return frozenset(Super_(self.fn.cls, x) for x in st.env.get(self.fn.node.args.args[0].arg, V0) if isinstance(x, Loc))
            return VI
        if f in ("vars", "globals", "locals", "eval", "exec", "__import__"):
            an.note(f"{self.where()}: {f}()")
            return VI
        if f == "object":
            return self.fresh(st, node, "ext")
        if f == "open":
            return self.fresh(st, node, "ext") | VI
        return VI

    def call_method(self, st, r, m, args, kw, node):
        an = self.an
        if r is IMM:
            if m in ("join", "format"):
                return VI
            if m in ("split", "splitlines", "rsplit", "partition", "findall", "groups"):
                return self.fresh(st, node, "list", VI)
            return VI
        me = frozenset([r])
        first = args[0] if args else V0
        src = ast.unparse(node.func) if isinstance(node, ast.Call) else m
        if r.kind == "arr" or (r.kind == "any" and m in (ARR_MUTATE | LIST_MUT)):
            if m in ARR_MUTATE or (r.kind == "any" and m in LIST_MUT):
                self.mutate(st, me, f"{src}(...)", node)
                return VI
            if m == "byteswap":
                if args or kw:
                    self.mutate(st, me, f"{src}(inplace)", node)
                    return me
                return self.fresh(st, node, "arr")
            if m == "astype":
                if "copy" in kw and not self.const(node, "copy", True):
                    return me | self.fresh(st, node, "arr", tag="astype")
                return self.fresh(st, node, "arr", tag="astype")
            if "out" in kw:
                self.mutate(st, kw["out"], f"{src}(out=...)", node)
            if m in ARR_FRESH:
                if m == "tolist":
                    return self.fresh(st, node, "list", VI, tag="tolist")
                return self.fresh(st, node, "arr", tag=m) | (VI if m not in ("copy", "flatten", "repeat", "take") else V0)
            if m in ARR_ALIAS:
                return me
            if m in ("items", "keys", "values", "append", "encode", "decode", "strip", "split", "startswith", "endswith", "lower", "upper", "join", "index", "count", "format", "get", "pop", "extend", "update", "__len__", "write", "replace"):
                # not an array on this path (dynamic type): mutators of containers on an array do not exist
                return VI | (self.elems(st, me) if m in ("values", "get", "items") else V0)
            if r.owner == "caller":
                an.note(f"{self.where()}: array method {m} is not in the table")
            return VI
        if r.kind in ("list", "dict", "set", "tuple"):
            if m in LIST_MUT:
                self.mutate(st, me, f"{src}(...)", node)
                if m in ("append", "add", "appendleft"):
                    self.weak(st, r, "[]", first)
                elif m == "insert":
                    self.weak(st, r, "[]", args[1] if len(args) > 1 else V0)
                elif m in ("extend",):
                    self.weak(st, r, "[]", self.iterate(st, first))
                elif m == "update":
                    v = V0
                    for a in args:
                        for x in a:
                            if isinstance(x, Loc) and x.kind == "dict":
                                v = v | self.elems(st, [x])
                            else:
                                for y in self.iterate(st, [x]):
                                    v = v | (self.read(st, y, "1") if isinstance(y, Loc) and y.kind == "tuple" else frozenset([y]))
                    for a in kw.values():
                        v = v | a
                    self.weak(st, r, "[]", v)
                elif m == "setdefault":
                    if len(args) > 1:
                        self.weak(st, r, "[]", args[1])
                    return self.elems(st, me) | VI
                elif m in ("pop", "popleft"):
                    return self.elems(st, me) | (args[1] if len(args) > 1 else V0) | (VI if r.kind == "dict" else V0)
                elif m == "popitem":
                    l = an.new(st, "tuple", node, "pi")
                    self.weak(st, l, "0", VI)
                    self.weak(st, l, "1", self.elems(st, me))
                    return frozenset([l])
                elif m == "sort" and "key" in kw:
                    self.call(st, kw["key"], [self.iterate(st, me)], {}, node)
                return VI
            if m == "items":
                l = an.new(st, "tuple", node, "items")
                self.weak(st, l, "0", VI)
                self.weak(st, l, "1", self.elems(st, me) or VI)
                return self.fresh(st, node, "list", frozenset([l]), tag="itemsl")
            if m == "keys":
                return self.fresh(st, node, "list", VI, tag="keys")
            if m == "values":
                return self.fresh(st, node, "list", self.elems(st, me), tag="values")
            if m == "get":
                return self.elems(st, me) | (args[1] if len(args) > 1 else VI)
            if m in ("copy", "union", "intersection", "difference", "symmetric_difference"):
                v = self.elems(st, me)
                for a in args:
                    v = v | self.iterate(st, a)
                return self.fresh(st, node, r.kind, v, tag=m)
            if m == "__getitem__":
                return self.elems(st, me)
            return VI
        if r.kind == "ext":
            if self.touched(args + list(kw.values())):
                an.assumed.add("objects of libraries do not modify the arrays that are passed to them")
            return frozenset([r, IMM])
        if r.kind == "obj":
            if self.is_exc(r.cls):
                return VI
            an.note(f"{self.where()}: method {m} of {r.cls.name} is unknown")
            return VI
        if r.kind == "any":
            if m == "items":
                l = an.new(st, "tuple", node, "items")
                self.weak(st, l, "0", VI)
                self.weak(st, l, "1", self.elems(st, me))
                return self.fresh(st, node, "list", frozenset([l]), tag="itemsl")
            if m in ("keys", "values", "get"):
                return self.elems(st, me)
            if m in ("copy", "astype", "tolist", "tobytes", "tofile"):
                return self.fresh(st, node, "arr")
            if m in ARR_ALIAS:
                return me
            return self.elems(st, me)
        return VI


_METH = {}


def Method_(r, a):
    k = (id(r), a)
    if k not in _METH:
        _METH[k] = (r, Method(r, a))
    return _METH[k][1]


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class BoundFn:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


_MEMO = {}


def Super_(c, o):
    return _MEMO.setdefault(("super", id(c), id(o)), Super(c, o))


def Bound_(f, o):
    return _MEMO.setdefault(("bound", id(f), id(o)), BoundFn(f, o))


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


_old_call = Frame.call


def _call(self, st, fv, args, kw, node, star=False, kwstar=V0):
    ps = [f for f in fv if isinstance(f, Partial)]
    out = V0
    for p in ps:
        out = out | self.call(st, p.f, list(p.args) + list(args), {**p.kw, **kw}, node, star, kwstar)
    rest = frozenset(f for f in fv if not isinstance(f, Partial))
    return out | (_old_call(self, st, rest, args, kw, node, star, kwstar) if rest else V0)


Frame.call = _call
OVERRIDES = {
    "meshio._helpers.register_format": lambda fr, st, a, k, n: VI,
    "meshio._files.open_file": lambda fr, st, a, k, n: frozenset([fr.an.new(st, "ext", n, "file"), IMM]),
    "meshio._common.warn": lambda fr, st, a, k, n: VI, "meshio._common.error": lambda fr, st, a, k, n: VI, "meshio._common.info": lambda fr, st, a, k, n: VI,
}


# ----------------------------------------------------------------------------- the registered writers
def registered(an):
    """-> {format name: writer value} from the register_format calls of every package"""
    out = {}
    top = SRC / "meshio"
    for d in sorted(top.iterdir()):
        if not (d / "__init__.py").exists() or d.name.startswith("_"):
            continue
        for f in sorted(d.glob("*.py")):
            name = "meshio." + d.name + ("" if f.name == "__init__.py" else "." + f.stem)
            if "register_format" not in f.read_text():
                continue
            m = an.module(name)
            fr = Frame(an, None, m)
            an.quiet += 1
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("register_format") and (len(n.args) > 3 or n.keywords):
                    arg = n.args[3] if len(n.args) > 3 else next((k.value for k in n.keywords if k.arg == "writer_map"), None)
                    st = State(dict(m.vars), {})
                    if isinstance(arg, ast.Dict):
                        for k, v in zip(arg.keys, arg.values):
                            out[ast.literal_eval(k)] = (m, fr.ev(v, st))
                    elif arg is not None:
                        out[f"{name}:{n.lineno}"] = (m, fr.elems(st, fr.ev(arg, st)))
            an.quiet -= 1
    return out


def check_writer(an, name, mod, fv, swap=False):
    an.obl, an.unknown, an.stack, an.steps, an.functions, an.assumed = {}, {}, [], 0, set(), set()
    st = State({}, {})
    fr = Frame(an, None, mod)
    mesh = frozenset([c_mesh(an)])
    kwopt = VI
    note = None
    try:
        fr.call(st, fv, [mesh, VI] if swap else [VI, mesh], {}, None, False, V0)
    except Unknown as e:
        note = str(e)
    except RecursionError:
        note = "recursion"
    return dict(obl=dict(an.obl), unknown=dict(an.unknown), note=note, functions=set(an.functions), assumed=set(an.assumed))


def all_writers():
    an = Analysis()
    ws = registered(an)
    return an, ws


if __name__ == "__main__":
    an, ws = all_writers()
    for name, (m, fv) in sorted(ws.items()):
        if len(sys.argv) > 1 and sys.argv[1] not in name:
            continue
        r = check_writer(an, name, m, fv)
        bad = {k: v for k, v in r["obl"].items() if v}
        print(name, "obligations", len(r["obl"]), "functions", len(r["functions"]), "note", r["note"], "unknown", r["unknown"])
        for k, v in bad.items():
            print("    BAD", k, v)
