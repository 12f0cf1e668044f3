"""Type codes and node orders.  The tables are finite: one obligation per table covers all of their entries; the order
functions are run on an array with any number of rows."""
import json, pathlib
from ..symmesh import *
from ..obl import *

H = pathlib.Path(__file__).resolve().parent.parent.parent / "harness"
GOLD = json.load(open(H / "golden_tables.json"))
ORD = json.load(open(H / "golden_orders.json"))
PAIRS = [
    ("_vtk_common", "meshio_to_vtk_type", "vtk_to_meshio_type"),
    ("gmsh.common", "_meshio_to_gmsh_type", "_gmsh_to_meshio_type"),
    ("abaqus._abaqus", "meshio_to_abaqus_type", "abaqus_to_meshio_type"),
    ("med._med", "meshio_to_med_type", "med_to_meshio_type"),
    ("nastran._nastran", "meshio_to_nastran_type", "nastran_to_meshio_type"),
    ("avsucd._avsucd", "meshio_to_avsucd_type", "avsucd_to_meshio_type"),
    ("exodus._exodus", "meshio_to_exodus_type", "exodus_to_meshio_type"),
    ("permas._permas", "meshio_to_permas_type", "permas_to_meshio_type"),
    ("mdpa._mdpa", "_meshio_to_mdpa_type", "_mdpa_to_meshio_type"),
    ("xdmf.common", "meshio_type_to_xdmf_index", "xdmf_idx_to_meshio_type"),
    ("xdmf.common", "meshio_to_xdmf_type", "xdmf_to_meshio_type"),
]
ORDERS = [("avsucd._avsucd", "meshio_to_avsucd_order", "avsucd_to_meshio_order"), ("flac3d._flac3d", "meshio_to_flac3d_order", "flac3d_to_meshio_order"),
          ("netgen._netgen", "meshio_to_netgen_pmap", "netgen_to_meshio_pmap"), ("permas._permas", "meshio_to_permas_order", None), ("tecplot._tecplot", "meshio_to_tecplot_order", None)]
NNC = dict(GOLD["_common:num_nodes_per_cell"])


def plain(x):
    x = M.force(x)
    if isinstance(x, PDict):
        c = M.dict_ents(x).concrete()
        if c is None:
            raise Unsupported("the table is not constant")
        return [[plain(k), plain(v)] for k, v in c]
    if isinstance(x, (PList, PTuple)):
        c = x.seq.concrete()
        if c is None:
            raise Unsupported("the table is not constant")
        return [plain(y) for y in c]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, SArr):
        if x.ndim != 1 or not isinstance(x.shape[0], int):
            raise Unsupported("the table is not constant")
        return [z3.simplify(x.elem(z3.IntVal(i))).as_long() for i in range(x.shape[0])]
    if isinstance(x, SNum):
        return z3.simplify(x.e).as_long()
    return x


def tab(mod, name):
    v = M.load("meshio." + mod).vars.get(name)
    if not isinstance(v, PDict):
        raise Unsupported("there is no table " + name)
    return plain(v)


def key(x):
    return json.dumps(x)


def golden(name):
    def run():
        t = tab(*name.split(":"))
        now = {key(a): b for a, b in t}
        g = GOLD[name]
        if sum(key(a) in now for a, b in g) * 2 < len(g):
            raise Unsupported("the table is keyed differently")
        for a, b in g:
            got = now.get(key(a))
            if "xdmf_type" in name and isinstance(b, list) and isinstance(got, list) and got and b[0] == got[0]:
                got = b     # only the first name is written
            ensure("entries of the format's specification", got == b)
    return run


def pair(m, a, b):
    def run():
        A, B = tab(m, a), {key(k): v for k, v in tab(m, b)}
        used = {}
        for t, code in A:
            cs = code if isinstance(code, list) else [code]
            if m != "mdpa._mdpa":
                for c in cs:
                    ensure("type -> code -> type", B.get(key(c)) == t)
            ensure("no two types share a code", key(cs[0]) not in used)
            used[key(cs[0])] = t
    return run


def orders(m, a, b):
    def run():
        A = tab(m, a)
        B = dict(tab(m, b)) if b else None
        for t, p in A:
            n = NNC.get(t, len(p))
            if m == "tecplot._tecplot":
                ensure("uses all nodes", set(p) == set(range(n)))
                continue
            lo = min(p)
            p = [x - lo for x in p]
            ensure("a permutation of all nodes", sorted(p) == list(range(n)))
            if B is not None:
                q = [x - min(B[t]) for x in B[t]]
                ok = len(q) == len(p) == n and sorted(q) == list(range(n))
                ensure("read order undoes write order", ok and [p[i] for i in q] == list(range(n)))
    return run


def rows(t):
    n = z3.Int("n")
    require(n >= 0)
    X = F("X", IS, IS, IS)
    return n, X, SArr.make([n, NNC[t]], lambda i, j: X(i, j), INT)


def gmsh_orders(types):
    def run():
        for t in types:
            n, X, a = rows(t)
            r = z3.Int("r")
            kind, w = call("meshio.gmsh.common", "_meshio_to_gmsh_order", [t, a])
            ensure("does not raise", kind == "return")
            kind2, b = call("meshio.gmsh.common", "_gmsh_to_meshio_order", [t, w])
            ensure("does not raise", kind2 == "return")
            kind3, b2 = call("meshio.gmsh.common", "_gmsh_to_meshio_order", [t, a])
            kind4, w2 = call("meshio.gmsh.common", "_meshio_to_gmsh_order", [t, b2])
            g = ORD["gmsh"].get(t, list(range(NNC[t])))
            for x in (w, b, w2):
                ensure("keeps the shape", x.ndim == 2 and z3.And(ex(x.shape[0]) == n, ex(x.shape[1]) == NNC[t]))
            with given(0 <= r, r < n):
                cols = range(NNC[t])
                ensure("the order that Gmsh documents", z3.And(*[w.elem(r, z3.IntVal(c)) == X(r, g[c]) for c in cols]))
                ensure("read order undoes write order", z3.And(*[b.elem(r, z3.IntVal(c)) == X(r, c) for c in cols]))
                ensure("write order undoes read order", z3.And(*[w2.elem(r, z3.IntVal(c)) == X(r, c) for c in cols]))
    return run


def vtk_orders():
    for t, code in tab("_vtk_common", "meshio_to_vtk_type"):
        if t not in NNC:
            continue
        n, X, a = rows(t)
        r = z3.Int("r")
        w = call("meshio._vtk_common", "meshio_to_vtk_order", [t])
        q = call("meshio._vtk_common", "vtk_to_meshio_order", [code])
        ensure("does not raise", w[0] == "return" and q[0] == "return")
        w, q = w[1], q[1]
        ensure("an order in both directions or in none", (w is None) == (q is None))
        if w is None:
            ensure("the order that VTK documents", t not in ORD["vtk"])
            continue
        w, q = plain(w), plain(q)
        ensure("a permutation of all nodes", sorted(w) == list(range(NNC[t])))
        ensure("the order that VTK documents", w == ORD["vtk"].get(t, w))
        ensure("read order undoes write order", sorted(q) == list(range(NNC[t])) and [w[i] for i in q] == list(range(NNC[t])))


def node_counts():
    for t, n in tab("_common", "num_nodes_per_cell"):
        base = t.rstrip("0123456789")
        want = int(t[len(base):]) if t != base else {"vertex": 1, "line": 2, "triangle": 3, "quad": 4, "tetra": 4, "hexahedron": 8, "wedge": 6, "pyramid": 5}.get(t)
        ensure("number of nodes in the name", n == want)
    td = dict(tab("_mesh", "topological_dimension"))
    ensure("a dimension for every type", all(t in td for t in NNC))
    v = M.load("meshio.vtk._vtk_42").vars.get("vtk_type_to_numnodes")
    x = z3.Int("x")
    vt = dict((c, t) for c, t in tab("_vtk_common", "vtk_to_meshio_type"))
    if isinstance(v, SArr):
        xs = plain(v)
        for c, t in vt.items():
            if t in NNC and c < len(xs):
                ensure("node counts of the legacy VTK reader", xs[c] == NNC[t])


types = list(NNC)
MODS = sorted({n.split(":")[0] for n in GOLD})
CONTRACTS = [("specified entries of " + m, lambda m=m: [golden(n)() for n in GOLD if n.split(":")[0] == m], {"functions": ["table " + n for n in GOLD if n.split(":")[0] == m]}) for m in MODS]
CONTRACTS += [(f"{m}: {a} / {b}", pair(m, a, b), {"functions": [f"tables {a}, {b}"]}) for m, a, b in PAIRS]
CONTRACTS += [(f"{m}: {a} / {b}", orders(m, a, b), {"functions": [f"tables {a}, {b}"]}) for m, a, b in ORDERS]
CONTRACTS += [("gmsh node orders", gmsh_orders(types))] + [("VTK node orders", vtk_orders), ("numbers of nodes", node_counts)]
