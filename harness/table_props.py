"""Run-time contracts of C08: type tables and node orders (finite domains, enumerated completely)."""
import importlib, json, pathlib
import numpy as np
import spec as SP

# (module, meshio->code table or None, code->meshio table)
PAIRS = [
    ("_vtk_common", "meshio_to_vtk_type", "vtk_to_meshio_type"),
    ("gmsh.common", "_meshio_to_gmsh_type", "_gmsh_to_meshio_type"),
    ("gmsh.common", "meshio_to_gmsh_type", "gmsh_to_meshio_type"),
    ("abaqus._abaqus", "meshio_to_abaqus_type", "abaqus_to_meshio_type"),
    ("med._med", "meshio_to_med_type", "med_to_meshio_type"),
    ("nastran._nastran", "meshio_to_nastran_type", "nastran_to_meshio_type"),
    ("avsucd._avsucd", "meshio_to_avsucd_type", "avsucd_to_meshio_type"),
    ("exodus._exodus", "meshio_to_exodus_type", "exodus_to_meshio_type"),
    ("permas._permas", "meshio_to_permas_type", "permas_to_meshio_type"),
    ("mdpa._mdpa", "_meshio_to_mdpa_type", "_mdpa_to_meshio_type"),
    ("xdmf.common", "meshio_type_to_xdmf_index", "xdmf_idx_to_meshio_type"),
    ("tecplot._tecplot", "meshio_to_tecplot_type", None),
    ("xdmf.common", "meshio_to_xdmf_type", "xdmf_to_meshio_type"),
    ("_mesh", "topological_dimension", None),
    ("_common", "num_nodes_per_cell", None),
    ("netgen._netgen", None, "netgen_to_meshio_type"),
    ("flac3d._flac3d", None, "numnodes_to_meshio_type"),
    ("h5m._h5m", None, "h5m_to_meshio_type"),
    ("medit._medit_internal", None, "medit_codes"),
    ("vtk._vtk_42", None, "vtk_to_numpy_dtype_name"),
    ("vtk._vtk_51", None, "vtk_to_numpy_dtype_name"),
]
ORDERS = [("avsucd._avsucd", "meshio_to_avsucd_order", "avsucd_to_meshio_order"), ("flac3d._flac3d", "meshio_to_flac3d_order", "flac3d_to_meshio_order"),
          ("tecplot._tecplot", "meshio_to_tecplot_order", None), ("permas._permas", "meshio_to_permas_order", None), ("netgen._netgen", "meshio_to_netgen_pmap", "netgen_to_meshio_pmap")]


def plain(x):
    if isinstance(x, dict):
        return [[plain(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (str, int, float, type(None), bool)):
        return x
    return repr(x)


def tab(mod, name):
    if name is None:
        return None
    try:
        return getattr(importlib.import_module("meshio." + mod), name)
    except (ImportError, AttributeError):
        return None


def capture():
    out = {}
    for m, a, b in PAIRS + ORDERS:
        for n in (a, b):
            t = tab(m, n)
            if t is not None:
                out[f"{m}:{n}"] = plain(t)
    return out


def cases(tier, seed):
    g = json.load(open(pathlib.Path(__file__).parent / "golden_tables.json"))
    for k in g:
        yield {"kind": "golden", "table": k}
    for i, (m, a, b) in enumerate(PAIRS):
        if a and b:
            yield {"kind": "pair", "i": i}
    for i in range(len(ORDERS)):
        yield {"kind": "order", "i": i}
    for what in ("vtk", "gmsh", "vtk42nodes", "dims", "nodes"):
        yield {"kind": what}


def inv(p):
    q = [0] * len(p)
    for i, x in enumerate(p):
        q[x] = i
    return q


def check(c):
    out = []
    k = c["kind"]
    NNC = dict(json.load(open(pathlib.Path(__file__).parent / "golden_tables.json"))["_common:num_nodes_per_cell"])
    if k == "golden":
        g = json.load(open(pathlib.Path(__file__).parent / "golden_tables.json"))[c["table"]]
        t = tab(*c["table"].split(":"))
        if t is None:
            return None  # the table moved: the code-level and file-level contracts still apply
        if not isinstance(t, dict):
            return None
        now = {json.dumps(a): b for a, b in plain(t)}
        if sum(json.dumps(a) in now for a, b in g) * 2 < len(g):
            return None  # keyed differently: not the table this contract is about
        for a, b in g:
            got = now.get(json.dumps(a))
            if b is not None and isinstance(b, list) and isinstance(got, list) and b != got and "xdmf_type" in c["table"]:
                if b[0] == got[0]:
                    continue
            if got != b:
                out.append(f"{c['table']}[{a!r}] = {got!r}, expected {b!r}")
        return out
    if k == "pair":
        m, a, b = PAIRS[c["i"]]
        A, B = tab(m, a), tab(m, b)
        if A is None or B is None:
            return None
        codes = {}
        for t, code in A.items():
            for cd in code if isinstance(code, list) else [code]:
                if B.get(cd) != t and not (m == "mdpa._mdpa"):
                    out.append(f"{m}: {t} -> {cd!r} -> {B.get(cd)!r}")
            c0 = repr(code[0] if isinstance(code, list) else code)
            if c0 in codes:
                out.append(f"{m}: {t} and {codes[c0]} share the code {c0}")
            codes[c0] = t
        return out
    if k == "order":
        m, a, b = ORDERS[c["i"]]
        A, B = tab(m, a), tab(m, b)
        if A is None:
            return None
        for t, p in A.items():
            p = list(np.asarray(p).tolist())
            n = NNC.get(t, len(p))
            if m == "permas._permas" or m == "tecplot._tecplot":
                if not set(p) <= set(range(max(n, len(p)))):
                    out.append(f"{m}.{a}[{t}] = {p}")
                if m == "permas._permas" and sorted(p) != list(range(n)):
                    out.append(f"{m}.{a}[{t}] = {p} is no permutation")
                if m == "tecplot._tecplot" and set(p) != set(range(n)):
                    out.append(f"{m}.{a}[{t}] = {p} loses nodes")
                continue
            p = [x - min(p) for x in p]  # some tables count from 1
            if sorted(p) != list(range(n)):
                out.append(f"{m}.{a}[{t}] = {p} is no permutation of {n} nodes")
            elif B is not None:
                q = np.asarray(B[t]).tolist()
                q = [x - min(q) for x in q]
                if [p[i] for i in q] != list(range(n)) or [q[i] for i in p] != list(range(n)):
                    out.append(f"{m}: orders of {t} are not inverse: {p} {q}")
        return out
    if k == "vtk":
        v = importlib.import_module("meshio._vtk_common")
        for t, code in v.meshio_to_vtk_type.items():
            n = NNC.get(t)
            w, r = v.meshio_to_vtk_order(t), v.vtk_to_meshio_order(code)
            if (w is None) != (r is None):
                out.append(f"vtk order of {t} only in one direction")
            if w is None or r is None:
                continue
            w, r = np.asarray(w).tolist(), np.asarray(r).tolist()
            if n is None:
                n = len(w)
            if sorted(w) != list(range(n)) or [w[i] for i in r] != list(range(n)):
                out.append(f"vtk orders of {t}: {w} {r}")
            GW = VTK_ORDER.get(t)
            if GW is not None and w != GW:
                out.append(f"vtk node order of {t} is {w}, expected {GW}")
        return out
    if k == "gmsh":
        g = importlib.import_module("meshio.gmsh.common")
        for t, n in NNC.items():
            idx = np.arange(7, 7 + 2 * n).reshape(2, n)
            w = g._meshio_to_gmsh_order(t, idx)
            r = g._gmsh_to_meshio_order(t, w)
            if not np.array_equal(r, idx):
                out.append(f"gmsh orders of {t} are not inverse")
            if not np.array_equal(g._meshio_to_gmsh_order(t, g._gmsh_to_meshio_order(t, idx)), idx):
                out.append(f"gmsh orders of {t} are not inverse (read first)")
            if t in GMSH_ORDER and (w[0] - 7).tolist() != GMSH_ORDER[t]:
                out.append(f"gmsh node order of {t} is {(w[0] - 7).tolist()}, expected {GMSH_ORDER[t]}")
            if t not in GMSH_ORDER and (w[0] - 7).tolist() != list(range(n)):
                out.append(f"gmsh node order of {t} is not the identity")
        return out
    if k == "vtk42nodes":
        v = importlib.import_module("meshio._vtk_common")
        t42 = tab("vtk._vtk_42", "vtk_type_to_numnodes")
        if t42 is None:
            return None
        for code, t in v.vtk_to_meshio_type.items():
            if t in NNC and code < len(t42) and t42[code] != NNC[t]:
                out.append(f"vtk42 number of nodes of {t}: {t42[code]}")
        return out
    if k == "dims":
        from core_props import dim_of
        td = importlib.import_module("meshio._mesh").topological_dimension
        for t, d in td.items():
            if dim_of(t) != d:
                out.append(f"topological dimension of {t} is {d}")
        for t in NNC:
            if t not in td:
                out.append(f"no topological dimension for {t}")
        return out
    if k == "nodes":
        nnc = importlib.import_module("meshio._common").num_nodes_per_cell
        for t, n in nnc.items():
            if expected_nodes(t) != n:
                out.append(f"num_nodes_per_cell[{t!r}] = {n}")
        return out


def expected_nodes(t):
    base = t.rstrip("0123456789")
    if t != base:
        return int(t[len(base):])
    return {"vertex": 1, "line": 2, "triangle": 3, "quad": 4, "tetra": 4, "hexahedron": 8, "wedge": 6, "pyramid": 5}[t]


VTK_ORDER = {}
GMSH_ORDER = {}


def _load():
    p = pathlib.Path(__file__).parent / "golden_orders.json"
    if p.exists():
        d = json.load(open(p))
        VTK_ORDER.update(d["vtk"])
        GMSH_ORDER.update(d["gmsh"])


_load()


# one block of every type a format stores, through the file
def file_cases(tier, seed):
    for key, sp in SP.S.items():
        for vi in range(len(sp.variants)):
            if key.startswith("ugrid-") and tier == "quick" and key not in ("ugrid-ascii", "ugrid-b4"):
                continue
            for t in list(sp.types) + list(sp.more):
                from gen import nn
                yield {"fmt": key, "v": vi, "p": {"blocks": [[t, 3]], "npts": max(nn(t), 6) + 3, "dim": 3 if 3 in sp.dims else sp.dims[0], "pdtype": sp.pdt[0], "cdtype": sp.cdt[0], "seed": seed}}


def file_check(c):
    import roundtrip as R
    sp = SP.S[c["fmt"]]
    f, _ = R.run_case(sp, sp.variants[c["v"]], c["p"])
    return f


FAMS = {"C08": [("tables", cases, check), ("one-type", file_cases, file_check)]}
