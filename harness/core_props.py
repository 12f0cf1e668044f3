"""Run-time contracts of the core: Mesh construction, views, set conversion, raw data, dispatch, sanity check.

Every oracle is written from the property statement with plain Python loops, independently of the code.
A check returns a list of failure messages (empty: the contract held)."""
import contextlib, io, itertools, os, pathlib, random, tempfile
import numpy as np
import meshio
import gen
from gen import NN, nn

ALLTYPES = ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3", "triangle6", "quad8", "quad9",
            "tetra10", "hexahedron20", "hexahedron27", "wedge15", "pyramid13", "polygon5", "polygon7"]

DIM = {"vertex": 0, "line": 1, "triangle": 2, "quad": 2, "polygon": 2, "tetra": 3, "hexahedron": 3, "wedge": 3, "pyramid": 3, "polyhedron": 3,
       "VTK_LAGRANGE_CURVE": 1, "VTK_LAGRANGE_TRIANGLE": 2, "VTK_LAGRANGE_QUADRILATERAL": 2, "VTK_LAGRANGE_TETRAHEDRON": 3,
       "VTK_LAGRANGE_HEXAHEDRON": 3, "VTK_LAGRANGE_WEDGE": 3, "VTK_LAGRANGE_PYRAMID": 3}


def dim_of(t):
    return DIM[t] if t in DIM else DIM[t.rstrip("0123456789")]


@contextlib.contextmanager
def quiet():
    b = io.StringIO()
    with contextlib.redirect_stdout(b), contextlib.redirect_stderr(b):
        yield b


def rnd_blocks(r, nb, types=ALLTYPES, sizes=(0, 1, 2, 3, 5, 8)):
    sub = r.sample(types, min(3, len(types)))
    return [[r.choice(sub), r.choice(sizes)] for _ in range(nb)]


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


# ---------------------------------------------------------------------------------------------- C01
def c01_cases(tier, seed):
    r = random.Random(f"c01-{seed}")
    N = 1500 if tier == "quick" else 8000
    for t in sorted(meshio._mesh.topological_dimension):
        yield {"kind": "block", "type": t}
    for i in range(N):
        nb = r.choice([0, 1, 1, 2, 3, 4, 6])
        case = {"kind": "mesh", "blocks": rnd_blocks(r, nb), "npts": r.choice([0, 1, 3, 7, 12]), "dim": r.choice([2, 3]),
                "pd": [[f"p{j}", r.choice([0, 1, 3]), r.choice(["f8", "i4", "u1"])] for j in range(r.choice([0, 1, 3, 4]))],
                "cd": [[f"c{j}", r.choice([0, 1, 3]), r.choice(["f8", "i4", "f4"])] for j in range(r.choice([0, 1, 2, 4]))],
                "form": r.choice(["tuple", "block", "mixed", "list", "dict"]), "data": r.choice(["array", "list"]), "seed": r.randrange(10**6)}
        if case["form"] == "dict":
            seen = {}
            case["blocks"] = [seen.setdefault(b[0], b) for b in case["blocks"] if b[0].rstrip("57") not in [x.rstrip("57") for x in seen]]
        case["polyhedra"] = r.choice([0, 0, 0, 2]) if case["form"] != "dict" else 0
        yield dict(case, bad=None)
        nb = len(case["blocks"]) + (1 if case["polyhedra"] else 0)
        bads = []
        for j in range(len(case["pd"])):
            for d in (-1, 1, "x2", "T"):
                bads.append(["pd", j, d])
        for j in range(len(case["cd"])):
            for d in (-1, 1):
                bads.append(["cdn", j, d])
            for k in range(nb):
                for d in (-1, 1, "x2", "T"):
                    bads.append(["cdl", j, k, d])
        for bad in bads if tier != "quick" else r.sample(bads, min(6, len(bads))):
            yield dict(case, bad=bad)


def resize(a, d, n):
    """an array whose length differs from n, or None"""
    if d == "x2":
        m = 2 * n
    elif d == "T":
        return a.T if a.ndim == 2 and a.shape[0] != a.shape[1] else None
    else:
        m = n + d
    if m < 0 or m == n:
        return None
    return np.resize(a if a.size else np.zeros((1,) + a.shape[1:], a.dtype), (m,) + a.shape[1:])


def c01_check(c):
    out = []
    if c["kind"] == "block":
        t = c["type"]
        data = np.arange(2 * (NN.get(t) or 3)).reshape(2, -1)
        b = meshio.CellBlock(t, data, tags=["x", "y"])
        if b.type != t or not eq(b.data, data) or b.tags != ["x", "y"] or b.dim != dim_of(t) or len(b) != 2:
            out.append(f"CellBlock({t!r}): type {b.type} dim {b.dim} tags {b.tags} len {len(b)}")
        if meshio.CellBlock(t, data).tags != []:
            out.append("default tags not empty")
        b = meshio.CellBlock(t, data.tolist())
        if not eq(b.data, data):
            out.append(f"CellBlock({t!r}) of a list: {b.data}")
        return out
    rng = np.random.default_rng(c["seed"])
    pts = rng.random((c["npts"], c["dim"]))
    blocks = []
    for t, n in c["blocks"]:
        blocks.append(("polygon" if t.startswith("polygon") else t, rng.integers(0, max(c["npts"], 1), (n, nn(t)))))
    for j in range(1 if c.get("polyhedra") else 0):
        blocks.append(("polyhedron4", [[[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]]] * c["polyhedra"]))
    L = [len(d) for _, d in blocks]

    def arr(n, k, dt):
        return (rng.random((n, k) if k else (n,)) * 100).astype(dt)

    pd = {nm: arr(c["npts"], k, dt) for nm, k, dt in c["pd"]}
    cd = {nm: [arr(n, k, dt) for n in L] for nm, k, dt in c["cd"]}
    bad = c["bad"]
    if bad:
        if bad[0] == "pd":
            k = c["pd"][bad[1]][0]
            pd[k] = resize(pd[k], bad[2], c["npts"])
            if pd[k] is None:
                return None
        elif bad[0] == "cdn":
            k = c["cd"][bad[1]][0]
            if bad[2] == 1:
                cd[k] = cd[k] + [np.zeros(L[-1] if L else 1)]
            elif not cd[k]:
                return None
            else:
                cd[k] = cd[k][:-1]
        else:
            k = c["cd"][bad[1]][0]
            v = resize(cd[k][bad[2]], bad[3], L[bad[2]])
            if v is None:
                return None
            cd[k][bad[2]] = v
    want_pd = {k: np.array(v) for k, v in pd.items()}
    want_cd = {k: [np.array(x) for x in v] for k, v in cd.items()}

    def conv(x):
        return x.tolist() if c["data"] == "list" and isinstance(x, np.ndarray) and x.size else x

    cells = []
    for i, (t, d) in enumerate(blocks):
        form = c["form"] if c["form"] != "mixed" else ("tuple", "block")[i % 2]
        cells.append(meshio.CellBlock(t, d, tags=[f"tag{i}"]) if form == "block" else (t, conv(d)))
    arg = dict(cells) if c["form"] == "dict" else cells
    pd_in = {k: conv(v) if v.dtype.kind == "f" else v for k, v in pd.items()}
    cd_in = {k: [conv(x) if x.dtype == np.float64 else x for x in v] for k, v in cd.items()}
    try:
        m = meshio.Mesh(pts.tolist() if c["data"] == "list" and c["npts"] else pts, arg, point_data=pd_in, cell_data=cd_in,
                        point_sets={"s": [0]}, cell_sets={"q": [[0]] * len(blocks)}, field_data={"f": 1}, info={"i": 2}, gmsh_periodic=[3])
    except Exception as e:
        return [] if bad else [f"consistent input refused: {type(e).__name__}: {e}"]
    if bad:
        return [f"inconsistent input accepted: {bad}"]
    if not eq(m.points, pts):
        out.append("points changed")
    if [b.type for b in m.cells] != [t for t, _ in blocks]:
        out.append(f"types {[b.type for b in m.cells]} for {[t for t, _ in blocks]}")
    else:
        for i, (b, (t, d)) in enumerate(zip(m.cells, blocks)):
            if t.startswith("polyhedron"):
                ok = len(b.data) == len(d) and all(len(x) == len(y) and all(np.array_equal(f, g) for f, g in zip(x, y)) for x, y in zip(b.data, d))
            else:
                ok = np.array_equal(np.asarray(b.data), d) and (d.size == 0 or np.asarray(b.data).shape == d.shape)
            if not ok:
                out.append(f"block {i}: connectivity changed")
            if b.dim != dim_of(t):
                out.append(f"block {i}: dim {b.dim} of {t}")
            if isinstance(cells[i], meshio.CellBlock) and b.tags != [f"tag{i}"]:
                out.append(f"block {i}: tags {b.tags}")
    if list(m.point_data) != list(want_pd) or any(not eq(m.point_data[k], v) for k, v in want_pd.items()):
        out.append("point data changed")
    if list(m.cell_data) != list(want_cd) or any(len(m.cell_data[k]) != len(v) or any(not eq(x, y) for x, y in zip(m.cell_data[k], v)) for k, v in want_cd.items()):
        out.append("cell data changed")
    if m.point_sets != {"s": [0]} or m.cell_sets != {"q": [[0]] * len(blocks)} or m.field_data != {"f": 1} or m.info != {"i": 2} or m.gmsh_periodic != [3]:
        out.append("sets, field data, info or periodic data changed")
    return out


# ---------------------------------------------------------------------------------------------- C02 / C03 meshes
def set_mesh(c):
    """a mesh with cell sets that may be None in some blocks"""
    rng = np.random.default_rng(c["seed"])
    cells = [("polygon" if t.startswith("polygon") else t, rng.integers(0, max(c["npts"], 1), (n, nn(t)))) for t, n in c["blocks"]]
    cd = {nm: [(rng.random((len(d), k) if k else (len(d),)) * 50).astype(dt) for _, d in cells] for nm, k, dt in c.get("cd", [])}
    pd = {"u": rng.random(c["npts"])}
    cs = {}
    for nm in c.get("cs", []):
        v = []
        for _, d in cells:
            u = rng.random()
            if u < 0.25 and c.get("none", True):
                v.append(None)
            elif u < 0.35:
                v.append(np.array([], dtype=int))
            else:
                m = rng.permutation(len(d))[: rng.integers(0, len(d) + 1)]
                v.append(m.astype(rng.choice(["i8", "i4"]) if len(m) else int))
        cs[nm] = v
    ps = {}
    for nm in c.get("ps", []):
        ps[nm] = rng.permutation(c["npts"])[: rng.integers(0, c["npts"] + 1)]
    return meshio.Mesh(rng.random((c["npts"], 3)), cells, point_data=pd, cell_data=cd, cell_sets=cs, point_sets=ps)


def c02_cases(tier, seed):
    r = random.Random(f"c02-{seed}")
    for i in range(4000 if tier == "quick" else 20000):
        ty = r.choice([ALLTYPES[:8], ALLTYPES])
        ty = [t for t in ty if not t.startswith("polygon")] + ["polygon5"]
        yield {"blocks": rnd_blocks(r, r.choice([0, 1, 2, 3, 4, 6, 8]), ty), "npts": r.choice([3, 9]),
               "cd": [[f"c{j}", r.choice([0, 2]), r.choice(["f8", "i4"])] for j in range(r.choice([0, 1, 2]))],
               "cs": ["a", "b", "c"][: r.choice([0, 1, 2, 3])], "seed": r.randrange(10**6)}


def c02_check(c):
    out = []
    m = set_mesh(c)
    snap = gen.snapshot(m)
    B = [(b.type, np.array(b.data)) for b in m.cells]
    types = list(dict.fromkeys(t for t, _ in B))

    def cat(parts):
        return [row for p in parts for row in np.asarray(p).tolist()]

    for t in types:
        want = cat(d for u, d in B if u == t)
        got = m.get_cells_type(t)
        if np.asarray(got).tolist() != want:
            out.append(f"get_cells_type({t!r}) = {np.asarray(got).tolist()}, expected {want}")
    for t in ("line", "triangle", "tetra", "hexahedron20", "wedge", "vertex"):
        if t not in types:
            got = m.get_cells_type(t)
            if got.shape != (0, NN[t]):
                out.append(f"get_cells_type of absent type {t!r} has shape {got.shape}")
    d = m.cells_dict
    if set(d) != set(types) or any(np.asarray(d[t]).tolist() != cat(x for u, x in B if u == t) for t in types):
        out.append(f"cells_dict {dict((k, np.asarray(v).tolist()) for k, v in d.items())}")
    cd = m.cell_data_dict
    if set(cd) != set(m.cell_data):
        out.append("cell_data_dict names")
    for nm, arrs in m.cell_data.items():
        for t in types:
            want = cat(a for (u, _), a in zip(B, arrs) if u == t)
            if np.asarray(m.get_cell_data(nm, t)).tolist() != want:
                out.append(f"get_cell_data({nm!r}, {t!r})")
            if np.asarray(cd[nm][t]).tolist() != want:
                out.append(f"cell_data_dict[{nm!r}][{t!r}]")
        if set(cd[nm]) != set(types):
            out.append(f"cell_data_dict[{nm!r}] has types {sorted(cd[nm])}")
    sd = m.cell_sets_dict
    if set(sd) != set(m.cell_sets):
        out.append("cell_sets_dict names")
    else:
        for nm, v in m.cell_sets.items():
            off = {}
            want = {}
            for (t, dd), mem in zip(B, v):
                if mem is not None:
                    want.setdefault(t, []).extend(int(x) + off.get(t, 0) for x in mem)
                off[t] = off.get(t, 0) + len(dd)
            got = {t: np.asarray(x).tolist() for t, x in sd[nm].items() if len(x)}
            if got != {t: x for t, x in want.items() if x}:
                out.append(f"cell_sets_dict[{nm!r}] = {got}, expected {want}")
    if gen.snapdiff(snap, gen.snapshot(m)):
        out.append(f"mesh changed: {gen.snapdiff(snap, gen.snapshot(m))}")
    return out


# ---------------------------------------------------------------------------------------------- C03
def c03_cases(tier, seed):
    r = random.Random(f"c03-{seed}")
    for i in range(3000 if tier == "quick" else 15000):
        base = {"blocks": rnd_blocks(r, r.choice([1, 2, 3, 5]), ALLTYPES[:8], (0, 1, 2, 4, 7)), "npts": r.choice([1, 4, 9]),
                "cd": [["other", 0, "f8"]], "seed": r.randrange(10**6)}
        yield dict(base, kind="sets", cs=["a", "b", "c", "dd"][: r.choice([1, 2, 3, 4])], ps=["x", "y", "z"][: r.choice([1, 2, 3])],
                   name=r.choice([None, None, "given"]), none=r.choice([True, False]))
        yield dict(base, kind="data", vals=r.choice([[0], [0, 1], [3, 1, 2], [-1, 0, 5], [100, -7, 3, 0, 9], [0, 1, 2, 3], [-1], [127, 200, 40000, 2**31, 2**31 + 1], [2**33, -(2**40), 5, 2**33 + 1], [2**53 + 1, 2**53, 1]]), key=r.choice(["k", "mat", "a-b", "a-b-c", "x-x"]),
                   dt=r.choice(["i8", "i8", "i4", "u1", "i2", "u4", "u8", "u2", "i1"]), cs=["keep"], ps=["keepp"])
        nc = sum(b[1] for b in base["blocks"])
        k = min(r.choice([1, 2, 3, 4]), base["npts"], nc)
        if k:
            yield dict(base, kind="round", k=k)


def c03_check(c):
    out = []
    if c["kind"] == "sets":
        m = set_mesh(c)
        if not m.cells:
            return None
        snap = gen.snapshot(m)
        cs = {k: [None if x is None else [int(y) for y in x] for x in v] for k, v in m.cell_sets.items()}
        ps = {k: [int(y) for y in v] for k, v in m.point_sets.items()}
        pd0, cd0 = set(m.point_data), set(m.cell_data)
        with quiet():
            m.cell_sets_to_data(c["name"]) if c["name"] else m.cell_sets_to_data()
            m.point_sets_to_data()
        kn = c["name"] or "-".join(cs)
        if m.cell_sets != {} or m.point_sets != {}:
            out.append("sets not removed")
        if set(m.cell_data) != cd0 | {kn} or set(m.point_data) != pd0 | {"-".join(ps)}:
            return out + [f"data names {sorted(m.cell_data)} {sorted(m.point_data)}"]
        for b, blk in enumerate(m.cells):
            want = [-1] * len(blk.data)
            for i, v in enumerate(cs.values()):
                for j in v[b] or []:
                    want[j] = i
            got = m.cell_data[kn][b]
            if np.asarray(got).tolist() != want or np.asarray(got).dtype.kind not in "i":
                out.append(f"cell data of block {b}: {np.asarray(got).tolist()}, expected {want}")
        if len(m.cell_data[kn]) != len(m.cells):
            out.append("cell data has a wrong number of arrays")
        want = [-1] * len(m.points)
        for i, v in enumerate(ps.values()):
            for j in v:
                want[j] = i
        if np.asarray(m.point_data["-".join(ps)]).tolist() != want:
            out.append(f"point data {m.point_data['-'.join(ps)].tolist()}, expected {want}")
        del m.cell_data[kn], m.point_data["-".join(ps)]
        d = [x for x in gen.snapdiff(snap, gen.snapshot(m)) if x not in ("point_sets", "cell_sets")]
        if d:
            out.append(f"also changed: {d}")
        return out
    if c["kind"] == "data":
        m = set_mesh(c)
        rng = np.random.default_rng(c["seed"] + 1)
        ii = np.iinfo(c["dt"])
        vals = [v for v in c["vals"] if ii.min <= v <= ii.max] or [0]
        dt = c["dt"]
        m.cell_data[c["key"]] = [rng.choice(vals, len(b.data)).astype(dt) for b in m.cells]
        m.point_data[c["key"]] = rng.choice(vals, len(m.points)).astype(dt)
        cd = [x.tolist() for x in m.cell_data[c["key"]]]
        pd = m.point_data[c["key"]].tolist()
        snap = gen.snapshot(m)
        cs0, ps0 = dict(m.cell_sets), dict(m.point_sets)
        with quiet():
            m.cell_data_to_sets(c["key"])
            m.point_data_to_sets(c["key"])
        if c["key"] in m.cell_data or c["key"] in m.point_data:
            out.append("data array not removed")
        for new, want, what in (
            ({k: [sorted(np.asarray(x).tolist()) for x in v] for k, v in m.cell_sets.items() if k not in cs0},
             [[[i for i, x in enumerate(blk) if x == v] for blk in cd] for v in sorted(set(x for b in cd for x in b))], "cell"),
            ({k: sorted(np.asarray(v).tolist()) for k, v in m.point_sets.items() if k not in ps0},
             [[i for i, x in enumerate(pd) if x == v] for v in sorted(set(pd))], "point")):
            if sorted(map(repr, new.values())) != sorted(map(repr, want)):
                out.append(f"{what} sets {new}, expected {want}")
        for k, v in cs0.items():
            if k not in m.cell_sets or m.cell_sets[k] is not v:
                out.append("existing cell set changed")
        for k in list(m.cell_sets):
            if k not in cs0:
                del m.cell_sets[k]
        for k in list(m.point_sets):
            if k not in ps0:
                del m.point_sets[k]
        m2 = set_mesh(c)
        d = gen.snapdiff(gen.snapshot(m2), gen.snapshot(m))
        if d:
            out.append(f"also changed: {d}")
        return out
    # round trip
    c = dict(c, cs=[], ps=[])
    m = set_mesh(c)
    rng = np.random.default_rng(c["seed"] + 2)
    k = c["k"]
    names = rng.permutation(["alpha", "b", "z_1", "M 2", "0"])[:k].tolist()
    n = sum(len(b.data) for b in m.cells)
    lab = np.concatenate([np.arange(k), rng.integers(0, k, n - k)])[rng.permutation(n)]
    split = np.split(lab, np.cumsum([len(b.data) for b in m.cells])[:-1])
    plab = np.concatenate([np.arange(k), rng.integers(0, k, len(m.points) - k)])[rng.permutation(len(m.points))]
    m.cell_sets = {nm: [np.where(s == i)[0] for s in split] for i, nm in enumerate(names)}
    m.point_sets = {nm: np.where(plab == i)[0] for i, nm in enumerate(names)}
    cs = {a: [x.tolist() for x in v] for a, v in m.cell_sets.items()}
    ps = {a: v.tolist() for a, v in m.point_sets.items()}
    snap = gen.snapshot(m)
    with quiet():
        m.cell_sets_to_data()
        m.point_sets_to_data()
        key = "-".join(names)
        if key not in m.cell_data or key not in m.point_data:
            return [f"data is stored as {sorted(m.cell_data)}"]
        m.cell_data_to_sets(key)
        m.point_data_to_sets(key)
    if {a: [np.asarray(x).tolist() for x in v] for a, v in m.cell_sets.items()} != cs:
        out.append(f"cell sets {cs} -> {m.cell_sets}")
    if {a: np.asarray(v).tolist() for a, v in m.point_sets.items()} != ps:
        out.append(f"point sets {ps} -> {m.point_sets}")
    d = [x for x in gen.snapdiff(snap, gen.snapshot(m)) if x not in ("point_sets", "cell_sets")]
    if d:
        out.append(f"also changed: {d}")
    return out


# ---------------------------------------------------------------------------------------------- C04
def c04_cases(tier, seed):
    r = random.Random(f"c04-{seed}")
    for i in range(3000 if tier == "quick" else 15000):
        yield {"blocks": rnd_blocks(r, r.choice([1, 1, 2, 3, 5, 9]), ALLTYPES[:8], (0, 0, 1, 2, 3, 7, 40)), "npts": 6, "seed": r.randrange(10**6),
               "cd": [[f"c{j}", r.choice([0, 1, 2, 3]), r.choice(["f8", "i4", "f4", "u1"])] for j in range(r.choice([1, 2, 4]))], "form": r.choice(["block", "array"])}


def c04_check(c):
    from meshio._common import cell_data_from_raw, raw_from_cell_data
    out = []
    m = set_mesh(c)
    want = {k: [np.array(x) for x in v] for k, v in m.cell_data.items()}
    raw = raw_from_cell_data(m.cell_data)
    if list(raw) != list(want):
        return [f"names {list(raw)}"]
    for k, v in raw.items():
        if np.asarray(v).tolist() != [y for x in want[k] for y in x.tolist()]:
            out.append(f"raw_from_cell_data: {k!r} reordered")
    cells = m.cells if c["form"] == "block" else [b.data for b in m.cells]
    back = cell_data_from_raw(cells, raw)
    if list(back) != list(want):
        return out + [f"names {list(back)}"]
    for k, v in back.items():
        if len(v) != len(want[k]) or any(not eq(x, y) for x, y in zip(v, want[k])):
            out.append(f"cell_data_from_raw: {k!r}: {[x.tolist() for x in v]} for {[x.tolist() for x in want[k]]}")
    if any(any(not eq(x, y) for x, y in zip(m.cell_data[k], want[k])) for k in want):
        out.append("input changed")
    return out


# ---------------------------------------------------------------------------------------------- C05
GOLDEN_EXT = None


def c05_cases(tier, seed):
    r = random.Random(f"c05-{seed}")
    yield {"kind": "builtin"}
    exts = [".fa", ".fb", ".fa.fb", ".fb.fa", ".fc", ".fa.fb.fc"]
    for i in range(3000 if tier == "quick" else 15000):
        ops = []
        for _ in range(r.choice([3, 6, 12, 20])):
            u = r.random()
            nm = f"fmt{r.randrange(5)}"
            if u < 0.4:
                ops.append(["reg", nm, r.sample(exts, r.choice([0, 1, 2, 3])), r.choice(["ok", "rerr", "other", "none", "ok"]), r.choice([[nm], [nm, nm + "x"], []])])
            elif u < 0.5:
                ops.append(["dereg", nm])
            elif u < 0.58:
                ops.append([r.choice(["readbuf", "writebuf"]), r.choice([None, nm, nm, nm + "x", "nope", "tetgen"])])
            elif u < 0.8:
                ops.append(["read", "m" + "".join(r.choice([".q", "", "", ".1"]) for _ in range(2)) + r.choice(exts + [".fd", ""]), r.choice([None, None, None, nm, "nope"]), r.choice([True, True, True, False]), r.choice(["l", "u", "m"])])
            else:
                ops.append(["write", "w" + r.choice(exts + [".fd", ""]), r.choice([None, None, nm, nm + "x", "nope"]), r.choice(["l", "u"])])
        yield {"kind": "history", "ops": ops}


def builtin_ext():
    """what every format registers, observed through the public deduction: extension -> formats"""
    from meshio import _helpers
    return {k: list(v) for k, v in _helpers.extension_to_filetypes.items() if v}


def c05_check(c):
    from meshio import _helpers
    from meshio._exceptions import ReadError, WriteError
    out = []
    if c["kind"] == "builtin":
        import json
        golden = json.load(open(pathlib.Path(__file__).parent / "golden_ext.json"))
        now = builtin_ext()
        for k, v in golden["ext"].items():
            if now.get(k) != v:
                out.append(f"extension {k}: formats {now.get(k)}, expected {v}")
        for k in golden["readers"]:
            if k not in _helpers.reader_map:
                out.append(f"no reader registered for {k}")
        for k in golden["writers"]:
            if k not in _helpers._writer_map:
                out.append(f"no writer registered for {k}")
        return out
    reg_ext, reg_rd, reg_wr = {}, {}, {}
    calls = []

    def mkr(tag, kind):
        def rd(path):
            calls.append(("r", tag, str(path)))
            if kind == "rerr":
                raise ReadError("no")
            if kind == "other":
                raise KeyError("boom")
            return ("mesh", tag)
        return rd

    def mkw(tag):
        def wr(filename, mesh, **kw):
            calls.append(("w", tag, str(filename), mesh, tuple(sorted(kw.items()))))
            return ("wrote", tag)
        return wr

    def case(p, how):
        return p.upper() if how == "u" else ("".join(ch.upper() if i % 2 else ch for i, ch in enumerate(p)) if how == "m" else p)

    def deduce(path):
        sfx = pathlib.Path(path).suffixes
        res, e = [], ""
        for s in reversed(sfx):
            e = (s + e).lower()
            res += reg_ext.get(e, [])
        return res

    mesh = meshio.Mesh(np.zeros((3, 2)), [("triangle", np.array([[0, 1, 2]]))])
    used = set()
    uid = 0
    try:
        with tempfile.TemporaryDirectory(prefix="vp") as tmp:
            for op in c["ops"]:
                calls.clear()
                if op[0] == "reg":
                    _, nm, ex, kind, wn = op
                    uid += 1
                    used |= {nm, *wn}
                    rd = None if kind == "none" else mkr((nm, uid), kind)
                    wm = {w: mkw((w, uid)) for w in wn}
                    meshio.register_format(nm, list(ex), rd, dict(wm))
                    for e in ex:
                        reg_ext.setdefault(e, []).append(nm)
                    if rd:
                        reg_rd[nm] = ((nm, uid), kind)
                    for w in wn:
                        reg_wr[w] = (w, uid)
                elif op[0] == "dereg":
                    _, nm = op
                    if any(v.count(nm) > 1 for v in reg_ext.values()):
                        continue
                    meshio.deregister_format(nm)
                    for v in reg_ext.values():
                        if nm in v:
                            v.remove(nm)
                    reg_rd.pop(nm, None)
                    reg_wr.pop(nm, None)
                elif op[0] in ("readbuf", "writebuf"):
                    fmt, b = op[1], io.BytesIO(b"")
                    tab = {k: v[0] for k, v in reg_rd.items()} if op[0] == "readbuf" else reg_wr
                    kind = reg_rd[fmt][1] if op[0] == "readbuf" and fmt in reg_rd else "ok"
                    with quiet():
                        try:
                            meshio.read(b, fmt) if op[0] == "readbuf" else meshio.write(b, mesh, fmt, opt=3)
                            got = "ok"
                        except Exception as e:
                            got = type(e).__name__
                    if fmt in tab:
                        want = {"ok": "ok", "rerr": "ReadError", "other": "KeyError"}[kind]
                        exp = [("r", tab[fmt], str(b))] if op[0] == "readbuf" else [("w", tab[fmt], str(b), mesh, (("opt", 3),))]
                    else:
                        want, exp = ("ReadError" if op[0] == "readbuf" else "WriteError"), []
                    if got != want or calls != exp:
                        out.append(f"{op}: got {got} after {calls}, expected {want} after {exp}")
                elif op[0] == "read":
                    _, name, fmt, exists, how = op
                    p = os.path.join(tmp, case(name, how))
                    if exists:
                        open(p, "w").close()
                    # expected
                    want, exp_calls = None, []
                    if not exists:
                        if os.path.exists(p):
                            os.unlink(p)
                        want = "ReadError"
                    else:
                        cand = [fmt] if fmt else deduce(p)
                        if not cand:
                            want = "ReadError"
                        else:
                            for f in cand:
                                if f not in reg_rd:
                                    want = "ReadError"
                                    break
                                tag, kind = reg_rd[f]
                                exp_calls.append(("r", tag, p))
                                if kind == "ok":
                                    want = ("mesh", tag)
                                    break
                                if kind == "other":
                                    want = "KeyError"
                                    break
                            else:
                                want = "fail"
                    with quiet():
                        try:
                            got = meshio.read(p, fmt) if fmt else meshio.read(p)
                        except ReadError:
                            got = "ReadError"
                        except KeyError:
                            got = "KeyError"
                        except SystemExit:
                            got = "fail"
                    if want == "fail" and got == "ReadError":
                        got = "fail"
                    if got != want or calls != exp_calls:
                        out.append(f"{op}: got {got} after calls {calls}, expected {want} after {exp_calls}")
                else:
                    _, name, fmt, how = op
                    p = os.path.join(tmp, case(name, how))
                    cand = [fmt] if fmt else deduce(p)
                    exp = None
                    if not cand or cand[0] not in reg_wr:
                        want = "error"
                    else:
                        want = ("wrote", reg_wr[cand[0]])
                        exp = ("w", reg_wr[cand[0]], p, mesh, (("opt", 3),))
                    with quiet():
                        try:
                            got = meshio.write(p, mesh, fmt, opt=3)
                        except (WriteError, ReadError) as e:
                            got = "error"
                            if cand and not isinstance(e, WriteError):
                                got = "ReadError instead of WriteError"
                    if want != "error":
                        got = want if got is None else got
                    ok = got == want and (calls == ([] if exp is None else [exp]))
                    if not ok:
                        out.append(f"{op}: got {got} after {calls}, expected {want}, {exp}")
                    if os.path.exists(p) and os.path.getsize(p):
                        out.append("target written")
    finally:
        for nm in used:
            for _ in range(30):
                meshio.deregister_format(nm)
                if not any(nm in v for v in _helpers.extension_to_filetypes.values()):
                    break
    return out


# ---------------------------------------------------------------------------------------------- C06
def c06_cases(tier, seed):
    r = random.Random(f"c06-{seed}")
    types = list(ALLTYPES[:17])
    alltypes = sorted(NN_ALL())
    for t in alltypes:
        for d in (-1, 1):
            yield {"blocks": [[t, 2]], "bad": [0, d], "target": "fake"}
        yield {"blocks": [[t, 1]], "bad": None, "target": "fake"}
    for i in range(2000 if tier == "quick" else 10000):
        bl = rnd_blocks(r, r.choice([1, 2, 3, 4, 5]), types + ["polygon5"], (0, 1, 2, 3))
        yield {"blocks": bl, "bad": None, "target": "fake"}
        for k, (t, n) in enumerate(bl):
            if not t.startswith("polygon"):
                yield {"blocks": bl, "bad": [k, r.choice([-1, 1, 2, 5])], "target": r.choice(["fake", "fake", "file", "newfile"]), "fmt": r.choice(["vtk", "vtu", "gmsh", "xdmf", "stl", "off", "obj", "medit", "abaqus", "su2", "nastran", "ply", "tecplot", "med"])}


def NN_ALL():
    import json
    return json.load(open(pathlib.Path(__file__).parent / "golden_ext.json"))["num_nodes"]


def c06_check(c):
    from meshio._exceptions import WriteError
    from meshio import _helpers
    out = []
    rng = np.random.default_rng(3)
    NNA = NN_ALL()
    cells = []
    for k, (t, n) in enumerate(c["blocks"]):
        w = NNA.get(t) or nn(t)
        if c["bad"] and c["bad"][0] == k:
            w += c["bad"][1]
            if w < 0:
                return None
        cells.append(("polygon" if t.startswith("polygon") else t, rng.integers(0, 5, (n, w))))
    m = meshio.Mesh(rng.random((5, 3)), cells)
    if any(len(b.data) == 0 and b.data.ndim != 2 for b in m.cells):
        return None
    calls = []
    with tempfile.TemporaryDirectory(prefix="vp") as tmp:
        ext = {"vtk": ".vtk", "vtu": ".vtu", "gmsh": ".msh", "xdmf": ".xdmf", "stl": ".stl", "off": ".off", "obj": ".obj", "medit": ".mesh", "abaqus": ".inp",
               "su2": ".su2", "nastran": ".bdf", "ply": ".ply", "tecplot": ".dat", "med": ".med"}
        if c["target"] == "fake":
            fn = os.path.join(tmp, "x.c06fake")
            meshio.register_format("c06fake", [".c06fake"], None, {"c06fake": lambda f, mm, **k: calls.append((f, mm))})
        else:
            fn = os.path.join(tmp, "x" + ext[c["fmt"]])
            if c["target"] == "file":
                open(fn, "w").write("precious")
        try:
            with quiet():
                for via in (lambda: meshio.write(fn, m), lambda: m.write(fn), lambda: meshio.write_points_cells(fn, m.points, [(b.type, b.data) for b in m.cells])):
                    calls.clear()
                    try:
                        via() if c["target"] == "fake" else (meshio.write(fn, m, file_format=c["fmt"]))
                        got = "written"
                    except WriteError:
                        got = "refused"
                    except Exception as e:
                        got = f"{type(e).__name__}: {e}"
                    if c["bad"]:
                        if got != "refused":
                            out.append(f"malformed block {c['bad']} of {c['blocks']}: {got}")
                        if calls:
                            out.append("writer called")
                        if c["target"] == "file" and open(fn).read() != "precious":
                            out.append("target changed")
                        if c["target"] != "file" and os.listdir(tmp):
                            out.append(f"files created: {os.listdir(tmp)}")
                    elif got != "written" or len(calls) != 1:
                        out.append(f"well-formed mesh: {got}, {len(calls)} calls")
        finally:
            if c["target"] == "fake":
                meshio.deregister_format("c06fake")
    return out


FAMS = {
    "C01": [("construct", c01_cases, c01_check)],
    "C02": [("views", c02_cases, c02_check)],
    "C03": [("sets", c03_cases, c03_check)],
    "C04": [("raw", c04_cases, c04_check)],
    "C05": [("dispatch", c05_cases, c05_check)],
    "C06": [("sanity", c06_cases, c06_check)],
}
