"""C07, C10 - C15: the format contracts (post-condition of read after write; frame condition of write)."""
import contextlib, copy, io, json, os, pathlib, random, tempfile
import numpy as np
import meshio
import gen, families
import spec as SP
import roundtrip as RT
from meshio import Mesh


# ------------------------------------------------------------------ families of round trips
def rt_cases(prop):
    def cases(tier, seed):
        for key, sp in SP.S.items():
            if sp.prop != prop:
                continue
            for vi, kw in enumerate(sp.variants):
                for nm, p in families.params(sp, tier, seed):
                    if not RT.in_domain(sp, RT.adapt(sp, p)):
                        continue
                    # the many compression/header variants of VTU share one contract: the big families on the first two only
                    if vi > 2 and nm.split("-")[0] in ("pair", "aba", "aab", "tri", "multi") and tier == "quick":
                        continue
                    yield {"key": key, "kw": kw, "name": nm, "p": p}
    return cases


def rt_check(c):
    f, mut = RT.run_case(SP.S[c["key"]], c["kw"], c["p"])
    return [f"{c['key']} {c['kw']}: {x}" for x in f]


# ------------------------------------------------------------------ rich meshes
def rng(c):
    return np.random.default_rng(c.get("seed", 0))


def conn(r, npts, n, k, dt=int):
    return np.array([r.permutation(npts)[:k] for _ in range(n)], dtype=dt).reshape(n, k)


def pts(r, n, d=3):
    return (r.random((n, d)) - 0.4) * 7 / 3


@contextlib.contextmanager
def tmpdir():
    with tempfile.TemporaryDirectory(prefix="vp") as t:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield t


def wr(mod, ext, mesh, **kw):
    with tmpdir() as t:
        fn = os.path.join(t, "x" + ext)
        getattr(meshio, mod).write(fn, mesh, **kw)
        r = getattr(meshio, mod).read(fn)
        # the readers may keep the file open (h5py): force the data into memory
        return r


def eq(a, b, tol=0.0):
    return RT.close(np.asarray(a), np.asarray(b), tol)


def same_cells(m, r, exact=True):
    out = []
    A = [(c.type, np.asarray(c.data)) for c in m.cells]
    B = [(c.type, np.asarray(c.data)) for c in r.cells]
    if [(t, d.shape) for t, d in A] != [(t, d.shape) for t, d in B]:
        return [f"blocks {[(t, d.shape) for t, d in A]} -> {[(t, d.shape) for t, d in B]}"]
    for (t, x), (_, y) in zip(A, B):
        e = eq(x, y)
        if e:
            out.append(f"{t}: {e}")
    return out


def per_block(name, a, b, tol=0.0):
    if len(a) != len(b):
        return [f"{name}: {len(a)} blocks -> {len(b)}"]
    out = []
    for k, (x, y) in enumerate(zip(a, b)):
        e = eq(x, y, tol)
        if e:
            out.append(f"{name} block {k}: {e}")
    return out


def dict_eq(name, a, b):
    out = []
    if list(sorted(a)) != list(sorted(b)):
        return [f"{name}: keys {sorted(a)} -> {sorted(b)}"]
    for k in a:
        e = eq(a[k], b[k])
        if e:
            out.append(f"{name}[{k!r}]: {e}")
    return out


# ------------------------------------------------------------------ gmsh
def gmsh_mesh(c):
    """several blocks with physical and geometrical tags, names and periodic relations"""
    r = rng(c)
    n = int(r.integers(21, 40))
    types = list(c["types"])
    nb = {t: gen.nn(t) for t in types}
    sizes = [int(r.integers(1, 6)) for _ in types]
    cells = [(t, conn(r, n, k, nb[t])) for t, k in zip(types, sizes)]
    cd = {}
    if "phys" in c["parts"]:
        cd["gmsh:physical"] = [r.integers(1, 9, k).astype("i4") if c.get("vary", True) else np.full(k, int(r.integers(1, 9)), "i4") for k in sizes]
    if "geo" in c["parts"]:
        cd["gmsh:geometrical"] = [r.integers(1, 9, k).astype("i4") if c.get("vary", True) else np.full(k, 3 + i, "i4") for i, k in enumerate(sizes)]
    if "cd" in c["parts"]:
        cd["q"] = [r.random(k) for k in sizes]
        cd["w"] = [r.random((k, 3)) for k in sizes]
    pd = {}
    if "pd" in c["parts"]:
        pd["p"] = r.random(n)
        pd["t"] = r.random((n, 9))
    fd = {}
    if "names" in c["parts"]:
        fd = {"inlet": np.array([1, 1]), "wall of \u00e9": np.array([7, 2]), "bulk": np.array([3, 3])}
        if c["seed"] % 2:
            # numbers are unique per dimension only; names in no particular order
            fd = {"z": np.array([3, 3]), "a": np.array([3, 1]), "m n": np.array([1, 2]), "b": np.array([1, 0]), "k": np.array([2, 2]), "c": np.array([10, 2])}
    m = Mesh(pts(r, n), cells, point_data=pd, cell_data=cd, field_data=fd)
    if "periodic" in c["parts"]:
        m.gmsh_periodic = [[0, (3, 1), None, np.array([[2, 0]])],
                           [1, (2, 1), (r.random(16) - 0.5).tolist(), np.array([[n - 1, 0], [4, 1], [6, 2], [n - 2, 3]])],
                           [0, (4, 6), None, np.array([[3, 5]])]]
    return m


PARTS = [["phys"], ["geo"], ["phys", "geo"], ["names"], ["periodic"], ["pd", "cd", "phys", "geo"], ["phys", "geo", "names", "periodic", "pd", "cd"]]


def gmsh_cases(tier, seed):
    for s in range(12 if tier == "quick" else 60):
        for v in ("2.2", "4.0", "4.1"):
            for b in (True, False):
                for parts in PARTS:
                    for types in (["triangle"], ["line", "triangle"], ["vertex", "line", "triangle", "tetra"], ["triangle", "quad", "triangle"], ["tetra10", "hexahedron20"], ["triangle6", "line3"]):
                        if v == "4.1" and len(types) > 1:
                            continue
                        yield {"v": v, "binary": b, "parts": parts, "types": types, "vary": v == "2.2", "seed": 1000 * seed + s}


def gmsh_check(c):
    m = gmsh_mesh(c)
    r = wr("gmsh", ".msh", copy.deepcopy(m), fmt_version=c["v"], binary=c["binary"])
    out = []
    e = eq(m.points, r.points)
    if e:
        out.append("points " + e)
    merged = RT.flat([(b.type, b.data) for b in m.cells])
    got = RT.flat([(b.type, b.data) for b in r.cells])
    if [(t, sum(map(len, d))) for t, d, _ in merged] != [(t, sum(map(len, d))) for t, d, _ in got]:
        return out + [f"blocks {[(b.type, len(b)) for b in m.cells]} -> {[(b.type, len(b)) for b in r.cells]}"]
    for (t, d, _), (_, g, _) in zip(merged, got):
        e = eq(np.concatenate(d), np.concatenate(g))
        if e:
            out.append(f"{t}: {e}")
    for k in m.cell_data:
        if k == "gmsh:physical" and c["v"] == "4.1":
            continue
        if k not in r.cell_data:
            out.append(f"cell data {k} lost")
            continue
        for (t, _, ia), (_, _, ib) in zip(merged, got):
            e = eq(np.concatenate([m.cell_data[k][i] for i in ia]), np.concatenate([r.cell_data[k][i] for i in ib]))
            if e:
                out.append(f"cell data {k} of {t}: {e}")
    for k in m.point_data:
        if k not in r.point_data:
            out.append(f"point data {k} lost")
            continue
        e = eq(m.point_data[k], r.point_data[k])
        if e:
            out.append(f"point data {k}: {e}")
    out += dict_eq("field_data", m.field_data, r.field_data)
    out += periodic(m, r)
    return out


def periodic(m, r):
    a, b = m.gmsh_periodic, r.gmsh_periodic
    if a is None or b is None:
        return [] if a is None and b is None else [f"periodic {a is not None} -> {b is not None}"]
    if len(a) != len(b):
        return [f"{len(a)} periodic links -> {len(b)}"]
    out = []
    for x, y in zip(a, b):
        if x[0] != y[0] or list(x[1]) != list(y[1]):
            out.append(f"periodic entity {x[:2]} -> {y[:2]}")
        ax = [] if x[2] is None else list(x[2])
        ay = [] if y[2] is None else list(np.ravel(y[2]))
        if ax != ay:
            out.append(f"periodic affine {ax} -> {ay}")
        if not np.array_equal(np.asarray(x[3]), np.asarray(y[3])):
            out.append(f"periodic nodes {np.asarray(x[3]).tolist()} -> {np.asarray(y[3]).tolist()}")
    return out


def gmsh41_mesh(c):
    """4.1 with entity information: one block per (dimension, geometrical tag)"""
    r = rng(c)
    n = int(r.integers(16, 40))
    types, geo = c["types"], c["geo"]
    sizes = [int(r.integers(1, 6)) for _ in types]
    cells = [(t, conn(r, n, k, gen.nn(t))) for t, k in zip(types, sizes)]
    D = {"vertex": 0, "line": 1, "line3": 1, "triangle": 2, "quad": 2, "triangle6": 2, "tetra": 3, "hexahedron": 3}
    ent = [(D[t], g) for t, g in zip(types, geo)]
    # every entity owns at least one node; nodes in shuffled order
    dt = np.array([ent[i % len(ent)] if i < len(ent) else ent[int(r.integers(0, len(ent)))] for i in range(n)])
    if c.get("extra"):
        dt[n - 1] = (1, 99)
        dt[n - 2] = (0, 98)
    dt = dt[r.permutation(n)]
    cd = {"gmsh:geometrical": [np.full(k, g, "i4") for k, g in zip(sizes, geo)],
          "gmsh:physical": [np.full(k, 10 + 3 * i, "i4") for i, k in enumerate(sizes)],
          "q": [r.random(k) for k in sizes]}
    pd = {"gmsh:dim_tags": dt, "p": r.random(n), "v": r.random((n, 3))}
    cs = {}
    if c.get("bound"):
        cs["gmsh:bounding_entities"] = [np.array([] if D[t] == 0 else [5 + i, -(i + 1)][: 1 + i % 2], dtype="i4") for i, t in enumerate(types)]
    m = Mesh(pts(r, n), cells, point_data=pd, cell_data=cd, cell_sets=cs, field_data={"a": np.array([10, D[types[0]]]), "b c": np.array([13, 2]), "A": np.array([10, (D[types[0]] + 1) % 4])})
    if c.get("periodic"):
        m.gmsh_periodic = [[1, (2, 1), (r.random(16) - 0.5).tolist(), np.array([[n - 1, 0], [4, 1], [6, 2]])], [0, (3, 1), None, np.array([[2, 0]])]]
    return m


def gmsh41_cases(tier, seed):
    for s in range(12 if tier == "quick" else 60):
        for types, geo in ((["triangle"], [1]), (["line", "triangle"], [4, 4]), (["triangle", "triangle"], [1, 2]), (["vertex", "line", "line", "triangle", "tetra"], [1, 1, 2, 1, 1]),
                           (["tetra", "triangle", "hexahedron"], [2, 5, 3]), (["triangle6", "line3"], [2, 1])):
            for b in (True, False):
                for bound in (True, False):
                    yield {"types": types, "geo": geo, "binary": b, "bound": bound, "extra": s % 2 == 0, "periodic": s % 3 == 1, "seed": 1000 * seed + s}


def gmsh41_check(c):
    m = gmsh41_mesh(c)
    r = wr("gmsh", ".msh", copy.deepcopy(m), fmt_version="4.1", binary=c["binary"])
    out = []
    e = eq(m.points, r.points)
    if e:
        out.append("points " + e)
    out += same_cells(m, r)
    if not out:
        for k in m.cell_data:
            if k not in r.cell_data:
                out.append(f"cell data {k} lost")
            else:
                out += per_block(k, m.cell_data[k], r.cell_data[k])
        for k in m.point_data:
            if k not in r.point_data:
                out.append(f"point data {k} lost")
            else:
                e = eq(m.point_data[k], r.point_data[k])
                if e:
                    out.append(f"point data {k}: {e}")
        if c["bound"]:
            if "gmsh:bounding_entities" not in r.cell_sets:
                out.append("bounding entities lost")
            elif len(r.cell_sets["gmsh:bounding_entities"]) != len(m.cells):
                out.append(f"bounding entities of {len(r.cell_sets['gmsh:bounding_entities'])} of {len(m.cells)} blocks")
            else:
                for i, (x, y) in enumerate(zip(m.cell_sets["gmsh:bounding_entities"], r.cell_sets["gmsh:bounding_entities"])):
                    if list(np.ravel(x)) != list(np.ravel([] if y is None else y)):
                        out.append(f"bounding entities of block {i}: {list(np.ravel(x))} -> {y}")
    out += dict_eq("field_data", m.field_data, r.field_data)
    out += periodic(m, r)
    return out


# ------------------------------------------------------------------ VTK extras
def vtkx_cases(tier, seed):
    for s in range(30 if tier == "quick" else 150):
        for kw in ({"binary": True}, {"binary": False}, {"binary": True, "compression": None}, {"binary": True, "compression": "lzma"}):
            yield {"what": "polyhedra", "kw": kw, "seed": 100 * seed + s}
        for ext, kw in ((".vtk", {"fmt_version": "5.1", "binary": True}), (".vtk", {"fmt_version": "5.1", "binary": False}), (".vtu", {"binary": True}), (".vtu", {"binary": False})):
            for what in ("sets", "lagrange", "field"):
                yield {"what": what, "ext": ext, "kw": kw, "seed": 100 * seed + s}
        for b in (True, False):
            yield {"what": "field", "ext": ".vtk", "kw": {"fmt_version": "4.2", "binary": b}, "seed": 100 * seed + s}


LAG = {"VTK_LAGRANGE_CURVE": (2, 7), "VTK_LAGRANGE_TRIANGLE": (3, 12), "VTK_LAGRANGE_QUADRILATERAL": (4, 16), "VTK_LAGRANGE_TETRAHEDRON": (4, 20), "VTK_LAGRANGE_HEXAHEDRON": (8, 27)}


def vtkx_check(c):
    r = rng(c)
    out = []
    if c["what"] == "polyhedra":
        n = 40
        blocks = []
        for k in r.permutation([4, 5, 6, 8])[: int(r.integers(1, 4))]:
            polys = []
            for _ in range(int(r.integers(1, 4))):
                own = r.permutation(n)[:k]
                faces = []
                left = list(own)
                while left:                                   # every node of the cell lies on some face
                    f = left[:3] + [int(x) for x in r.permutation(own) if x not in left[:3]][: max(0, int(r.integers(3, 5)) - len(left[:3]))]
                    faces.append([int(x) for x in f])
                    left = left[3:]
                faces.append([int(x) for x in r.permutation(own)[:3]])
                polys.append(faces)
            blocks.append((f"polyhedron{k}", polys))
        sizes = [len(p) for _, p in blocks]
        cd = {"q": [r.random(k) for k in sizes], "w": [r.random((k, 3)) for k in sizes], "i": [r.integers(0, 99, k) for k in sizes]}
        P = pts(r, n)
        pd = {"p": r.random(n)}
        m = Mesh(P, blocks, point_data=pd, cell_data=cd)
        g = wr("vtu", ".vtu", m, **c["kw"])
        e = eq(P, g.points, 1e-11)
        if e:
            out.append("points " + e)
        # polyhedra are grouped by their number of nodes; compare cell by cell, type by type, in order
        def cells_of(mesh_cells, cdata):
            res = {}
            for bi, (t, polys) in enumerate(mesh_cells):
                for ci, faces in enumerate(polys):
                    res.setdefault(t, []).append(([[int(x) for x in f] for f in faces], [np.asarray(cdata[k][bi][ci]).tolist() for k in sorted(cdata)]))
            return res
        try:
            A = cells_of(blocks, cd)
            B = cells_of([(b.type, b.data) for b in g.cells], g.cell_data)
        except Exception as ex:
            return out + [f"result malformed: {type(ex).__name__}: {ex}"]
        if sorted(g.cell_data) != sorted(cd):
            out.append(f"cell data {sorted(cd)} -> {sorted(g.cell_data)}")
        elif {t: [x[0] for x in v] for t, v in A.items()} != {t: [x[0] for x in v] for t, v in B.items()}:
            out.append(f"polyhedra {A} -> {B}")
        else:
            for t in A:
                for x, y in zip(A[t], B[t]):
                    for u, v in zip(x[1], y[1]):
                        if not np.allclose(u, v, rtol=1e-11, atol=0):
                            out.append(f"data of a {t}: {u} -> {v}")
        e = eq(pd["p"], g.point_data["p"], 1e-11)
        if e:
            out.append("point data " + e)
        return out
    mod = c["ext"][1:]
    tol = 1e-11 if c["ext"] == ".vtu" and not c["kw"]["binary"] else 0.0
    n = 40
    if c["what"] == "lagrange":
        cells = []
        for t in r.permutation(sorted(LAG))[:3]:
            lo, hi = LAG[t]
            for _ in range(int(r.integers(1, 3))):
                cells.append((str(t), conn(r, n, int(r.integers(1, 4)), int(r.integers(lo, hi)))))
        cells.append(("triangle", conn(r, n, 2, 3)))
        if r.random() < 0.5:
            cells = cells[::-1]
        cd = {"q": [r.random(len(d)) for _, d in cells]}
        m = Mesh(pts(r, n), cells, cell_data=cd)
        g = wr(mod, c["ext"], m, **c["kw"])
        a = RT.flat(cells)
        b = RT.flat([(x.type, np.asarray(x.data)) for x in g.cells])
        if [(t, sum(map(len, d)), d[0].shape[1]) for t, d, _ in a] != [(t, sum(map(len, d)), d[0].shape[1]) for t, d, _ in b]:
            return [f"blocks {[(t, d.shape) for t, d in cells]} -> {[(x.type, np.asarray(x.data).shape) for x in g.cells]}"]
        for (t, d, ia), (_, h, ib) in zip(a, b):
            e = eq(np.concatenate(d), np.concatenate(h)) or eq(np.concatenate([cd["q"][i] for i in ia]), np.concatenate([g.cell_data["q"][i] for i in ib]), tol)
            if e:
                out.append(f"{t}: {e}")
        return out
    cells = [("triangle", conn(r, n, 5, 3)), ("quad", conn(r, n, 4, 4)), ("line", conn(r, n, 3, 2))]
    if c["what"] == "sets":
        perm = r.permutation(n)
        ps = {"left": np.sort(perm[:9]), "right": np.sort(perm[9:20])}
        cs = {"A": [np.array([0, 3]), np.array([1]), np.array([], dtype=int)], "B": [np.array([1]), np.array([0, 2]), np.array([2])]}
        m = Mesh(pts(r, n), cells, point_sets=ps, cell_sets=cs, point_data={"p": r.random(n)}, cell_data={"q": [r.random(len(d)) for _, d in cells]})
        g = wr(mod, c["ext"], m, **c["kw"])
        exp = np.full(n, -1)
        for k, s in enumerate(ps.values()):
            exp[s] = k
        key = [k for k in g.point_data if k != "p"]
        if key != ["left-right"] and "left-right" not in g.point_data:
            out.append(f"point sets became {key}")
        elif eq(exp, g.point_data["left-right"]):
            out.append("point set data " + eq(exp, g.point_data["left-right"]))
        if "A-B" not in g.cell_data:
            out.append(f"cell sets became {sorted(g.cell_data)}")
        else:
            for i, (t, d) in enumerate(cells):
                ex = np.full(len(d), -1)
                for k, s in enumerate(cs.values()):
                    ex[s[i]] = k
                e = eq(ex, g.cell_data["A-B"][i])
                if e:
                    out.append(f"cell set data of {t}: {e}")
        e = eq(m.point_data["p"], g.point_data.get("p", np.zeros(0)), tol)
        if e:
            out.append("point data " + e)
        return out
    fd = {"ff": r.random(4), "gg": r.integers(0, 9, 3)}
    m = Mesh(pts(r, n), cells, field_data=fd, point_data={"p": r.random(n), "z": r.random((n, 3))}, cell_data={"q": [r.random(len(d)) for _, d in cells]})
    try:
        g = wr(mod, c["ext"], m, **c["kw"])
    except Exception as e:
        return [f"{type(e).__name__}: {e}"]
    for k in g.field_data:
        if k in fd:
            e = eq(fd[k], np.ravel(g.field_data[k]), tol)
            if e:
                out.append(f"field data {k}: {e}")
    for k in m.point_data:
        e = eq(m.point_data[k], g.point_data.get(k, np.zeros(0)), tol)
        if e:
            out.append(f"point data {k}: {e}")
    for i in range(3):
        e = eq(m.cell_data["q"][i], g.cell_data["q"][i], tol)
        if e:
            out.append(f"cell data {e}")
    return out


# ------------------------------------------------------------------ XDMF time series
def ts_cases(tier, seed):
    for s in range(40 if tier == "quick" else 200):
        for df in ("XML", "Binary", "HDF"):
            for types in (["triangle"], ["triangle", "quad"], ["line", "triangle"], ["vertex", "tetra", "hexahedron"], ["triangle", "quad", "triangle"]):
                yield {"df": df, "types": types, "steps": [0, 1, 2, 5][s % 4] if s else 3, "seed": 100 * seed + s}


def ts_check(c):
    r = rng(c)
    n = int(r.integers(10, 30))
    dim = int(r.choice([2, 3]))
    P = pts(r, n, dim)
    cells = [(t, conn(r, n, int(r.integers(1, 5)), gen.nn(t))) for t in c["types"]]
    steps = []
    for i in range(c["steps"]):
        pd = {f"p{j}": (r.random(n) if j else r.random((n, 3))) for j in range(int(r.integers(0, 3)))}
        if r.random() < 0.5:
            pd["i"] = r.integers(-50, 50, n).astype(r.choice(["i4", "i8", "u4"]).item() if False else "i8")
        cd = {f"c{j}": [r.random((len(d), 3)) if j else r.random(len(d)) for _, d in cells] for j in range(int(r.integers(0, 3)))}
        steps.append((float(np.round(r.random() * 10, int(r.integers(0, 17)))) if i % 2 else 1.0 / 3 + i, pd, cd))
    out = []
    with tmpdir() as t:
        cwd = os.getcwd()
        os.chdir(t)
        try:
            with meshio.xdmf.TimeSeriesWriter("x.xdmf", data_format=c["df"]) as w:
                w.write_points_cells(P, cells)
                for tt, pd, cd in steps:
                    w.write_data(tt, point_data=pd, cell_data=cd)
            with meshio.xdmf.TimeSeriesReader("x.xdmf") as rd:
                gp, gc = rd.read_points_cells()
                if rd.num_steps != len(steps):
                    return [f"{len(steps)} steps -> {rd.num_steps}"]
                got = [rd.read_data(k) for k in range(rd.num_steps)]
                if steps:
                    k = len(steps) - 1
                    again = rd.read_data(0)
                    if again[0] != got[0][0] or sorted(again[1]) != sorted(got[0][1]):
                        out.append("reading step 0 again gives another result")
        finally:
            os.chdir(cwd)
    e = eq(P, gp)
    if e:
        out.append("points " + e)
    gcells = [(b[0], np.asarray(b[1])) if not hasattr(b, "type") else (b.type, np.asarray(b.data)) for b in gc]
    a, b = RT.flat(cells), RT.flat(gcells)
    if [(x, sum(map(len, d))) for x, d, _ in a] != [(x, sum(map(len, d))) for x, d, _ in b]:
        return out + [f"blocks {[(x, len(d)) for x, d in cells]} -> {[(x, len(d)) for x, d in gcells]}"]
    for (x, d, _), (_, g, _) in zip(a, b):
        e = eq(np.concatenate(d), np.concatenate(g))
        if e:
            out.append(f"{x}: {e}")
    for k, ((tt, pd, cd), (gt, gpd, gcd)) in enumerate(zip(steps, got)):
        if gt != tt:
            out.append(f"time of step {k}: {tt!r} -> {gt!r}")
        if sorted(pd) != sorted(gpd) or sorted(cd) != sorted(gcd):
            out.append(f"data names of step {k}: {sorted(pd)} {sorted(cd)} -> {sorted(gpd)} {sorted(gcd)}")
            continue
        for nm in pd:
            e = eq(pd[nm], gpd[nm])
            if e:
                out.append(f"step {k} point data {nm}: {e}")
        for nm in cd:
            ga = np.concatenate([np.asarray(x) for x in gcd[nm]])
            e = eq(np.concatenate(cd[nm]), ga)
            if e:
                out.append(f"step {k} cell data {nm}: {e}")
            elif [len(x) for x in gcd[nm]] != [len(d) for _, d in gcells]:
                out.append(f"step {k} cell data {nm}: not one array per block")
    return out


# ------------------------------------------------------------------ MED, Exodus
def med_cases(tier, seed):
    for s in range(100 if tier == "quick" else 500):
        yield {"seed": 100 * seed + s, "what": ["tags", "fields", "elno"][s % 3]}


def med_check(c):
    r = rng(c)
    n = int(r.integers(12, 30))
    types = [str(t) for t in r.permutation(["triangle", "quad", "tetra", "line", "hexahedron"])[: int(r.integers(1, 4))]]
    cells = [(t, conn(r, n, int(r.integers(1, 6)), gen.nn(t))) for t in types]
    pd, cd, fd = {}, {}, {}
    if c["what"] != "fields":
        pd["point_tags"] = r.integers(0, 5, n)
        cd["cell_tags"] = [r.integers(-7, 1, len(d)) for _, d in cells]
    if c["what"] == "fields":
        pd = {"u": r.random((n, 2)), "alpha": r.random(n)}
        cd = {"e": [r.random((len(d), 3)) for _, d in cells], "zz": [r.random(len(d)) for _, d in cells]}
        if c["seed"] % 2:
            fd["med:nom"] = [["A"], ["X", "Y"], ["E1", "E2", "E3"], ["Z"]]
    if c["what"] == "elno":
        cd["node"] = [r.random((len(d), d.shape[1], 2)) for _, d in cells]
    m = Mesh(pts(r, n, int(r.choice([2, 3]))), cells, point_data=pd, cell_data=cd, field_data=fd)
    if c["what"] == "tags":
        m.point_tags = {2: ["top", "all nodes"], 3: ["side"], 4: ["x" * 70]}
        m.cell_tags = {-6: ["left"], -7: ["A", "B", "C"]}
    g = wr("med", ".med", m)
    out = []
    e = eq(m.points, g.points)
    if e:
        out.append("points " + e)
    a, b = RT.bytype(cells), RT.bytype([(x.type, np.asarray(x.data)) for x in g.cells])
    if [(t, len(d[0])) for t, d, _ in a] != [(t, len(d[0])) for t, d, _ in b]:
        return out + [f"blocks {[(t, len(d)) for t, d in cells]} -> {[(x.type, len(x)) for x in g.cells]}"]
    for (t, d, ia), (_, h, ib) in zip(a, b):
        e = eq(d[0], h[0])
        if e:
            out.append(f"{t}: {e}")
        for k in cd:
            if k not in g.cell_data:
                out.append(f"cell data {k} lost")
                continue
            e = eq(cd[k][ia[0]], g.cell_data[k][ib[0]])
            if e:
                out.append(f"cell data {k} of {t}: {e}")
    for k in pd:
        e = eq(pd[k], g.point_data.get(k, np.zeros(0)))
        if e:
            out.append(f"point data {k}: {e}")
    if c["what"] == "tags" and (m.point_tags != g.point_tags or m.cell_tags != g.cell_tags):
        out.append(f"families {m.point_tags} {m.cell_tags} -> {g.point_tags} {g.cell_tags}")
    if "med:nom" in fd:
        # MED lists the fields by name: alpha, e, u, zz
        comp = dict(zip(list(pd) + list(cd), [["X", "Y"], ["A"], ["E1", "E2", "E3"], ["Z"]]))
        m2 = Mesh(m.points, cells, point_data=pd, cell_data=cd, field_data={"med:nom": [comp[k] for k in list(pd) + list(cd)]})
        g2 = wr("med", ".med", m2)
        if g2.field_data.get("med:nom") != [comp[k] for k in sorted(comp)]:
            out.append(f"component names {comp} -> {g2.field_data.get('med:nom')}")
    return out


# ------------------------------------------------------------------ decks: tags, labels and data under the format's own names
def deck_cases(tier, seed):
    for s in range(60 if tier == "quick" else 400):
        for what in ("nastran", "medit", "meditb", "netgen", "su2", "ugrid", "tetgen", "avsucd", "mdpa", "flac3d", "tecplot", "abaqus", "permas", "dolfin"):
            yield {"what": what, "seed": 100 * seed + s}


def tagged(r, types, n, dim, key, lo=1, hi=9, dt="i4", pdkey=None):
    cells = [(t, conn(r, n, int(r.integers(1, 6)), gen.nn(t))) for t in types]
    cd = {key: [r.integers(lo, hi, len(d)).astype(dt) for _, d in cells]} if key else {}
    pd = {pdkey: r.integers(lo, hi, n).astype(dt)} if pdkey else {}
    return Mesh(pts(r, n, dim), cells, point_data=pd, cell_data=cd)


def cmp_mesh(m, g, ptol, group, keys=(), pkeys=(), dtol=0.0):
    out = []
    e = eq(m.points, g.points, ptol)
    if e:
        out.append("points " + e)
    grp = RT.GROUP[group]
    a, b = grp([(x.type, np.asarray(x.data)) for x in m.cells]), grp([(x.type, np.asarray(x.data)) for x in g.cells])
    if [(t, sum(map(len, d))) for t, d, _ in a] != [(t, sum(map(len, d))) for t, d, _ in b]:
        return out + [f"blocks {[(x.type, len(x)) for x in m.cells]} -> {[(x.type, len(x)) for x in g.cells]}"]
    for (t, d, ia), (_, h, ib) in zip(a, b):
        e = eq(np.concatenate(d), np.concatenate(h))
        if e:
            out.append(f"{t}: {e}")
        for k in keys:
            if k not in g.cell_data:
                out.append(f"cell data {k} lost")
                continue
            e = eq(np.concatenate([m.cell_data[k][i] for i in ia]), np.concatenate([np.asarray(g.cell_data[k][i]) for i in ib]), dtol)
            if e:
                out.append(f"cell data {k} of {t}: {e}")
    for k in pkeys:
        e = eq(m.point_data[k], g.point_data.get(k, np.zeros(0)), dtol)
        if e:
            out.append(f"point data {k}: {e}")
    return out


def other_int(c, m, key):
    """formats that store one integer per cell take the first integer data if there is none under their own name"""
    if c["seed"] % 5 != 3:
        return m
    w = copy.deepcopy(m)
    w.cell_data = {"dens": [np.linspace(0.5, 1.5, len(b)) for b in m.cells], "mat": w.cell_data.pop(key)}
    return w


def pick(r, pool, kmax=4):
    return [str(t) for t in r.permutation(pool)[: int(r.integers(1, kmax))]]


def deck_check(c):
    r = rng(c)
    w = c["what"]
    n = int(r.integers(24, 40))
    vol = ["tetra", "hexahedron", "wedge", "pyramid"]
    if w == "nastran":
        m = tagged(r, pick(r, ["line", "triangle", "quad"] + vol), n, 3, "nastran:ref", pdkey="nastran:ref")
        kw = [{}, {"point_format": "free"}, {"point_format": "free", "cell_format": "free"}, {"point_format": "fixed-small"}][c["seed"] % 4]
        small = kw.get("point_format") == "fixed-small"
        if small:
            m.points = np.round(m.points, 2)
        g = wr("nastran", ".bdf", m, **kw)
        return cmp_mesh(m, g, 1e-9, "flat", ["nastran:ref"], ["nastran:ref"])
    if w in ("medit", "meditb"):
        m = tagged(r, pick(r, ["line", "triangle", "quad"] + vol), n, int(r.choice([2, 3])), "medit:ref", pdkey="medit:ref")
        return cmp_mesh(m, wr("medit", ".mesh" if w == "medit" else ".meshb", other_int(c, m, "medit:ref")), 1e-15, "blocks", ["medit:ref"], ["medit:ref"])
    if w == "netgen":
        types = pick(r, ["vertex", "line", "triangle", "quad"] + vol, 6)
        m = tagged(r, types, n, int(r.choice([2, 3])) if not set(types) & set(vol) else 3, "netgen:index")
        top = max({"vertex": 0, "line": 1, "triangle": 2, "quad": 2}.get(t, 3) for t in types)
        m.field_data = {"outer": np.array([1, top]), "core": np.array([3, top])}
        for d, nm in ((top - 1, "bc"), (top - 2, "cd2")):
            if d >= 0 and top == 3:
                m.field_data[nm] = np.array([2, d])
        ident = c["seed"] % 2
        if ident:
            m.info = {"netgen:identifications": np.array([[1, 2, 1], [3, 4, 1], [2, 7, 2]]), "netgen:identificationtypes": np.array([[1, 2]])}
        g = wr("netgen", ".vol", other_int(c, m, "netgen:index"))
        out = cmp_mesh(m, g, 1e-15, "bytype", ["netgen:index"])
        out += dict_eq("field_data", m.field_data, {k: v for k, v in g.field_data.items() if k in m.field_data})
        if ident:
            out += dict_eq("info", m.info, {k: g.info[k] for k in g.info if k in m.info} if g.info else {})
        return out
    if w == "su2":
        dim = int(r.choice([2, 3]))
        if dim == 2:
            types, bt = pick(r, ["triangle", "quad"], 3), ["line"]
        else:
            types, bt = pick(r, vol, 4), pick(r, ["triangle", "quad"], 3)
        if c["seed"] % 6 == 0:
            types = []
        cells = [(t, conn(r, n, int(r.integers(1, 6)), gen.nn(t))) for t in types + bt]
        cd = {"su2:tag": [np.zeros(len(d), int) if t in types else r.integers(1, 4, len(d)) for t, d in cells]}
        m = Mesh(pts(r, n, dim), cells, cell_data=cd)
        g = wr("su2", ".su2", other_int(c, m, "su2:tag"))
        # boundary cells are grouped by marker: compare as sets of (nodes, tag)
        out = []
        e = eq(m.points, g.points, 1e-15)
        if e:
            out.append("points " + e)
        def rows(mm, sel, tags):
            res = []
            for i, b in enumerate(mm.cells):
                if b.type in sel:
                    for row, tg in zip(np.asarray(b.data), mm.cell_data["su2:tag"][i]):
                        res.append((b.type, tuple(int(x) for x in row), int(tg) if tags else 0))
            return res
        if "su2:tag" not in g.cell_data:
            return out + ["su2:tag lost"]
        if sorted(rows(m, bt, True)) != sorted(rows(g, bt, True)):
            out.append(f"boundary {sorted(rows(m, bt, True))} -> {sorted(rows(g, bt, True))}")
        for t in types:
            if rows(m, [t], False) != rows(g, [t], False):
                out.append(f"{t}: {rows(m, [t], False)} -> {rows(g, [t], False)}")
        return out
    if w == "ugrid":
        ext, dt, tol = [(".lb8.ugrid", "f8", 0), (".b8.ugrid", "f8", 0), (".r8.ugrid", "f8", 0), (".lr4.ugrid", "f4", 0), (".ugrid", "f4", 1e-6), (".b8l.ugrid", "f8", 0)][c["seed"] % 6]
        types = pick(r, ["triangle", "quad"], 3) + pick(r, vol, 4)
        m = tagged(r, types, n, 3, "ugrid:ref")
        m.points = m.points.astype(dt)
        for i, (t, b) in enumerate(zip(types, m.cells)):
            if t in vol:
                m.cell_data["ugrid:ref"][i][:] = 0
        return cmp_mesh(m, wr("ugrid", ext, other_int(c, m, "ugrid:ref")), tol, "bytype", ["ugrid:ref"])
    if w == "tetgen":
        m = tagged(r, [["tetra"], ["triangle", "tetra"], ["tetra", "tetra"], ["tetra", "line", "tetra"]][c["seed"] % 4], n, 3, "tetgen:ref", pdkey="tetgen:ref")
        m.point_data["attr"] = r.random(n)
        m.cell_data["cat"] = [r.random(len(b)) for b in m.cells]
        m.cell_data["int"] = [r.integers(0, 99, len(b)) for b in m.cells]
        g = wr("tetgen", ".ele" if c["seed"] % 3 == 1 else ".node", m)
        g.cell_data = {{"tetgen:ref2": "cat", "tetgen:ref3": "int"}.get(k, k): v for k, v in g.cell_data.items()}
        keep = [i for i, b in enumerate(m.cells) if b.type == "tetra"]
        m = Mesh(m.points, [m.cells[i] for i in keep], point_data=m.point_data, cell_data={k: [v[i] for i in keep] for k, v in m.cell_data.items()})
        out = cmp_mesh(m, g, 1e-15, "flat", ["tetgen:ref", "cat", "int"], dtol=1e-15)
        for a, b in (("tetgen:ref", "tetgen:ref"), ("attr", "tetgen:attr1")):
            e = eq(m.point_data[a], g.point_data.get(b, np.zeros(0)), 1e-15)
            if e:
                out.append(f"point data {a}: {e}")
        return out
    if w == "avsucd":
        m = tagged(r, pick(r, ["vertex", "line", "triangle", "quad"] + vol), n, 3, "avsucd:material")
        m.point_data = {"p": r.random(n), "v": r.random((n, 3))}
        m.cell_data["q"] = [r.random(len(b)) for b in m.cells]
        m.cell_data["w"] = [r.random((len(b), 3)) for b in m.cells]
        return cmp_mesh(m, wr("avsucd", ".avs", m), 1e-13, "flat", ["avsucd:material", "q", "w"], ["p", "v"], 1e-13)
    if w == "mdpa":
        m = tagged(r, pick(r, ["line", "triangle", "quad", "tetra", "hexahedron"]), n, 3, None)
        m.point_data = {"PRESSURE": r.random(n)}
        m.cell_data = {"DENSITY": [r.random(len(b)) for b in m.cells]}
        out = cmp_mesh(m, wr("mdpa", ".mdpa", m), 1e-15, "flat")
        # the reader does not read data; the sections that were written must list every point and cell in order
        with tmpdir() as t:
            meshio.mdpa.write(os.path.join(t, "x.mdpa"), m)
            txt = open(os.path.join(t, "x.mdpa")).read()
        for tag, nm, vals in (("NodalData", "PRESSURE", m.point_data["PRESSURE"]), ("ElementalData", "DENSITY", np.concatenate(m.cell_data["DENSITY"]))):
            sec = txt.split(f"Begin {tag} {nm}")
            if len(sec) != 2:
                out.append(f"{tag} {nm} is not there once")
                continue
            rows = [x.split() for x in sec[1].split(f"End {tag}")[0].split("\n") if x.strip()]
            if [int(x[0]) for x in rows] != list(range(1, len(vals) + 1)) or [float(x[1].replace("np.float64(", "").rstrip(")")) for x in rows] != vals.tolist():
                out.append(f"{tag} {nm}: rows do not list the values in order")
        return out
    if w == "tecplot":
        m = tagged(r, [str(r.choice(["triangle", "quad", "tetra", "hexahedron"]))] * int(r.integers(1, 3)), n, int(r.choice([2, 3])), None)
        m.point_data = {"p": r.random(n), "longname": r.random(n), "zz": r.random(n)}
        m.cell_data = {"q": [r.random(len(b)) for b in m.cells], "c2": [r.random(len(b)) for b in m.cells]}
        if c["seed"] % 3 == 0:                       # vectors are stored component by component
            k = int(r.integers(2, 4))
            m.point_data["vec"] = r.random((n, k))
            m.cell_data["cv"] = [r.random((len(b), k)) for b in m.cells]
            g = wr("tecplot", ".dat", copy.deepcopy(m))
            v, cv = m.point_data.pop("vec"), m.cell_data.pop("cv")
            for i in range(k):
                m.point_data[f"vec_{i}"] = v[:, i]
                m.cell_data[f"cv_{i}"] = [x[:, i] for x in cv]
            return cmp_mesh(m, g, 1e-13, "flat", list(m.cell_data), list(m.point_data), 1e-13)
        return cmp_mesh(m, wr("tecplot", ".dat", m), 1e-13, "flat", ["q", "c2"], ["p", "longname", "zz"], 1e-13)
    if w == "abaqus":
        m = tagged(r, pick(r, ["line", "triangle", "quad", "tetra", "hexahedron", "wedge"]), n, 3, None)
        m.point_sets = {"LEFT": np.sort(r.permutation(n)[: int(r.integers(1, 20))]), "b2": np.array([n - 1])}
        m.cell_sets = {"E1": [np.sort(r.permutation(len(b))[: int(r.integers(0, len(b) + 1))]) for b in m.cells], "ALL": [np.arange(len(b)) for b in m.cells]}
        g = wr("abaqus", ".inp", m)
        out = cmp_mesh(m, g, 1e-15, "blocks")
        out += dict_eq("point sets", m.point_sets, g.point_sets)
        A, B = {k: v for k, v in RT.members(m, m.cell_sets).items() if v}, {k: v for k, v in RT.members(g, g.cell_sets).items() if v}
        if A != B:
            out.append(f"cell sets {A} -> {B}")
        return out
    if w == "permas":
        m = tagged(r, pick(r, ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "line3", "triangle6", "tetra10", "quad9"]), n, 3, None)
        return cmp_mesh(m, wr("permas", ".post", m), 0.0, "blocks")
    if w == "dolfin":
        t = str(r.choice(["triangle", "tetra"]))
        m = tagged(r, [t] * int(r.integers(1, 3)), n, 3 if t == "tetra" else 2, None)
        m.cell_data = {"rho": [r.random(len(b)) for b in m.cells], "mat": [r.integers(0, 9, len(b)) for b in m.cells]}
        return cmp_mesh(m, wr("dolfin", ".xml", m), 0.0, "flat", ["rho", "mat"], dtol=0.0)
    if w == "flac3d":
        p = {"npts": n, "dim": 3, "oriented": True, "blocks": [[t, int(r.integers(1, 6))] for t in pick(r, vol)], "seed": c["seed"]}
        m = gen.build(p)
        m.cell_sets = {"G1": [np.sort(r.permutation(len(b))[: int(r.integers(0, len(b) + 1))]) for b in m.cells], "G2": [np.arange(len(b)) for b in m.cells]}
        g = wr("flac3d", ".f3grid", m, binary=bool(c["seed"] % 2))
        out = cmp_mesh(m, g, 1e-15, "flat")
        return out + RT.cell_sets_post(SP.S["flac3d"], m, g)
    raise ValueError(w)


# ------------------------------------------------------------------ surfaces
def surf_cases(tier, seed):
    for s in range(80 if tier == "quick" else 500):
        for what in ("obj", "ply-a", "ply-b", "off", "stl-a", "stl-b", "exodus"):
            yield {"what": what, "seed": 100 * seed + s}


def surf_check(c):
    r = rng(c)
    w = c["what"]
    n = int(r.integers(12, 30))
    if w == "obj":
        m = tagged(r, pick(r, ["triangle", "quad"], 3), n, 3, None)
        if c["seed"] % 3 != 1:
            m.point_data["obj:vn"] = r.random((n, 3))
        if c["seed"] % 3 != 2:
            m.point_data["obj:vt"] = r.random((n, 2))
        return cmp_mesh(m, wr("obj", ".obj", m), 0.0, "flat", [], list(m.point_data))
    if w.startswith("ply"):
        types = pick(r, ["triangle", "quad", "polygon"], 4)
        m = tagged(r, types, n, 3, None)
        m.point_data = {"p": r.random(n), "i": r.integers(-9, 9, n).astype("i4"), "u": r.integers(0, 200, n).astype("u1"), "f": r.random(n).astype("f4")}
        g = wr("ply", ".ply", m, binary=w == "ply-b")
        return cmp_mesh(m, g, 0.0, "flat", [], list(m.point_data))
    if w == "off":
        m = tagged(r, ["triangle"] * int(r.integers(1, 3)), n, 3, None)
        return cmp_mesh(m, wr("off", ".off", m), 0.0, "flat")
    if w.startswith("stl"):
        k = int(r.integers(1, 9))
        m = tagged(r, ["triangle"], n, 3, None)
        nb = np.concatenate([b.data for b in m.cells])
        nrm = r.random((len(nb), 3))
        m.cell_data["facet_normals"] = [nrm]
        g = wr("stl", ".stl", m, binary=w == "stl-b")
        if w == "stl-b":
            m.points = m.points.astype("f4")
        A, B = m.points[nb], np.concatenate([np.asarray(b.data) for b in g.cells])
        e = eq(A, np.asarray(g.points)[B].astype(A.dtype))
        out = ["corners " + e] if e else []
        if "facet_normals" in g.cell_data:
            e = eq(nrm.astype("f4"), np.asarray(g.cell_data["facet_normals"][0]).astype("f4"), 1e-6)
            if e:
                out.append("normals " + e)
        return out
    raise ValueError(w)


def exo_cases(tier, seed):
    for s in range(100 if tier == "quick" else 500):
        yield {"seed": 100 * seed + s}


def exo_check(c):
    r = rng(c)
    n = int(r.integers(20, 40))
    types = [str(t) for t in r.choice(["triangle", "quad", "tetra", "hexahedron", "line", "triangle6"], int(r.integers(1, 4)))]
    m = tagged(r, types, n, int(r.choice([2, 3])), None)
    m.point_data = {f"f{j}" * (1 + 3 * j): r.random(n) for j in range(int(r.integers(0, 5)))}
    m.point_sets = {nm: np.sort(r.permutation(n)[: int(r.integers(1, n))]) for nm in ["s", "longer name", "x3"][: int(r.integers(0, 4))]}
    vec = c["seed"] % 4
    if vec == 1:                                     # names that look like one component of a vector
        m.point_data.update({"uX": r.random(n), "b_R": r.random(n), "wY": r.random(n), "t_Z": r.random(n)})
    if vec in (2, 3):                                # all components: one array (the Exodus convention)
        tri, dbl = r.random((n, 3)), r.random((n, 2))
        m.point_data.update({"uX": tri[:, 0], "uY": tri[:, 1], "uZ": tri[:, 2]} if vec == 2 else {"d_R": dbl[:, 0], "d_Z": dbl[:, 1]})
        m.point_data["last"] = r.random(n)
    g = wr("exodus", ".e", copy.deepcopy(m))
    if vec in (2, 3):
        for q in ("uX", "uY", "uZ", "d_R", "d_Z"):
            m.point_data.pop(q, None)
        m.point_data.update({"u": tri} if vec == 2 else {"d": dbl})
    out = cmp_mesh(m, g, 0.0, "blocks", [], list(m.point_data))
    if len(m.point_data) != len(g.point_data):
        out.append(f"point data {list(m.point_data)} -> {list(g.point_data)}")
    return out + dict_eq("point sets", m.point_sets, g.point_sets)


# ------------------------------------------------------------------ C07
def mut_cases(tier, seed):
    for key, sp in SP.S.items():
        for vi, kw in enumerate(sp.variants):
            for nm, p in families.params(sp, "quick", seed):
                if not RT.in_domain(sp, RT.adapt(sp, p)):
                    continue
                g = nm.split("-")[0]
                if (g in ("pair", "tri", "large", "big") or vi > 2 and g != "rand") and tier == "quick":
                    continue
                yield {"key": key, "kw": kw, "name": nm, "p": p}


def padded_only(m, ref):
    """the known finding: 2-component data were replaced by their zero-padded 3-component version, and nothing else changed"""
    def unpad(a, b):
        if b.ndim == 2 and b.shape[1] == 2 and a.ndim == 2 and a.shape == (len(b), 3) and np.array_equal(a[:, :2], b) and not a[:, 2].any():
            return b
        return a
    m.point_data = {k: unpad(v, ref.point_data[k]) if k in ref.point_data else v for k, v in m.point_data.items()}
    m.cell_data = {k: [unpad(a, b) for a, b in zip(v, ref.cell_data[k])] if k in ref.cell_data and len(v) == len(ref.cell_data[k]) else v for k, v in m.cell_data.items()}
    return not gen.snapdiff(gen.snapshot(ref), gen.snapshot(m))


def arrays(m):
    for nm, a in [("points", m.points)] + [(f"cells {b.type}", b.data) for b in m.cells] + [(f"point data {k}", v) for k, v in m.point_data.items()] \
            + [(f"cell data {k}", a) for k, v in m.cell_data.items() for a in v] + [(f"point set {k}", v) for k, v in m.point_sets.items()] \
            + [(f"cell set {k}", a) for k, v in m.cell_sets.items() for a in v] + [(f"field data {k}", v) for k, v in m.field_data.items()]:
        if isinstance(a, np.ndarray):
            yield nm, a


def frame(m, ref, write):
    """write(): must leave m byte for byte as it was, and must not touch any array in place"""
    ids = [(nm, a, a.copy(), a.dtype, a.shape) for nm, a in arrays(m)]
    before = gen.snapshot(m)
    containers = [(k, getattr(m, k)) for k in ("points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets")]
    try:
        write()
    except (Exception, SystemExit):
        pass
    out = []
    for nm, a, b, dt, sh in ids:
        if a.dtype != dt or a.shape != sh or not (np.array_equal(a, b) or a.tobytes() == b.tobytes()):
            out.append(f"array {nm} was modified in place")
    diff = gen.snapdiff(before, gen.snapshot(m))
    if diff:
        m2 = copy.copy(m)
        if set(diff) <= {"point_data", "cell_data"} and padded_only(m2, ref) and not out:
            return ["KNOWN: 2-component data of the caller's mesh are replaced by zero-padded 3-component data"]
        out.append("changed: " + ", ".join(diff))
    return out


def mut_check(c):
    sp = SP.S[c["key"]]
    p = RT.adapt(sp, c["p"])
    m, ref = gen.build(p), gen.build(p)
    mod = getattr(meshio, sp.name)
    out = []
    with tmpdir() as t:
        f1 = os.path.join(t, "x" + sp.ext)
        out = frame(m, ref, lambda: mod.write(f1, m, **c["kw"]))
    out = [f"{c['key']} {c['kw']}: {x}" if not x.startswith("KNOWN:") else f"{x} ({sp.name} {c['kw'].get('fmt_version')})" for x in out]
    if any("KNOWN:" in x for x in out) and c["key"] not in ("vtk42", "vtk51"):
        out = [x.replace("KNOWN: ", "") for x in out]
    return out


# every registered writer, on meshes that carry everything at once (most formats store only a part and warn, or refuse)
EXTS = {".inp", ".msh", ".avs", ".cgns", ".xml", ".e", ".f3grid", ".h5m", ".hmf", ".mdpa", ".med", ".mesh", ".meshb", ".bdf", ".vol", ".obj", ".off", ".post", ".ply", ".stl", ".su2", ".svg", ".dat", ".tec",
        ".node", ".ele", ".ugrid", ".lb8.ugrid", ".vtk", ".vtu", ".wkt", ".xdmf", ".dato", ".vol.gz", ".nas", ".fem", ".exo", ".ex2", ".xmf"}
RICH = [("vtk", {"fmt_version": "4.2", "binary": True}, ".vtk"), ("vtk", {"fmt_version": "4.2", "binary": False}, ".vtk"), ("vtk", {"fmt_version": "5.1", "binary": True}, ".vtk"),
        ("vtk", {"fmt_version": "5.1", "binary": False}, ".vtk"), ("vtu", {"binary": True}, ".vtu"), ("vtu", {"binary": False}, ".vtu"), ("vtu", {"binary": True, "compression": "lzma"}, ".vtu"),
        ("gmsh", {"fmt_version": "2.2", "binary": True}, ".msh"), ("gmsh", {"fmt_version": "2.2", "binary": False}, ".msh"), ("gmsh", {"fmt_version": "4.0", "binary": True}, ".msh"),
        ("gmsh", {"fmt_version": "4.0", "binary": False}, ".msh"), ("gmsh", {"fmt_version": "4.1", "binary": True}, ".msh"), ("gmsh", {"fmt_version": "4.1", "binary": False}, ".msh"),
        ("xdmf", {"data_format": "XML"}, ".xdmf"), ("xdmf", {"data_format": "Binary"}, ".xdmf"), ("xdmf", {"data_format": "HDF"}, ".xdmf"), ("cgns", {}, ".cgns"), ("h5m", {}, ".h5m"),
        ("hmf", {}, ".hmf"), ("med", {}, ".med"), ("exodus", {}, ".e"), ("abaqus", {}, ".inp"), ("ansys", {"binary": True}, ".msh"), ("ansys", {"binary": False}, ".msh"), ("avsucd", {}, ".avs"),
        ("dolfin", {}, ".xml"), ("flac3d", {"binary": True}, ".f3grid"), ("flac3d", {"binary": False}, ".f3grid"), ("mdpa", {}, ".mdpa"), ("medit", {}, ".mesh"), ("medit", {}, ".meshb"),
        ("nastran", {}, ".bdf"), ("nastran", {"point_format": "free", "cell_format": "free"}, ".bdf"), ("nastran", {"point_format": "fixed-small", "cell_format": "fixed-large"}, ".bdf"),
        ("netgen", {}, ".vol"), ("netgen", {}, ".vol.gz"), ("obj", {}, ".obj"), ("off", {}, ".off"), ("permas", {}, ".post"), ("ply", {"binary": True}, ".ply"), ("ply", {"binary": False}, ".ply"),
        ("stl", {"binary": True}, ".stl"), ("stl", {"binary": False}, ".stl"), ("su2", {}, ".su2"), ("svg", {}, ".svg"), ("svg", {"image_width": 100, "force_width": 50} if False else {}, ".svg"),
        ("tecplot", {}, ".dat"), ("tetgen", {}, ".node"), ("ugrid", {}, ".ugrid"), ("ugrid", {}, ".lb8.ugrid"), ("ugrid", {}, ".r4.ugrid"), ("wkt", {}, ".wkt"), ("neuroglancer", {}, "")]
KINDS = [["triangle"], ["line", "triangle", "quad"], ["triangle", "triangle"], ["tetra", "hexahedron", "wedge", "pyramid"], ["tetra"], ["quad", "triangle"], ["vertex", "line"], ["hexahedron20", "wedge15", "tetra10"],
         ["hexahedron27", "hexahedron"], ["line3", "triangle6", "quad8"], ["pyramid13", "quad9"]]


def rich_cases(tier, seed):
    rnd = random.Random(seed)
    for i, (mod, kw, ext) in enumerate(RICH):
        for k, types in enumerate(KINDS):
            for dim in (2, 3):
                for lay in ("C", "F", "ro") if tier == "thorough" else (["C", "F", "ro"][(i + k + dim) % 3],):
                    for via in ("module", "api"):
                        if via == "api" and (k + i) % 4 and tier == "quick":
                            continue
                        yield {"mod": mod, "kw": kw, "ext": ext, "types": types, "dim": dim, "lay": lay, "via": via, "pdt": ["f8", "f4", "i8"][(k + i + dim) % 3 if k else 0],
                               "cdt": ["i8", "i4", "u8"][(k + dim) % 3], "seed": 100 * seed + k, "sets": (i + k) % 2 == 0, "data": (i + k) % 3 != 1, "tags": (i + k) % 3 != 2}


TAGS = {"gmsh": "gmsh:physical", "medit": "medit:ref", "nastran": "nastran:ref", "netgen": "netgen:index", "su2": "su2:tag", "ugrid": "ugrid:ref", "tetgen": "tetgen:ref", "avsucd": "avsucd:material",
        "flac3d": "flac3d:group", "med": "cell_tags", "h5m": "h5m:tag"}


def rich_mesh(c):
    r = rng(c)
    n = 30
    P = (pts(r, n, c["dim"]) * 10).astype(c["pdt"])
    cells = [(t, conn(r, n, 2 + i, gen.nn(t), c["cdt"])) for i, t in enumerate(c["types"])]
    pd, cd, fd, ps, cs = {}, {}, {}, {}, {}
    if c["data"]:
        pd = {"s": r.random(n), "v2": r.random((n, 2)), "v3": r.random((n, 3)), "i": r.integers(0, 9, n), "f": r.random(n).astype("f4"), "t": r.random((n, 9))}
        cd = {"q": [r.random(len(d)) for _, d in cells], "w": [r.random((len(d), 3)) for _, d in cells], "mat": [r.integers(0, 9, len(d)) for _, d in cells]}
        if c["mod"] in ("tecplot",):
            pd = {k: v for k, v in pd.items() if v.ndim == 1}
            cd = {"q": cd["q"]}
        if c["mod"] in ("hmf", "med", "exodus", "ply", "mdpa", "gmsh", "h5m", "tetgen", "avsucd"):
            pd.pop("v2")
        if c["mod"] == "h5m":
            cd = {}
        if c["mod"] in ("stl",):
            cd = {}
        fd = {"fa": np.array([1, 2])}
    if c["tags"] and c["mod"] in TAGS:
        cd[TAGS[c["mod"]]] = [r.integers(1, 5, len(d)) for _, d in cells]
        if c["mod"] in ("medit", "nastran", "tetgen"):
            pd[TAGS[c["mod"]]] = r.integers(1, 5, n)
        if c["mod"] == "med":
            pd["point_tags"] = r.integers(1, 5, n)
        if c["mod"] == "gmsh":
            cd["gmsh:geometrical"] = [np.full(len(d), i + 1) for i, (_, d) in enumerate(cells)]
            pd["gmsh:dim_tags"] = np.array([[meshio._mesh.topological_dimension[cells[j % len(cells)][0]], j % len(cells) + 1] for j in range(n)])
    if c["sets"]:
        ps = {"a": np.array([0, 3, 5]), "b": np.array([1, 2])}
        cs = {"A": [np.array([0]) for _ in cells], "B": [np.array([1]) for _ in cells]}
    for_ro = []
    if c["lay"] == "F":
        P = np.asfortranarray(P)
        cells = [(t, np.asfortranarray(d)) for t, d in cells]
    m = Mesh(P, cells, point_data=pd, cell_data=cd, field_data=fd, point_sets=ps, cell_sets=cs)
    if c["mod"] == "gmsh":
        m.gmsh_periodic = [[0, (3, 1), None, np.array([[2, 0]])], [1, (2, 1), [0.5] * 16, np.array([[5, 0], [4, 1]])]]
    if c["mod"] == "netgen":
        m.info = {"netgen:identifications": np.array([[1, 2, 1]]), "netgen:identificationtypes": np.array([[1, 2]])}
    if c["lay"] == "ro":
        for _, a in arrays(m):
            a.setflags(write=False)
    return m


FMT_OF = {"vtk": lambda kw: "vtk42" if kw.get("fmt_version") == "4.2" else "vtk51", "gmsh": lambda kw: "gmsh22" if kw.get("fmt_version") == "2.2" else "gmsh", "ansys": lambda kw: "ansys", "dolfin": lambda kw: "dolfin-xml"}


def rich_check(c):
    m, ref = rich_mesh(c), rich_mesh(c)
    mod = getattr(meshio, c["mod"])
    with tmpdir() as t:
        fn = os.path.join(t, "x" + c["ext"])
        if c["via"] == "module":
            out = frame(m, ref, lambda: mod.write(fn, m, **c["kw"]))
        else:
            kw = dict(c["kw"])
            if c["mod"] == "vtk":
                kw.pop("fmt_version")
            if c["mod"] == "gmsh" and kw["fmt_version"] == "2.2":
                kw.pop("fmt_version")
            ff = FMT_OF.get(c["mod"], lambda kw: c["mod"])(c["kw"])
            out = frame(m, ref, lambda: meshio.write(fn, m, ff, **kw))
    out = [f"{x} ({c['mod']} {c['kw'].get('fmt_version')})" for x in out]
    if c["mod"] != "vtk":
        out = [x.replace("KNOWN: ", "") for x in out]
    return out


# writing twice gives the same content (the file read back is the same; time stamps in headers are allowed to differ)
def twice_cases(tier, seed):
    for i, (mod, kw, ext) in enumerate(RICH):
        if mod in ("svg",):
            continue
        for k, types in enumerate(KINDS):
            yield {"mod": mod, "kw": kw, "ext": ext, "types": types, "dim": 3 if k % 2 == 0 or mod != "vtk" else 2, "lay": "C", "via": "module", "pdt": "f8", "cdt": "i8", "seed": 100 * seed + k,
                   "sets": k % 2 == 0, "data": (i + k) % 3 != 1, "tags": (i + k) % 2 == 0}


def twice_check(c):
    m = rich_mesh(c)
    mod = getattr(meshio, c["mod"])
    snaps = []
    with tmpdir() as t:
        for j in range(2):
            d = os.path.join(t, str(j))
            os.mkdir(d)
            fn = os.path.join(d, "x" + c["ext"])
            try:
                mod.write(fn, m, **c["kw"])
                g = mod.read(fn)
            except Exception as e:
                snaps.append(("raised", type(e).__name__))
                continue
            except SystemExit:
                snaps.append(("exit",))
                continue
            snaps.append(gen.snapshot(g))
            del g
    if type(snaps[0]) is tuple or type(snaps[1]) is tuple:
        return [] if snaps[0] == snaps[1] else [f"{c['mod']} {c['kw']}: writing and reading twice: {str(snaps[0])[:100]} / {str(snaps[1])[:100]}"]
    d = gen.snapdiff(*snaps)
    return [f"{c['mod']} {c['kw']}: the second file differs in {d}"] if d else []


# time series writer: the arrays handed over stay as they are
def tsm_cases(tier, seed):
    for s in range(40 if tier == "quick" else 150):
        for df in ("XML", "Binary", "HDF"):
            yield {"df": df, "seed": 100 * seed + s}


def tsm_check(c):
    r = rng(c)
    n = 20
    P = pts(r, n, 2 if c["seed"] % 2 else 3)
    cells = [meshio.CellBlock("triangle", conn(r, n, 3, 3)), meshio.CellBlock("quad", conn(r, n, 2, 4))]
    pd = {"a": r.random(n), "v": r.random((n, 2))}
    cd = {"q": [r.random(3), r.random(2)]}
    arrs = [P] + [b.data for b in cells] + list(pd.values()) + cd["q"]
    cp = [a.copy() for a in arrs]
    keys = (list(pd), list(cd), len(cells), [b.type for b in cells])
    with tmpdir() as t:
        cwd = os.getcwd()
        os.chdir(t)
        try:
            with meshio.xdmf.TimeSeriesWriter("x.xdmf", data_format=c["df"]) as w:
                w.write_points_cells(P, cells)
                w.write_data(0.5, point_data=pd, cell_data=cd)
                w.write_data(1.5, point_data=pd, cell_data=cd)
        finally:
            os.chdir(cwd)
    out = []
    if keys != (list(pd), list(cd), len(cells), [b.type for b in cells]) or [P] + [b.data for b in cells] + list(pd.values()) + cd["q"] != arrs and any(x is not y for x, y in zip([P] + [b.data for b in cells] + list(pd.values()) + cd["q"], arrs)):
        out.append("the time series writer changed the containers it was given")
    for a, b in zip(arrs, cp):
        if not np.array_equal(a, b):
            out.append("the time series writer changed an array in place")
    return out


def nl_cases(tier, seed):
    for t in ("line", "triangle", "quad", "tetra", "hexahedron", "tetra10"):
        yield {"type": t, "seed": seed}


def nl_check(c):
    """Nastran large-field cells: the reader does not know the starred keywords (known finding)"""
    m = gen.build({"npts": 30, "dim": 3, "blocks": [[c["type"], 3]], "seed": c["seed"]})
    with tmpdir() as t:
        fn = os.path.join(t, "x.bdf")
        meshio.nastran.write(fn, m, cell_format="fixed-large")
        g = meshio.nastran.read(fn)
    if not g.cells:
        return ["KNOWN: nastran.write(cell_format='fixed-large'): nastran.read ignores the large-field cell cards and returns a mesh without cells"]
    return cmp_mesh(m, g, 1e-9, "flat")


# ------------------------------------------------------------------ cells a format does not know are skipped (with a warning), the others keep their nodes, order, tags and data
SKIP = [("off", ".off", {}, ["triangle"], "C15", {}), ("stl", ".stl", {"binary": False}, ["triangle"], "C15", {}), ("stl", ".stl", {"binary": True}, ["triangle"], "C15", {}), ("wkt", ".wkt", {}, ["triangle"], "C15", {}),
        ("neuroglancer", "", {}, ["triangle"], "C15", {}), ("ply", ".ply", {"binary": True}, ["triangle", "quad"], "C15", {}), ("ply", ".ply", {"binary": False}, ["triangle", "quad"], "C15", {}),
        ("medit", ".mesh", {}, ["line", "triangle", "quad", "tetra", "hexahedron"], "C14", {"tag": "medit:ref"}), ("medit", ".meshb", {}, ["line", "triangle", "quad", "tetra", "hexahedron"], "C14", {"tag": "medit:ref"}),
        ("ugrid", ".lb8.ugrid", {}, ["triangle", "tetra", "hexahedron"], "C14", {"tag": "ugrid:ref", "single": True}), ("tetgen", ".node", {}, ["tetra"], "C14", {"tag": "tetgen:ref"}),
        ("h5m", ".h5m", {}, ["line", "triangle", "tetra"], "C13", {"single": True})]


def skip_cases(prop):
    def cases(tier, seed):
        for s in range(25 if tier == "quick" else 120):
            for i, x in enumerate(SKIP):
                if x[4] == prop:
                    yield {"mod": x[0], "i": i, "seed": 1000 * seed + s}
    return cases


def skip_check(c):
    mod, ext, kw, ok, prop, opt = SKIP[c["i"]]
    r = rng(c)
    n = 30
    other = [t for t in ("tetra10", "wedge15", "hexahedron27", "pyramid13", "line3") if t not in ok]
    if mod not in ("medit", "ugrid", "h5m", "tetgen"):
        other += ["tetra"]
    k = int(r.integers(2, 6))
    types = [str(r.choice(ok if r.random() < 0.55 else other)) for _ in range(k)]
    if opt.get("single"):
        types = [t for j, t in enumerate(types) if t not in types[:j]]
    if not any(t in ok for t in types):
        types[int(r.integers(0, len(types)))] = str(r.choice(ok))
    m = tagged(r, types, n, 3, opt.get("tag"))
    if mod == "neuroglancer":
        m.points = m.points.astype("f4")
    if mod == "ugrid":
        for i, t in enumerate(types):
            if t in ("tetra", "hexahedron"):
                m.cell_data["ugrid:ref"][i][:] = 0
    g = wr(mod, ext, copy.deepcopy(m), **kw)
    keep = [i for i, t in enumerate(types) if t in ok]
    m = Mesh(m.points, [m.cells[i] for i in keep], cell_data={q: [v[i] for i in keep] for q, v in m.cell_data.items()})
    if mod in ("stl", "wkt"):
        P = m.points.astype("f4").astype(float) if kw.get("binary") else m.points
        A = P[np.concatenate([b.data for b in m.cells])]
        if not g.cells:
            return [f"{mod}: no cells"]
        e = eq(A, np.asarray(g.points, dtype=float)[np.concatenate([np.asarray(b.data) for b in g.cells])])
        return [f"{mod}: corners {e}"] if e else []
    return [f"{mod}: {x}" for x in cmp_mesh(m, g, 0.0 if ext in (".meshb", ".lb8.ugrid") else 1e-15, "bytype" if mod in ("ugrid", "h5m") else "flat", [opt["tag"]] if "tag" in opt else [])]


FAMS = {
    "C07": [("formats", mut_cases, mut_check), ("everything", rich_cases, rich_check), ("twice", twice_cases, twice_check), ("time series", tsm_cases, tsm_check)],
    "C10": [("round trip", rt_cases("C10"), rt_check), ("extras", vtkx_cases, vtkx_check)],
    "C11": [("round trip", rt_cases("C11"), rt_check), ("tags and names", gmsh_cases, gmsh_check), ("entities 4.1", gmsh41_cases, gmsh41_check)],
    "C12": [("round trip", rt_cases("C12"), rt_check), ("time series", ts_cases, ts_check)],
    "C13": [("round trip", rt_cases("C13"), rt_check), ("med tags and fields", med_cases, med_check), ("exodus sets and data", exo_cases, exo_check), ("skipped cells", skip_cases("C13"), skip_check)],
    "C14": [("round trip", rt_cases("C14"), rt_check), ("tags and data", deck_cases, deck_check), ("nastran large fields", nl_cases, nl_check), ("skipped cells", skip_cases("C14"), skip_check)],
    "C15": [("round trip", rt_cases("C15"), rt_check), ("data", lambda t, s: (c for c in surf_cases(t, s) if c["what"] != "exodus"), surf_check), ("skipped cells", skip_cases("C15"), skip_check)],
}
