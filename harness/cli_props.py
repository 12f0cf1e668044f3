"""C17: the command-line tools."""
import contextlib, copy, io, os, random
import numpy as np
import meshio
from meshio import Mesh
import gen, families
import spec as SP
import roundtrip as RT
from fmt_props import tmpdir, conn, pts, eq, pick, cmp_mesh


def cli(*args):
    """run the command line in process; returns (status, output)"""
    from meshio._cli import main
    o = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
        try:
            s = main(list(args))
        except SystemExit as e:
            s = e.code if e.code is not None else 0
    return s, o.getvalue()


# file format names on the command line, per format contract
NAME = {"vtk42": "vtk42", "vtk51": "vtk51", "vtu-bin": "vtu", "vtu-ascii": "vtu", "gmsh22": "gmsh22", "gmsh40": None, "gmsh41": "gmsh", "ansys-ascii": "ansys", "ansys-bin": "ansys", "dolfin": "dolfin-xml", "meditb": "medit",
        "stl-ascii": "stl", "stl-bin": "stl"}
READER = {"vtk42": "vtk", "vtk51": "vtk", "gmsh22": "gmsh", "gmsh": "gmsh"}
BOTH = {"vtk": True, "vtu": True, "gmsh": True, "ansys": True, "flac3d": False, "ply": True, "stl": False}
SRC = ["vtu-bin", "xdmf", "gmsh22", "abaqus", "medit", "ply", "exodus", "nastran", "vtk51", "h5m", "med", "ansys-bin", "su2", "obj", "stl-bin"]


def conv_cases(tier, seed):
    rnd = random.Random(f"conv-{seed}")
    for key, sp in SP.S.items():
        fmt = NAME.get(key, sp.name)
        if fmt is None or key.startswith("ugrid-") or key == "neuroglancer":
            continue
        for src in SRC:
            s = SP.S[src]
            common = [t for t in sp.types if t in s.types and t != "polygon"]
            if not common:
                continue
            dims = [d for d in sp.dims if d in s.dims]
            if not dims:
                continue
            for i in range(10 if tier == "quick" else 40):
                one = not (sp.mixed and s.mixed and sp.maxblocks > 1)
                tt = [rnd.choice(common)] if one else rnd.sample(common, min(len(common), 1 + i % 3))
                dim = 3 if s.pad or s.oriented else rnd.choice(dims)
                if sp.special == "su2" or s.special == "su2":
                    flat = [t for t in tt if t in ("triangle", "quad")]
                    tt = flat or tt
                    dim = 2 if flat else 3
                    if dim not in dims or s.pad and dim == 2:
                        continue
                p = {"npts": families.pts_for([(t, 2) for t in tt]), "dim": dim, "pdtype": "f4" if key == "neuroglancer" else "f8", "cdtype": "i8", "blocks": [[t, 2 + j] for j, t in enumerate(tt)], "seed": rnd.randrange(10 ** 6)}
                if sp.oriented:
                    p["oriented"] = True
                if sp.pd and s.pd:
                    p["pd"] = [["a", 0, "f8"]]
                if sp.cd and s.cd:
                    p["cd"] = [["q", 0, "f8"]]
                yield {"src": src, "dst": key, "fmt": fmt, "p": p, "i": i % 2, "o": (i + 1) % 2, "ascii": bool(i % 2) and sp.name in BOTH}


def conv_check(c):
    s, d = SP.S[c["src"]], SP.S[c["dst"]]
    m = gen.build(c["p"])
    rname = NAME.get(c["src"], s.name)
    rname = READER.get(rname, rname)
    with tmpdir() as t:
        a, b = os.path.join(t, "in" + s.ext), os.path.join(t, "out" + d.ext)
        os.chdir(t)
        try:
            getattr(meshio, s.name).write(a, m, **s.variants[0])
            src = meshio.read(a, rname)
            want = meshio.read(a, rname)
            if c["src"] == "stl-bin":
                want.points = want.points.astype(float)
            # only what the format contract of the target names is compared, not the tags the source reader made up
            want.cell_data = {k: v for k, v in want.cell_data.items() if k == "q"}
            want.point_data = {k: v for k, v in want.point_data.items() if k == "a"}
            raw = open(a, "rb").read()
            if d.name == "tecplot" and set(src.point_data) & set(src.cell_data):
                return None  # Tecplot has one name space for both
            if d.name == "wkt" and (np.abs(src.points[src.points != 0]) < 1e-4).any():
                return None  # the WKT reader knows no exponents
            args = ["convert", a, b]
            if c["i"]:
                args += ["--input-format", rname]
            if c["o"] or c["fmt"] not in ("vtu", "xdmf") and d.ext not in (".obj", ".off", ".ply", ".stl"):
                args += ["--output-format", c["fmt"]]
            if c["ascii"]:
                args += ["--ascii"]
            st, out = cli(*args)
            if st not in (0, None):
                return [f"{' '.join(args[3:])} {c['src']} -> {c['dst']}: status {st} {out[-300:]}"]
            if open(a, "rb").read() != raw:
                return [f"{c['src']} -> {c['dst']}: the input file was changed"]
            got = getattr(meshio, d.name).read(b)
            dd = d
            if c["ascii"] and d.name == "vtu":
                dd = SP.S["vtu-ascii"]
            if d.name == "stl":
                dd = SP.S["stl-ascii" if c["ascii"] else ("stl-ascii" if not c["ascii"] and b"solid" == open(b, "rb").read(5) else "stl-bin")]
            if d.name == "ansys":
                dd = SP.S["ansys-ascii" if c["ascii"] else "ansys-bin"]
            dd = copy.copy(dd)
            dd.keep_pdt = False
            dd.ptol = max(dd.ptol, s.ptol, 1e-6 if c["src"] == "stl-bin" else 0)
            if c["src"] == "stl-bin":
                dd.gtol = 1e-6
            res = RT.post(dd, {}, want, got)
            if c["ascii"]:
                blob = open(b, "rb").read()
                if b"\0" in blob or b"BINARY" in blob[:200] or b"binary" in blob[:200]:
                    res.append("--ascii did not write the ASCII variant")
            elif d.name in BOTH and BOTH[d.name] and b"\0" not in open(b, "rb").read() and d.name != "vtu":
                res.append("the binary variant is the default but was not written")
            return [f"{c['src']} -> {c['dst']}{' --ascii' if c['ascii'] else ''}: {x}" for x in res]
        finally:
            os.chdir("/")


# --------------------------------------------------------------- sets and integer data
def sets_cases(tier, seed):
    for s in range(60 if tier == "quick" else 300):
        for what in ("s2d", "none-s", "d2s", "none-d"):
            for ext in (".vtu", ".vtk", ".xdmf") if what in ("s2d",) else (".inp",):
                yield {"what": what, "ext": ext, "seed": 100 * seed + s}


def sets_check(c):
    r = np.random.default_rng(c["seed"])
    n = int(r.integers(14, 30))
    types = pick(r, ["triangle", "quad", "tetra", "line"], 4)
    cells = [(t, conn(r, n, int(r.integers(2, 7)), gen.nn(t))) for t in types]
    P = pts(r, n)
    out = []
    with tmpdir() as t:
        if c["what"] in ("s2d", "none-s"):
            perm = r.permutation(n)
            ps = {"left": np.sort(perm[: n // 3]), "right": np.sort(perm[n // 3: n // 2])}
            lab = [r.integers(-1, 2, len(d)) for _, d in cells]
            cs = {nm: [np.where(l == k)[0] for l in lab] for k, nm in enumerate(["A", "B"])}
            if not all(any(len(b) for b in v) for v in cs.values()):
                return None
            m = Mesh(P, cells, point_sets=ps, cell_sets=cs)
            a, b = os.path.join(t, "in.inp"), os.path.join(t, "out" + c["ext"])
            meshio.abaqus.write(a, m)
            src = meshio.read(a)
            args = ["convert", a, b] + (["--sets-to-int-data"] if c["what"] == "s2d" else [])
            st, o = cli(*args)
            if st not in (0, None):
                return [f"status {st} {o[-200:]}"]
            g = meshio.read(b)
            if c["what"] == "none-s":
                A, B = RT.members(src, src.cell_sets), RT.members(g, g.cell_sets)
                if A != B or sorted(src.point_sets) != sorted(g.point_sets) or any(eq(src.point_sets[k], g.point_sets[k]) for k in src.point_sets):
                    out.append("sets changed by a plain conversion")
                return out
            pl = np.full(n, -1)
            for k, nm in enumerate(src.point_sets):
                pl[src.point_sets[nm]] = k
            key = "-".join(src.point_sets)
            e = eq(pl, g.point_data[key]) if key in g.point_data else "missing"
            if e:
                out.append(f"point sets as data {key}: {e}")
            key = "-".join(src.cell_sets)
            if key not in g.cell_data:
                out.append(f"cell sets as data: {list(g.cell_data)}")
            else:
                want = []
                for i, blk in enumerate(src.cells):
                    x = np.full(len(blk), -1)
                    for k, nm in enumerate(src.cell_sets):
                        mm = src.cell_sets[nm][i]
                        if mm is not None:
                            x[mm] = k
                    want.append(x)
                e = eq(np.concatenate(want), np.concatenate(g.cell_data[key]))
                if e:
                    out.append(f"cell sets as data: {e}")
            return out + cmp_mesh(src, g, 0.0, "flat")
        pd = {"pi": r.integers(0, 3, n), "pf": r.random(n)}
        cd = {"ci": [r.integers(0, 3, len(d)) for _, d in cells], "cf": [r.random(len(d)) for _, d in cells]}
        if c["seed"] % 2:
            cd["second"] = [r.integers(5, 7, len(d)) for _, d in cells]
        m = Mesh(P, cells, point_data=pd, cell_data=cd)
        a, b = os.path.join(t, "in.vtu"), os.path.join(t, "out.inp")
        meshio.vtu.write(a, m)
        src = meshio.read(a)
        st, o = cli("convert", a, b, *(["--int-data-to-sets"] if c["what"] == "d2s" else []))
        if st not in (0, None):
            return [f"status {st} {o[-200:]}"]
        g = meshio.read(b)
        if c["what"] == "none-d":
            return ["sets appeared although they were not asked for"] if g.point_sets or g.cell_sets else cmp_mesh(src, g, 1e-15, "blocks")
        exp = {f"set-pi-{v}" if False else None: None for v in ()}
        got = {tuple(np.asarray(v).tolist()) for v in g.point_sets.values()}
        want = {tuple(np.where(pd["pi"] == v)[0].tolist()) for v in np.unique(pd["pi"])}
        if got != want:
            out.append(f"point sets {want} -> {got}")
        keys = [k for k in src.cell_data if k != "cf"]
        want = {}
        off = np.cumsum([0] + [len(b) for b in src.cells])
        w = set()
        for k in keys:
            allv = np.concatenate(src.cell_data[k])
            w |= {tuple(np.where(allv == v)[0].tolist()) for v in np.unique(allv)}
        got = {tuple(v) for v in RT.members(g, g.cell_sets).values() if v}
        if got != w:
            out.append(f"cell sets {w} -> {got}")
        return out + cmp_mesh(src, g, 1e-15, "blocks")


# --------------------------------------------------------------- in-place rewriting
INPLACE = {
    "compress": {"ansys": "ansys-bin", "cgns": "cgns", "gmsh": "gmsh41", "h5m": "h5m", "ply": "ply", "stl": "stl-bin", "vtk": "vtk51", "vtu": "vtu-bin", "xdmf": "xdmf"},
    "decompress": {"cgns": "cgns", "h5m": "h5m", "vtu": "vtu-bin", "xdmf": "xdmf"},
    "ascii": {"ansys": "ansys-ascii", "flac3d": "flac3d", "gmsh": "gmsh41", "mdpa": "mdpa", "ply": "ply", "stl": "stl-ascii", "vtk": "vtk51", "vtu": "vtu-ascii", "xdmf": "xdmf"},
    "binary": {"ansys": "ansys-bin", "flac3d": "flac3d", "gmsh": "gmsh41", "ply": "ply", "stl": "stl-bin", "vtk": "vtk51", "vtu": "vtu-bin", "xdmf": "xdmf"},
}
WITHOUT = {"compress": ["abaqus", "medit", "obj", "off", "nastran", "exodus", "flac3d", "hmf", "tecplot"], "decompress": ["abaqus", "vtk51", "ply", "stl-bin", "gmsh41", "obj", "medit"],
           "ascii": ["abaqus", "obj", "off", "cgns", "h5m", "medit", "exodus"], "binary": ["abaqus", "obj", "off", "cgns", "h5m", "medit", "nastran"]}


def inplace_cases(tier, seed):
    rnd = random.Random(f"inplace-{seed}")
    for cmd, tab in INPLACE.items():
        for fmt, key in tab.items():
            sp = SP.S[key]
            starts = [k for k, s in SP.S.items() if s.name == sp.name and not k.startswith("ugrid") and k not in ("gmsh22", "gmsh40")]
            for st in starts:
                for vi in range(len(SP.S[st].variants)):
                    for i in range(10 if tier == "quick" else 40):
                        common = [t for t in sp.types if t in SP.S[st].types and t != "polygon"]
                        nb = 1 if not sp.mixed or sp.maxblocks == 1 else 1 + i % 3
                        tt = rnd.sample(common, min(nb, len(common)))
                        p = {"npts": families.pts_for([(t, 2) for t in tt]), "dim": 3, "pdtype": "f4" if sp.name == "stl" else "f8", "cdtype": "i8", "blocks": [[t, 2 + j] for j, t in enumerate(tt)], "seed": rnd.randrange(10 ** 6)}
                        if sp.oriented:
                            p["oriented"] = True
                        if sp.pd and i:
                            p["pd"] = [["a", 0, "f8"], ["v", 3 if 3 in sp.pd else 0, "f8"]]
                        if sp.cd and i:
                            p["cd"] = [["q", 0, "f8"]]
                        yield {"cmd": cmd, "fmt": fmt, "key": key, "start": st, "vi": vi, "p": p, "opt": i % 2, "i": i % 3 == 2}


def inplace_check(c):
    sp, st = SP.S[c["key"]], SP.S[c["start"]]
    m = gen.build(c["p"])
    with tmpdir() as t:
        os.chdir(t)
        try:
            fn = os.path.join(t, "x" + st.ext)
            getattr(meshio, st.name).write(fn, m, **st.variants[c["vi"]])
            want = getattr(meshio, st.name).read(fn)
            if sp.geom:
                want = Mesh(np.array(want.points), [(b.type, np.array(b.data)) for b in want.cells])
            want = copy.deepcopy(want)
            args = [c["cmd"], fn]
            if c["cmd"] == "compress" and c["opt"]:
                args.append("--max")
            if c["i"]:
                args += ["--input-format", c["fmt"]]
            s, out = cli(*args)
            if s not in (0, None):
                return [f"{args[0]} {c['start']}: status {s} {out[-300:]}"]
            got = getattr(meshio, sp.name).read(fn)
            blob = open(fn, "rb").read()
            dd = copy.copy(sp)
            dd.ptol = max(dd.ptol, st.ptol)
            res = RT.post(dd, {}, want, got)
            if c["cmd"] == "ascii":
                if b"\0" in blob or b"BINARY" in blob[:300] or b"format=\"binary" in blob[:3000] or b"HDF" in blob and sp.name == "xdmf":
                    res.append("the file is not in the ASCII variant")
            if c["cmd"] in ("binary", "compress"):
                ok = {"vtk": b"BINARY" in blob[:300], "vtu": b'format="binary' in blob, "xdmf": b"HDF" in blob, "gmsh": b"4.1 1 8" in blob[:40], "ansys": b"(3010" in blob or b"(2010" in blob or b"(3012" in blob or b"(2012" in blob,
                      "ply": b"binary" in blob[:40], "stl": blob[:5] != b"solid", "flac3d": b"\0" in blob[:8]}.get(sp.name, True)
                if not ok:
                    res.append("the file is not in the binary variant")
            if sp.name == "vtu" and c["cmd"] == "compress" and (b"LZMA" if c["opt"] else b"ZLib") not in blob:
                res.append("the file is not compressed as asked for")
            if sp.name == "vtu" and c["cmd"] == "decompress" and b"compressor=" in blob:
                res.append("the file is still compressed")
            return [f"{c['cmd']} {c['start']}: {x}" for x in res]
        finally:
            os.chdir("/")


def without_cases(tier, seed):
    for cmd, keys in WITHOUT.items():
        for key in keys:
            for s in range(2):
                yield {"cmd": cmd, "key": key, "seed": seed * 10 + s}


def without_check(c):
    sp = SP.S[c["key"]]
    p = {"npts": 30, "dim": 3, "blocks": [[[t for t in ("triangle", "tetra") if t in sp.types][0], 3]], "seed": c["seed"], "oriented": sp.oriented}
    m = gen.build(p)
    with tmpdir() as t:
        fn = os.path.join(t, "x" + sp.ext)
        getattr(meshio, sp.name).write(fn, m, **sp.variants[0])
        a = open(fn, "rb").read()
        s, out = cli(c["cmd"], fn, "--input-format", READER.get(NAME.get(c["key"], sp.name), NAME.get(c["key"], sp.name)))
        res = []
        if s in (0, None):
            res.append(f"{c['cmd']} of a {c['key']} file reports success")
        if "know" not in out:
            res.append(f"{c['cmd']} of a {c['key']} file prints {out!r}")
        if open(fn, "rb").read() != a or sorted(os.listdir(t)) != ["x" + sp.ext]:
            res.append(f"{c['cmd']} of a {c['key']} file touches the file")
        return res


# a Gmsh file is rewritten as Gmsh, or refused and left alone
def msh_cases(tier, seed):
    for cmd in ("compress", "ascii", "binary"):
        for v in ("2.2", "4.0", "4.1"):
            for what in ("one", "several", "tags"):
                for i in (0, 1):
                    yield {"cmd": cmd, "v": v, "what": what, "i": i, "seed": seed}


def msh_check(c):
    r = np.random.default_rng(c["seed"])
    cells = [("triangle", conn(r, 20, 4, 3))]
    if c["what"] == "several":
        if c["v"] == "4.1":
            return None
        cells.append(("quad", conn(r, 20, 2, 4)))
    cd = {"gmsh:physical": [np.full(len(d), 7) for _, d in cells], "gmsh:geometrical": [np.full(len(d), 3 + i) for i, (_, d) in enumerate(cells)]} if c["what"] == "tags" else {}
    m = Mesh(pts(r, 20), cells, cell_data=cd)
    with tmpdir() as t:
        fn = os.path.join(t, "x.msh")
        meshio.gmsh.write(fn, m, fmt_version=c["v"])
        a = open(fn, "rb").read()
        want = meshio.gmsh.read(fn)
        try:
            s, out = cli(c["cmd"], fn, *(["--input-format", "gmsh"] if c["i"] else []))
        except Exception as e:
            s = f"{type(e).__name__}: {e}"
        if s not in (0, None):
            return [] if open(fn, "rb").read() == a else [f"{c['cmd']} of a Gmsh {c['v']} file fails ({s}) and destroys the file"]
        try:
            g = meshio.gmsh.read(fn)
        except meshio.ReadError:
            return ["the Gmsh file is no Gmsh file any more"]
        res = cmp_mesh(want, g, 0.0, "blocks")
        if c["what"] == "tags" and c["v"] != "4.1" and not res:
            gone = [k for k in want.cell_data if k not in g.cell_data]
            if gone == ["gmsh:physical"]:
                res.append("KNOWN: compress/ascii/binary rewrite a Gmsh file as version 4.1 and lose the physical tags if the file has no entity information")
            elif gone:
                res.append(f"cell data {gone} lost")
        return res


# --------------------------------------------------------------- info
def info_cases(tier, seed):
    for s in range(1000 if tier == "quick" else 5000):
        yield {"seed": 1000 * seed + s}


def info_check(c):
    r = np.random.default_rng(c["seed"])
    n = int(r.integers(4, 9))
    kind = c["seed"] % 4
    blocks = []
    for j in range(int(r.integers(1, 5))):
        ty, k = [("triangle", 3), ("line", 2), ("quad", 4), ("triangle", 3), ("vertex", 1), ("tetra", 4)][int(r.integers(0, 6))]
        blocks.append((ty, np.array([r.permutation(n)[:k] for _ in range(int(r.integers(1, 5)))])))
    if kind == 1:
        d = blocks[int(r.integers(0, len(blocks)))][1]
        d[int(r.integers(0, len(d))), int(r.integers(0, d.shape[1]))] = n + int(r.integers(0, 2)) * 5         # one or more past the end
    if kind == 2:
        blocks.append(("line", np.array([[i, (i + 1) % n] for i in range(n)])))           # every point used
    m = Mesh(pts(r, n), blocks)
    bad = any((d >= n).any() for _, d in blocks)
    used = np.zeros(n + 9, bool)
    for _, d in blocks:
        used[d] = True
    with tmpdir() as t:
        fn = os.path.join(t, "x.vtu" if not bad else "x.vtu")
        meshio.vtu.write(fn, m)
        raw = open(fn, "rb").read()
        s, out = cli("info", fn)
        res = []
        if s != 0:
            res.append(f"info returns {s}")
        if open(fn, "rb").read() != raw:
            res.append("info changes the file")
    out = " ".join(out.split())
    if ("nonexistent points" in out) != bad:
        res.append(f"info {'does not report' if bad else 'reports'} nonexistent points")
    if not bad and ("not part of any cell" in out) != bool((~used[:n]).any()):
        res.append("info is wrong about unused points")
    if f"Number of points: {n}" not in out:
        res.append("info prints another number of points")
    return res


FAMS = {"C17": [("convert", conv_cases, conv_check), ("sets and data", sets_cases, sets_check), ("in place", inplace_cases, inplace_check), ("no variant", without_cases, without_check),
                ("gmsh in place", msh_cases, msh_check), ("info", info_cases, info_check)]}
