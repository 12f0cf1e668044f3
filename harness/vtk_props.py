"""Run-time contracts of C09 (cell streams) and C16 (structured grids): files are composed here, independently of the writers."""
import os, random, tempfile
import numpy as np
import meshio
from core_props import quiet

# VTK cell type codes (vtkCellType.h) -> (meshio type, number of nodes)
FIXED = {1: ("vertex", 1), 3: ("line", 2), 5: ("triangle", 3), 9: ("quad", 4), 10: ("tetra", 4), 12: ("hexahedron", 8), 13: ("wedge", 6), 14: ("pyramid", 5),
         21: ("line3", 3), 22: ("triangle6", 6), 23: ("quad8", 8), 24: ("tetra10", 10), 25: ("hexahedron20", 20), 26: ("wedge15", 15), 27: ("pyramid13", 13),
         28: ("quad9", 9), 29: ("hexahedron27", 27), 35: ("line4", 4)}
VAR = {7: "polygon", 68: "VTK_LAGRANGE_CURVE", 69: "VTK_LAGRANGE_TRIANGLE", 70: "VTK_LAGRANGE_QUADRILATERAL", 71: "VTK_LAGRANGE_TETRAHEDRON",
       72: "VTK_LAGRANGE_HEXAHEDRON", 73: "VTK_LAGRANGE_WEDGE", 74: "VTK_LAGRANGE_PYRAMID"}
UNKNOWN = [2, 4, 6, 11, 60]
WEDGE = [0, 2, 1, 3, 5, 4]


def stream(r, n, unknown, var, fixed=None):
    """list of [code, number of nodes]; runs of equal types"""
    out = []
    pool = r.sample(fixed or [1, 3, 5, 9, 10, 12, 13, 14, 22, 24, 26, 28, 29, 35], 3)
    if var:
        pool += r.sample(var, min(2, len(var)))
    if unknown:
        pool += r.sample(UNKNOWN, 2)
    while len(out) < n:
        c = r.choice(pool)
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            if c in FIXED:
                k = FIXED[c][1]
            elif c in VAR:
                k = r.choice([3, 4, 4, 5, 6, 9]) if r.random() < 0.5 else (out[-1][1] if out and out[-1][0] == c else 5)
            else:
                k = r.choice([1, 2, 3, 4, 7])
            out.append([c, k])
    return out[:n]


def c09_cases(tier, seed):
    r = random.Random(f"c09-{seed}")
    N = 2000 if tier == "quick" else 15000
    for i in range(N):
        n = r.choice([1, 1, 2, 3, 5, 8, 13, 30, 60])
        for via in ("call", "vtk51", "vtu", "vtk42"):
            unknown = via != "vtk42" and r.random() < 0.4
            var = [] if r.random() < 0.4 else ([7] if via == "vtk42" else list(VAR))
            pieces = [stream(r, n, unknown, var)]
            if via == "vtu":
                while r.random() < 0.4 and len(pieces) < 4:
                    pieces.append(stream(r, r.choice([1, 2, 6]), unknown, var))
            data = [["s", 0, r.choice(["f8", "i4", "i8"])], ["v", 3, "f8"], ["t", r.choice([2, 4]), "f4"]][: r.choice([0, 1, 2, 3])]
            yield {"via": via, "pieces": pieces, "data": data, "seed": r.randrange(10**6), "odt": r.choice(["i8", "i4"]), "tdt": r.choice(["i8", "i4", "u1"]), "npts": 40,
                   "binary": r.choice([True, False])}


def expected(pieces, conns, datas, offs):
    seq = []
    for st, conn, data, po in zip(pieces, conns, datas, offs):
        for i, (c, k) in enumerate(st):
            if c not in FIXED and c not in VAR:
                continue
            nodes = [int(x) + po for x in conn[i]]
            if c == 13:
                nodes = [nodes[j] for j in WEDGE]
            t = FIXED[c][0] if c in FIXED else VAR[c]
            seq.append((t, nodes, {nm: np.asarray(d[i]).tolist() for nm, d in data.items()}))
    return seq


def got_seq(blocks, cell_data, names):
    """(sequence of cells, problems)"""
    seq, bad = [], []
    for nm in names:
        if nm in cell_data and len(cell_data[nm]) != len(blocks):
            bad.append(f"cell data {nm!r}: {len(cell_data[nm])} arrays for {len(blocks)} blocks")
            return seq, bad
        if nm not in cell_data and blocks:
            bad.append(f"cell data {nm!r} lost")
            return seq, bad
    for b, (t, d) in enumerate(blocks):
        d = np.asarray(d)
        if d.ndim != 2:
            bad.append(f"block {b} of {t} has shape {d.shape}")
            return seq, bad
        for nm in names:
            if len(cell_data[nm][b]) != len(d):
                bad.append(f"cell data {nm!r} of block {b} has {len(cell_data[nm][b])} entries for {len(d)} cells")
                return seq, bad
        for i, row in enumerate(d.tolist()):
            seq.append((t, row, {nm: np.asarray(cell_data[nm][b][i]).tolist() for nm in names}))
    return seq, bad


def xml_array(name, a, ncomp=None):
    ty = {"f8": "Float64", "f4": "Float32", "i8": "Int64", "i4": "Int32", "u1": "UInt8"}[np.asarray(a).dtype.str[1:]]
    nc = f' NumberOfComponents="{ncomp}"' if ncomp else ""
    return f'<DataArray type="{ty}" Name="{name}"{nc} format="ascii">\n' + " ".join(repr(x) for x in np.asarray(a).ravel().tolist()) + "\n</DataArray>\n"


TY = {"f8": "double", "f4": "float", "i8": "long", "i4": "int"}
TY51 = {"f8": "double", "f4": "float", "i8": "vtktypeint64", "i4": "int", "u1": "unsigned_char"}


def put(a, binary):
    a = np.asarray(a)
    if binary:
        return a.astype(a.dtype.newbyteorder(">")).tobytes() + b"\n"
    return (" ".join(repr(x) for x in a.ravel().tolist()) + "\n").encode()


def c09_check(c):
    rng = np.random.default_rng(c["seed"])
    conns, datas, offs, allpts = [], [], [], []
    po = 0
    for st in c["pieces"]:
        conns.append([rng.integers(0, c["npts"], k) for _, k in st])
        n = len(st)
        datas.append({nm: ((rng.random((n, k) if k else (n,)) * 64).astype("i4") / 4).astype(dt) for nm, k, dt in c["data"]})
        offs.append(po)
        allpts.append(rng.integers(0, 99, (c["npts"], 3)).astype(float))
        po += c["npts"]
    names = [d[0] for d in c["data"]]
    want = expected(c["pieces"], conns, datas, offs)
    st, conn, data = c["pieces"][0], conns[0], datas[0]
    if c["via"] == "call":
        try:
            from meshio._vtk_common import vtk_cells_from_data
        except ImportError:
            return None
        off = np.cumsum([k for _, k in st]).astype(c["odt"])
        cc = np.concatenate(conn).astype(c["odt"])
        ty = np.array([t for t, _ in st]).astype(c["tdt"])
        args = (cc.copy(), off.copy(), ty.copy(), {k: v.copy() for k, v in data.items()})
        with quiet():
            cells, cd = vtk_cells_from_data(*args)
        if not (np.array_equal(args[0], cc) and np.array_equal(args[1], off) and np.array_equal(args[2], ty) and all(np.array_equal(args[3][k], data[k]) for k in data)):
            return ["input arrays changed"]
        blocks = [(b.type, b.data) for b in cells]
    else:
        with tempfile.TemporaryDirectory(prefix="vp") as tmp:
            if c["via"] == "vtu":
                fn = os.path.join(tmp, "a.vtu")
                s = '<VTKFile type="UnstructuredGrid" version="0.1" byte_order="LittleEndian">\n<UnstructuredGrid>\n'
                for st, conn, data, P in zip(c["pieces"], conns, datas, allpts):
                    s += f'<Piece NumberOfPoints="{len(P)}" NumberOfCells="{len(st)}">\n<Points>\n' + xml_array("Points", P, 3) + "</Points>\n<Cells>\n"
                    s += xml_array("connectivity", np.concatenate(conn).astype("i8")) + xml_array("offsets", np.cumsum([k for _, k in st]).astype("i8"))
                    s += xml_array("types", np.array([t for t, _ in st]).astype(c["tdt"])) + "</Cells>\n"
                    if data:
                        s += "<CellData>\n" + "".join(xml_array(nm, data[nm], k or None) for nm, k, _ in c["data"]) + "</CellData>\n"
                    s += "</Piece>\n"
                s += "</UnstructuredGrid>\n</VTKFile>\n"
                open(fn, "w").write(s)
            else:
                b = c["binary"]
                fn = os.path.join(tmp, "a.vtk")
                v = "5.1" if c["via"] == "vtk51" else "4.2"
                s = f"# vtk DataFile Version {v}\nx\n{'BINARY' if b else 'ASCII'}\nDATASET UNSTRUCTURED_GRID\nPOINTS {c['npts']} double\n".encode() + put(allpts[0], b)
                flat = np.concatenate(conn)
                if v == "5.1":
                    s += f"CELLS {len(st) + 1} {len(flat)}\nOFFSETS vtktypeint64\n".encode() + put(np.concatenate([[0], np.cumsum([k for _, k in st])]).astype("i8"), b)
                    s += b"CONNECTIVITY vtktypeint64\n" + put(flat.astype("i8"), b)
                else:
                    rows = np.concatenate([np.concatenate([[len(x)], x]) for x in conn]).astype("i4")
                    s += f"CELLS {len(st)} {len(rows)}\n".encode() + put(rows, b)
                s += f"CELL_TYPES {len(st)}\n".encode() + put(np.array([t for t, _ in st]).astype("i4"), b)
                if data:
                    s += f"CELL_DATA {len(st)}\nFIELD FieldData {len(data)}\n".encode()
                    for nm, k, dt in c["data"]:
                        s += f"{nm} {k or 1} {len(st)} {(TY51 if v == '5.1' else TY)[dt]}\n".encode() + put(data[nm], b)
                open(fn, "wb").write(s)
            with quiet():
                m = meshio.read(fn)
        if not np.array_equal(np.asarray(m.points), np.concatenate(allpts[: len(c["pieces"])])):
            return ["points"]
        blocks, cd = [(x.type, x.data) for x in m.cells], m.cell_data
    seq, bad = got_seq(blocks, cd, names)
    if bad:
        return bad
    if len(seq) != len(want):
        return [f"{len(seq)} cells for {len(want)} in the file"]
    for i, (a, b) in enumerate(zip(seq, want)):
        if a != b:
            return [f"cell {i}: {a}, expected {b}"]
    return []


# ---------------------------------------------------------------------------------------------- C16
def c16_cases(tier, seed):
    r = random.Random(f"c16-{seed}")
    dims = [[2, 2, 2], [3, 4, 5], [2, 3, 1], [5, 1, 3], [1, 4, 3], [6, 1, 1], [1, 7, 1], [1, 1, 2], [2, 2, 1], [4, 2, 3], [3, 3, 3], [2, 5, 2], [7, 2, 4], [2, 2, 9], [1, 2, 2]]
    for _ in range(100 if tier == "quick" else 600):
        dims.append([r.choice([1, 2, 3, 4, 6, 9]) for _ in range(3)])
    for d in dims:
        if max(d) == 1:
            continue
        for kind in ("STRUCTURED_POINTS", "RECTILINEAR_GRID", "STRUCTURED_GRID"):
            for v in ("3.0", "5.1", "4.2"):
                for b in (True, False):
                    yield {"dim": d, "kind": kind, "v": v, "binary": b, "seed": r.randrange(10**6), "key": r.choice(["SPACING", "ASPECT_RATIO"]), "dts": [r.choice(["f8", "f4", "i4"]) for _ in range(3)] if r.random() < 0.4 else ["f8"] * 3,
                           "data": r.choice([True, False])}


def c16_check(c):
    rng = np.random.default_rng(c["seed"])
    nx, ny, nz = c["dim"]
    b = c["binary"]
    s = f"# vtk DataFile Version {c['v']}\nx\n{'BINARY' if b else 'ASCII'}\nDATASET {c['kind']}\nDIMENSIONS {nx} {ny} {nz}\n".encode()
    tol = 0.0
    if c["kind"] == "STRUCTURED_POINTS":
        ori, spa = rng.integers(-20, 20, 3) / 4.0, rng.integers(1, 9, 3) / 4.0
        s += ("ORIGIN %r %r %r\n%s %r %r %r\n" % (*ori.tolist(), c["key"], *spa.tolist())).encode()
        ax = [[ori[i] + j * spa[i] for j in range(n)] for i, n in enumerate((nx, ny, nz))]
        want = [[ax[0][i], ax[1][j], ax[2][k]] for k in range(nz) for j in range(ny) for i in range(nx)]
        tol = 1e-12
    elif c["kind"] == "RECTILINEAR_GRID":
        ax = [np.cumsum(rng.integers(1, 9, n)) / 7.0 for n in (nx, ny, nz)]
        ax = [(np.round(a) if dt[0] == "i" else a).astype(dt) for a, dt in zip(ax, c["dts"])]
        for nm, a, dt in zip("XYZ", ax, c["dts"]):
            s += f"{nm}_COORDINATES {len(a)} {TY[dt]}\n".encode() + put(a, b)
        want = [[ax[0][i], ax[1][j], ax[2][k]] for k in range(nz) for j in range(ny) for i in range(nx)]
    else:
        P = rng.integers(-99, 99, (nx * ny * nz, 3)) / 8.0
        s += f"POINTS {len(P)} double\n".encode() + put(P, b)
        want = P.tolist()
    want = np.array(want, dtype=float)

    def nid(i, j, k):
        return i + nx * (j + ny * k)

    act = [a for a, n in enumerate((nx, ny, nz)) if n > 1]
    cells = []
    for k in range(max(nz - 1, 1)):
        for j in range(max(ny - 1, 1)):
            for i in range(max(nx - 1, 1)):
                base = (i, j, k)

                def at(*steps):
                    p = list(base)
                    for a, st in zip(act, steps):
                        p[a] += st
                    return nid(*p)

                if len(act) == 1:
                    cells.append([at(0), at(1)])
                elif len(act) == 2:
                    cells.append([at(0, 0), at(1, 0), at(1, 1), at(0, 1)])
                else:
                    cells.append([at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 1, 0), at(0, 0, 1), at(1, 0, 1), at(1, 1, 1), at(0, 1, 1)])
    pv, cv = rng.integers(0, 99, len(want)) / 4.0, rng.integers(0, 99, len(cells)) / 4.0
    if c["data"]:
        s += f"POINT_DATA {len(want)}\nSCALARS a double 1\nLOOKUP_TABLE default\n".encode() + put(pv, b)
        s += f"CELL_DATA {len(cells)}\nSCALARS q double 1\nLOOKUP_TABLE default\n".encode() + put(cv, b)
    with tempfile.TemporaryDirectory(prefix="vp") as tmp:
        fn = os.path.join(tmp, "a.vtk")
        open(fn, "wb").write(s)
        with quiet():
            m = meshio.read(fn)
    out = []
    P = np.asarray(m.points)
    if P.shape != want.shape:
        return [f"points have shape {P.shape} for a {c['dim']} lattice"]
    if not np.allclose(P, want, rtol=0, atol=tol):
        w = np.argwhere(np.abs(P - want) > tol)[0].tolist()
        out.append(f"point {w}: {P[tuple(w)]}, expected {want[tuple(w)]}")
    got = [(x.type, row) for x in m.cells for row in np.asarray(x.data).tolist()]
    t = {1: "line", 2: "quad", 3: "hexahedron"}[len(act)]
    if got != [(t, r) for r in cells]:
        bad = next((i for i, (a, bb) in enumerate(zip(got, cells)) if a != (t, bb)), None)
        out.append(f"{len(got)} cells for {len(cells)}; first difference {bad}: {got[bad] if bad is not None else None}, expected {cells[bad] if bad is not None else None}")
    if c["data"]:
        if np.asarray(m.point_data.get("a", [])).ravel().tolist() != pv.tolist():
            out.append("point data")
        if np.concatenate([np.asarray(x).ravel() for x in m.cell_data.get("q", [[]])]).tolist() != cv.tolist():
            out.append("cell data")
    return out


FAMS = {"C09": [("streams", c09_cases, c09_check)], "C16": [("grids", c16_cases, c16_check)]}
