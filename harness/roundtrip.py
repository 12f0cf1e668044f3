"""Run-time evaluation of the format contracts: write the mesh, read it back, compare with the post-condition."""
import contextlib, copy, io, os, pathlib, signal, sys, tempfile, traceback, warnings
import numpy as np
import gen
import spec as SP

warnings.simplefilter("ignore")


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    def h(*a):
        raise Timeout()
    # seconds of processor time, so that a busy machine is no alarm; and a wall clock for code that waits
    old = signal.signal(signal.SIGALRM, h), signal.signal(signal.SIGPROF, h)
    signal.setitimer(signal.ITIMER_PROF, seconds, 1)
    signal.setitimer(signal.ITIMER_REAL, 2 * seconds + 10, 1)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])


def flat(blocks):
    """merge neighbours of one type and row length, drop empty blocks -> [(type, [arrays], [block index])]"""
    out = []
    for k, (t, d) in enumerate(blocks):
        if len(d) == 0:
            continue
        if out and out[-1][0] == t and out[-1][1][-1].shape[1] == d.shape[1]:
            out[-1][1].append(d)
            out[-1][2].append(k)
        else:
            out.append((t, [d], [k]))
    return out


def bytype(blocks):
    g = {}
    for k, (t, d) in enumerate(blocks):
        if len(d):
            g.setdefault(t, ([], []))
            g[t][0].append(d)
            g[t][1].append(k)
    return [(t, *g[t]) for t in sorted(g)]


def blocks_exact(blocks):
    return [(t, [d], [k]) for k, (t, d) in enumerate(blocks) if len(d)]


GROUP = {"flat": flat, "bytype": bytype, "blocks": blocks_exact}


def close(a, b, tol):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} -> {b.shape}"
    if a.size == 0:
        return None
    if tol == 0.0:
        if not np.array_equal(np.asarray(a), np.asarray(b)):
            w = np.argwhere(a != b)[0].tolist()
            return f"at {w}: {a[tuple(w)]!r} -> {b[tuple(w)]!r}"
        return None
    x, y = a.astype(float), b.astype(float)
    bad = np.abs(x - y) > tol * np.abs(x) + 1e-300
    bad |= np.isnan(y)
    if bad.any():
        w = np.argwhere(bad)[0].tolist()
        return f"at {w}: {a[tuple(w)]!r} -> {b[tuple(w)]!r}"
    return None


def norm_data(sp, a):
    a = np.asarray(a)
    if sp.pad_vec and a.ndim == 2 and a.shape[1] == 2:
        a = np.column_stack([a, np.zeros_like(a[:, 0])])
    if sp.squeeze and a.ndim == 2 and a.shape[1] == 1:
        a = a[:, 0]
    return a


def post(sp, kw, m, r):
    """the post-condition of read(write(m)); returns a list of failures (empty: holds)"""
    out = []
    P = np.asarray(m.points)
    if sp.pad and P.shape[1] == 2:
        P = np.column_stack([P, np.zeros_like(P[:, 0])])
    if sp.geom:
        return geom_post(sp, P, m, r)
    e = close(P, r.points, sp.ptol)
    if e:
        out.append(f"points: {e}")
    if sp.keep_pdt and np.asarray(r.points).dtype.newbyteorder("=") != P.dtype.newbyteorder("="):
        out.append(f"points dtype {P.dtype} -> {r.points.dtype}")
    grp = GROUP[sp.order]
    a = grp([(c.type, np.asarray(c.data)) for c in m.cells])
    b = grp([(c.type, np.asarray(c.data)) for c in r.cells])
    sa = [(t, sum(map(len, d)), d[0].shape[1]) for t, d, _ in a]
    sb = [(t, sum(map(len, d)), d[0].shape[1]) for t, d, _ in b]
    if sa != sb:
        out.append(f"blocks {sa} -> {sb}")
        return out
    for (t, x, _), (_, y, _) in zip(a, b):
        e = close(np.concatenate(x), np.concatenate(y), 0.0)
        if e:
            out.append(f"{t} connectivity {e}")
    for c in r.cells:
        if np.asarray(c.data).dtype.kind not in "iu":
            out.append(f"connectivity dtype {c.data.dtype}")
    for k, v in m.point_data.items():
        if not sp.pd:
            continue
        if k not in r.point_data:
            out.append(f"point data {k!r} lost")
            continue
        e = close(norm_data(sp, v), r.point_data[k], sp.dtol)
        if e:
            out.append(f"point data {k!r}: {e}")
    for k, v in m.cell_data.items():
        if not (sp.cd and k[0] != ":" or k in sp.tags):
            continue
        if k not in r.cell_data:
            out.append(f"cell data {k!r} lost")
            continue
        w = r.cell_data[k]
        if len(w) != len(r.cells):
            out.append(f"cell data {k!r}: {len(w)} arrays for {len(r.cells)} blocks")
            continue
        for (t, x, ia), (_, y, ib) in zip(a, b):
            e = close(np.concatenate([norm_data(sp, v[i]) for i in ia]), np.concatenate([np.asarray(w[i]) for i in ib]), 0.0 if k in sp.tags else sp.dtol)
            if e:
                out.append(f"cell data {k!r} of {t}: {e}")
    if sp.ps:
        if set(m.point_sets) != set(r.point_sets):
            out.append(f"point sets {sorted(m.point_sets)} -> {sorted(r.point_sets)}")
        else:
            for k, v in m.point_sets.items():
                if not np.array_equal(np.asarray(v), np.asarray(r.point_sets[k])):
                    out.append(f"point set {k!r}: {np.asarray(v).tolist()} -> {np.asarray(r.point_sets[k]).tolist()}")
    if sp.cs:
        out += cell_sets_post(sp, m, r)
    return out


def members(mesh, sets):
    """set -> set of global cell numbers (position in the sequence of all cells)"""
    off = np.cumsum([0] + [len(c.data) for c in mesh.cells])
    res = {}
    for k, v in sets.items():
        g = []
        for o, b in zip(off, v):
            if b is not None:
                g += (np.asarray(b, dtype=int) + o).tolist()
        res[k] = sorted(g)
    return res


def cell_sets_post(sp, m, r):
    out = []
    a = {k: v for k, v in members(m, m.cell_sets).items() if v}
    b = members(r, r.cell_sets)
    if sp.name == "flac3d":
        b = {k.split(":")[1]: v for k, v in b.items()}
    b = {k: v for k, v in b.items() if v}
    if a != b:
        out.append(f"cell sets {a} -> {b}")
    return out


def geom_post(sp, P, m, r):
    conv = (lambda x: np.asarray(x).astype("<f4").astype(float)) if sp.geom == "f4" else (lambda x: np.asarray(x).astype(float))
    a = [conv(P)[c.data] for c in m.cells if c.type == "triangle" and len(c.data)]
    b = [conv(r.points)[c.data] for c in r.cells if c.type == "triangle" and len(c.data)]
    if [c.type for c in r.cells if c.type != "triangle"]:
        return ["other cell types appeared"]
    a = np.concatenate(a) if a else np.zeros((0, 3, 3))
    b = np.concatenate(b) if b else np.zeros((0, 3, 3))
    e = close(a, b, getattr(sp, "gtol", 0.0))
    return [f"triangle corners: {e}"] if e else []


def in_domain(sp, p):
    if sp.special == "su2":
        d = {2: ("triangle", "quad"), 3: ("tetra", "hexahedron", "wedge", "pyramid")}[p["dim"]]
        return all(t in d for t, _ in p["blocks"])
    if sp.key == "medit" and p.get("cdtype") != "i8":
        pass
    return True


def adapt(sp, p):
    p = dict(p)
    if sp.special == "su2":
        p["dim"] = 2 if all(t in ("triangle", "quad") for t, _ in p["blocks"]) else 3
    if sp.oriented:
        p["oriented"] = True
        p["dim"] = 3
    return p


SIBLINGS = {"tetgen": lambda f: [f, f[:-5] + ".ele"], "xdmf": lambda f: [f, f[:-5] + ".h5"] + [f[:-5] + f"{i}.bin" for i in range(4)]}


def run_case(sp, kw, p, want="post"):
    """returns (failures, mutated parts)"""
    import meshio
    p = adapt(sp, p)
    mod = getattr(meshio, sp.name)
    buf = io.StringIO()
    with tempfile.TemporaryDirectory(prefix="vp") as tmp:
        fn = os.path.join(tmp, "x" + sp.ext)
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            m = gen.build(p)
            ref = gen.build(p)
            before = gen.snapshot(m)
            if p.get("over"):                       # the target exists already and is longer
                for f in SIBLINGS.get(sp.key, lambda f: [f])(fn):
                    with open(f, "wb") as fh:
                        fh.write(b"\x01junk 7 9\n" * 4000)
            if p.get("path"):
                fn = pathlib.Path(fn)
            try:
                mod.write(fn, m, **kw)
                err = None
            except Exception as e:
                err = f"write raised {type(e).__name__}: {str(e)[:200]}"
            except SystemExit as e:
                err = "write exited"
            mut = gen.snapdiff(before, gen.snapshot(m))
            if err:
                return [err], mut
            if want == "mut":
                return [], mut
            try:
                r = mod.read(fn)
            except Exception as e:
                return [f"read raised {type(e).__name__}: {str(e)[:200]}"], mut
            except SystemExit as e:
                return ["read exited"], mut
            if p.get("other_dt"):                   # the values come back, in the type the format stores
                sp = copy.copy(sp)
                sp.keep_pdt = False
                sp.ptol = max(sp.ptol, 1e-7 if p["pdtype"] == "f4" else 0.0)
                sp.gtol = sp.ptol
            return post(sp, kw, ref, r), mut


if __name__ == "__main__":
    import families, collections, time
    for key in sys.argv[1:] or SP.S:
        sp = SP.S[key]
        for kw in sp.variants:
            n = bad = 0
            msgs = []
            t0 = time.time()
            for nm, p in families.params(sp, "quick", 1):
                if not in_domain(sp, adapt(sp, p)):
                    continue
                n += 1
                f, mut = run_case(sp, kw, p)
                if f or mut:
                    bad += 1
                    msgs.append((nm, f[:2], mut, p if nm.startswith("rand") else ""))
            print(f"{key} {kw}: {n} cases, {bad} bad, {time.time()-t0:.1f}s")
            for x in msgs[:12]:
                print("    ", *x)
