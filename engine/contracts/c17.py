"""Command-line tools.  read, write and the writers of the formats are replaced by their contracts: read gives a mesh (any), a
writer is called or not; the calls are recorded in order.  What the files then contain is the round trip of the format
(C10 to C15), and what sets_to_data and data_to_sets do is C03."""
from ..symmesh import *
from ..obl import *

FORMATS = "ansys cgns flac3d gmsh h5m mdpa ply stl vtk vtu xdmf med exodus medit nastran abaqus obj off hmf wkt ugrid avsucd su2 tecplot tetgen permas netgen neuroglancer svg tikz dolfin".split()


class Hooked:
    """a class of objects whose attributes are given by a function"""
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs

    def getattr(self, o, n):
        if n in self.attrs:
            return self.attrs[n](o)
        raise Unsupported(f"attribute {n} of {self.name}")

    def isinst(self, o, t):
        return t is object


class Env:
    pass


def event(e, *what):
    e.ev.set("seq", e.ev.seq.append(what))


def env(mesh):
    e = Env()
    e.ev = PList()
    e.mesh = mesh
    for f in FORMATS:
        nat = M.Native(f + ".write", lambda *a, f=f, **kw: event(e, "write", f, a, tuple(sorted(kw.items(), key=lambda x: x[0]))))
        m = M.MODULES.get("meshio." + f)
        if m is None:
            m = M.MODULES["meshio." + f] = M.Mod("meshio." + f, {})
            m.pkg, m.file = "meshio." + f, None
        m.vars["write"] = nat
    e.infile, e.infmt, e.outfile, e.outfmt, e.floatfmt = [new_string(x) for x in ("infile", "infmt", "outfile", "outfmt", "floatfmt")]
    e.fmt = new_string("fmt")

    def rff(path, fmt=None):
        t = path.attrs["_e"] if isinstance(path, Obj) else sstr(path)
        event(e, "read", t, fmt)
        return (e.mesh, e.fmt)
    M.OVERRIDE["meshio._helpers._read_file_and_format"] = rff

    def read(filename, file_format=None):
        t = filename.attrs["_e"] if isinstance(filename, Obj) else sstr(filename)
        event(e, "read", t, file_format)
        return e.mesh

    def write(filename, mesh, file_format=None, **kw):
        event(e, "write", file_format, (filename, mesh), tuple(sorted(kw.items(), key=lambda x: x[0])))
    M.OVERRIDE["meshio._helpers.read"] = read
    M.OVERRIDE["meshio._helpers.write"] = write
    STAT = Hooked("stat_result", {"st_size": lambda o: 1024})
    M.EXTERNAL["os"] = M.Mod("os", {"stat": M.Native("os.stat", lambda p: Obj(STAT))})
    M.EXTERNAL["os"].ext = True
    CTX.hooks["warn"] = lambda *a: event(e, "message", a)
    return e


def arguments(e, **flags):
    vals = dict(infile=e.infile, outfile=e.outfile, input_format=SOpt(z3.Bool("has_input_format"), e.infmt), output_format=SOpt(z3.Bool("has_output_format"), e.outfmt),
                float_format=SOpt(z3.Bool("has_float_format"), e.floatfmt), **{k: mk(z3.Bool("flag_" + k)) for k in ("ascii", "sets_to_int_data", "int_data_to_sets", "max")})
    return Obj(Hooked("Namespace", {k: (lambda o, v=v: v) for k, v in vals.items()}))


def same_opt(v, name, want):
    """v is the optional argument as given (None if absent)"""
    has = z3.Bool(name)
    if isinstance(v, SOpt):
        return z3.And(bex(v.cond) == has, z3.Implies(has, sstr(v.value) == want.e))
    if v is None:
        return z3.Not(has)
    return z3.And(has, sstr(v) == want.e)


def reads(e, evs):
    rd = [x for x in evs if x[0] == "read"]
    ensure("the file is read once", len(rd) == 1)
    for x in rd:
        ensure("the input file is read", x[1] == e.infile.e)
        ensure("the input format that was asked for is used", same_opt(x[2], "has_input_format", e.infmt))


def fake_mesh(e):
    NPD, NCD, NB = z3.Ints("NPD NCD NB")
    PN, CN, PK, CK = F("PN", IS, SS), F("CN", IS, SS), F("PK", IS, SS), F("CK", IS, IS, SS)
    names_distinct(NPD, PN)
    names_distinct(NCD, CN)
    require(NB >= 0)
    DT = Hooked("dtype", {"kind": lambda o: o.attrs["k"]})
    ARR = Hooked("ndarray", {"dtype": lambda o: Obj(DT, {"k": o.attrs["k"]})})
    pd = PDict(Seq([Gen(NPD, lambda i: (mk(PN(i)), Obj(ARR, {"k": mk(PK(i))})))]))
    cd = PDict(Seq([Gen(NCD, lambda i: (mk(CN(i)), PList(Seq([Gen(NB, lambda b: Obj(ARR, {"k": mk(CK(i, b))}))]))))]))
    e.__dict__.update(NPD=NPD, NCD=NCD, NB=NB, PN=PN, CN=CN, PK=PK, CK=CK)
    pts = SArr.make([z3.Int("P"), z3.Int("pdim")], lambda i, j: F("X", IS, IS, FS)(i, j), FLD)
    require(z3.And(z3.Int("P") >= 0, z3.Int("pdim") >= 1))
    e.pts = pts
    meth = lambda n: lambda o: M.Native("Mesh." + n, lambda *a: event(e, n, *a))
    MESH = Hooked("Mesh", {"point_data": lambda o: pd, "cell_data": lambda o: cd, **{n: meth(n) for n in ("point_sets_to_data", "cell_sets_to_data", "point_data_to_sets", "cell_data_to_sets")}})

    class WithPoints(Hooked):
        def getattr(self, o, n):
            return o.attrs["points"] if n == "points" else super().getattr(o, n)
    return Obj(WithPoints("Mesh", MESH.attrs), {"points": pts})


def convert():
    e = env(None)
    mesh = e.mesh = fake_mesh(e)
    kind, r = call("meshio._cli._convert", "convert", [arguments(e)])
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    flag = lambda n: z3.Bool("flag_" + n)
    evs = [(p, x, h) for p, x, h in each(e.ev.seq)]
    total = e.ev.seq.length()
    conc = [x for p, x, h in evs if not h]
    reads(e, conc)
    ensure("reads first", evs[0][1][0] == "read")
    wr = [x for x in conc if x[0] == "write"]
    ensure("the mesh is written once", len(wr) == 1 and not any(x[0] in ("write", "read") for p, x, h in evs if h))
    for p, x, h in evs:
        if x[0] == "write":
            ensure("nothing is done to the mesh after writing", p == total - 1)
            f, m = x[2]
            ensure("the output file is written", sstr(f) == e.outfile.e)
            ensure("the mesh that was read is written", m is mesh)
            ensure_same("its points are the points that were read", mesh.attrs["points"], e.pts)
            ensure("in the output format asked for", same_opt(x[1], "has_output_format", e.outfmt))
            kw = dict(x[3])
            ensure("no other options", set(kw) <= {"float_fmt", "binary"})
            ensure("float format only if asked for", same_opt(kw.get("float_fmt"), "has_float_format", e.floatfmt))
            ensure("ASCII only if asked for", (z3.Not(flag("ascii")) if "binary" not in kw else z3.And(flag("ascii"), z3.BoolVal(kw["binary"] is False))))
    for n in ("point_sets_to_data", "cell_sets_to_data"):
        c = [x for p, x, h in evs if x[0] == n]
        ensure(n + " exactly if asked for", (flag("sets_to_int_data") if len(c) == 1 else z3.And(z3.BoolVal(not c), z3.Not(flag("sets_to_int_data")))))
        ensure(n + " without options", all(len(x) == 1 for x in c))
    isint = lambda k: z3.Or(k == CTX.strc("i"), k == CTX.strc("u"))
    b = loopvar("b")
    for n, N_, nm, cond in (("point_data_to_sets", e.NPD, e.PN, lambda i: isint(e.PK(i))),
                            ("cell_data_to_sets", e.NCD, e.CN, lambda i: z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < e.NB), isint(e.CK(i, b))), patterns=[e.CK(i, b)]))):
        segs = [g for g in e.ev.seq.segs if isinstance(g, Gen) and g.fn(z3.Int("probe!"))[0] == n]
        c = [x for x in conc if x[0] == n]
        ensure(n + ": one call per array at most", len(segs) <= 1 and not c)
        if not segs:
            ensure(n + " if asked for", z3.Or(z3.Not(flag("int_data_to_sets")), N_ == 0))
            continue
        g = segs[0]
        i = z3.Int("i0")
        ensure(n + " only if asked for", z3.Implies(g.n > 0, flag("int_data_to_sets")))
        ensure(n + ": all arrays are considered", g.n == N_)
        with given(0 <= i, i < N_):
            ensure(n + " for the arrays of integers exactly", (g.cond(i) if g.cond else z3.BoolVal(True)) == cond(i))
            x = g.fn(i)
            ensure(n + ": under its name", z3.And(z3.BoolVal(len(x) == 2), sstr(x[1]) == nm(i)))


# what each in-place tool has to call: format -> options, or not at all
GZ = lambda e: {"compression": "gzip", "compression_opts": "level"}
COMPRESS = {f: {"binary": True} for f in "ansys gmsh mdpa ply stl vtk".split()}
COMPRESS.update(cgns={"compression": "gzip", "compression_opts": "level"}, h5m={"compression": "gzip", "compression_opts": "level"}, vtu={"binary": True, "compression": "vtu"},
                xdmf={"data_format": "HDF", "compression": "gzip", "compression_opts": "level"})
DECOMPRESS = {"cgns": {"compression": None}, "h5m": {"compression": None}, "vtu": {"binary": True, "compression": None}, "xdmf": {"data_format": "HDF", "compression": None}}
ASCII = {f: {"binary": False} for f in "ansys flac3d gmsh mdpa ply stl vtk vtu".split()}
ASCII["xdmf"] = {"data_format": "XML"}
BINARY = {f: {"binary": True} for f in "ansys flac3d gmsh mdpa ply stl vtk vtu".split()}
BINARY["xdmf"] = {"data_format": "HDF"}
# option values that the writers use when the option is left out
DEFAULTS = {("ansys", "binary"): True, ("gmsh", "binary"): True, ("mdpa", "binary"): False, ("ply", "binary"): True, ("stl", "binary"): False, ("vtk", "binary"): True, ("vtu", "binary"): True,
            ("flac3d", "binary"): False, ("xdmf", "data_format"): "HDF"}


def tool(modname, fname, table):
    def run():
        MESH = Hooked("Mesh", {})
        e = env(Obj(MESH))
        e.mesh.owner = "mesh"
        frame_start()
        kind, r = call("meshio._cli." + modname, fname, [arguments(e)])
        frame_end()
        evs = e.ev.seq.concrete()
        ensure("reads and writes once", evs is not None)
        reads(e, evs)
        ensure("reads first", bool(evs) and evs[0][0] == "read")
        wr = [x for x in evs if x[0] == "write"]
        known = z3.Or(*[e.fmt.e == CTX.strc(f) for f in table])
        ensure("at most one write", len(wr) <= 1)
        if not wr:
            ensure("a file is left alone only if its format has no such variant", z3.Not(known))
            ok = (kind == "raise" and exc_name(r) == "SystemExit" and r.args[:1] not in ((0,), (None,), ())) or (kind == "return" and isinstance(r, int) and not isinstance(r, bool) and r != 0)
            ensure("and this is reported", ok)
            return
        ensure("does not raise", kind == "return" and (r is None or r == 0))
        _, f, a, kw = wr[0]
        kw = dict(kw)
        ensure("the writer of the format that was read is used", z3.And(known, e.fmt.e == (CTX.strc(f) if isinstance(f, str) else sstr(f) if f is not None else z3.Const("no format", SS))))
        t = a[0].attrs["_e"] if isinstance(a[0], Obj) else sstr(a[0])
        ensure("the file that was read is rewritten", z3.And(t == e.infile.e, z3.BoolVal(len(a) == 2)))
        ensure("the mesh that was read is written", a[1] is e.mesh)
        if not isinstance(f, str):
            raise Unsupported("which format is written")
        want = table.get(f, {})
        mx = z3.Bool("flag_max")
        for k, v in want.items():
            if k not in kw and (f, k) in DEFAULTS:
                kw[k] = DEFAULTS[(f, k)]
            got = kw.get(k, "missing")
            if v == "level":
                ensure("option " + k, got != "missing" and z3.And(1 <= ex(got), ex(got) <= 9, z3.Implies(mx, ex(got) == 9)))
            elif v == "vtu":
                ensure("option " + k, got in ("lzma", "zlib"))
            else:
                ensure("option " + k, got is v if v is None or isinstance(v, bool) else got == v)
        ensure("no other options", set(kw) <= set(want))
    return run


def info():
    s = sym_mesh(pdim=3)
    k, a, b, p = [loopvar(x) for x in "kabp"]
    require(z3.ForAll([k, a, b], s.D(k, a, b) >= 0, patterns=[s.D(k, a, b)]))
    e = env(s.obj)
    frame_start()
    kind, r = call("meshio._cli._info", "info", [arguments(e)])
    frame_end()
    ensure("does not raise", kind == "return")
    if kind != "return":
        return
    ev = e.ev.seq
    evs = ev.concrete()
    if evs is None:
        raise Unsupported("symbolic number of messages")
    reads(e, evs)
    msgs = [x for x in evs if x[0] == "message"]
    ensure("at most one message", len(msgs) <= 1)
    # used(k, p): a cell of block k uses point p
    used, wa, wb = F("used", IS, IS, BS), F("used_a", IS, IS, IS), F("used_b", IS, IS, IS)
    inb = lambda k, a, b: z3.And(0 <= a, a < s.L(k), 0 <= b, b < s.W(k))
    inr = lambda k, a, b: z3.And(0 <= k, k < s.N, inb(k, a, b))
    require(z3.ForAll([k, p], z3.Implies(used(k, p), z3.And(inb(k, wa(k, p), wb(k, p)), s.D(k, wa(k, p), wb(k, p)) == p)), patterns=[used(k, p)]))
    require(z3.ForAll([k, a, b], z3.Implies(inb(k, a, b), used(k, s.D(k, a, b))), patterns=[s.D(k, a, b)]))
    missing = z3.Exists([k, a, b], z3.And(inr(k, a, b), s.D(k, a, b) >= s.P))
    k0, a0, b0, p0, j0 = z3.Ints("k0 a0 b0 p0 j0")
    i = loopvar("i")
    # the flags the code builds up block by block mean: used by one of the first j blocks (induction over j)
    some = lambda j, p: z3.Exists([i], z3.And(0 <= i, i < j, used(i, p)))
    for r in CTX.recs:
        if r.t.kind != "buf" or r.outer:
            continue
        try:
            f = lambda j, p: r.t.f(j, p)
            base, step = r.facts(j0, p0)
        except z3.Z3Exception:
            continue
        if f(j0, p0).sort() != BS:
            continue
        with given(0 <= p0, p0 < s.P, 0 <= j0, j0 < s.N):
            with given(base):
                ok0 = ensure("no point is marked before the first block", z3.Not(f(z3.IntVal(0), p0)))
            with given(step, f(j0, p0) == some(j0, p0), z3.Bool("hb") == used(j0, p0)):
                ok1 = ensure("the next block marks exactly its points", f(j0 + 1, p0) == z3.Or(used(j0, p0), some(j0, p0)))
            with given():
                ok2 = ensure("used by one block more", z3.Or(used(j0, p0), some(j0, p0)) == some(j0 + 1, p0))
        if ok0 and ok1 and ok2:
            require(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < s.P), f(s.N, p) == some(s.N, p)), patterns=[f(s.N, p)]))
    unused = z3.Exists([p], z3.And(0 <= p, p < s.P, z3.Not(some(s.N, p))))
    if not msgs:
        with given(inr(k0, a0, b0)):
            ensure("silent only if every cell uses existing points", s.D(k0, a0, b0) < s.P)
        with given(0 <= p0, p0 < s.P):
            ensure("silent only if every point is used", some(s.N, p0))
    else:
        ensure("a message only if points are missing or unused", z3.Or(missing, unused))


CONTRACTS = [("convert", convert), ("compress", tool("_compress", "compress", COMPRESS)), ("decompress", tool("_decompress", "decompress", DECOMPRESS)),
             ("ascii", tool("_ascii", "ascii", ASCII)), ("binary", tool("_binary", "binary", BINARY)), ("info", info)]
