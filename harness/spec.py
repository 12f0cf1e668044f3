"""Format contracts: what each writer/reader pair promises (the post-condition of read after write).

The same table parametrises the symbolic round-trip obligations (engine/) and the run-time evaluation (harness/).
Everything a format cannot represent is left out of its domain here, never compared loosely inside it.
"""
LIN = ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"]
SURF = ["triangle", "quad"]
VOL = ["tetra", "hexahedron", "wedge", "pyramid"]
HI = ["line3", "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27", "wedge15", "pyramid13"]
ALLDT = ["f8", "f4", "i8", "i4", "i2", "i1", "u8", "u4", "u2", "u1"]


class Spec:
    def __init__(self, name, ext, types, **kw):
        self.name = name            # module name under meshio
        self.ext = ext
        self.types = types
        self.variants = kw.pop("variants", [{}])
        self.prop = kw.pop("prop")
        self.order = kw.pop("order", "flat")      # flat | bytype | blocks
        self.mixed = kw.pop("mixed", True)        # several types in one mesh
        self.multi = kw.pop("multi", True)        # several blocks of one type
        self.empty = kw.pop("empty", False)       # empty blocks allowed
        self.nocells = kw.pop("nocells", False)
        self.dims = kw.pop("dims", (2, 3))
        self.pad = kw.pop("pad", False)           # 2D points come back with a zero third coordinate
        self.ptol = kw.pop("ptol", 0.0)
        self.pdt = kw.pop("pdt", ["f8", "f4"])
        self.keep_pdt = kw.pop("keep_pdt", False)
        self.cdt = kw.pop("cdt", ["i8", "i4"])
        self.layouts = kw.pop("layouts", ["C", "F", "strided"])
        self.pd = kw.pop("pd", ())                # numbers of components of point data (0 = 1-D array)
        self.cd = kw.pop("cd", ())
        self.pd_dt = kw.pop("pd_dt", ["f8"])
        self.cd_dt = kw.pop("cd_dt", None) or self.pd_dt
        self.dtol = kw.pop("dtol", 0.0)
        self.pad_vec = kw.pop("pad_vec", False)   # (n,2) data come back as (n,3)
        self.squeeze = kw.pop("squeeze", False)   # (n,1) data come back as (n,)
        self.ps = kw.pop("ps", False)
        self.cs = kw.pop("cs", False)
        self.geom = kw.pop("geom", None)          # only the geometry is kept (STL, WKT)
        self.values = kw.pop("values", ["generic", "int", "huge"])
        self.tags = kw.pop("tags", ())            # integer cell data the format stores under its own names
        self.min_types = kw.pop("min_types", None)
        self.special = kw.pop("special", None)
        self.oriented = kw.pop("oriented", False)
        self.maxblocks = kw.pop("maxblocks", 99)
        self.split = kw.pop("split", False)
        self.names = kw.pop("names", True)
        self.more = kw.pop("more", [])            # further types, evaluated one block at a time
        self.slow = kw.pop("slow", False)
        self.odd_names = kw.pop("odd_names", ())
        self.tensor = kw.pop("tensor", False)     # data with more than two dimensions
        self.wide = kw.pop("wide", False)
        assert not kw, kw


S = {}


GM = ("quad16 tetra20 wedge40 hexahedron64 line5 triangle15 quad25 tetra35 wedge75 hexahedron125 line6 triangle21 quad36 tetra56 wedge126 hexahedron216 line7 triangle28 "
      "quad49 tetra84 wedge196 hexahedron343 line8 triangle36 quad64 tetra120 wedge288 hexahedron512 line9 triangle45 quad81 tetra165 wedge405 hexahedron729 line10 "
      "triangle55 quad100 tetra220 wedge550 hexahedron1000 line11 triangle66 quad121 tetra286").split()
XM = ["hexahedron24", "wedge18", "hexahedron125", "hexahedron216", "hexahedron343", "hexahedron512", "hexahedron729", "hexahedron1000", "hexahedron1331"]
MORE = {"vtk42": ["hexahedron24", "wedge18", "line4"], "vtk51": ["hexahedron24", "wedge18", "line4"], "vtu-bin": ["hexahedron24", "wedge18", "line4"],
        "vtu-ascii": ["hexahedron24", "wedge18", "line4"], "gmsh22": GM, "gmsh40": GM, "gmsh41": GM, "xdmf": XM, "hmf": XM + ["hexahedron64"], "exodus": ["vertex"],
        "abaqus": ["wedge15"], "mdpa": "vertex quad8 hexahedron20 line3 triangle6 quad9 tetra10 hexahedron27".split(), "nastran": ["vertex", "quad9"]}


def add(key, *a, **k):
    k.setdefault("more", MORE.get(key, []))
    S[key] = Spec(*a, **k)
    S[key].key = key


add("vtk42", "vtk", ".vtk", LIN + HI + ["polygon"], prop="C10", variants=[{"binary": b, "fmt_version": "4.2"} for b in (True, False)],
    pad=True, keep_pdt=True, layouts=["C", "F", "strided", "big"], pd=(0, 1, 2, 3, 6, 9), cd=(0, 1, 2, 3, 6, 9), pd_dt=["f8", "f4", "i4", "i8"],
    pad_vec=True, squeeze=True, empty=True)
add("vtk51", "vtk", ".vtk", LIN + HI + ["polygon"], prop="C10", variants=[{"binary": b, "fmt_version": "5.1"} for b in (True, False)],
    pad=True, keep_pdt=True, layouts=["C", "F", "strided", "big"], pd=(0, 1, 2, 3, 6, 9), cd=(0, 1, 2, 3, 6, 9),
    pd_dt=["f8", "f4", "i8", "i4", "i2", "i1", "u8", "u4", "u2", "u1"], pad_vec=True, squeeze=True, empty=True, nocells=True)
add("vtu-bin", "vtu", ".vtu", LIN + HI + ["polygon"], prop="C10",
    variants=[{"binary": True, "compression": c, "header_type": h} for c in (None, "zlib", "lzma") for h in (None, "UInt32", "UInt64")],
    pad=True, keep_pdt=True, layouts=["C", "F", "strided", "big"], pd=(0, 1, 2, 3, 6, 9), cd=(0, 1, 2, 3, 6, 9),
    pd_dt=["f8", "f4", "i8", "i4", "i2", "i1", "u8", "u4", "u2", "u1"], empty=True)
add("vtu-ascii", "vtu", ".vtu", LIN + HI + ["polygon"], prop="C10", variants=[{"binary": False}],
    pad=True, keep_pdt=True, ptol=1e-11, dtol=1e-11, layouts=["C", "F", "strided", "big"], pd=(0, 1, 2, 3, 6, 9), cd=(0, 1, 2, 3, 6, 9),
    pd_dt=["f8", "i8", "i4", "i2", "i1", "u8", "u4", "u2", "u1"], pdt=["f8"], empty=True)
add("gmsh22", "gmsh", ".msh", LIN + ["line3", "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27", "wedge15", "pyramid13", "line4", "triangle10", "wedge18", "pyramid14"], prop="C11",
    variants=[{"fmt_version": "2.2", "binary": b} for b in (True, False)], pad=True, pd=(0, 3, 9), cd=(0, 3, 9), pd_dt=["f8"], pdt=["f8"],
    dtol=0, tags=("gmsh:physical", "gmsh:geometrical"))
add("gmsh40", "gmsh", ".msh", S["gmsh22"].types, prop="C11", variants=[{"fmt_version": "4.0", "binary": b} for b in (True, False)],
    pad=True, pd=(0, 3, 9), cd=(0, 3, 9), pd_dt=["f8"], pdt=["f8"], order="blocks", dtol=0, empty=True)
add("gmsh41", "gmsh", ".msh", S["gmsh22"].types, prop="C11", variants=[{"fmt_version": "4.1", "binary": b} for b in (True, False)],
    pad=True, pd=(0, 3, 9), cd=(0, 3, 9), pd_dt=["f8"], pdt=["f8"], order="blocks", maxblocks=1, mixed=False, multi=False, dtol=0)
_XV = [{"data_format": "XML"}, {"data_format": "Binary"}, {"data_format": "HDF", "compression": None}, {"data_format": "HDF"}, {"data_format": "HDF", "compression": "gzip", "compression_opts": 9}]
add("xdmf-t", "xdmf", ".xdmf", ["triangle"], prop="C12", mixed=False, multi=False, keep_pdt=True, pd=(0, 3), cd=(0, 3), pd_dt=["f8", "f4", "i8", "u1"], variants=_XV[1:], tensor=True)
add("xdmf", "xdmf", ".xdmf", LIN + HI + ["hexahedron64"], prop="C12",
    variants=[{"data_format": "XML"}, {"data_format": "Binary"}, {"data_format": "HDF", "compression": None}, {"data_format": "HDF"}],
    keep_pdt=True, layouts=["C", "F", "strided", "big"], pd=(0, 1, 2, 3, 6, 9), cd=(0, 1, 2, 3, 6, 9), pd_dt=["f8", "f4", "i8", "i4", "i2", "i1", "u8", "u4", "u2", "u1"], empty=True)
add("cgns", "cgns", ".cgns", ["tetra"], prop="C13", variants=[{}, {"compression": None}, {"compression_opts": 9}], dims=(3,), mixed=False, multi=False, pdt=["f8"])
add("h5m", "h5m", ".h5m", ["line", "triangle", "tetra"], prop="C13", variants=[{}, {"compression": None}, {"add_global_ids": False}], order="bytype", multi=False, pd=(0, 3), pd_dt=["f8", "i8", "i4", "f4"], keep_pdt=True)
add("hmf", "hmf", ".hmf", LIN + HI, prop="C13", variants=[{}, {"compression": None}], tensor=True, mixed=False, multi=False, pd=(0, 1, 2, 3), cd=(0, 1, 3), pd_dt=["f8", "i8", "i4", "f4"], keep_pdt=True)
add("med", "med", ".med", ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3", "triangle6", "quad8", "tetra10", "hexahedron20", "wedge15", "pyramid13"], prop="C13",
    order="bytype", multi=False, pd=(0, 2, 3), cd=(0, 2, 3), pd_dt=["f8"], pdt=["f8"], tags=("cell_tags",))
add("exodus", "exodus", ".e", ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3", "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27"], prop="C13",
    pd=(0,), pd_dt=["f8"], pdt=["f8"], ps=True, order="blocks", dims=(2, 3))
add("abaqus", "abaqus", ".inp", ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "line3", "triangle6", "quad8", "quad9", "tetra10", "hexahedron20"], prop="C14",
    order="blocks", ptol=1e-15, ps=True, cs=True)
add("ansys-ascii", "ansys", ".msh", ["triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"], prop="C14", variants=[{"binary": False}], order="blocks", ptol=1e-15)
add("ansys-bin", "ansys", ".msh", ["triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"], prop="C14", variants=[{"binary": True}], order="blocks", keep_pdt=True)
add("avsucd", "avsucd", ".avs", LIN, prop="C14", pad=True, ptol=1e-13, dtol=1e-13, pd=(0, 3), cd=(0, 3), pd_dt=["f8"], pdt=["f8"], tags=("avsucd:material",))
add("dolfin", "dolfin", ".xml", ["triangle", "tetra"], prop="C14", mixed=False, cd=(0,), cd_dt=["f8", "i8"], pdt=["f8"])
add("flac3d", "flac3d", ".f3grid", VOL, prop="C14", dims=(3,), variants=[{"binary": False}, {"binary": True}], ptol=1e-15, pdt=["f8"], oriented=True, cs=True, values=["generic"])
add("mdpa", "mdpa", ".mdpa", ["line", "triangle", "quad", "tetra", "hexahedron", "wedge"], prop="C14", pad=True, ptol=1e-15, pdt=["f8"])
add("medit", "medit", ".mesh", ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"], prop="C14", ptol=1e-15, tags=("medit:ref",), order="blocks")
add("meditb", "medit", ".meshb", ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"], prop="C14", tags=("medit:ref",), order="blocks")
add("nastran", "nastran", ".bdf", ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "triangle6", "quad8", "tetra10", "hexahedron20", "wedge15", "pyramid13"], prop="C14",
    variants=[{"point_format": "fixed-large"}, {"point_format": "free"}, {"point_format": "free", "cell_format": "free"}], pad=True, ptol=1e-9, pdt=["f8"],
    values=["generic", "int", "huge"], tags=("nastran:ref",))
add("netgen", "netgen", ".vol", ["vertex", "line", "triangle", "quad", "triangle6", "quad8", "tetra", "hexahedron", "wedge", "pyramid", "tetra10", "hexahedron20", "wedge15", "pyramid13"], prop="C14", order="bytype", ptol=1e-15, pdt=["f8"], tags=("netgen:index",))
add("permas", "permas", ".post", ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3", "triangle6", "tetra10", "quad9", "wedge15"], prop="C14", pad=True, order="blocks", pdt=["f8"])
add("su2", "su2", ".su2", ["triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"], prop="C14", order="bytype", ptol=1e-15, pdt=["f8"], special="su2")
add("tecplot", "tecplot", ".dat", ["line", "triangle", "quad", "tetra", "hexahedron"], prop="C14", mixed=False, pd=(0,), cd=(0,), pd_dt=["f8"], pdt=["f8"], ptol=1e-13, dtol=1e-13)
add("tetgen", "tetgen", ".node", ["tetra"], prop="C14", dims=(3,), mixed=False, multi=False, pdt=["f8"], ptol=1e-15, tags=("tetgen:ref",), special="tetgen")
add("ugrid", "ugrid", ".lb8.ugrid", ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"], prop="C14", order="bytype", multi=False, pad=True, pdt=["f8"], tags=("ugrid:ref",))
for _e, _f in (("ascii", "f4"), ("b8l", "f8"), ("b8", "f8"), ("b4", "f4"), ("lb8l", "f8"), ("lb4", "f4"), ("r8", "f8"), ("r4", "f4"), ("lr8", "f8"), ("lr4", "f4")):
    add("ugrid-" + _e, "ugrid", "." + _e + ".ugrid" if _e != "ascii" else ".ugrid", S["ugrid"].types, prop="C14", order="bytype", multi=False, pad=True, pdt=[_f], tags=("ugrid:ref",), ptol=0.0 if _e != "ascii" else 1e-6)
add("obj", "obj", ".obj", ["triangle", "quad"], prop="C15", dims=(3,), pdt=["f8"])
add("off", "off", ".off", ["triangle"], prop="C15", pad=True, pdt=["f8"], mixed=False)
add("ply", "ply", ".ply", ["line", "triangle", "quad", "vertex"], prop="C15", dims=(3,), variants=[{"binary": False}, {"binary": True}], pd=(0,), pd_dt=["f8", "f4", "i4", "u1"], keep_pdt=True)
add("stl-ascii", "stl", ".stl", ["triangle"], prop="C15", dims=(2, 3), pad=True, variants=[{"binary": False}], geom="exact", mixed=False, pdt=["f8"])
add("stl-bin", "stl", ".stl", ["triangle"], prop="C15", dims=(2, 3), pad=True, variants=[{"binary": True}], geom="f4", mixed=False)
add("wkt", "wkt", ".wkt", ["triangle"], prop="C15", pad=True, geom="exact", mixed=False, values=["generic", "int"], pdt=["f8"])
add("neuroglancer", "neuroglancer", "", ["triangle"], prop="C15", pad=True, pdt=["f4"], mixed=False, keep_pdt=True)

ODD = ("A", "x_1", "a.b", "Name-with:chars", "0lead", "nodes", "value-2")
SP_ = ("a b", " lead", "\u00e9t\u00e9")
XMLN = ("a<b", "q&r", 'say "x"')
for _k in S:
    if _k in ("vtk42", "vtk51", "tecplot", "avsucd", "ply"):
        S[_k].odd_names = ODD
    elif S[_k].pd or S[_k].cd:
        S[_k].odd_names = ODD + SP_ + (XMLN if _k.startswith(("vtu", "xdmf")) else ())
    S[_k].wide = any(d[0] in "iu" for d in S[_k].pd_dt) and bool(S[_k].pd)
