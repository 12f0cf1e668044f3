"""DESIGN.md = design_head.md + design_body.md with the parts that change as contracts are added."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
PARTS = {
    "C10": "The compressed variants rest on decompress(compress(x)) == x; that the chunks cover every byte once, that the header counts them and that the reader cuts base64 text and blocks where they end is proved.",
    "C11": "Proved for versions 4.1, 4.0 and 2.2, binary and ASCII, in each case for any number of points and cells: one and several blocks, 2D points, node orders (tetra10, hexahedron20, wedge15, pyramid13), point and cell data, tags, physical names, periodic relations; 4.1 also with `gmsh:dim_tags` (points spread in any way over two entities, with and without physical tags; the sorting lemma is its own obligation).  Reading files of other programs (more entities, sparse tags, `$Entities` in 4.0) only by the stand-in.",
    "C13": "All five formats proved: HMF, CGNS, H5M, MED (several types, point/cell/nodal cell data, tags and families) and Exodus (several blocks, point data, point sets), over models of h5py and netCDF4.",
    "C14": "Proved: ugrid (11 encodings × 3 structures), tetgen, medit (ASCII and binary, 6 structures each), avsucd (9 structures, with materials and data), netgen (8 structures, with the index), abaqus (5 structures), permas (5 structures), dolfin-xml (7 structures, with cell data).  The other formats only by the stand-in.",
    "C15": "Proved: off, obj, neuroglancer, and the step of the STL reader that joins the corners of the facets into points (`data_from_facets`).  The rest of STL, PLY and WKT only by the stand-in.",
}
HOW = json.loads((V / "tools" / "seeds_how.json").read_text()) if (V / "tools" / "seeds_how.json").exists() else {}
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {HOW.get(d.name, '?')} |")
s = (V / "tools" / "design_head.md").read_text() + (V / "tools" / "design_body.md").read_text()
for k, v in PARTS.items():
    s = s.replace(f"@{k}@", v)
(V / "DESIGN.md").write_text(s.replace("@SEEDS@", "\n".join(rows)))
