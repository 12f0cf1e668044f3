#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is easy to maintain)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
S = "src/meshio/"

p("C01", "A constructed mesh is consistent, and inconsistent input is refused",
  "Constructing a mesh either fails with an error or yields a mesh in which every point-data array has exactly one entry per point and every cell-data name has exactly one array per cell block with exactly one entry per cell of that block. "
  "Input that violates this is always refused, and input that satisfies it is accepted with the points, the blocks (in the given order, with the given type and connectivity) and the data values unchanged. "
  "A cell block keeps the type, the connectivity and the tags it was given, and its reported dimension is the topological dimension of its type.",
  ["inputs"], "all point arrays, all numbers of blocks, all block sizes, all data dictionaries, dict or list form of the cells",
  "The suite builds a few dozen fixed, consistent meshes; the constructor's refusals and its behaviour for other block counts and lengths are never sampled.",
  [S+"_mesh.py"], [("Mesh.__init__", S+"_mesh.py"), ("CellBlock.__init__", S+"_mesh.py")])

p("C02", "Per-type views concatenate the blocks of a type in block order",
  "For every mesh and cell type, the cells of that type, the cell data of that type and the per-type dictionaries of cells and of cell data are the concatenation of exactly the blocks of that type, in block order, with no row lost, duplicated or reordered. "
  "A per-type cell set names exactly the cells that the per-block sets name, each index shifted by the number of cells in all earlier blocks of the same type (including earlier blocks in which the set is absent). "
  "Asking for the cells of a type without blocks gives an empty result, and the mesh is not changed.",
  ["inputs"], "all numbers of blocks, all sequences of block types, all block sizes and contents, sets absent from any subset of blocks",
  "Tests use one or two blocks of one type; interleaved types, three or more blocks of a type and sets that skip a block are never combined.",
  [S+"_mesh.py"], [("Mesh.get_cells_type, get_cell_data, cells_dict, cell_data_dict, cell_sets_dict", S+"_mesh.py")])

p("C03", "Sets and integer data convert into each other without losing membership",
  "Converting point sets or cell sets to integer data labels every member of a set with that set's position and every point or cell that is in no set with -1 (a later set wins where sets overlap), stores the result under one data name, and removes the sets. "
  "Converting an integer data array to sets yields one set per distinct value, which contains exactly the points (or, per block, exactly the cells) with that value, and removes only that data array; other sets, data, points and cells are untouched. "
  "If non-empty, disjoint sets cover everything and their names contain no separator, converting to data and back restores the same sets under the same names.",
  ["inputs"], "all numbers of sets and blocks, all memberships (including empty, overlapping and absent ones), all integer data",
  "The suite converts two fixed sets of one mesh and back.",
  [S+"_mesh.py"], [("Mesh.cell_sets_to_data, point_sets_to_data, cell_data_to_sets, point_data_to_sets", S+"_mesh.py")])

p("C04", "Flattened cell data splits back onto the blocks it came from",
  "Joining per-block cell data into one array per name keeps every value in block order, and splitting such an array by a list of blocks gives block k exactly the entries that belong to its cells. "
  "Splitting what was joined therefore restores every array of every name, for any number of blocks and any block sizes, including empty blocks.",
  ["inputs"], "all numbers of blocks, all block sizes, all names and values",
  "Only exercised indirectly through a handful of format tests with one or two blocks.",
  [S+"_common.py"], [("cell_data_from_raw, raw_from_cell_data", S+"_common.py")])

p("C05", "The registered reader or writer is used, and everything else is refused",
  "Reading tries exactly the formats registered for the file's extensions (or only the format asked for), in registration order with shorter suffixes before longer ones and regardless of letter case, and returns the first mesh a reader produces; a missing file, an unknown extension or an unknown format raises the read error without calling any reader. "
  "Writing calls exactly the writer registered for the requested or first deduced format, once, with the caller's file and mesh and options, and raises the write error for unknown formats. "
  "Registering a format makes it reachable under its extensions and deregistering removes it (and nothing else) everywhere.",
  ["inputs", "histories"], "all file names, all sequences of register/deregister calls, all reader outcomes",
  "Tests read and write through a few fixed extensions; multi-suffix names, fall-through between readers of a shared extension and histories of (de)registration are not covered.",
  [S+"_helpers.py", S+"_files.py"], [("read, _read_file, _read_buffer, write, _filetypes_from_path, register_format, deregister_format", S+"_helpers.py")],
  state=[("extension_to_filetypes, reader_map, _writer_map", "the format registry", S+"_helpers.py")])

p("C06", "Malformed cell arrays are refused before the target file is touched",
  "Writing a mesh through the public write function raises the write error, without calling the format's writer and without creating or truncating the target, whenever any cell block of a known fixed-size type has a number of columns different from that type's number of nodes. "
  "If every such block is well formed the writer is called; blocks of unknown custom types are never refused by this check.",
  ["inputs"], "all numbers of blocks, all cell types, all array shapes, every position of the bad block",
  "No test writes a malformed block; the position and type of the bad block are unbounded.",
  [S+"_helpers.py", S+"_common.py"], [("write (sanity check loop)", S+"_helpers.py"), ("num_nodes_per_cell", S+"_common.py")])

p("C07", "Writing a mesh leaves the caller's mesh unchanged",
  "Writing a mesh in any format, with any options, leaves every part of the mesh object that was passed in as it was: points, cell blocks, point data, cell data, field data, point sets and cell sets keep their values, types, names and order, and no array of the mesh is modified in place. "
  "Writing the same mesh twice therefore writes the same content.",
  ["inputs", "configurations"], "all registered writers, all meshes they accept (2D points, sets, any dtype and byte order), all options",
  "The test helper only compares points and connectivity for the fixed sample meshes, and compares data against the possibly modified input itself.",
  [S+"vtk/_vtk_42.py", S+"vtk/_vtk_51.py", S+"vtu/_vtu.py", S+"ply/_ply.py", S+"avsucd/_avsucd.py", S+"gmsh/", S+"xdmf/main.py", S+"_mesh.py"],
  [("write function of every format", S+"*/")])

p("C08", "Cell-type codes and node orders translate back and forth without loss",
  "For every format that stores numeric or symbolic cell-type codes, translating a supported type to its code and back gives the same type, and no two types share a code on writing. "
  "For every format that stores nodes in a different order, applying the write order and then the read order is the identity on every row, each order being a permutation of all nodes of the type. "
  "The number of nodes that a table gives for a type agrees with the type's node count everywhere, and the codes and node orders are the ones that the format's specification assigns.",
  ["inputs", "configurations"], "all cell types of all formats, all connectivity rows",
  "Round-trip tests cover around ten of the more than sixty types; high-order types and several orders are never written or read.",
  [S+"_vtk_common.py", S+"gmsh/common.py", S+"_common.py", S+"_mesh.py", S+"abaqus/_abaqus.py", S+"med/_med.py", S+"nastran/_nastran.py", S+"ugrid/_ugrid.py", S+"avsucd/_avsucd.py", S+"exodus/_exodus.py", S+"xdmf/common.py", S+"tecplot/_tecplot.py", S+"netgen/_netgen.py", S+"flac3d/_flac3d.py", S+"permas/_permas.py", S+"su2/_su2.py", S+"medit/_medit.py", S+"mdpa/_mdpa.py"],
  [("type tables and *_order functions", S+"*/")])

p("C09", "VTK cell streams decode to exactly the cells they encode",
  "Decoding VTK connectivity, offset and type arrays yields blocks that, read one after the other, list exactly the cells of the stream in stream order: each cell with its type, its own nodes (in meshio node order) and its own cell-data values. "
  "Every block contains cells of one type and one node count only, and cells of a type that meshio does not know are dropped together with their data (with a warning) without shifting any other cell, or the file is refused (legacy VTK files before version 5). The pieces of a VTU file follow one another in file order.",
  ["inputs"], "all numbers of cells, all type sequences, all node counts of polygons and Lagrange cells, all connectivity and cell data",
  "The sample meshes contain one or two blocks; the decoding works on break points of arbitrary type sequences.",
  [S+"_vtk_common.py", S+"vtk/_vtk_42.py", S+"vtu/_vtu.py"],
  [("vtk_cells_from_data", S+"_vtk_common.py"), ("translate_cells", S+"vtk/_vtk_42.py"), ("_organize_cells", S+"vtu/_vtu.py")])

p("C10", "VTK legacy and VTU files read back as the mesh that was written",
  "Writing a mesh as legacy VTK (version 4.2 or 5.1, binary or ASCII) or VTU (binary with or without compression, or ASCII) and reading the file gives the same points (2D points gain a zero third coordinate), the same cells in the same order with the same node order, and every point-data, cell-data and (where written) field-data array under its name with the same values, up to the digits the ASCII variant writes. "
  "Only adjacent blocks of one type may be merged.",
  ["inputs", "configurations"], "all meshes of VTK-representable cells with non-empty blocks, all numbers of points, cells, blocks and data arrays, all numeric types that the formats support, all variants and header types",
  "Tests round-trip about fifteen fixed meshes of at most a few dozen cells.",
  [S+"vtk/_vtk_42.py", S+"vtk/_vtk_51.py", S+"vtk/_main.py", S+"vtu/_vtu.py", S+"_vtk_common.py", S+"_cxml/etree.py"],
  [("write/read", S+"vtk/, vtu/")])

p("C11", "Gmsh files read back as the mesh that was written",
  "Writing a mesh in Gmsh format 2.2, 4.0 or 4.1, binary or ASCII, and reading the file gives the same points (2D points gain a zero third coordinate), the same cells in the same order with the same node order, the same point and cell data, the same physical and geometrical tags of every cell (in format 4.1 where the mesh says which geometric entity each point belongs to), the same physical names and the same periodic relations.",
  ["inputs", "configurations"], "all meshes of Gmsh-representable cells, all numbers of points, cells, blocks and data arrays, both encodings of the three versions",
  "Tests round-trip about fifteen fixed meshes; node tags, entity blocks and data sections depend on sizes that are never varied.",
  [S+"gmsh/_gmsh22.py", S+"gmsh/_gmsh40.py", S+"gmsh/_gmsh41.py", S+"gmsh/common.py", S+"gmsh/main.py"],
  [("write/read_buffer", S+"gmsh/")])

p("C12", "XDMF files and time series read back as written",
  "Writing a mesh as XDMF (XML, binary or HDF data) and reading it gives the same points, the same cells in the same order, and the same point and cell data under the same names. "
  "A time series returns the number of steps, the time values in the order written, and for every step the point and cell data written for that step.",
  ["inputs", "histories", "configurations"], "all meshes of XDMF-representable cells, single-type and mixed topologies, all numbers of steps and data arrays, all data formats",
  "Tests write two or three steps of fixed meshes.",
  [S+"xdmf/main.py", S+"xdmf/time_series.py", S+"xdmf/common.py"],
  [("XdmfWriter/XdmfReader", S+"xdmf/main.py"), ("TimeSeriesWriter/TimeSeriesReader", S+"xdmf/time_series.py"), ("translate_mixed_cells", S+"xdmf/common.py")])

p("C13", "HDF5 and netCDF formats read back as the mesh that was written",
  "Writing a mesh as CGNS, H5M, HMF, MED or Exodus and reading the file gives the same points and the same cells, type by type and in the same order, together with the point data, cell data, sets and tags that the format stores, up to what the writer warns about.",
  ["inputs", "configurations"], "all meshes that the writers accept without warning, all numbers of points, cells, blocks, data arrays and sets, all compression options",
  "Tests round-trip about ten fixed meshes per format.",
  [S+"cgns/_cgns.py", S+"h5m/_h5m.py", S+"hmf/_hmf.py", S+"med/_med.py", S+"exodus/_exodus.py"],
  [("read/write", S+"cgns, h5m, hmf, med, exodus")])

p("C14", "Solver text and deck formats read back as the mesh that was written",
  "Writing a mesh as Abaqus, ANSYS, AVS-UCD, DOLFIN XML, FLAC3D, MDPA, Medit, Nastran, Netgen, PERMAS, SU2, Tecplot, TetGen or UGRID and reading the file gives the same points up to the digits written, every cell with its type and nodes in the same node order (in the same order within its type), and the sets, reference tags and data that the format stores attached to the same points and cells.",
  ["inputs", "configurations"], "all meshes that the writers accept without warning, all numbers of points, cells and blocks, all text and binary variants",
  "Tests round-trip about ten fixed small meshes per format; index widths, line continuations, field overflow and block interleaving depend on sizes and values that are not varied.",
  [S+x+"/" for x in "abaqus ansys avsucd dolfin flac3d mdpa medit nastran netgen permas su2 tecplot tetgen ugrid".split()],
  [("read/write", S+"one module per format")])

p("C15", "Surface formats read back as the mesh that was written",
  "Writing a mesh of triangles (and quads or polygons where supported) as OBJ, OFF, PLY (ASCII or binary), STL (ASCII or binary), WKT or Neuroglancer and reading the file gives the same cells in the same order, each with the same corner coordinates in the same order up to the digits or float width that the format stores; OBJ, OFF, PLY and Neuroglancer also keep the point numbering and PLY keeps scalar point data.",
  ["inputs", "configurations"], "all meshes of supported cells, all numbers of points, cells and blocks, all numeric types, all variants",
  "Tests round-trip a few fixed meshes of at most a dozen triangles.",
  [S+x+"/" for x in "obj off ply stl wkt neuroglancer".split()],
  [("read/write", S+"one module per format")])

p("C16", "Structured VTK grids expand to the lattice they describe",
  "Reading a structured or rectilinear grid or a set of structured points yields one point per lattice node, in the file's order, with the coordinates of that node, and exactly one line, quadrilateral or hexahedron per lattice cell, whose corners are the lattice nodes of that cell in VTK corner order, for every lattice with at least two nodes.",
  ["inputs"], "all lattice dimensions in one, two and three directions (flat directions in any position), all axis coordinates",
  "The only structured samples are Git-LFS stubs here; the index arithmetic is never exercised by a passing test.",
  [S+"vtk/_vtk_42.py", S+"vtk/_vtk_51.py"], [("_generate_cells, _generate_points, _check_mesh", S+"vtk/")])

p("C17", "Command-line tools preserve the mesh they process",
  "Converting a file on the command line writes exactly the mesh that was read, in the requested output format and encoding, with sets turned into integer data or integer data into sets only when asked for. "
  "Compressing, decompressing, or switching a file between ASCII and binary rewrites it in place so that it reads back as the same mesh, and a format without such a variant is reported without touching the file. The info command reports points that no cell uses, and cells that use points that do not exist, exactly when there are some.",
  ["inputs", "configurations"], "all meshes, all formats that a tool supports, all option combinations",
  "Tests run each tool once on one triangle mesh.",
  [S+"_cli/"], [("convert, compress, decompress, ascii, binary, info", S+"_cli/")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
