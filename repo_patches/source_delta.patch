From a1295f5420b3a0c7d774183962aebd265fe6cc66 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 01/65] fix: Mesh.cell_sets_dict: blocks without members still
 count in the offsets

---
 src/meshio/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 741831d..f1c4bd6 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -283,14 +283,14 @@ class Mesh:
             sets_dict[key] = {}
             offsets = {}
             for members, cells in zip(member_list, self.cells):
-                if members is None:
-                    continue
                 if cells.type in offsets:
                     offset = offsets[cells.type]
                     offsets[cells.type] += cells.data.shape[0]
                 else:
                     offset = 0
                     offsets[cells.type] = cells.data.shape[0]
+                if members is None:
+                    continue
                 if cells.type in sets_dict[key]:
                     sets_dict[key][cells.type].append(members + offset)
                 else:
-- 
2.43.0


From 2e1cdd78e3743f5d6e8e133153fe37d52dec95f5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 02/65] fix: *_data_to_sets: never attach a set name to the
 entries which are in no set; name point sets after the key

---
 src/meshio/_mesh.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index f1c4bd6..283447c 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -380,8 +380,8 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
-            # alternative names
+        if len(names) != len(tags) or -1 in tags:
+            # alternative names (-1 marks entries that are not in any set)
             names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
@@ -408,9 +408,9 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
-            # alternative names
-            names = [f"set-key-{tag}" for tag in tags]
+        if len(names) != len(tags) or -1 in tags:
+            # alternative names (-1 marks entries that are not in any set)
+            names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
         # np.unique or np.sort
-- 
2.43.0


From 71b3e1162fe9c4ba85d360064be9f58b8e567ca5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 03/65] fix: file format vtk51 must write VTK 5.1

---
 src/meshio/vtk/_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_main.py b/src/meshio/vtk/_main.py
index 1e8e717..0dad2d2 100644
--- a/src/meshio/vtk/_main.py
+++ b/src/meshio/vtk/_main.py
@@ -40,7 +40,7 @@ register_format(
     read,
     {
         "vtk42": _vtk_42.write,
-        "vtk51": _vtk_42.write,
+        "vtk51": _vtk_51.write,
         "vtk": _vtk_51.write,
     },
 )
-- 
2.43.0


From d61f0c3ff95064fbe88438b17ba44903f347933f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 04/65] fix: meshio convert --int-data-to-sets must not change
 the dicts it iterates over

---
 src/meshio/_cli/_convert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_cli/_convert.py b/src/meshio/_cli/_convert.py
index 1a2edd3..1710936 100644
--- a/src/meshio/_cli/_convert.py
+++ b/src/meshio/_cli/_convert.py
@@ -60,10 +60,12 @@ def convert(args):
         mesh.cell_sets_to_data()
 
     if args.int_data_to_sets:
-        for key in mesh.point_data:
-            mesh.point_data_to_sets(key)
-        for key in mesh.cell_data:
-            mesh.cell_data_to_sets(key)
+        for key, data in list(mesh.point_data.items()):
+            if data.dtype.kind in ["i", "u"]:
+                mesh.point_data_to_sets(key)
+        for key, data in list(mesh.cell_data.items()):
+            if all(d.dtype.kind in ["i", "u"] for d in data):
+                mesh.cell_data_to_sets(key)
 
     # write it out
     kwargs = {"file_format": args.output_format}
-- 
2.43.0


From 349579f75dd286614d9db4615fbe64eaf4c3ad0f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 05/65] fix: meshio info: a cell index equal to the number of
 points is out of range

---
 src/meshio/_cli/_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_cli/_info.py b/src/meshio/_cli/_info.py
index dc269e7..546cbac 100644
--- a/src/meshio/_cli/_info.py
+++ b/src/meshio/_cli/_info.py
@@ -24,7 +24,7 @@ def info(args):
     # check if the cell arrays are consistent with the points
     is_consistent = True
     for cells in mesh.cells:
-        if np.any(cells.data > mesh.points.shape[0]):
+        if np.any(cells.data >= mesh.points.shape[0]):
             warn("Inconsistent mesh. Cells refer to nonexistent points.")
             is_consistent = False
             break
-- 
2.43.0


From 83681f0c484d625a0c0ee78b8fa79607f7185f9e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 06/65] fix: avsucd: read cell data of meshes with several cell
 blocks

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 5fdbfe6..6b76103 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -69,7 +69,7 @@ def read_buffer(f):
     # Read cell data
     if num_cell_data:
         cdata = _read_data(f, num_cells, cell_ids)
-        sections = np.cumsum([len(c[1]) for c in cells[:-1]])
+        sections = np.cumsum([len(c) for c in cells[:-1]])
         for k, v in cdata.items():
             cell_data[k] = np.split(v, sections)
 
-- 
2.43.0


From 239c91f6b4f3881db8f4b42bd370fdb74c9d1c3c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 07/65] fix: avsucd: do not modify the points of the mesh which
 is written

---
 src/meshio/avsucd/_avsucd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 6b76103..5487e64 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -150,7 +150,9 @@ def write(filename, mesh):
             "AVS-UCD requires 3D points, but 2D points given. "
             "Appending 0 third component."
         )
-        mesh.points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+        points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+    else:
+        points = mesh.points
 
     with open_file(filename, "w") as f:
         # Write meshio version
@@ -187,7 +189,7 @@ def write(filename, mesh):
         f.write(f"{num_nodes} {num_cells} {num_node_data_sum} {num_cell_data_sum} 0\n")
 
         # Write nodes
-        _write_nodes(f, mesh.points)
+        _write_nodes(f, points)
 
         # Write cells
         _write_cells(f, mesh.cells, material)
-- 
2.43.0


From b428edec8c5e1b353251fe3d4c4e9963661b8689 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 08/65] fix: su2: write boundary markers (cell blocks are not
 tuples)

---
 src/meshio/su2/_su2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b925171..cfd86d1 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -338,7 +338,8 @@ def write(filename, mesh):
             f.write(f"MARKER_TAG= {tag}\n".encode())
             f.write(f"MARKER_ELEMS= {count}\n".encode())
 
-            for index, (cell_type, data) in enumerate(mesh.cells):
+            for index, cell_block in enumerate(mesh.cells):
+                cell_type, data = cell_block.type, cell_block.data
 
                 if cell_type not in types:
                     continue
-- 
2.43.0


From e3f94d29ceb51cd9c749e2f61bbacbd8e75c4496 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 09/65] fix: ugrid: write the boundary tags of the block they
 belong to

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 6fa57c0..8a6c560 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -253,7 +253,7 @@ def _write_buffer(f, file_type, mesh):
                 f'Picking {labels_key}, skipping {", ".join(other)}.'
             )
         labels = (
-            mesh.cell_data[labels_key]
+            mesh.cell_data[labels_key][ugrid_meshio_id[key]]
             if labels_key
             else np.ones(ugrid_counts[key], dtype=int)
         )
-- 
2.43.0


From f6ccd1f91a2b7b0ad1617a6c913ca2013a515d83 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 10/65] fix: meshes with wedge15, pyramid13, hexahedron24,
 hexahedron1331 cells can be created

---
 src/meshio/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 283447c..74022b6 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -21,7 +21,10 @@ topological_dimension = {
     "quad9": 2,
     "tetra10": 3,
     "hexahedron27": 3,
+    "hexahedron24": 3,
+    "wedge15": 3,
     "wedge18": 3,
+    "pyramid13": 3,
     "pyramid14": 3,
     "vertex": 0,
     "quad8": 2,
@@ -67,6 +70,7 @@ topological_dimension = {
     "hexahedron512": 3,
     "hexahedron729": 3,
     "hexahedron1000": 3,
+    "hexahedron1331": 3,
     "wedge126": 3,
     "wedge196": 3,
     "wedge288": 3,
-- 
2.43.0


From e040d3f57e5f9847ee8240f6226e49cca3d9bd6a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:56:16 +0000
Subject: [PATCH 11/65] fix: nastran: negative coordinates with many digits
 must fit into their field

---
 src/meshio/nastran/_nastran.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0e1313c..7fcaa35 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -410,10 +410,14 @@ def _float_to_nastran_string(value, length=16):
         -0.1234 --> "-1.234E-1"
         3.1415926535897932 --> "3.14159265359E+0"
     """
-    out = np.format_float_scientific(value, exp_digits=1, precision=11).replace(
-        "e", "E"
-    )
-    assert len(out) <= 16
+    # drop digits until the number, its sign and its exponent fit into the field
+    for precision in range(11, 0, -1):
+        out = np.format_float_scientific(
+            value, exp_digits=1, precision=precision
+        ).replace("e", "E")
+        if len(out) <= length:
+            break
+    assert len(out) <= length
     return out
     # The following is the manual float conversion. Keep it around for a while in case
     # we still need it.
-- 
2.43.0


From d6f551e58a54daa9156cb350698a67d814e96472 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:59:03 +0000
Subject: [PATCH 12/65] fix: vtk, vtu: do not change the mesh which is written

---
 src/meshio/_mesh.py       |  1 +
 src/meshio/_vtk_common.py | 14 ++++++++++++++
 src/meshio/vtk/_vtk_51.py |  2 ++
 src/meshio/vtu/_vtu.py    |  9 ++++++++-
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 74022b6..389da89 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -97,6 +97,7 @@ class CellBlock:
         self.data = data
 
         if cell_type.startswith("polyhedron"):
+            self.data = [[np.asarray(face) for face in cell] for cell in data]
             self.dim = 3
         else:
             self.data = np.asarray(self.data)
diff --git a/src/meshio/_vtk_common.py b/src/meshio/_vtk_common.py
index 9799187..8c03af6 100644
--- a/src/meshio/_vtk_common.py
+++ b/src/meshio/_vtk_common.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from ._common import num_nodes_per_cell, warn
@@ -86,6 +88,18 @@ def meshio_to_vtk_order(meshio_type, dtype=int):
     return None
 
 
+def shallow_copy(mesh):
+    """Copy of a mesh with its own containers. The arrays are shared. The writers can
+    replace entries without changing the mesh of the caller.
+    """
+    mesh = copy.copy(mesh)
+    mesh.cells = list(mesh.cells)
+    mesh.point_data = dict(mesh.point_data)
+    mesh.cell_data = {name: list(data) for name, data in mesh.cell_data.items()}
+    mesh.field_data = dict(mesh.field_data)
+    return mesh
+
+
 def vtk_cells_from_data(connectivity, offsets, types, cell_data_raw):
     # Translate it into the cells array.
     # `connectivity` is a one-dimensional vector with
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2eb1db6..bfa4c5c 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -11,6 +11,7 @@ from .._vtk_common import (
     Info,
     meshio_to_vtk_order,
     meshio_to_vtk_type,
+    shallow_copy,
     vtk_cells_from_data,
 )
 
@@ -511,6 +512,7 @@ def write(filename, mesh, binary=True):
     if not binary:
         warn("VTK ASCII files are only meant for debugging.")
 
+    mesh = shallow_copy(mesh)
     if mesh.point_sets:
         info(
             "VTK format cannot write point_sets. Converting them to point_data...",
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index be80904..c5c4fcf 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -16,7 +16,12 @@ from .._common import info, join_strings, raw_from_cell_data, replace_space, war
 from .._exceptions import CorruptionError, ReadError
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
-from .._vtk_common import meshio_to_vtk_order, meshio_to_vtk_type, vtk_cells_from_data
+from .._vtk_common import (
+    meshio_to_vtk_order,
+    meshio_to_vtk_type,
+    shallow_copy,
+    vtk_cells_from_data,
+)
 
 # Paraview 5.8.1's built-in Python doesn't have lzma.
 try:
@@ -597,6 +602,8 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     # very memory hungry. See <https://stackoverflow.com/q/59272477/353337>.
     from .._cxml import etree as ET
 
+    mesh = shallow_copy(mesh)
+
     # Check if the mesh contains polyhedral cells, this will require special treatment
     # in certain places.
     is_polyhedron_grid = False
-- 
2.43.0


From 898ebc6c8e5aaeb51ac6c87ab42b5f1640f15e41 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:59:04 +0000
Subject: [PATCH 13/65] fix: vtk, vtu: store point sets under the joined set
 names

---
 src/meshio/_mesh.py       | 7 +++++--
 src/meshio/vtk/_vtk_51.py | 2 +-
 src/meshio/vtu/_vtu.py    | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 389da89..f3af592 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -347,7 +347,9 @@ class Mesh:
             self.cell_data[data_name] = intfun
             self.cell_sets = {}
 
-    def point_sets_to_data(self, join_char: str = "-") -> None:
+    def point_sets_to_data(
+        self, join_char: str = "-", data_name: str | None = None
+    ) -> None:
         # now for the point sets
         # Go for -1 as the default value. (NaN is not int.)
         default_value = -1
@@ -362,7 +364,8 @@ class Mesh:
                     f"Using default value {default_value}."
                 )
 
-            data_name = join_char.join(self.point_sets.keys())
+            if data_name is None:
+                data_name = join_char.join(self.point_sets.keys())
             self.point_data[data_name] = intfun
             self.point_sets = {}
 
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index bfa4c5c..75557ad 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -520,7 +520,7 @@ def write(filename, mesh, binary=True):
         )
         key, _ = join_strings(list(mesh.point_sets.keys()))
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_sets_to_data(data_name=key)
 
     if mesh.cell_sets:
         info(
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index c5c4fcf..690cbbf 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -640,7 +640,7 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
         )
         key, _ = join_strings(list(mesh.point_sets.keys()))
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_sets_to_data(data_name=key)
 
     if mesh.cell_sets:
         info(
-- 
2.43.0


From 98db87a41370f6f2160a57f79442e84c398659fe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:59:04 +0000
Subject: [PATCH 14/65] fix: vtk, vtu: cell offsets with empty blocks and with
 narrow index types

---
 src/meshio/vtk/_vtk_51.py |  2 +-
 src/meshio/vtu/_vtu.py    | 13 +++++--------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 75557ad..2435bca 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -583,7 +583,7 @@ def _write_cells(f, cells, binary):
     for cell_block in cells:
         m, n = cell_block.data.shape
         offsets.append(np.arange(k + n, k + (m + 1) * n, n))
-        k = offsets[-1][-1]
+        k += m * n
     offsets = np.concatenate(offsets)
 
     if binary:
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 690cbbf..04544ee 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -857,14 +857,11 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
             connectivity = np.concatenate(connectivity)
 
             # offset (points to the first element of the next cell)
-            offsets = [
-                v.data.shape[1]
-                * np.arange(1, v.data.shape[0] + 1, dtype=connectivity.dtype)
-                for v in mesh.cells
-            ]
-            for k in range(1, len(offsets)):
-                offsets[k] += offsets[k - 1][-1]
-            offsets = np.concatenate(offsets)
+            offsets = np.cumsum(
+                np.concatenate(
+                    [np.full(v.data.shape[0], v.data.shape[1]) for v in mesh.cells]
+                )
+            )
 
         # types
         types_array = []
-- 
2.43.0


From 64349524e33f40803335461df9e101cb3535a7c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 15/65] fix: ply: do not change the cells of the mesh which is
 written

---
 src/meshio/ply/_ply.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4393cbc..4c67516 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -443,8 +443,10 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             pd.append(value)
 
         num_cells = 0
+        # don't alter the mesh data
+        cells = list(mesh.cells)
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
-        for cell_block in mesh.cells:
+        for cell_block in cells:
             if cell_block.type in legal_cell_types:
                 num_cells += cell_block.data.shape[0]
 
@@ -452,12 +454,11 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"element face {num_cells:d}\n".encode())
 
             # possibly cast down to int32
-            # TODO don't alter the mesh data
             has_cast = False
-            for k, cell_block in enumerate(mesh.cells):
+            for k, cell_block in enumerate(cells):
                 if cell_block.data.dtype == np.int64:
                     has_cast = True
-                    mesh.cells[k] = CellBlock(
+                    cells[k] = CellBlock(
                         cell_block.type, cell_block.data.astype(np.int32)
                     )
 
@@ -466,7 +467,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
             # assert that all cell dtypes are equal
             cell_dtype = None
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_dtype is None:
                     cell_dtype = cell_block.data.dtype
                 if cell_block.data.dtype != cell_dtype:
@@ -485,7 +486,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.tobytes())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
@@ -508,7 +509,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.encode())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
-- 
2.43.0


From e19432b2fd07bb9056a31dae6897926842dee7da Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 16/65] fix: flac3d: do not change the cell sets of the mesh,
 shift them by the sizes of their own blocks

---
 src/meshio/flac3d/_flac3d.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 45ea0d9..762d230 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -370,12 +370,10 @@ def split_f_z(mesh):
         zsets[key] = []
         fsets[key] = []
         for cell_block, sblock in zip(mesh.cells, cset):
-            zsets[key].append(
-                sblock if cell_block.type in meshio_only["zone"] else None
-            )
-            fsets[key].append(
-                sblock if cell_block.type in meshio_only["face"] else None
-            )
+            if cell_block.type in meshio_only["zone"]:
+                zsets[key].append(sblock)
+            elif cell_block.type in meshio_only["face"]:
+                fsets[key].append(sblock)
 
     # remove the data that is only None
     zsets = {
@@ -394,22 +392,22 @@ def split_f_z(mesh):
     cell_block_sizes = [len(cb) for cb in zcells]
     for key, data in zsets.items():
         gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
+        for k, (n, block) in enumerate(zip(cell_block_sizes, data)):
+            data[k] = [] if block is None else np.asarray(block) + gid
             gid += n
 
     # TODO not sure if fcells and zcells share a common global index
     cell_block_sizes = [len(cb) for cb in fcells]
     for key, data in fsets.items():
         gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
+        for k, (n, block) in enumerate(zip(cell_block_sizes, data)):
+            data[k] = [] if block is None else np.asarray(block) + gid
             gid += n
 
     for label, values in zsets.items():
-        zsets[label] = np.concatenate(values)
+        zsets[label] = np.concatenate(values).astype(int)
     for label, values in fsets.items():
-        fsets[label] = np.concatenate(values)
+        fsets[label] = np.concatenate(values).astype(int)
 
     # flac3d indices start at 1
     for label, values in zsets.items():
-- 
2.43.0


From 9e6eca2f68781967726bf355dc72713cedbb51ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 17/65] fix: xdmf: read mixed topologies with vertices and with
 higher-order cells

---
 src/meshio/xdmf/common.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index fb7fcf3..4329fe6 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from .._common import num_nodes_per_cell
 from .._exceptions import ReadError
 from .._mesh import CellBlock
 
@@ -59,7 +60,7 @@ meshio_to_xdmf_type = {
     "hexahedron343": ["Hexahedron_343", "Hex_343"],
     "hexahedron512": ["Hexahedron_512", "Hex_512"],
     "hexahedron729": ["Hexahedron_729", "Hex_729"],
-    "hexahedron1000": ["Hexahedron_1000", "Hex_100"],
+    "hexahedron1000": ["Hexahedron_1000", "Hex_1000"],
     "hexahedron1331": ["Hexahedron_1331", "Hex_1331"],
 }
 xdmf_to_meshio_type = {v: k for k, vals in meshio_to_xdmf_type.items() for v in vals}
@@ -116,15 +117,8 @@ def translate_mixed_cells(data):
     # https://xdmf.org/index.php/XDMF_Model_and_Format#Arbitrary
     # https://gitlab.kitware.com/xdmf/xdmf/blob/master/XdmfTopologyType.hpp#L394
     xdmf_idx_to_num_nodes = {
-        1: 1,  # vertex
-        2: 2,  # line
-        4: 3,  # triangle
-        5: 4,  # quad
-        6: 4,  # tet
-        7: 5,  # pyramid
-        8: 6,  # wedge
-        9: 8,  # hex
-        11: 6,  # triangle6
+        idx: num_nodes_per_cell[cell_type]
+        for idx, cell_type in xdmf_idx_to_meshio_type.items()
     }
 
     # collect types and offsets
@@ -135,7 +129,11 @@ def translate_mixed_cells(data):
         xdmf_type = data[r]
         types.append(xdmf_type)
         offsets.append(r)
-        if xdmf_type == 2:  # line
+        if xdmf_type == 1:  # polyvertex
+            if data[r + 1] != 1:
+                raise ReadError("XDMF reader: Only supports 1-point vertices for now")
+            r += 1
+        elif xdmf_type == 2:  # line
             if data[r + 1] != 2:  # polyline
                 raise ReadError("XDMF reader: Only supports 2-point lines for now")
             r += 1
@@ -150,7 +148,7 @@ def translate_mixed_cells(data):
     for start, end in zip(b[:-1], b[1:]):
         meshio_type = xdmf_idx_to_meshio_type[types[start]]
         n = xdmf_idx_to_num_nodes[types[start]]
-        point_offsets = offsets[start:end] + (2 if types[start] == 2 else 1)
+        point_offsets = offsets[start:end] + (2 if types[start] in [1, 2] else 1)
         indices = np.array([np.arange(n) + o for o in point_offsets])
         cells.append(CellBlock(meshio_type, data[indices]))
 
-- 
2.43.0


From 1843fac58a76fd672957facd419adac48d29caa5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 18/65] fix: xdmf: write 8-bit and 16-bit integers as XML

---
 src/meshio/xdmf/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index 4329fe6..2a15777 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -19,6 +19,10 @@ numpy_to_xdmf_dtype = {
 xdmf_to_numpy_type = {v: k for k, v in numpy_to_xdmf_dtype.items()}
 
 dtype_to_format_string = {
+    "int8": "%d",
+    "int16": "%d",
+    "uint8": "%d",
+    "uint16": "%d",
     "int32": "%d",
     "int64": "%d",
     "uint32": "%d",
-- 
2.43.0


From 7cb300293920ed118a8322f7da446de073ff6b9f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 19/65] fix: xdmf: time series with lines or vertices among
 other cells

---
 src/meshio/xdmf/time_series.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a3f8503..f123e6b 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -405,19 +405,26 @@ class TimeSeriesWriter:
                 NumberOfElements=str(total_num_cells),
             )
             total_num_cell_items = sum(np.prod(c.data.shape) for c in cell_blocks)
-            dim = total_num_cell_items + total_num_cells
-            # Lines translate to Polylines, and one needs to specify the exact
-            # number of nodes. Hence, prepend 2.
-            for c in cell_blocks:
-                if c.type == "line":
-                    c.data[:] = np.insert(c.data, 0, 2, axis=1)
-                    dim += len(c.data)
-            dim = str(dim)
+            # Vertices and lines translate to Polyvertices and Polylines, and one needs
+            # to specify the exact number of nodes (which equals the type index).
+            num_vertices_and_lines = sum(
+                len(c.data) for c in cell_blocks if c.type in {"vertex", "line"}
+            )
+            dim = str(total_num_cell_items + total_num_cells + num_vertices_and_lines)
             cd = np.concatenate(
                 [
-                    # prepend column with xdmf type index
-                    np.insert(
-                        c.data, 0, meshio_type_to_xdmf_index[c.type], axis=1
+                    # prepend column(s) with xdmf type index
+                    np.hstack(
+                        [
+                            np.full(
+                                (
+                                    c.data.shape[0],
+                                    2 if c.type in {"vertex", "line"} else 1,
+                                ),
+                                meshio_type_to_xdmf_index[c.type],
+                            ),
+                            c.data,
+                        ]
                     ).flatten()
                     for c in cell_blocks
                 ]
-- 
2.43.0


From 6aaea24ddf76c2d1a660e94768d46fdc7ed6e02c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 20/65] fix: vtk, vtu: read files without cells

---
 src/meshio/_vtk_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/_vtk_common.py b/src/meshio/_vtk_common.py
index 8c03af6..426cb08 100644
--- a/src/meshio/_vtk_common.py
+++ b/src/meshio/_vtk_common.py
@@ -108,6 +108,9 @@ def vtk_cells_from_data(connectivity, offsets, types, cell_data_raw):
     if len(offsets) != len(types):
         raise ReadError(f"len(offsets) != len(types) ({len(offsets)} != {len(types)})")
 
+    if len(types) == 0:
+        return [], {name: [] for name in cell_data_raw}
+
     # identify cell blocks
     breaks = np.where(types[:-1] != types[1:])[0] + 1
     # all cells with indices between start[k] and end[k] have the same type
-- 
2.43.0


From 709b5c341fc339b20c9f66b3ec77542c4651fc8f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 21/65] fix: vtk: read structured grids from VTK 5.1 files

---
 src/meshio/vtk/_vtk_51.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2435bca..79c722f 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -250,7 +250,7 @@ def _check_mesh(info):
             for i in range(3)
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        _generate_structured_cells(info)
     elif info.dataset["type"] == "RECTILINEAR_GRID":
         axis = [
             info.dataset["X_COORDINATES"],
@@ -258,9 +258,18 @@ def _check_mesh(info):
             info.dataset["Z_COORDINATES"],
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        _generate_structured_cells(info)
     elif info.dataset["type"] == "STRUCTURED_GRID":
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        _generate_structured_cells(info)
+
+
+def _generate_structured_cells(info):
+    cells, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+    # _generate_cells() prepends the number of nodes to each cell
+    connectivity = cells.reshape(len(info.types), -1)[:, 1:]
+    m, n = connectivity.shape
+    info.connectivity = connectivity.reshape(-1)
+    info.offsets = np.arange(n, (m + 1) * n, n)
 
 
 def _generate_cells(dim):
-- 
2.43.0


From 84bde9bf59321c04668afebeb49ca7434e0396b2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 22/65] fix: neuroglancer: refuse a node index equal to the
 number of vertices

---
 src/meshio/neuroglancer/_neuroglancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index ad48cc2..fd0e3e5 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -71,7 +71,7 @@ def read_buffer(file):
         raise ReadError("The size of the precomputed mesh data is not adequate")
     flat_triangles = np.frombuffer(buf, "<I")
     triangles = np.reshape(flat_triangles, (-1, 3)).copy(order="C")  # TODO remove copy
-    if np.any(triangles > num_vertices):
+    if np.any(triangles >= num_vertices):
         raise ReadError("The mesh references nonexistent vertices")
 
     return Mesh(vertices, [CellBlock("triangle", triangles)])
-- 
2.43.0


From d0b1a8c0ded65b5a7dc16c88caed8dcd5587d30b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 23/65] fix: ansys: binary files with single precision points

---
 src/meshio/ansys/_ansys.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 364616a..9d2ae3d 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -408,14 +408,21 @@ def write(filename, mesh, binary=True):
         fh.write((f"(12 (0 1 {total_num_cells:x} 0))\n").encode())
 
         # Write nodes
-        key = "3010" if binary else "10"
+        points = mesh.points
+        if points.dtype.newbyteorder("=") == np.float32:
+            binary_key = "2010"
+            points = points.astype(np.float32)
+        else:
+            binary_key = "3010"
+            points = points.astype(np.float64)
+        key = binary_key if binary else "10"
         fh.write(
             f"({key} (1 {first_node_index:x} {num_points:x} 1 {dim:x})(\n".encode()
         )
         if binary:
-            mesh.points.tofile(fh)
+            points.tofile(fh)
             fh.write(b"\n)")
-            fh.write(b"End of Binary Section 3010)\n")
+            fh.write(f"End of Binary Section {key})\n".encode())
         else:
             np.savetxt(fh, mesh.points, fmt="%.16e")
             fh.write(b"))\n")
-- 
2.43.0


From 980d65c4416067d835147c3673b931d4c67c14a5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 24/65] fix: permas: undo the node order when reading

---
 src/meshio/permas/_permas.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index dda02a3..6ce0f9f 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -56,6 +56,13 @@ permas_to_meshio_type = {
 }
 meshio_to_permas_type = {v: k for k, v in permas_to_meshio_type.items()}
 
+meshio_to_permas_order = {
+    "triangle6": [0, 3, 1, 4, 2, 5],
+    "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
+    "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
+    "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
+}
+
 
 def read(filename):
     """Reads a PERMAS dat file."""
@@ -155,7 +162,11 @@ def _read_cells(f, line0, point_gids):
             cells.append(idx)
             idx = []
     f.seek(last_pos)
-    return cell_type, np.array(cells)
+    cells = np.array(cells)
+    if cell_type in meshio_to_permas_order:
+        # invert the permutation
+        cells = cells[:, np.argsort(meshio_to_permas_order[cell_type])]
+    return cell_type, cells
 
 
 def get_param_map(word, required_keys=None):
@@ -239,10 +250,10 @@ def write(filename, mesh):
         for k, x in enumerate(points):
             f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
         eid = 0
-        tria6_order = [0, 3, 1, 4, 2, 5]
-        tet10_order = [0, 4, 1, 5, 2, 6, 7, 8, 9, 3]
-        quad9_order = [0, 4, 1, 7, 8, 5, 3, 6, 2]
-        wedge15_order = [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]
+        tria6_order = meshio_to_permas_order["triangle6"]
+        tet10_order = meshio_to_permas_order["tetra10"]
+        quad9_order = meshio_to_permas_order["quad9"]
+        wedge15_order = meshio_to_permas_order["wedge15"]
         for cell_block in mesh.cells:
             node_idcs = cell_block.data
             f.write("!\n")
-- 
2.43.0


From fb206bef8f5cb3c370d82ab5f099790e98b035c0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 25/65] fix: abaqus: read element sets which are given in
 several parts

---
 src/meshio/abaqus/_abaqus.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 0dd8877..edc7265 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -158,6 +158,7 @@ def read_buffer(f):
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["ELSET"]
+            previous = cell_sets.get(name)
             cell_sets[name] = []
             if set_ids.size:
                 for cell_ids_ in cell_ids:
@@ -170,6 +171,12 @@ def read_buffer(f):
                         dtype="int32",
                     )
                     cell_sets[name].append(cell_sets_)
+                if previous is not None:
+                    # the set is given in several parts
+                    for k, members in enumerate(previous):
+                        cell_sets[name][k] = np.concatenate(
+                            [members, cell_sets[name][k]]
+                        )
             elif set_names:
                 for set_name in set_names:
                     if set_name in cell_sets.keys():
-- 
2.43.0


From 0fdcebb207c9fd95d987eeacc1ae60154f5118ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 26/65] fix: dolfin: write the cell data of all blocks

---
 src/meshio/dolfin/_dolfin.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index e43dbd5..4fd3b5d 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -229,11 +229,14 @@ def write(filename, mesh):
     _write_mesh(filename, mesh.points, cell_type, mesh.cells)
 
     for name, lst in mesh.cell_data.items():
-        for data in lst:
-            fname = os.path.splitext(filename)[0]
-            cell_data_filename = f"{fname}_{name}.xml"
-            dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-            _write_cell_data(cell_data_filename, dim, np.array(data))
+        # only the data of the cells that have been written, in the same order
+        data = np.concatenate(
+            [np.asarray(d) for c, d in zip(mesh.cells, lst) if c.type == cell_type]
+        )
+        fname = os.path.splitext(filename)[0]
+        cell_data_filename = f"{fname}_{name}.xml"
+        dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
+        _write_cell_data(cell_data_filename, dim, data)
 
 
 register_format("dolfin-xml", [".xml"], read, {"dolfin-xml": write})
-- 
2.43.0


From 48ded0419070a1a6a91cf1e34275da0747d434d4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 27/65] fix: xdmf: binary files of data which is not in native
 byte order

---
 src/meshio/xdmf/main.py        | 3 ++-
 src/meshio/xdmf/time_series.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 4d8c39d..9417334 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -384,7 +384,8 @@ class XdmfWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # native byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index f123e6b..f8cbe1d 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -328,7 +328,8 @@ class TimeSeriesWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # native byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
-- 
2.43.0


From 2994364437e97cae09549c4659e0be76d37418f4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:02:34 +0000
Subject: [PATCH 28/65] fix: gmsh: read empty element blocks

---
 src/meshio/gmsh/_gmsh40.py | 2 +-
 src/meshio/gmsh/_gmsh41.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3d4270e..f3da207 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -167,7 +167,7 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
         tpe = _gmsh_to_meshio_type[type_ele]
         num_nodes_per_ele = num_nodes_per_cell[tpe]
         d = fromfile(f, c_int, int(num_ele * (1 + num_nodes_per_ele))).reshape(
-            (num_ele, -1)
+            (num_ele, 1 + num_nodes_per_ele)
         )
         if physical_tags is None:
             data.append((None, tag_entity, tpe, d))
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 3e305a1..bc1d66c 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -224,7 +224,7 @@ def _read_elements(
         tpe = _gmsh_to_meshio_type[type_ele]
         num_nodes_per_ele = num_nodes_per_cell[tpe]
         d = fromfile(f, c_size_t, int(num_ele * (1 + num_nodes_per_ele))).reshape(
-            (num_ele, -1)
+            (num_ele, 1 + num_nodes_per_ele)
         )
 
         # Find physical tag, if defined; else it is None.
-- 
2.43.0


From 087448448d1e8129da64735dba345ab530d1def0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:20:23 +0000
Subject: [PATCH 29/65] fix: gmsh: split the cell data of MSH 2 files by the
 number of cells

---
 src/meshio/gmsh/_gmsh22.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 56fbdb6..5cab47d 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -72,7 +72,7 @@ def read_buffer(f, is_ascii, data_size):
     if has_additional_tag_data:
         warn("The file contains tag data that couldn't be processed.")
 
-    cell_data = cell_data_from_raw(cells, cell_data_raw)
+    cell_data = cell_data_from_raw([data for _, data in cells], cell_data_raw)
 
     # merge cell_tags into cell_data
     for tag_name, tag_dict in cell_tags.items():
-- 
2.43.0


From 824016395be10f3bfea6b8ae078cf7063e430d48 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:20:23 +0000
Subject: [PATCH 30/65] fix: xdmf: write enough digits of single precision data
 as XML

---
 src/meshio/xdmf/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index 2a15777..bb37010 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -27,7 +27,7 @@ dtype_to_format_string = {
     "int64": "%d",
     "uint32": "%d",
     "uint64": "%d",
-    "float32": "%.7e",
+    "float32": "%.8e",
     "float64": "%.16e",
 }
 
-- 
2.43.0


From b62c0fd58dcd2882f761ab3a55c2587797677eba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:20:23 +0000
Subject: [PATCH 31/65] fix: nastran: write cells in free format

---
 src/meshio/nastran/_nastran.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 7fcaa35..8c5df32 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -309,6 +309,7 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
     if cell_format == "free":
         int_fmt, cell_info_fmt = "{:d}", "{:s},{:d},{:s},"
         sjoin = ","
+        nipl1, nipl2 = 6, 14
     elif cell_format == "fixed-small":
         int_fmt, cell_info_fmt = "{:<8d}", "{:<8s}{:<8d}{:<8s}"
         sjoin, cchar = "", "+"
-- 
2.43.0


From 5ad294243bd4ad8f3ef62565de6e5b8db3e98617 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:22:10 +0000
Subject: [PATCH 32/65] fix: flac3d: cell sets contain indices into the
 individual cell blocks

---
 src/meshio/flac3d/_flac3d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 762d230..fcdfd86 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -238,7 +238,11 @@ def read_buffer(f, binary):
     bins = np.cumsum([len(cb[1]) for cb in cell_blocks])
     for key, data in cell_sets.items():
         d = np.digitize(data, bins)
-        cell_sets[key] = [data[d == k] for k in range(len(cell_blocks))]
+        # cell sets hold indices into the individual blocks
+        cell_sets[key] = [
+            data[d == k] - (bins[k] - len(cell_blocks[k][1]))
+            for k in range(len(cell_blocks))
+        ]
 
     # assert len(cell_ids) == sum(len(block) for _, block in cell_blocks)
 
-- 
2.43.0


From 3e0bf15292b6a1316aa6a27dd45a84b040aed17b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:25:46 +0000
Subject: [PATCH 33/65] fix: vtu: keep the cells of all pieces, not only of the
 last one

---
 src/meshio/vtu/_vtu.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 04544ee..7de5b70 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -149,16 +149,18 @@ def _organize_cells(point_offsets, cells, cell_data_raw):
             out_cells.append(CellBlock(tp, c))
 
     else:
+        cell_data = {}
         for offset, cls, cdr in zip(point_offsets, cells, cell_data_raw):
-            cls, cell_data = vtk_cells_from_data(
+            cls, piece_cell_data = vtk_cells_from_data(
                 cls["connectivity"].ravel(),
                 cls["offsets"].ravel(),
                 cls["types"].ravel(),
                 cdr,
             )
-
-        for c in cls:
-            out_cells.append(CellBlock(c.type, c.data + offset))
+            for c in cls:
+                out_cells.append(CellBlock(c.type, c.data + offset))
+            for name, d in piece_cell_data.items():
+                cell_data.setdefault(name, []).extend(d)
 
     return out_cells, cell_data
 
-- 
2.43.0


From 7277f260ef3ba46d38a52e5d6ebac00c82fa874b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:25:46 +0000
Subject: [PATCH 34/65] fix: vtu: cell data of polyhedra in the order of the
 cell blocks

---
 src/meshio/vtu/_vtu.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 7de5b70..6423bb8 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -43,6 +43,8 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
     # per face of the cell) of np-arrays of node indices.
 
     cells = {}
+    # the cells (by their position in the file) in each block
+    block_items = {}
     cell_data = {}
 
     # The data format for face-cells is:
@@ -60,7 +62,7 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
 
     # Double loop over cells then faces.
     # This will be slow, but seems necessary to cover all cases
-    for cell_start in faceoffsets:
+    for cell_index, cell_start in enumerate(faceoffsets):
         num_faces_this_cell = faces[cell_start]
         faces_this_cell = []
         next_face = cell_start + 1
@@ -83,22 +85,16 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
         key = f"polyhedron{num_nodes_this_cell}"
         if key not in cells.keys():
             cells[key] = []
+            block_items[key] = []
         cells[key].append(faces_this_cell)
+        block_items[key].append(cell_index)
 
     # The cells will be assigned to blocks according to their number of nodes.
     # This is potentially a reordering, compared to the ordering in faces.
     # Cell data must be reorganized accordingly.
 
-    # Start of the cell-node relations
-    start_cn = np.hstack((0, offsets))
-    size = np.diff(start_cn)
-
-    # Loop over all cell sizes, find all cells with this size, and store
-    # cell data.
-    for sz in np.unique(size):
-        # Cells with this number of nodes.
-        items = np.where(size == sz)[0]
-
+    # Loop over all blocks and store the cell data of their cells.
+    for items in block_items.values():
         # Store cell data for this set of cells
         for name, d in cell_data_raw.items():
             if name not in cell_data:
-- 
2.43.0


From 8ef98f7a61640e5612525c7bc65607de7cce947f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:25:46 +0000
Subject: [PATCH 35/65] fix: vtk42: keep the cell data of meshes with polygons

---
 src/meshio/vtk/_vtk_42.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index f3cb469..e0ad02d 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -529,7 +529,7 @@ def translate_cells(connectivity, types, cell_data_raw):
         if not np.all(numnodes == connectivity[offsets]):
             raise ReadError()
 
-        # TODO: cell_data
+        block_starts = []
         for idx, vtk_cell_type in enumerate(types):
             start = offsets[idx] + 1
 
@@ -554,6 +554,11 @@ def translate_cells(connectivity, types, cell_data_raw):
             else:
                 # open up a new cell block
                 cells.append((cell_type, [cell]))
+                block_starts.append(idx)
+
+        for start, end in zip(block_starts, block_starts[1:] + [numcells]):
+            for name, d in cell_data_raw.items():
+                cell_data.setdefault(name, []).append(d[start:end])
     else:
         # Infer offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
-- 
2.43.0


From 5a75aec0ed0939ef6699f15f1520c1d9bd974466 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:56:21 +0000
Subject: [PATCH 36/65] fix: vtk51: int data has 32 bits

---
 src/meshio/vtk/_vtk_51.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 79c722f..a55806c 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -19,7 +19,7 @@ from .._vtk_common import (
 vtk_to_numpy_dtype_name = {
     "float": "float32",
     "double": "float64",
-    "int": "int",
+    "int": "int32",
     "vtktypeint8": "int8",
     "vtktypeint16": "int16",
     "vtktypeint32": "int32",
-- 
2.43.0


From b90bfbd8d74f8a78c8b51961550ee450cd719b3d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:56:34 +0000
Subject: [PATCH 37/65] fix: vtk: rectilinear grids with coordinates of
 different types

---
 src/meshio/vtk/_vtk_42.py | 2 +-
 src/meshio/vtk/_vtk_51.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index e0ad02d..2460cea 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -341,7 +341,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = np.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = np.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = np.empty((pnt_no, 3), dtype=np.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index a55806c..d9209a4 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -323,7 +323,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = np.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = np.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = np.empty((pnt_no, 3), dtype=np.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
-- 
2.43.0


From dbe96b150b57fa314d8858f87f5384b3d7404097 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:58:09 +0000
Subject: [PATCH 38/65] fix: gmsh41: keep the order of the points, node data
 refers to it

---
 src/meshio/gmsh/_gmsh41.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index bc1d66c..9186ebf 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -188,7 +188,10 @@ def _read_nodes(f, is_ascii: bool, data_size):
 
     _fast_forward_to_end_block(f, "Nodes")
 
-    return points, tags, dim_tags
+    # The nodes are grouped by entity; restore the order of the tags which the node
+    # data and the periodic nodes refer to.
+    order = np.argsort(tags, kind="stable")
+    return points[order], tags[order], dim_tags[order]
 
 
 def _read_elements(
-- 
2.43.0


From 9d57133838c647577f3a619055629d3bd21c9baa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:58:12 +0000
Subject: [PATCH 39/65] fix: gmsh40: periodic relations can be read again

---
 src/meshio/gmsh/_gmsh40.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index f3da207..b22f9ef 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -388,12 +388,15 @@ def _write_periodic(fh, periodic, float_fmt, binary):
     for dim, (stag, mtag), affine, slave_master in periodic:
         tofile(fh, [dim, stag, mtag], c_int)
         if affine is not None and len(affine) > 0:
-            tofile(fh, -1, c_long)
+            if binary:
+                tofile(fh, -1, c_long)
+            else:
+                fh.write(b"Affine ")
             tofile(fh, affine, c_double, fmt=float_fmt)
         slave_master = np.array(slave_master, dtype=c_int)
         slave_master = slave_master.reshape(-1, 2)
         slave_master = slave_master + 1  # Add one, Gmsh is 1-based
-        tofile(fh, len(slave_master), c_int)
+        tofile(fh, len(slave_master), c_ulong)
         tofile(fh, slave_master, c_int)
     if binary:
         fh.write(b"\n")
-- 
2.43.0


From 02c06b0b1a48993e0a99e7608060a4db879b6e1e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:58:15 +0000
Subject: [PATCH 40/65] fix: gmsh40: do not lose the geometrical tags of the
 cells

---
 src/meshio/gmsh/_gmsh40.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index b22f9ef..6d2869c 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -74,7 +74,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
             _fast_forward_to_end_block(f, environ)
 
     cell_data = cell_data_from_raw(cells, cell_data_raw)
-    cell_data.update(cell_tags)
+    # explicitly stored tags (ElementData) are more specific than the entity tags
+    for key, value in cell_tags.items():
+        cell_data.setdefault(key, value)
 
     return Mesh(
         points,
-- 
2.43.0


From 84ededa139dc00f6eda0977e9b9d80938f43dbad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:22:24 +0000
Subject: [PATCH 41/65] fix: tetgen: write all tetra blocks as one element
 list, with their own data

---
 src/meshio/tetgen/_tetgen.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index c869496..d58641d 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -156,13 +156,15 @@ def write(filename, mesh, float_fmt=".16e"):
         fh.write(f"# This file was created by meshio v{__version__}\n")
         if nattr > 0:
             fh.write("# attribute names: {}\n".format(", ".join(attr_keys)))
-        for id, c in enumerate(filter(lambda c: c.type == "tetra", mesh.cells)):
-            data = c.data
-            fh.write(f"{data.shape[0]} {4} {nattr}\n")
-            fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        tets = [(i, c.data) for i, c in enumerate(mesh.cells) if c.type == "tetra"]
+        fh.write(f"{sum(len(data) for _, data in tets)} {4} {nattr}\n")
+        fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        tet_id = 0
+        for i, data in tets:
             for k, tet in enumerate(data):
-                data = list(tet[:4]) + [mesh.cell_data[key][id][k] for key in attr_keys]
-                fh.write(fmt.format(k, *data))
+                row = list(tet[:4]) + [mesh.cell_data[key][i][k] for key in attr_keys]
+                fh.write(fmt.format(tet_id, *row))
+                tet_id += 1
 
 
 register_format("tetgen", [".ele", ".node"], read, {"tetgen": write})
-- 
2.43.0


From e53034338d1f7fb90dd786115b6ec4de2a8e4aca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:22:24 +0000
Subject: [PATCH 42/65] fix: tetgen: read element attributes that are not
 integers

---
 src/meshio/tetgen/_tetgen.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index d58641d..72a2581 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -73,15 +73,18 @@ def read(filename):
         if num_points_per_tet != 4:
             raise ReadError()
         cells = np.fromfile(
-            f, dtype=int, count=(5 + num_attrs) * num_tets, sep=" "
+            f, dtype=float, count=(5 + num_attrs) * num_tets, sep=" "
         ).reshape(num_tets, 5 + num_attrs)
         # read cell (region) attributes, the first is "ref", the others are "ref2",
         # "ref3", ...
         for k in range(num_attrs):
             flag = "" if k == 0 else str(k + 1)
-            cell_data["tetgen:ref" + flag] = [cells[:, 5 + k]]
+            attr = cells[:, 5 + k]
+            if np.all(attr == attr.astype(int)):
+                attr = attr.astype(int)
+            cell_data["tetgen:ref" + flag] = [attr]
         # remove the leading index column and the attributes
-        cells = cells[:, 1:5]
+        cells = cells[:, 1:5].astype(int)
         cells -= node_index_base
 
     return Mesh(
-- 
2.43.0


From 74a5bdd1c9ee95f76cf1e663848f075c183cbedd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:22:25 +0000
Subject: [PATCH 43/65] fix: flac3d: empty groups can be read

---
 src/meshio/flac3d/_flac3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index fcdfd86..dee1e09 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -156,7 +156,7 @@ def read_buffer(f, binary):
             (num_groups,) = struct.unpack("<I", f.read(4))
             for _ in range(num_groups):
                 name, slot, data = _read_cell_group_binary(f)
-                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data)
+                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data, dtype=int)
     else:
         while True:
             line = f.readline()
@@ -190,13 +190,13 @@ def read_buffer(f, binary):
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data)
+                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data, dtype=int)
 
             elif split[0] == "FGROUP":
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data)
+                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data, dtype=int)
 
     cells = f_cells + z_cells
 
-- 
2.43.0


From e2e935f6e60016b2a6226fb316e2f66ed65b55cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:24:36 +0000
Subject: [PATCH 44/65] fix: gmsh41: refuse a mesh without entity information
 before the file is opened

---
 src/meshio/gmsh/_gmsh41.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 9186ebf..388927b 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -300,6 +300,13 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
     """Writes msh files, cf.
     <http://gmsh.info/doc/texinfo/gmsh.html#MSH-file-format>.
     """
+    if len(mesh.cells) != 1 and "gmsh:dim_tags" not in mesh.point_data:
+        # refuse before the file is opened (and an existing one truncated)
+        raise WriteError(
+            "Specify entity information (gmsh:dim_tags in point_data) "
+            + "to deal with more than one cell type. "
+        )
+
     # Filter the point data: gmsh:dim_tags are tags, the rest is actual point data.
     point_data = {}
     for key, d in mesh.point_data.items():
-- 
2.43.0


From a509088c2a6ef4f1844fe81bea759734dca69aa6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:24:36 +0000
Subject: [PATCH 45/65] fix: cli: rewrite a file in the format it was read in

---
 src/meshio/_cli/_ascii.py      | 12 +++---------
 src/meshio/_cli/_binary.py     | 12 +++---------
 src/meshio/_cli/_compress.py   | 12 +++---------
 src/meshio/_cli/_decompress.py | 12 +++---------
 src/meshio/_helpers.py         |  7 ++++++-
 5 files changed, 18 insertions(+), 37 deletions(-)

diff --git a/src/meshio/_cli/_ascii.py b/src/meshio/_cli/_ascii.py
index 45aff5a..6e2792e 100644
--- a/src/meshio/_cli/_ascii.py
+++ b/src/meshio/_cli/_ascii.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -20,16 +20,10 @@ def add_args(parser):
 
 
 def ascii(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # an extension can belong to several formats (.msh); write what was read
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_binary.py b/src/meshio/_cli/_binary.py
index ccf0635..2e46f59 100644
--- a/src/meshio/_cli/_binary.py
+++ b/src/meshio/_cli/_binary.py
@@ -2,7 +2,7 @@ import os
 import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def binary(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # an extension can belong to several formats (.msh); write what was read
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_compress.py b/src/meshio/_cli/_compress.py
index 9103a0b..14ce083 100644
--- a/src/meshio/_cli/_compress.py
+++ b/src/meshio/_cli/_compress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, cgns, gmsh, h5m, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -26,16 +26,10 @@ def add_args(parser):
 
 
 def compress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # an extension can belong to several formats (.msh); write what was read
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_decompress.py b/src/meshio/_cli/_decompress.py
index 3c67dda..e8f3444 100644
--- a/src/meshio/_cli/_decompress.py
+++ b/src/meshio/_cli/_decompress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import cgns, h5m, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def decompress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # an extension can belong to several formats (.msh); write what was read
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 6cc7dac..7824a0d 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -86,6 +86,11 @@ def _read_buffer(filename, file_format: str | None):
 
 
 def _read_file(path: Path, file_format: str | None):
+    return _read_file_and_format(path, file_format)[0]
+
+
+def _read_file_and_format(path: Path, file_format: str | None):
+    """Returns the mesh and the name of the format it was read as."""
     if not path.exists():
         raise ReadError(f"File {path} not found.")
 
@@ -100,7 +105,7 @@ def _read_file(path: Path, file_format: str | None):
             raise ReadError(f"Unknown file format '{file_format}' of '{path}'.")
 
         try:
-            return reader_map[file_format](str(path))
+            return reader_map[file_format](str(path)), file_format
         except ReadError as e:
             print(e)
 
-- 
2.43.0


From 090e136ab617b4e4656f60bddf176aba8da45725 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:27:30 +0000
Subject: [PATCH 46/65] fix: vtk: return arrays in native byte order, VTK files
 could not be converted to medit, ansys or ply

---
 src/meshio/vtk/_main.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtk/_main.py b/src/meshio/vtk/_main.py
index 0dad2d2..c5acb7d 100644
--- a/src/meshio/vtk/_main.py
+++ b/src/meshio/vtk/_main.py
@@ -20,10 +20,24 @@ def read_buffer(f):
 
     version = line[23:]
     if version == "5.1":
-        return _vtk_51.read(f)
+        return _native(_vtk_51.read(f))
 
     # this also works for older format versions
-    return _vtk_42.read(f)
+    return _native(_vtk_42.read(f))
+
+
+def _native(mesh):
+    # Binary VTK files are big-endian. Return the arrays in native byte order, not every
+    # writer can deal with anything else.
+    def convert(a):
+        return a.astype(a.dtype.newbyteorder("="), copy=False)
+
+    mesh.points = convert(mesh.points)
+    for cell_block in mesh.cells:
+        cell_block.data = convert(cell_block.data)
+    mesh.point_data = {k: convert(v) for k, v in mesh.point_data.items()}
+    mesh.cell_data = {k: [convert(d) for d in v] for k, v in mesh.cell_data.items()}
+    return mesh
 
 
 def write(filename, mesh, fmt_version: str = "5.1", **kwargs):
-- 
2.43.0


From 33464a038ee538044441610290d0f2a27eeba46c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:27:30 +0000
Subject: [PATCH 47/65] fix: vtu: field data need not be arrays, they are not
 written

---
 src/meshio/vtu/_vtu.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 6423bb8..4dde993 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -702,8 +702,6 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     for data in mesh.cell_data.values():
         for k, dat in enumerate(data):
             data[k] = dat.astype(dat.dtype.newbyteorder("="), copy=False)
-    for key, data in mesh.field_data.items():
-        mesh.field_data[key] = data.astype(data.dtype.newbyteorder("="), copy=False)
 
     def numpy_to_xml_array(parent, name, data):
         vtu_type = numpy_to_vtu_type[data.dtype]
-- 
2.43.0


From 72794ebf55e9bcdb9431a84cbff576424d47306a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:27:30 +0000
Subject: [PATCH 48/65] fix: h5m: meshes with cell data could not be written

---
 src/meshio/h5m/_h5m.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 62a790a..980bd61 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -248,17 +248,8 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         conn.attrs.create("start_id", global_id)
         global_id += len(data)
 
-    # add cell data
-    for cell_type, cd in mesh.cell_data.items():
-        if cd:
-            tags = elem_group.create_group("tags")
-            for key, value in cd.items():
-                tags.create_dataset(
-                    key,
-                    data=value,
-                    compression=compression,
-                    compression_opts=compression_opts,
-                )
+    if mesh.cell_data:
+        warn("meshio cannot write cell data to H5M files. Skipping.")
 
     # add empty set -- MOAB wants this
     sets = tstt.create_group("sets")
-- 
2.43.0


From 5dfbd29c229de78f574026cb5414db5acfde846a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 49/65] fix: cgns and h5m writers crash with compression=None
 (meshio decompress destroys the file)

---
 src/meshio/cgns/_cgns.py | 4 ++++
 src/meshio/h5m/_h5m.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index fde2ae7..bfa1748 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -43,6 +43,10 @@ def read(filename):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        # h5py refuses compression options without compression
+        compression_opts = None
+
     f = h5py.File(filename, "w")
 
     base = f.create_group("Base")
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 980bd61..fb7389f 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -116,6 +116,10 @@ def read(filename):
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        # h5py refuses compression options without compression
+        compression_opts = None
+
     f = h5py.File(filename, "w")
 
     tstt = f.create_group("tstt")
-- 
2.43.0


From c056c3a84e57cef9a94d633cbd93a5a0f66c7241 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 50/65] fix: gmsh 4.1 writer crashes on entities without
 physical tags

---
 src/meshio/gmsh/_gmsh41.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 388927b..20adf48 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -477,7 +477,7 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
         # If there is a corresponding cell block, write physical tags (if any)
         # and bounding entities (if any)
-        if matching_cell_block.size > 0:
+        if matching_cell_block.size > 0 and "gmsh:physical" in tag_data:
             # entity has a physical tag, write this
             # ASSUMPTION: There is a single physical tag for this
             physical_tag = tag_data["gmsh:physical"][matching_cell_block[0]][0]
-- 
2.43.0


From a4cc6475d5b8237995627bad1b01e63cd671fe13 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 51/65] fix: ply ASCII reader fails on property names with
 special characters

---
 src/meshio/ply/_ply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4c67516..0851aae 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -202,7 +202,8 @@ def _read_ascii(
     verts = np.column_stack(verts)
 
     point_data = {
-        point_data_names[i]: pd[point_data_names[i]]
+        # genfromtxt strips special characters from the field names
+        point_data_names[i]: pd[pd.dtype.names[i]]
         for i in range(k, len(point_data_names))
     }
     cell_data = {}
-- 
2.43.0


From 8268b92dcc78ca629daff5ae4f5c8b08ddaed4fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 52/65] fix: hmf writer crashes with compression=None

---
 src/meshio/hmf/_hmf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index b4af72f..33d08e6 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -59,6 +59,10 @@ def write_points_cells(filename, points, cells, **kwargs):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        # h5py refuses compression options without compression
+        compression_opts = None
+
     warn("Experimental file format. Format can change at any time.")
     with h5py.File(filename, "w") as h5_file:
         h5_file.attrs["type"] = "hmf"
-- 
2.43.0


From f0faeb8bc8b7f15717f3dc2d561396cc8bba2490 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:29:59 +0000
Subject: [PATCH 53/65] fix: gmsh 4.1 reader crashes if an entity is not listed
 or has no physical tag

---
 src/meshio/gmsh/_gmsh41.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 20adf48..90b137d 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -218,7 +218,8 @@ def _read_elements(
                     if (
                         physical_tags
                         and field_data[physical_name][1] == dim
-                        and field_data[physical_name][0] in physical_tags[dim][tag]
+                        and field_data[physical_name][0]
+                        in physical_tags[dim].get(tag, [])
                     )
                     else 0
                 ),
@@ -231,10 +232,10 @@ def _read_elements(
         )
 
         # Find physical tag, if defined; else it is None.
-        pt = None if not physical_tags else physical_tags[dim][tag]
+        pt = None if not physical_tags else physical_tags[dim].get(tag)
         # Bounding entities (of lower dimension) if defined. Else it is None.
         if dim > 0 and bounding_entities:  # Points have no boundaries
-            be = bounding_entities[dim][tag]
+            be = bounding_entities[dim].get(tag, np.array([], dtype=c_int))
         else:
             be = None
         data.append((pt, be, tag, tpe, d))
@@ -251,14 +252,17 @@ def _read_elements(
         for physical_tag, bound_entity, geom_tag, tpe, d in data
     ]
 
+    # Not all entities need to have a physical tag; Gmsh uses 0 for "none".
+    has_physical_tags = any(physical_tag for physical_tag, *_ in data)
+
     cells = []
     for physical_tag, bound_entity, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical_tags:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
-- 
2.43.0


From c02c8cd19ee447920119c8e51215770e21307a89 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:29:59 +0000
Subject: [PATCH 54/65] fix: gmsh 4.1 ASCII writer writes entity tags as floats

---
 src/meshio/gmsh/_gmsh41.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 90b137d..af66eed 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -484,7 +484,7 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
         if matching_cell_block.size > 0 and "gmsh:physical" in tag_data:
             # entity has a physical tag, write this
             # ASSUMPTION: There is a single physical tag for this
-            physical_tag = tag_data["gmsh:physical"][matching_cell_block[0]][0]
+            physical_tag = int(tag_data["gmsh:physical"][matching_cell_block[0]][0])
             if binary:
                 np.array([1], dtype=c_size_t).tofile(fh)
                 np.array([physical_tag], dtype=c_int).tofile(fh)
@@ -676,7 +676,7 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
 
             # The entity tag should be equal within a CellBlock
             if "gmsh:geometrical" in tag_data:
-                entity_tag = tag_data["gmsh:geometrical"][ci][0]
+                entity_tag = int(tag_data["gmsh:geometrical"][ci][0])
             else:
                 entity_tag = 0
 
@@ -717,7 +717,7 @@ def _write_elements(fh, cells, tag_data, binary: bool) -> None:
 
             # The entity tag should be equal within a CellBlock
             if "gmsh:geometrical" in tag_data:
-                entity_tag = tag_data["gmsh:geometrical"][ci][0]
+                entity_tag = int(tag_data["gmsh:geometrical"][ci][0])
             else:
                 entity_tag = 0
 
-- 
2.43.0


From e8f48ce1b0dfc3b7dda67c762698c15a97347fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 55/65] fix: exodus: names with characters outside ASCII

---
 src/meshio/exodus/_exodus.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 60fce58..400ef0b 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -331,8 +331,8 @@ def write(filename, mesh):
             )
             point_data_names.set_auto_mask(False)
             for k, name in enumerate(mesh.point_data.keys()):
-                for i, letter in enumerate(name):
-                    point_data_names[k, i] = letter.encode()
+                for i, byte in enumerate(name.encode()):
+                    point_data_names[k, i] = bytes([byte])
 
             # Set data. ParaView might have some problems here, see
             # <https://gitlab.kitware.com/paraview/paraview/-/issues/18403>.
@@ -359,8 +359,8 @@ def write(filename, mesh):
             )
             for k, name in enumerate(mesh.point_sets.keys()):
                 data[k] = k
-                for i, letter in enumerate(name):
-                    data_names[k, i] = letter.encode()
+                for i, byte in enumerate(name.encode()):
+                    data_names[k, i] = bytes([byte])
             for k, (key, values) in enumerate(mesh.point_sets.items()):
                 dim1 = f"num_nod_ns{k + 1}"
                 rootgrp.createDimension(dim1, values.shape[0])
-- 
2.43.0


From 7b02f2e2eee8761b4775ab07996f6231603e8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 56/65] fix: dolfin: find the cell data of any file name and
 data name

---
 src/meshio/dolfin/_dolfin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 4fd3b5d..aaec7d2 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -94,7 +94,7 @@ def _read_cell_data(filename):
     for f in os.listdir(dir_name):
         # Check if there are files by the name "<filename>_*.xml"; if yes,
         # extract the * pattern and make it the name of the data set.
-        out = re.match(f"{basename}_([^\\.]+)\\.xml", f)
+        out = re.fullmatch(f"{re.escape(basename)}_(.+)\\.xml", f)
         if not out:
             continue
         name = out.group(1)
-- 
2.43.0


From 5deebeee125cee26ae19fd678a36c80a8045af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 57/65] fix: vtu: names with characters that are special in XML

---
 src/meshio/_cxml/etree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_cxml/etree.py b/src/meshio/_cxml/etree.py
index f06c999..3baa374 100644
--- a/src/meshio/_cxml/etree.py
+++ b/src/meshio/_cxml/etree.py
@@ -5,6 +5,9 @@
 # written in the text fields. Converting this to ASCII first requires a lot of memory.
 # This etree here allows the writing method to write to the file directly, without
 # having to create a string representation first.
+from xml.sax.saxutils import escape
+
+QUOT = {'"': "&quot;"}
 
 
 class Element:
@@ -22,7 +25,9 @@ class Element:
         self.attrib[key] = value
 
     def write(self, f):
-        kw_list = [f'{key}="{value}"' for key, value in self.attrib.items()]
+        kw_list = [
+            f'{key}="{escape(str(value), QUOT)}"' for key, value in self.attrib.items()
+        ]
         f.write("<{}>\n".format(" ".join([self.name] + kw_list)))
         if self.text:
             f.write(self.text)
-- 
2.43.0


From 6350c46978e86aa993dd7854e49903a5ad8a50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:57 +0000
Subject: [PATCH 58/65] fix: avsucd reader fails on a mesh with a single point

---
 src/meshio/avsucd/_avsucd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 5487e64..88cd10b 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -78,7 +78,8 @@ def read_buffer(f):
 
 def _read_nodes(f, num_nodes):
     if num_nodes > 0:
-        data = np.genfromtxt(f, max_rows=num_nodes)
+        # genfromtxt() gives a 1D array for a single row
+        data = np.genfromtxt(f, max_rows=num_nodes).reshape(num_nodes, -1)
     else:
         data = np.empty((0, 3))
     points_ids = {int(pid): i for i, pid in enumerate(data[:, 0])}
-- 
2.43.0


From 5a216d0e5fa6bcd49447c0bd2e5e9f4d1261eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:57 +0000
Subject: [PATCH 59/65] fix: netgen reader returns a 1D array for a single
 point

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index cae1bd7..a9b933a 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -264,7 +264,7 @@ def read_buffer(f):
         elif line == "points":
             num_points = int(f.readline())
             if num_points > 0:
-                points = np.loadtxt(f, max_rows=num_points)
+                points = np.loadtxt(f, max_rows=num_points, ndmin=2)
                 if dimension != 3:
                     points = points[:, :dimension]
 
-- 
2.43.0


From c457538f33c7c050eaa09d1f729805532cec175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:57 +0000
Subject: [PATCH 60/65] fix: ply binary reader fails on vertex cells

---
 src/meshio/ply/_ply.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 0851aae..e030402 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -381,7 +381,7 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
         block_buffer = buffer[byte_starts_ends[start] : byte_starts_ends[end]]
         cells_per_row = (row_lengths[start] - count_itemsize) // data_itemsize
         block_dtype = np.dtype(
-            [("count", count_dtype), ("data", data_dtype * cells_per_row)]
+            [("count", count_dtype), ("data", data_dtype, (int(cells_per_row),))]
         )
         cells = np.frombuffer(block_buffer, dtype=block_dtype)["data"]
 
-- 
2.43.0


From 2fba52653ff318028f88eff1b8100d77f9a6a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:57 +0000
Subject: [PATCH 61/65] fix: su2 reader fails without internal cells, writer
 skips cells without a warning

---
 src/meshio/su2/_su2.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index cfd86d1..eb3ca98 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -116,6 +116,8 @@ def read_buffer(f):
             # translate_cells function from vtk reader
 
             num_elems = int(rest_of_line)
+            if num_elems == 0:
+                continue
             gen = islice(f, num_elems)
 
             # some files has an extra int column while other not
@@ -258,11 +260,15 @@ def write(filename, mesh):
         np.savetxt(f, mesh.points)
 
         # Through warnings about unsupported types
+        if dim == 2:
+            supported = ["line", "triangle", "quad"]
+        else:
+            supported = ["triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"]
         for cell_block in mesh.cells:
-            if cell_block.type not in meshio_to_su2_type:
+            if cell_block.type not in supported:
                 warn(
-                    ".su2 does not support tags elements of type {}.\n"
-                    "Skipping ...".format(type)
+                    ".su2 does not support elements of type {} in {}D.\n"
+                    "Skipping ...".format(cell_block.type, dim)
                 )
 
         # Write `internal` cells
-- 
2.43.0


From e2035369ff487c6f57fc0a934f1416665a632f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:57 +0000
Subject: [PATCH 62/65] fix: cgns writer skips cells other than tetrahedra
 without a warning

---
 src/meshio/cgns/_cgns.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index bfa1748..a899a0b 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -6,6 +6,7 @@ TODO link to specification?
 
 import numpy as np
 
+from .._common import warn
 from .._exceptions import ReadError
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -81,6 +82,13 @@ def write(filename, mesh, compression="gzip", compression_opts=4):
 
     # write cells
     # TODO write cells other than tetra
+    skipped = {c.type for c in mesh.cells if c.type != "tetra"}
+    if skipped:
+        warn(
+            "CGNS: can only write tetrahedra. Skipping "
+            + ", ".join(sorted(skipped))
+            + "."
+        )
     elems = zone1.create_group("GridElements")
     rnge = elems.create_group("ElementRange")
     for cell_block in mesh.cells:
-- 
2.43.0


From 416aab0fb75daefb5234e637c961d66d1fa8d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:59 +0000
Subject: [PATCH 63/65] fix: wkt files of meshes with 2D points cannot be read

---
 src/meshio/wkt/_wkt.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 588f504..5b9ec8b 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -82,9 +82,17 @@ def write_buffer(f, mesh):
 
     triangles = mesh.get_cells_type("triangle")
 
+    points = mesh.points
+    if points.shape[1] == 2:
+        warn(
+            "WKT requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
+
     f.write("TIN (")
     joiner = ""
-    for tri_points in mesh.points[triangles]:
+    for tri_points in points[triangles]:
         f.write(
             "{0}(({1}, {2}, {3}, {1}))".format(
                 joiner, *(arr_to_str(p) for p in tri_points)
-- 
2.43.0


From 9fda3c315b09b4d028df0f9ce10a076d36624a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:59 +0000
Subject: [PATCH 64/65] fix: neuroglancer files of meshes with 2D points cannot
 be read

---
 src/meshio/neuroglancer/_neuroglancer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index fd0e3e5..b072895 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -26,7 +26,15 @@ def write_buffer(f, mesh):
         will be called with :class:`bytes` objects).
     :param meshio.Mesh mesh: Mesh object to write
     """
-    vertices = np.asarray(mesh.points, "<f")
+    points = mesh.points
+    if points.shape[1] == 2:
+        warn(
+            "Neuroglancer requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
+
+    vertices = np.asarray(points, "<f")
     skip = [c for c in mesh.cells if c.type != "triangle"]
     if skip:
         warn('Neuroglancer only supports triangle cells. Skipping {", ".join(skip)}.')
-- 
2.43.0


From dde926d45cb14571a252e65c0408bf5e75827e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:59 +0000
Subject: [PATCH 65/65] fix: ugrid files of meshes with 2D points cannot be
 read

---
 src/meshio/ugrid/_ugrid.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 8a6c560..79e1618 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -182,7 +182,15 @@ def _write_buffer(f, file_type, mesh):
         "hexahedron": -1,
     }
 
-    ugrid_counts["points"] = mesh.points.shape[0]
+    points = mesh.points
+    if points.shape[1] == 2:
+        warn(
+            "UGRID requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
+
+    ugrid_counts["points"] = points.shape[0]
 
     for i, cell_block in enumerate(mesh.cells):
         key = cell_block.type
@@ -214,7 +222,7 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.nbytes
+        fortran_header = points.nbytes
         for cell_block in mesh.cells:
             fortran_header += cell_block.data.nbytes
         # boundary tags
@@ -225,7 +233,7 @@ def _write_buffer(f, file_type, mesh):
         fortran_header = np.array([fortran_header])
         _write_section(f, file_type, fortran_header, itype)
 
-    _write_section(f, file_type, mesh.points, ftype)
+    _write_section(f, file_type, points, ftype)
 
     for key in ["triangle", "quad"]:
         if ugrid_counts[key] == 0:
-- 
2.43.0

