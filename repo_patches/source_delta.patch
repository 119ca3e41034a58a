From 6d6fb2020a87007873f7e6e3cbb5d2911b488830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:12 +0000
Subject: [PATCH 01/47] fix: keep real numbers within their fixed-width field

A negative number, or one with a three-digit exponent, overflowed the field
of formats such as 10.4e and shifted every following field of the record.
Its precision is now reduced just enough to fit.
---
 toughio/_io/input/tough/_helpers.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index fca829e..7430be7 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -259,11 +259,18 @@ def write_record(data, fmt, multi=False):
 
     def to_str(x, fmt):
         x = "" if x is None else x
-        return (
-            fmt.format(x)
-            if not isinstance(x, str)
-            else fmt.replace("g", "").replace("e", "").format(x)
-        )
+        if isinstance(x, str):
+            return fmt.replace("g", "").replace("e", "").format(x)
+
+        out = fmt.format(x)
+        if fmt.endswith("e}"):
+            # Drop trailing digits rather than overflowing into the next field
+            width, prec = (int(n) for n in fmt[3:-2].split("."))
+            while len(out) > width and prec > 0:
+                prec -= 1
+                out = "{{:>{}.{}e}}".format(width, prec).format(x)
+
+        return out
 
     if not multi:
         data = [to_str(d, f) for d, f in zip(data, fmt)]
-- 
2.43.0


From 14c6f45121ad1bcd58955cec638ab58b73b6987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:59 +0000
Subject: [PATCH 02/47] fix: read FLAC creep flag as a boolean

It was read as an integer, so that parameters read from a file with a FLAC
block were rejected when written again.
---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index b813cfe..2181a42 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -202,7 +202,7 @@ def _read_flac(f, rocks_order):
     # Record 1
     line = next(f)
     data = read_record(line, fmt[1])
-    flac["flac"]["creep"] = data[0]
+    flac["flac"]["creep"] = bool(data[0]) if data[0] is not None else None
     flac["flac"]["porosity_model"] = data[1]
     flac["flac"]["version"] = data[2]
 
-- 
2.43.0


From 48fd92bf5d1412e150ff0bd3a9cdb769f420c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:27 +0000
Subject: [PATCH 03/47] fix: write and read selections without floats

Selections without floats, as read from a file that has none, could not be
written, and a blank IE(1) could not be read.
---
 toughio/_io/input/tough/_read.py  | 2 +-
 toughio/_io/input/tough/_write.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 2181a42..e3574d3 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -363,7 +363,7 @@ def _read_selec(f):
             selec["selections"]["floats"].append(prune_nones_list(data))
 
     selec["selections"]["integers"] = prune_nones_dict(selec["selections"]["integers"])
-    if selec["selections"]["integers"][1] == 1:
+    if selec["selections"]["integers"].get(1) == 1:
         selec["selections"]["floats"] = selec["selections"]["floats"][0]
 
     return selec
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 1caba5a..6bfd629 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -486,9 +486,9 @@ def _write_selec(parameters):
     from ._common import selections
 
     data = deepcopy(selections)
-    if parameters["selections"]["integers"]:
+    if parameters["selections"].get("integers"):
         data["integers"].update(parameters["selections"]["integers"])
-    if len(parameters["selections"]["floats"]):
+    if parameters["selections"].get("floats") is not None:
         data["floats"] = parameters["selections"]["floats"]
 
     # Check floats and overwrite IE(1)
-- 
2.43.0


From 9766b86a1354416436e48a97418f416e5af0de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:27 +0000
Subject: [PATCH 04/47] fix: use default solver method when it is not given

---
 toughio/_io/input/tough/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_common.py b/toughio/_io/input/tough/_common.py
index 32e4ab1..14cb8d1 100644
--- a/toughio/_io/input/tough/_common.py
+++ b/toughio/_io/input/tough/_common.py
@@ -72,7 +72,7 @@ extra_options = {k + 1: None for k in range(24)}
 more_options = {k + 1: None for k in range(40)}
 
 solver = {
-    "id": 3,
+    "method": 3,
     "z_precond": "Z0",
     "o_precond": "O0",
     "rel_iter_max": 0.1,
-- 
2.43.0


From 32d2df961cfc36fa6e2b73cd11f2d5472574b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:27 +0000
Subject: [PATCH 05/47] fix: read number of mass components in block MULTI

---
 toughio/_io/input/tough/_read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index e3574d3..d649963 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -239,6 +239,8 @@ def _read_multi(f):
     multi["n_component"] = data[0]
     multi["isothermal"] = data[1] == data[0]
     multi["n_phase"] = data[2]
+    if data[4] is not None:
+        multi["n_component_mass"] = data[4]
 
     return multi
 
-- 
2.43.0


From 38b4067d9732f072e3b3832d776e2721ff3f3bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:27 +0000
Subject: [PATCH 06/47] fix: do not skip the block after an OUTPU block without
 variables

---
 toughio/_io/input/tough/_read.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index d649963..e4a926d 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -107,7 +107,7 @@ def read_buffer(f, label_length):
         elif line.startswith("DIFFU"):
             parameters.update(_read_diffu(fiter, f))
         elif line.startswith("OUTPU"):
-            parameters.update(_read_outpu(fiter))
+            parameters.update(_read_outpu(fiter, f))
         elif line.startswith("ELEME"):
             parameters.update(_read_eleme(fiter, label_length))
             parameters["coordinates"] = False
@@ -552,15 +552,17 @@ def _read_diffu(f, fh):
     return diffu
 
 
-def _read_outpu(f):
+def _read_outpu(f, fh):
     """Read OUTPU block data."""
     fmt = block_to_format["OUTPU"]
     outpu = {"output": {}}
 
     # Format
+    i = fh.tell()
     line = next(f).strip()
     if line and not line.isdigit():
         outpu["output"]["format"] = line if line else None
+        i = fh.tell()
         line = next(f).strip()
 
     # Variables
@@ -593,6 +595,9 @@ def _read_outpu(f):
             outpu["output"]["variables"][k] = (
                 None if len(v) == 0 else v[0] if len(v) == 1 else v
             )
+    elif line:
+        # No variable, this line belongs to the next block
+        fh.seek(i)
 
     return outpu
 
-- 
2.43.0


From 197240f2446c9e078f17dedfa4c3d8efb8b9e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:56 +0000
Subject: [PATCH 07/47] fix: do not truncate long element labels in FOFT and
 COFT

---
 toughio/_common.py                |  4 ++--
 toughio/_io/input/tough/_write.py | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index a58d8e6..029e15b 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -24,8 +24,8 @@ block_to_format = {
     "INDOM": {0: ",".join(4 * ["20.13e"]), 5: "5s"},
     "MOMOP": "40S",
     "TIMES": {1: "5d,5d,10.4e,10.4e", 2: ",".join(8 * ["10.4e"])},
-    "FOFT": {5: "5s"},
-    "COFT": {5: "10s"},
+    "FOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
+    "COFT": {5: "10s", 6: "12s", 7: "14s", 8: "16s", 9: "18s"},
     "GOFT": {5: "5s"},
     "GENER": {
         0: ",".join(4 * ["14.7e"]),
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 6bfd629..5f9ef20 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -610,10 +610,11 @@ def _write_times(parameters):
 def _write_foft(parameters):
     """Write FOFT block data."""
     # Formats
+    values = [x for x in parameters["element_history"]]
+    label_length = max([5] + [len(x) for x in values])
     fmt = block_to_format["FOFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["element_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
@@ -623,10 +624,11 @@ def _write_foft(parameters):
 def _write_coft(parameters):
     """Write COFT block data."""
     # Format
+    values = [x for x in parameters["connection_history"]]
+    label_length = max([5] + [len(x) // 2 for x in values])
     fmt = block_to_format["COFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["connection_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
-- 
2.43.0


From 4d5e4943a2f4309c78305a06fe3a0c0ec35545d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:56 +0000
Subject: [PATCH 08/47] fix: end title at the end of the file and do not read
 it as a block

A file without block ROCKS was read for ever, and a title starting with the
name of a block was read as this block as well.
---
 toughio/_io/input/tough/_read.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index e4a926d..79c2fad 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -41,18 +41,24 @@ def read_buffer(f, label_length):
     parameters = {}
 
     # Title
+    start = f.tell()
     line = f.readline().strip()
     if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
+        start = f.tell()
         title = [line]
         while True:
-            line = f.readline().strip()
-            if not line.startswith("ROCKS"):
-                title.append(line)
+            line = f.readline()
+            if not line:
+                # No block ROCKS, only the first line is known to be a title
+                title = title[:1]
+                break
+            elif not line.strip().startswith("ROCKS"):
+                title.append(line.strip())
             else:
                 break
 
         parameters["title"] = title[0] if len(title) == 1 else title
-    f.seek(0)
+    f.seek(start)
 
     # Loop over blocks
     # Some blocks (INCON, INDOM, PARAM) need to rewind to previous line but tell and seek are disabled by next
-- 
2.43.0


From 995a3a5138cf3394dec603ade3fe4227eafbb9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:59 +0000
Subject: [PATCH 09/47] fix: read generators with and without enthalpy table on
 one element

Reading failed, or attached enthalpies to the wrong generator.
---
 toughio/_io/input/tough/_read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 79c2fad..f1645ab 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -503,6 +503,9 @@ def _read_gener(f, label_length):
                         table += prune_nones_list(data)
 
                     tmp[key] = [table]
+
+                if not itab:
+                    tmp["specific_enthalpy"] = [None]
             else:
                 tmp.update(
                     {
-- 
2.43.0


From 79e4c16d56ac9b891538319f50d2b8240d8235a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:20 +0000
Subject: [PATCH 10/47] fix: write and read elements and connections with
 missing fields

Elements without centre or material, and connections without nodal
distances, could not be written or read although these are optional.
---
 toughio/_io/input/tough/_read.py  |  4 ++--
 toughio/_io/input/tough/_write.py | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index f1645ab..57a23e5 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -624,11 +624,11 @@ def _read_eleme(f, label_length):
         if line.strip():
             data = read_record(line, fmt[label_length])
             label = data[0]
-            rock = data[3].strip()
+            rock = data[3]
             eleme["elements"][label] = {
                 "nseq": data[1],
                 "nadd": data[2],
-                "material": int(rock) if all(r.isdigit() for r in rock) else rock,
+                "material": int(rock) if rock and rock.isdigit() else rock,
                 "volume": data[4],
                 "heat_exchange_area": data[5],
                 "permeability_modifier": data[6],
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 5f9ef20..327ee2d 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -851,6 +851,7 @@ def _write_eleme(parameters):
             if isinstance(data["material"], int)
             else data["material"]
         )
+        center = data["center"] if data["center"] is not None else [None] * 3
         values = [
             k,
             data["nseq"],
@@ -859,9 +860,9 @@ def _write_eleme(parameters):
             data["volume"],
             data["heat_exchange_area"],
             data["permeability_modifier"],
-            data["center"][0],
-            data["center"][1],
-            data["center"][2],
+            center[0],
+            center[1],
+            center[2],
         ]
         out += write_record(values, fmt)
 
@@ -911,14 +912,16 @@ def _write_conne(parameters):
         data = deepcopy(connections)
         data.update(parameters["connections"][k])
 
+        distances = data["nodal_distances"]
+        distances = distances if distances is not None else [None] * 2
         values = [
             k,
             data["nseq"],
             data["nadd"][0] if data["nadd"] is not None else None,
             data["nadd"][1] if data["nadd"] is not None else None,
             data["permeability_direction"],
-            data["nodal_distances"][0],
-            data["nodal_distances"][1],
+            distances[0],
+            distances[1],
             data["interface_area"],
             data["gravity_cosine_angle"],
             data["radiant_emittance_factor"],
-- 
2.43.0


From 360667b9135a261fd90a9386a875871669a803c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 11/47] fix: write all kinds of numpy scalars to JSON

---
 toughio/_io/input/json/_json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 46d7cc1..314d350 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -63,8 +63,8 @@ def write(filename, parameters):
 
     def jsonify(x):
         """JSON serialize data."""
-        if isinstance(x, (numpy.int32, numpy.int64)):
-            return int(x)
+        if isinstance(x, numpy.generic):
+            return x.item()
         elif isinstance(x, (list, tuple)):
             return [jsonify(xx) for xx in x]
         elif isinstance(x, numpy.ndarray):
-- 
2.43.0


From f41ef3981efe01a9c7f251d16062b415b715c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 12/47] fix: read selections without integers from JSON

---
 toughio/_io/input/json/_json.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 314d350..a1a56ca 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -40,9 +40,10 @@ def read(filename):
         parameters["more_options"] = to_int(parameters["more_options"])
 
     if "selections" in parameters.keys():
-        parameters["selections"]["integers"] = to_int(
-            parameters["selections"]["integers"]
-        )
+        if "integers" in parameters["selections"].keys():
+            parameters["selections"]["integers"] = to_int(
+                parameters["selections"]["integers"]
+            )
 
     return parameters
 
-- 
2.43.0


From f0f856ffc1819e551a4dd2cd19557055a946b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 13/47] fix: read a file that starts with connections

---
 toughio/_io/input/tough/_read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 57a23e5..2b5e572 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -43,7 +43,8 @@ def read_buffer(f, label_length):
     # Title
     start = f.tell()
     line = f.readline().strip()
-    if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
+    is_block = line[:5] in {"ROCKS", "ELEME", "INCON", "GENER"}
+    if not (is_block or line.startswith("CONNE----")):
         start = f.tell()
         title = [line]
         while True:
-- 
2.43.0


From c0f1d7f4386090a6f36eca54d3c0b54ee7114dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 14/47] fix: rename and move materials with names shorter than
 five characters

---
 toughio/_mesh/tough/_tough.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 4fc41ad..05804b6 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -176,13 +176,18 @@ def write_mesh(
 ):
     """Write MESH file."""
     # Check materials
-    materials = [
-        "{:5}".format(material.strip()) if isinstance(material, str) else material
-        for material in materials
-    ]
+    def pad(material):
+        """Left align material name over 5 characters."""
+        return (
+            "{:5}".format(material.strip()) if isinstance(material, str) else material
+        )
+
+    materials = [pad(material) for material in materials]
     material_name = material_name if material_name else {}
+    material_name = {pad(k): pad(v) for k, v in material_name.items()}
     material_end = material_end if material_end else []
     material_end = [material_end] if isinstance(material_end, str) else material_end
+    material_end = [pad(material) for material in material_end]
 
     with open(filename, "w") as f:
         _write_eleme(
-- 
2.43.0


From 19dddd1e3a2c6952559add12b2a4a56306370d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 15/47] fix: write MESH of cells that are not connected

---
 toughio/_mesh/tough/_tough.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 05804b6..cd96988 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -344,6 +344,9 @@ def _write_conne(
             )
         cell_list.add(i)
 
+    if not clabels:
+        return
+
     centers = numpy.array(centers)
     int_points = numpy.array(int_points)
     int_normals = numpy.array(int_normals)
-- 
2.43.0


From b9d52e59aa144e9bd649ad42c4595bfab9d2fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 16/47] fix: write initial conditions of cells with negative
 values only

---
 toughio/_mesh/tough/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 8092ce1..9af9a41 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -90,7 +90,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
 
     iterables = zip(labels, values, porosity, userx)
     for label, value, phi, usrx in iterables:
-        cond1 = any(v > -1.0e-9 for v in value)
+        cond1 = any(v > -1.0e9 for v in value)
         cond2 = phi is not None
         cond3 = usrx is not None
         if cond1 or cond2 or cond3:
-- 
2.43.0


From 7ef988b8540280bef05664f832bea5f2d6baca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 17/47] fix: keep initial conditions within their columns

A negative value with a three-digit exponent overflowed its field and shifted
the following fields of the record.
---
 toughio/_mesh/tough/_helpers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 9af9a41..db180cf 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -83,6 +83,8 @@ def _write_conne(clabels, isot, d1, d2, areas, angles):
 
 def _write_incon(labels, values, porosity=None, userx=None):
     """Return a generator that iterates over the records of block INCON."""
+    from ..._io.input.tough._helpers import write_record
+
     porosity = porosity if porosity is not None else [None] * len(labels)
     userx = userx if userx is not None else [None] * len(labels)
     label_length = len(labels[0])
@@ -111,8 +113,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                 ignore_types += [4, 5, 6]
 
             fmt1 = str2format(fmt[label_length], ignore_types=ignore_types)
-            fmt1 = "{}\n".format("".join(fmt1[: len(values)]))
-            record = fmt1.format(*values)
+            record = write_record(values, fmt1)[0]
 
             # Record 2
             n = min(4, len(value))
@@ -126,8 +127,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                     ignore_types.append(i)
 
             fmt2 = str2format(fmt[0], ignore_types=ignore_types)
-            fmt2 = "{}\n".format("".join(fmt2[: len(values)]))
-            record += fmt2.format(*values)
+            record += write_record(values, fmt2)[0]
 
             # Record 3 (EOS7R)
             if len(value) > 4:
@@ -141,8 +141,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                         ignore_types.append(i)
 
                 fmt2 = str2format(fmt[0], ignore_types=ignore_types)
-                fmt2 = "{}\n".format("".join(fmt2[: len(values)]))
-                record += fmt2.format(*values)
+                record += write_record(values, fmt2)[0]
 
             yield record
         else:
-- 
2.43.0


From 16a4a7a105093391dd92347b18b758e4bc9bc3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 18/47] fix: drop data of cells that are not extruded

---
 toughio/_mesh/_mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c009903..ae9e17f 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -144,6 +144,7 @@ class Mesh(object):
             "quad": "hexahedron",
         }
         cells = []
+        kept = [c.type in extruded_types.keys() for c in mesh.cells]
         cell_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
         for ic, c in enumerate(mesh.cells):
             if c.type in extruded_types.keys():
@@ -164,7 +165,10 @@ class Mesh(object):
                     )
 
         mesh.cells = cells
-        mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
+        mesh.cell_data = {
+            k: numpy.concatenate([vv for vv, keep in zip(v, kept) if keep])
+            for k, v in cell_data.items()
+        }
 
         if mesh.field_data:
             for k in mesh.field_data.keys():
-- 
2.43.0


From f57e10156da2da3400b3dc6aa7d901ded7291cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:29 +0000
Subject: [PATCH 19/47] fix: select cells in boxes without thickness

---
 toughio/_mesh/_filter/box/_box.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_filter/box/_box.py b/toughio/_mesh/_filter/box/_box.py
index 32b7441..d0e0065 100644
--- a/toughio/_mesh/_filter/box/_box.py
+++ b/toughio/_mesh/_filter/box/_box.py
@@ -13,9 +13,9 @@ def filter_(mesh, x0=None, y0=None, z0=None, dx=None, dy=None, dz=None):
     ymin = y0 if y0 is not None else -numpy.inf
     zmin = z0 if z0 is not None else -numpy.inf
 
-    xmax = xmin + dx if dx else numpy.inf
-    ymax = ymin + dy if dy else numpy.inf
-    zmax = zmin + dz if dz else numpy.inf
+    xmax = xmin + dx if dx is not None else numpy.inf
+    ymax = ymin + dy if dy is not None else numpy.inf
+    zmax = zmin + dz if dz is not None else numpy.inf
 
     x, y, z = mesh.centers.T
     mask_x = numpy.logical_and(x >= xmin, x <= xmax)
-- 
2.43.0


From 13342bfef265f1abe5f9c1a3566fc64be985c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 20/47] fix: give new materials a number that is not in use

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index ae9e17f..293663c 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -583,7 +583,7 @@ class Mesh(object):
             imat = (
                 self.field_data[material][0]
                 if material in self.field_data.keys()
-                else data.max() + 1
+                else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
             )
             data[cells] = imat
             self.add_cell_data("material", data)
-- 
2.43.0


From 1814a54b2534716efda6c60839d806f9deeae072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 21/47] fix: assign a material to no cell

---
 toughio/_mesh/_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 293663c..f7727b2 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -568,6 +568,9 @@ class Mesh(object):
         cond_int = all(isinstance(c, ints) for c in cells)
         cond_bool = all(isinstance(c, (bool, numpy.bool_)) for c in cells)
 
+        if len(cells) == 0:
+            return
+
         if cond_int:
             if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
                 raise ValueError()
-- 
2.43.0


From 3bd7c4fba993cc70dcf9373d292fc69135b4df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 22/47] fix: take lists of booleans as masks when assigning
 materials

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index f7727b2..39c852b 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -565,8 +565,8 @@ class Mesh(object):
 
         """
         ints = (int, numpy.int8, numpy.int16, numpy.int32, numpy.int64)
-        cond_int = all(isinstance(c, ints) for c in cells)
         cond_bool = all(isinstance(c, (bool, numpy.bool_)) for c in cells)
+        cond_int = not cond_bool and all(isinstance(c, ints) for c in cells)
 
         if len(cells) == 0:
             return
-- 
2.43.0


From 30a77d18effc188c06027c9b5e6f2e1661f20b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:24 +0000
Subject: [PATCH 23/47] fix: number of the Fatt-Klikoff model

---
 toughio/relative_permeability/_fatt_klikoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/relative_permeability/_fatt_klikoff.py b/toughio/relative_permeability/_fatt_klikoff.py
index 0737d40..b3f9498 100644
--- a/toughio/relative_permeability/_fatt_klikoff.py
+++ b/toughio/relative_permeability/_fatt_klikoff.py
@@ -7,7 +7,7 @@ __all__ = [
 
 class FattKlikoff(BaseRelativePermeability):
 
-    _id = 7
+    _id = 6
     _name = "Fatt-Klikoff"
 
     def __init__(self, slr):
-- 
2.43.0


From e6a02b0ed631d4ea3792857ab23ef8d68908c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 24/47] fix: capillary pressure between maximum and full
 saturation

---
 toughio/capillarity/_van_genuchten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/capillarity/_van_genuchten.py b/toughio/capillarity/_van_genuchten.py
index 7e6b16e..1564504 100644
--- a/toughio/capillarity/_van_genuchten.py
+++ b/toughio/capillarity/_van_genuchten.py
@@ -37,7 +37,7 @@ class vanGenuchten(BaseCapillarity):
     def _eval(self, sl, *args):
         """Van Genuchten function."""
         m, slr, alpha, pmax, sls = args
-        if sl == 1.0:
+        if sl == 1.0 or sl >= sls:
             pcap = 0.0
         else:
             if sl > slr:
-- 
2.43.0


From b3c8e67ef09e9caf25c2c7e9af6005574713e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 25/47] fix: merge only complete input files and keep lines
 apart

---
 toughio/_cli/_merge.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index dceffa5..be6fd0e 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -25,10 +25,10 @@ def merge(argv=None):
         input_file = list(f)
 
     # Check that input file has at least blocks ROCKS, PARAM, ENDFI or ENDCY
-    count = 0
-    for line in input_file:
-        count += int(line.upper()[:5] in {"ROCKS", "PARAM", "ENDFI", "ENDCY"})
-    if count < 3:
+    # ENDFI or ENDCY is not a title
+    keywords = [line.upper()[:5] for line in input_file]
+    ends = [i for i, k in enumerate(keywords) if i and k in {"ENDFI", "ENDCY"}]
+    if not ("ROCKS" in keywords and "PARAM" in keywords and ends):
         raise ValueError("Invalid input file '{}'.".format(args.infile))
 
     # Buffer MESH
@@ -44,12 +44,8 @@ def merge(argv=None):
         if not incon_file[0].startswith("INCON"):
             raise ValueError("Invalid INCON file.")
 
-    # Locate ENDFI or ENDCY
-    for i, line in enumerate(input_file):
-        if line.upper()[:5] in {"ENDFI", "ENDCY"}:
-            break
-
     # Buffer output file
+    i = ends[0]
     output_file = input_file[:i]
     output_file += mesh_file
     if incon_exists:
@@ -59,7 +55,7 @@ def merge(argv=None):
     # Write output file
     with open(args.outfile, "w") as f:
         for line in output_file:
-            f.write(line)
+            f.write(line if line.endswith("\n") else line + "\n")
 
 
 def _get_parser():
-- 
2.43.0


From 540441875d72081855eb39ef5f8454523666c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 26/47] fix: order the elements of a SAVE file by an array of
 labels

---
 toughio/_io/output/save/_save.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index a99b2f2..27c7e95 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -32,7 +32,9 @@ def read(filename, file_type, file_format, labels_order):
         data["userx"] = numpy.array(userx)
 
     labels_order = (
-        labels_order if labels_order else parameters["initial_conditions_order"]
+        labels_order
+        if labels_order is not None
+        else parameters["initial_conditions_order"]
     )
     output = Output(file_type, file_format, None, numpy.array(labels), data)
     return reorder_labels(output, labels_order)
-- 
2.43.0


From ff5bb6ecec0cf71562ba466d21149ff9720a43d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 27/47] fix: write CSV tables whose time is not known

---
 toughio/_io/output/csv/_csv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 4353c1a..460c14e 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -125,7 +125,8 @@ def _write_csv(f, output, headers):
     ]
     for out in output:
         # Time step
-        f.write('"TIME [sec]  {:.8e}"\n'.format(out.time))
+        if out.time is not None:
+            f.write('"TIME [sec]  {:.8e}"\n'.format(out.time))
 
         # Table
         for i, label in enumerate(out.labels):
-- 
2.43.0


From 6022c62c7179dd48c9985148911d84518028ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 28/47] fix: keep numbers of Tecplot tables apart

---
 toughio/_io/output/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index ff2fefa..a539f0e 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -86,5 +86,5 @@ def write(filename, output):
             # Table
             data = numpy.transpose([out.data[k] for k in headers])
             for d in data:
-                record = "".join("{:20.12e}".format(x) for x in d)
+                record = " ".join("{:20.12e}".format(x) for x in d)
                 f.write("{}{}\n".format("{:18}".format(""), record))
-- 
2.43.0


From 9db14f17d5beeaaafac89f87319afcee4a484f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 29/47] fix: read TOUGH listings with a given label length

---
 toughio/_io/output/tough/_tough.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 3e2d216..4c65e40 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -75,8 +75,9 @@ def _read_table(f, file_type, label_length):
                 if line[:10].strip() and not line.strip().startswith("ELEM"):
                     line = line.lstrip()
 
-                    if first and not label_length:
-                        label_length = get_label_length(line[:9])
+                    if first:
+                        if not label_length:
+                            label_length = get_label_length(line[:9])
                         iend = (
                             label_length
                             if file_type == "element"
-- 
2.43.0


From 568581417bb391dc9e9b70432ab054d7cfe68738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 30/47] fix: read adjoining numbers in TOUGH listings

---
 toughio/_io/output/tough/_tough.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 4c65e40..57103d2 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -1,5 +1,6 @@
 from __future__ import with_statement
 
+import re
 from functools import partial
 
 import numpy
@@ -94,7 +95,7 @@ def _read_table(f, file_type, label_length):
                     if first:
                         try:
                             # Set line parser and try parsing first line
-                            reader = lambda line: [_str2float(x) for x in line.split()]
+                            reader = lambda line: [_str2float(x) for x in _split(line)]
                             _ = reader(line)
 
                         except ValueError:
@@ -133,6 +134,11 @@ def _read_table(f, file_type, label_length):
     return headers, times, variables
 
 
+def _split(line):
+    """Split numbers, negative numbers may follow the previous one without a blank."""
+    return re.sub(r"(?<=[0-9.])-(?=[0-9]*[.])", " -", line).split()
+
+
 def _str2float(x):
     """Return numpy.nan if x cannot be converted."""
     try:
-- 
2.43.0


From 112df6e88c9adce1e7fef2625e2bf30cdfb62e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:39 +0000
Subject: [PATCH 31/47] fix: read SAVE files whose elements differ in porosity
 or user data

---
 toughio/_io/output/save/_save.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index 27c7e95..17a6e4a 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -19,17 +19,28 @@ def read(filename, file_type, file_format, labels_order):
 
     data = {"X{}".format(i + 1): x for i, x in enumerate(numpy.transpose(variables))}
 
-    data["porosity"] = numpy.array(
-        [v["porosity"] for v in parameters["initial_conditions"].values()]
-    )
+    porosity = [
+        v["porosity"] if "porosity" in v.keys() else None
+        for v in parameters["initial_conditions"].values()
+    ]
+    if any(x is not None for x in porosity):
+        data["porosity"] = numpy.array(
+            [x if x is not None else numpy.nan for x in porosity]
+        )
 
     userx = [
-        v["userx"]
+        list(v["userx"]) if "userx" in v.keys() else []
         for v in parameters["initial_conditions"].values()
-        if "userx" in v.keys()
     ]
-    if userx:
-        data["userx"] = numpy.array(userx)
+    nuserx = max(len(x) for x in userx) if userx else 0
+    if nuserx:
+        data["userx"] = numpy.array(
+            [
+                [xx if xx is not None else numpy.nan for xx in x]
+                + [numpy.nan] * (nuserx - len(x))
+                for x in userx
+            ]
+        )
 
     labels_order = (
         labels_order
-- 
2.43.0


From 9ab4f2c8cd77369e86a17a278a882bed59490155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:37 +0000
Subject: [PATCH 32/47] fix: read rows of TOUGH listings whose label begins
 with ELEM

---
 toughio/_io/output/tough/_tough.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 57103d2..00c455d 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -73,7 +73,7 @@ def _read_table(f, file_type, label_length):
 
             # Loop until end of output block
             while True:
-                if line[:10].strip() and not line.strip().startswith("ELEM"):
+                if line[:10].strip() and line.split()[:3] != headers[:3]:
                     line = line.lstrip()
 
                     if first:
-- 
2.43.0


From d3edffffa4eaae4e30ef2931d092d1c77fe2b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 33/47] fix: export values to the voxels of their elements

---
 toughio/_cli/_export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index ae07897..0c8896e 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -104,12 +104,18 @@ def export(argv=None):
             mesh = voxelize(points, args.origin, layer=args.layer)
             mesh.cell_dada = {}
 
+            # Sort points in the same order as the cells of the voxelized mesh
             idx = numpy.arange(len(points))
             idx = numpy.array(
                 [
                     x
                     for x, _ in sorted(
-                        zip(idx, points), key=lambda x: (x[1][2], x[1][1], x[1][0])
+                        zip(idx, points),
+                        key=lambda x: (
+                            (-x[1][2], x[1][1], x[1][0])
+                            if args.layer
+                            else (x[1][0], x[1][1], -x[1][2])
+                        ),
                     )
                 ]
             )
-- 
2.43.0


From eaa35754ad030b2be41cba41d70574bbb191c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 34/47] fix: extract split time steps in the given format

---
 toughio/_cli/_extract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_cli/_extract.py b/toughio/_cli/_extract.py
index a1fc63a..8acfc0f 100644
--- a/toughio/_cli/_extract.py
+++ b/toughio/_cli/_extract.py
@@ -85,7 +85,9 @@ def extract(argv=None):
     else:
         head, ext = os.path.splitext(filename)
         for i, out in enumerate(output):
-            write_output("{}_{}{}".format(head, i + 1, ext), out, file_format="csv")
+            write_output(
+                "{}_{}{}".format(head, i + 1, ext), out, file_format=args.file_format
+            )
 
 
 def _get_parser():
-- 
2.43.0


From 02eac7e3ebf9aaf29ac4bdf145d3efa73ff5edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 35/47] fix: leave the INCON file alone if the SAVE file is not
 valid

---
 toughio/_cli/_save2incon.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/toughio/_cli/_save2incon.py b/toughio/_cli/_save2incon.py
index bfc54c8..d5aff85 100644
--- a/toughio/_cli/_save2incon.py
+++ b/toughio/_cli/_save2incon.py
@@ -13,19 +13,18 @@ def save2incon(argv=None):
     if not os.path.isfile(args.infile):
         raise ValueError("SAVE file '{}' not found.".format(args.infile))
 
+    # Read SAVE file before INCON file is opened
+    with open(args.infile, "r") as fsave:
+        lines = fsave.readlines()
+    if not (lines and lines[0].startswith("INCON")):
+        raise ValueError("Invalid SAVE file.")
+
     # Write INCON file
     with open(args.outfile, "w") as f:
-        first = True
-        with open(args.infile, "r") as fsave:
-            for line in fsave:
-                if first:
-                    if not line.startswith("INCON"):
-                        raise ValueError("Invalid SAVE file.")
-                    else:
-                        first = False
-                if args.reset and line.startswith("+++"):
-                    break
-                f.write(line)
+        for line in lines:
+            if args.reset and line.startswith("+++"):
+                break
+            f.write(line)
 
         if args.reset:
             f.write("\n")
-- 
2.43.0


From fa1b447a698fbb9dde62fe4395a6944bc0830b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:13 +0000
Subject: [PATCH 36/47] fix: stop reading Tecplot files at their end

---
 toughio/_io/output/tecplot/_tecplot.py |  6 +++++-
 toughio/_mesh/tecplot/_tecplot.py      | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index a539f0e..e2d072a 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -16,7 +16,11 @@ def read(filename, file_type, file_format, labels_order):
     with open(filename, "r") as f:
         # Look for header (VARIABLES)
         while True:
-            line = f.readline().strip()
+            line = f.readline()
+            if not line:
+                raise ValueError("Variables not found.")
+
+            line = line.strip()
             if line.upper().startswith("VARIABLES"):
                 break
 
diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 17d020e..7c66ff2 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -304,14 +304,22 @@ def _parse_fezone(zone, variables):
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file.")
+
+        line = line.strip().split()
         if line:
             data += [[float(x) for x in line]]
             count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file.")
+
+        line = line.strip().split()
         if line:
             cells += [[[int(x) for x in line]]]
             count += 1
-- 
2.43.0


From 40b4e4e7d66f0a70b2ffb6b681f67a11d90483e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:29 +0000
Subject: [PATCH 37/47] fix: read Tecplot meshes whose data begin with a
 negative number

---
 toughio/_mesh/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 7c66ff2..da640bd 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -110,7 +110,7 @@ def read_buffer(f):
             i = f.tell()
             line = f.readline().strip().upper()
             while True:
-                if line and not line[0].isdigit():
+                if line and line[0] not in "+-.0123456789":
                     lines += [line]
                     i = f.tell()
                     line = f.readline().strip().upper()
-- 
2.43.0


From d0aeb836b1938e20fe6a3bbd127c220b5230a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:29 +0000
Subject: [PATCH 38/47] fix: write Tecplot meshes with plane cells before solid
 cells

---
 toughio/_mesh/tecplot/_tecplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index da640bd..103e5e0 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -364,6 +364,7 @@ def write(filename, mesh):
         if len(numpy.unique(num_dims)) == 2:
             logging.warning("Mesh contains 2D and 3D cells. Skipping 2D cells.")
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
+            num_dims = [3] * len(cell_blocks)
 
         # Convert 2D cells to quads / 3D cells to hexahedra
         zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
-- 
2.43.0


From e624166a1e0cca665cfd7b64fe5284bd4cb0fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:33 +0000
Subject: [PATCH 39/47] fix: interpolate every component of mesh data

---
 toughio/_mesh/_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index 349ca89..ab39272 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -226,10 +226,13 @@ def interpolate_data(data, entities, weights=None):
     """Interpolate input data."""
     return {
         k: (
-            numpy.array([numpy.mean(v[e]) for e in entities])
+            numpy.array([numpy.mean(v[e], axis=0) for e in entities])
             if not weights
             else numpy.array(
-                [numpy.average(v[e], weights=w) for e, w in zip(entities, weights)]
+                [
+                    numpy.average(v[e], axis=0, weights=w)
+                    for e, w in zip(entities, weights)
+                ]
             )
         )
         for k, v in data.items()
-- 
2.43.0


From 7e4944f06a71abb015d7eaeef0292742be108265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:33 +0000
Subject: [PATCH 40/47] fix: leave meshes of meshio unchanged when they are
 converted

---
 toughio/_mesh/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 39c852b..a44fbb7 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -871,7 +871,7 @@ def from_meshio(mesh, material="dfalt"):
     if mesh.cell_data:
         if version[0] >= 4:
             cells = mesh.cells
-            cell_data = mesh.cell_data
+            cell_data = dict(mesh.cell_data)
         else:
             cells, cell_data = get_new_meshio_cells(mesh.cells, mesh.cell_data)
 
@@ -888,7 +888,7 @@ def from_meshio(mesh, material="dfalt"):
         cells=cells,
         point_data=mesh.point_data,
         cell_data=cell_data,
-        field_data=mesh.field_data,
+        field_data=dict(mesh.field_data),
         point_sets=(
             mesh.point_sets
             if hasattr(mesh, "point_sets")
-- 
2.43.0


From 2a4b4d7477e6a3dd25644e19cd6e78c0ef6ff88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:34 +0000
Subject: [PATCH 41/47] fix: convert meshes of meshio that name no material

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index a44fbb7..2bdac4f 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -901,7 +901,7 @@ def from_meshio(mesh, material="dfalt"):
 
     if "material" not in out.cell_data.keys():
         imat = (
-            numpy.max([v[0] for v in mesh.field_data.values() if v[1] == 3]) + 1
+            numpy.max([v[0] for v in mesh.field_data.values()]) + 1
             if mesh.field_data
             else 1
         )
-- 
2.43.0


From 143a6d4b4e78c4798d97580461113b50168e7f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:19 +0000
Subject: [PATCH 42/47] fix: read FLAC3D grids with several groups of faces

A group of faces was read as a part of the group that precedes it.
---
 toughio/_mesh/flac3d/_flac3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 439ae99..fbd0e1b 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -266,7 +266,7 @@ def _read_group(buf_or_line, binary, line=None):
         line = buf_or_line.readline()
         while True:
             line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP"}):
+            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
                 data += [int(l) for l in line]
             else:
                 buf_or_line.seek(i)
-- 
2.43.0


From be8ec8b522f11b7906db601187ec4ee60eeb1bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:19 +0000
Subject: [PATCH 43/47] fix: read FLAC3D grids with cells that belong to no
 group

---
 toughio/_mesh/flac3d/_flac3d.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index fbd0e1b..d44fdca 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -197,7 +197,12 @@ def read_buffer(f, binary):
             if not slots[k]:
                 continue
 
-            for cid, zid in v.values():
+            for data in v.values():
+                # Cells that belong to no group
+                if len(data) == 1:
+                    continue
+
+                cid, zid = data
                 cell_data[cid] = zid
         cell_data = {"flac3d:group": numpy.split(cell_data, num_cells[:-1])}
     else:
-- 
2.43.0


From 8863ec0d3ea062fd57b4b406f711b6700c8c1934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:19 +0000
Subject: [PATCH 44/47] fix: number cells of FLAC3D groups as cells are written

Zones are written before faces, whatever the order of blocks of cells in
the mesh, but groups numbered cells as they come in the mesh.
---
 toughio/_mesh/flac3d/_flac3d.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index d44fdca..117eb8e 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -492,13 +492,29 @@ def _translate_faces(cells):
 def _translate_groups(cells, cell_data, field_data, flag):
     """Convert toughio cell_data to FLAC3D groups."""
     num_dims = numpy.concatenate(
-        [numpy.full(len(c[1]), 2 if c[0] in meshio_only["face"] else 3) for c in cells]
+        [
+            numpy.full(
+                len(c[1]),
+                2
+                if c[0] in meshio_only["face"]
+                else 3
+                if c[0] in meshio_only["zone"]
+                else 0,
+            )
+            for c in cells
+        ]
     )
+
+    # Zones are numbered before faces
+    ids = numpy.zeros(len(num_dims), dtype=int)
+    count = 0
+    for num_dim in (3, 2):
+        mask = num_dims == num_dim
+        ids[mask] = numpy.arange(1, mask.sum() + 1) + count
+        count += mask.sum()
+
     groups = {
-        k: numpy.nonzero(
-            numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])
-        )[0]
-        + 1
+        k: ids[numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])]
         for k in numpy.unique(cell_data)
     }
     groups = {k: v for k, v in groups.items() if v.size}
-- 
2.43.0


From 9e76c30593df3d10fceb58c81b99aa926fd9a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:19 +0000
Subject: [PATCH 45/47] fix: write names that are not ASCII to binary FLAC3D
 grids

---
 toughio/_mesh/flac3d/_flac3d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 117eb8e..1602414 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -413,11 +413,12 @@ def _write_groups(f, cells, cell_data, field_data, flag, binary):
 
             f.write(struct.pack("<I", len(groups)))
             for k in sorted(groups.keys()):
-                num_chars, num_zones = len(labels[k]), len(groups[k])
+                label = labels[k].encode("utf-8")
+                num_chars, num_zones = len(label), len(groups[k])
                 fmt = "<H{}sH7sI{}I".format(num_chars, num_zones)
                 tmp = [
                     num_chars,
-                    labels[k].encode("utf-8"),
+                    label,
                     7,
                     slot,
                     num_zones,
-- 
2.43.0


From cb5d0bfbec63257dbdd0f1caabb8c62b8ee4fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:19 +0000
Subject: [PATCH 46/47] fix: read names of FLAC3D groups with spaces

---
 toughio/_mesh/flac3d/_flac3d.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 1602414..034898e 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -1,5 +1,6 @@
 from __future__ import division, unicode_literals, with_statement
 
+import re
 import struct
 import time
 
@@ -161,7 +162,8 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
     else:
-        line = f.readline().rstrip().split()
+        row = f.readline()
+        line = row.rstrip().split()
         while line:
             if line[0] == "G":
                 pid, point = _read_point(line, binary)
@@ -176,7 +178,7 @@ def read_buffer(f, binary):
                 cidx += 1
             elif line[0] in {"ZGROUP", "FGROUP"}:
                 flag = flags[line[0]]
-                name, slot, data = _read_group(f, binary, line)
+                name, slot, data = _read_group(f, binary, row)
                 field_data, mapper[flag] = _update_field_data(
                     field_data,
                     mapper[flag],
@@ -188,7 +190,8 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
 
-            line = f.readline().rstrip().split()
+            row = f.readline()
+            line = row.rstrip().split()
 
     if field_data:
         num_cells = numpy.cumsum([len(c[1]) for c in cells])
@@ -263,6 +266,7 @@ def _read_group(buf_or_line, binary, line=None):
         (num_zones,) = struct.unpack("<I", buf_or_line.read(4))
         data = struct.unpack("<{}I".format(num_zones), buf_or_line.read(4 * num_zones))
     else:
+        line = re.findall(r'"[^"]*"|\S+', line)
         name = line[1].replace('"', "")
         data = []
         slot = "" if "SLOT" not in line else line[-1]
-- 
2.43.0


From 5a2e08429574be1959ee2d63e3c7cbc1227089dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:19 +0000
Subject: [PATCH 47/47] fix: keep materials shared by zones and faces in FLAC3D
 grids

A group of faces with the name of a group of zones left the zones without
a name.
---
 toughio/_mesh/flac3d/_flac3d.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 034898e..a475836 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -299,9 +299,14 @@ def _update_cells(cells, cell, flag):
 
 def _update_field_data(field_data, mapper, data, name, gidx, flag):
     """Update field data dict."""
+    # Groups of zones and of faces can have the same name
+    if name in field_data:
+        gidx = field_data[name][0]
+    else:
+        field_data[name] = numpy.array([gidx, flag_to_numdim[flag]])
+
     for cid in data:
         mapper[cid].append(gidx)
-    field_data[name] = numpy.array([gidx, flag_to_numdim[flag]])
 
     return field_data, mapper
 
@@ -527,6 +532,7 @@ def _translate_groups(cells, cell_data, field_data, flag):
     labels = {k: str(k) for k in groups.keys()}
     labels[0] = "None"
     if field_data:
+        labels.update({v[0]: k for k, v in field_data.items()})
         labels.update(
             {v[0]: k for k, v in field_data.items() if v[1] == flag_to_numdim[flag]}
         )
-- 
2.43.0

