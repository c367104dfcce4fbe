From e0995ffbb4f0774d73674a9e00003f9a9290a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 01/63] fix: .ts files whose search type is not TSConfirmation
 crash the parser

The 'TSTYPE ...' header line was taken for the start of a TST block.
---
 castep_outputs/parsers/ts_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/ts_file_parser.py b/castep_outputs/parsers/ts_file_parser.py
index 37407a9..8413573 100644
--- a/castep_outputs/parsers/ts_file_parser.py
+++ b/castep_outputs/parsers/ts_file_parser.py
@@ -72,7 +72,8 @@ def parse_ts_file(ts_file: TextIO) -> TSFileInfo:
         if "TSConfirmation" in line:
             accum["confirmation"] = True
 
-        elif block := Block.from_re(line, ts_file, "(REA|PRO|TST)", r"^\s*$", eof_possible=True):
+        elif block := Block.from_re(line, ts_file, r"^\s*(REA|PRO|TST)\s*\d", r"^\s*$",
+                                    eof_possible=True):
             curr = defaultdict(list)
             match = re.match(r"\s*(?P<type>REA|PRO|TST)\s*\d+\s*" +
                              labelled_floats(("reaction_coordinate",)), line)
-- 
2.43.0


From cefb64d49ec8ac3242fa362c6c2461a0dfa46529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 02/63] fix: frames of .md/.geom files separated by lines of
 blanks were merged into one

CASTEP writes two spaces between frames; only completely empty lines were
recognised by parse_md_geom_file.
---
 castep_outputs/parsers/md_geom_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/md_geom_file_parser.py b/castep_outputs/parsers/md_geom_file_parser.py
index a6ed344..31082fb 100644
--- a/castep_outputs/parsers/md_geom_file_parser.py
+++ b/castep_outputs/parsers/md_geom_file_parser.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from collections import defaultdict
 from typing import TextIO, TypedDict
 
-from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, TAG_RE, get_numbers
+from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, EMPTY, TAG_RE, get_numbers
 from castep_outputs.utilities.constants import FST_D, TAG_ALIASES
 from castep_outputs.utilities.datatypes import AtomIndex, ThreeByThreeMatrix, ThreeVector
 from castep_outputs.utilities.filewrapper import Block, FileWrapper
@@ -171,7 +171,7 @@ def parse_md_geom_file(md_geom_file: TextIO | FileWrapper | Block) -> list[MDGeo
     _comment = parse_header(md_geom_file)
 
     steps = []
-    while block := Block.from_re("", md_geom_file, "", "^$", eof_possible=True):
+    while block := Block.from_re("", md_geom_file, "", EMPTY, eof_possible=True):
         steps.append(parse_md_geom_frame(block))
 
     if not steps:
-- 
2.43.0


From 36f7df116af4effda6fc95385a9d1f1ff9c300d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 03/63] fix: headers of spin-polarised .bands files lost data

Fermi energies were dropped, the first of two electron/eigenvalue counts ended
up in the key, and fractional electron counts were truncated.
---
 castep_outputs/parsers/bands_file_parser.py | 2 +-
 castep_outputs/parsers/parse_utilities.py   | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/bands_file_parser.py b/castep_outputs/parsers/bands_file_parser.py
index 930dc5e..ff3bb02 100644
--- a/castep_outputs/parsers/bands_file_parser.py
+++ b/castep_outputs/parsers/bands_file_parser.py
@@ -63,7 +63,7 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
     current: Literal["band", "band_up", "band_down"] = "band"
 
     block = Block.from_re("", bands_file, "", REs.THREEVEC_RE, n_end=3)
-    data = parse_regular_header(block, ("Fermi energy",))
+    data = parse_regular_header(block, ("Fermi energ(?:y|ies)",))
     bands_info.update(data)
 
     for line in bands_file:
diff --git a/castep_outputs/parsers/parse_utilities.py b/castep_outputs/parsers/parse_utilities.py
index ea2ab3c..30beb59 100644
--- a/castep_outputs/parsers/parse_utilities.py
+++ b/castep_outputs/parsers/parse_utilities.py
@@ -38,8 +38,12 @@ def parse_regular_header(block: Block,
     coords = defaultdict(list)
     for line in block:
         if line.strip().startswith("Number of"):
-            _, _, *key, val = line.split()
-            data[" ".join(key)] = int(float(val))
+            _, _, *key = line.split()
+            vals = []
+            while key and REs.NUMBER_RE.fullmatch(key[-1]):  # One value per spin channel
+                val = float(key.pop())
+                vals.insert(0, int(val) if val.is_integer() else val)
+            data[" ".join(key)] = vals[0] if len(vals) == 1 else tuple(vals)
         elif "Unit cell vectors" in line:
             data["unit_cell"] = [to_type(next(block).split(), float)
                                  for _ in range(3)]
-- 
2.43.0


From 056b1fa52dad3cbf00b28b85170deb9565c8103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 04/63] fix: FileWrapper counted an extra line each time it met
 the end of the file

---
 castep_outputs/utilities/filewrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 97a93cd..2139a0b 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -33,11 +33,11 @@ class FileWrapper:
         return self
 
     def __next__(self) -> str:
-        self._lineno += 1
         self._pos = self.file.tell()
         nextline = self.file.readline()
         if not nextline:
             raise StopIteration
+        self._lineno += 1
         return nextline
 
     def rewind(self) -> None:
-- 
2.43.0


From 579d39fe6361955d575759a894f867dfa0af99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 05/63] fix: Block.get_lines swallowed the line after the block
 and refused one ending with the file

---
 castep_outputs/tools/md_geom_parser.py  |  2 +-
 castep_outputs/utilities/filewrapper.py | 20 +++++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index f26fa06..4e1f253 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -47,7 +47,7 @@ class MDGeomParser:
 
         while next(self._handle).strip():
             pass
-        self._frame_lines = self._handle.lineno - self._start_line - 1
+        self._frame_lines = self._handle.lineno - self._start_line
 
         self._frame_bytes = self._handle.tell() - self._start
         stat = self.file.stat()
diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 2139a0b..a5c2343 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import re
 from io import StringIO
+from itertools import islice
 from typing import TYPE_CHECKING, NoReturn, TextIO, TypeVar, overload
 
 if TYPE_CHECKING:
@@ -169,18 +170,15 @@ class Block:
         """
         block = cls(in_file)
 
-        data: list[str] = []
-        for i, line in enumerate(in_file, 1):
-            if i > n_lines:
-                break
-            data.append(line)
-        else:
-            if not eof_possible:
-                if hasattr(in_file, "name"):
-                    raise OSError(f"Unexpected end of file in {in_file.name}.")
-                raise OSError("Unexpected end of file.")
+        data = tuple(islice(in_file, n_lines))
 
-        block._data = tuple(data)
+        if len(data) < n_lines and not eof_possible:
+            if hasattr(in_file, "name"):
+                raise OSError(f"Unexpected end of file in {in_file.name}.")
+            raise OSError("Unexpected end of file.")
+
+        block._lineno += 1  # First line is the one after the last read from `in_file`
+        block._data = data
         return block
 
     @classmethod
-- 
2.43.0


From 0363d05d4a54f1395cac8635f3f5a328639578ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 06/63] fix: flatten_dict ignored the separator below lists and
 lost keys such as 0 and None

---
 castep_outputs/utilities/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 7e920d8..0282b09 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -322,10 +322,10 @@ def flatten_dict(
         # Temporary hack because `None` used as key in species_pot
         new_key = f"{parent_key}{separator}{key}" if parent_key else key
         if isinstance(value, collections.abc.MutableMapping):
-            items.extend(flatten_dict(value, new_key, separator).items())
+            items.extend(flatten_dict(value, str(new_key), separator).items())
         elif isinstance(value, (list, tuple)):
             for keyx, val in enumerate(value):
-                items.extend(flatten_dict({str(keyx): val}, new_key).items())
+                items.extend(flatten_dict({str(keyx): val}, str(new_key), separator).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From e3950a6d368468029a28ab28e20f79258285d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 07/63] fix: the documented output format 'yaml' was refused on
 the command line

---
 castep_outputs/cli/args.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 232b4af..41f4ea0 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -39,7 +39,8 @@ def get_parser() -> argparse.ArgumentParser:
                             default="WARNING")
     arg_parser.add_argument("-o", "--output", help="File to write output, default: screen",
                             default=None)
-    arg_parser.add_argument("-f", "--out-format", help="Output format", choices=SUPPORTED_FORMATS,
+    arg_parser.add_argument("-f", "--out-format", help="Output format",
+                            choices=(*SUPPORTED_FORMATS, "yaml"),
                             default="json")
 
     arg_parser.add_argument("-t", "--testing", action="store_true",
-- 
2.43.0


From a86a6879cacfa753c66f35f597033574426ecd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 08/63] fix: file selection for seednames with dots or glob
 characters, or in other directories

---
 castep_outputs/cli/args.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 41f4ea0..b6b98ed 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 
 import argparse
+import glob
 from collections.abc import Sequence
 from pathlib import Path
 
@@ -99,12 +100,13 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
             getattr(args, ext).append(str(seed))
         else:
             for typ in ALL_NAMES:
-                trial = seed.with_suffix(f".{typ}")
+                trial = Path(f"{seed}.{typ}")  # Seeds may contain dots
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-            if args.inc_err and (err_files := seed.parent.glob(f"{seed}.*.err")):
-                args.err.extend(map(str, err_files))
+            if args.inc_err:
+                err_files = seed.parent.glob(f"{glob.escape(seed.name)}.*.err")
+                args.err.extend(sorted(str(file) for file in err_files if file.is_file()))
 
     return args
 
-- 
2.43.0


From e16a77e0ee664f0b2a4fad7f21e391cfffa120b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 09/63] fix: parse_single ignored parser names it did not know,
 among them those of binary files

---
 castep_outputs/cli/castep_outputs_main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 7f7417e..0965984 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -63,7 +63,10 @@ def parse_single(in_file: str | Path | TextIO,
         in_file = Path(in_file)
 
     if isinstance(parser, str):
-        parser = PARSERS.get(parser)
+        if parser not in ALL_PARSERS:
+            raise ValueError(f"Parser {parser} not found")
+
+        parser = ALL_PARSERS[parser]
 
     if parser is None and isinstance(in_file, Path):
         ext = in_file.suffix.strip(".")
-- 
2.43.0


From 7eba39e879fd4d9787dbf5f532704453300e3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 10/63] fix: parse_all could not write several Path inputs as
 JSON

---
 castep_outputs/cli/castep_outputs_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 0965984..64efadf 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -128,7 +128,7 @@ def parse_all(
     for typ, paths in files.items():
         parser = ALL_PARSERS[typ]
         for path in paths:
-            data[path] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
+            data[str(path)] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
 
     if len(data) == 1:
         data = data.popitem()[1]
-- 
2.43.0


From 88f86d04a01718fbd077a9f4589affa24ff93e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 11/63] fix: the binary parsers were not exposed at the top
 level as documented

---
 castep_outputs/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/__init__.py b/castep_outputs/__init__.py
index 6aed080..e6c864c 100644
--- a/castep_outputs/__init__.py
+++ b/castep_outputs/__init__.py
@@ -3,6 +3,7 @@
 __author__ = "Jacob Wilkins"
 __version__ = "0.3.3"
 
+from .bin_parsers import parse_cst_esp_file, parse_epme_bin_file  # noqa: F401
 from .cli.castep_outputs_main import parse_single  # noqa: F401
 from .parsers import *  # noqa: F403
 from .tools import MDGeomParser as MDGeomParser
-- 
2.43.0


From bbae5448922e8577a9b82fa188d588a4a988b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 12/63] fix: determine_type judged text by its first number
 only (mixed vectors crashed)

---
 castep_outputs/utilities/type_conv.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/utilities/type_conv.py b/castep_outputs/utilities/type_conv.py
index f18b914..92708d2 100644
--- a/castep_outputs/utilities/type_conv.py
+++ b/castep_outputs/utilities/type_conv.py
@@ -83,20 +83,23 @@ def determine_type(data: str) -> type:
     <class 'float'>
     >>> determine_type('BEEF')
     <class 'str'>
+    >>> determine_type('0 0.25 0')
+    <class 'float'>
+    >>> determine_type('3abc')
+    <class 'str'>
     """
     if data.title() in {"T", "True", "F", "False"}:
         return bool
 
-    if re.match(rf"(?:\s*{REs.EXPFNUMBER_RE})+", data):
-        return float
+    words = data.split()
 
-    if re.match(rf"(?:\s*{REs.RATIONAL_RE})+", data):
-        return float
+    if not words or not all(map(REs.FLOAT_RAT_RE.fullmatch, words)):
+        return str
 
-    if re.match(rf"(?:\s*{REs.INTNUMBER_RE})+", data):
+    if all(re.fullmatch(REs.INTNUMBER_RE, word) for word in words):
         return int
 
-    return str
+    return float
 
 
 @overload
-- 
2.43.0


From 5815e54cf9b0ab2ead9ccc6857dd2995c3e08dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 13/63] fix: cell/param keywords holding digits and text
 starting with a digit, sign or dot were dropped

---
 castep_outputs/parsers/cell_param_file_parser.py |  2 +-
 castep_outputs/utilities/castep_res.py           | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c6ffb76..620badf 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -160,7 +160,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             key = key.strip().lower()
             logger("Found param %s", key)
 
-            if " " in val.strip():
+            if len(val.split()) > 1:
                 val = to_type(val.split(), determine_type(val))
             else:
                 val = to_type(val, determine_type(val))
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 00da67e..055ec09 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -599,13 +599,13 @@ DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-^\s*(?P<key>[a-z_]+)
+^\s*(?P<key>[a-z_][a-z\d_]*)
 \s*[ \t:=]\s*
-    (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
-    # String starts with anything which is NOT digit,+,-,. or space.
-    (?P<str>[^-+\d\s.](?:\s*\S+)*))
+    (?:(?P<val>{FLOAT_RAT_RE.pattern}(?:\s+{FLOAT_RAT_RE.pattern})*)
     # If numeric value, chance of unit
-    (?(val)(?P<unit>\s\S+)?)
+    (?P<unit>\s+\S+)?|
+    # Anything which is not just numbers and a unit.
+    (?P<str>[^\s:=]\S*(?:\s+\S+)*))
 \s*$
 """,
     re.IGNORECASE | re.VERBOSE,
-- 
2.43.0


From 99059d6bb3d892b836d7a283d9e4a71667ec6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 14/63] fix: negative rationals were split into two numbers

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 055ec09..4308402 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -209,7 +209,7 @@ EXPFNUMBER_RE = f"(?:{EXPNUMBER_RE}|{FNUMBER_RE})"
 #: Integer ratio.
 #:
 #: :meta hide-value:
-RATIONAL_RE = rf"\b{INTNUMBER_RE}/{INTNUMBER_RE}\b"
+RATIONAL_RE = rf"(?<![\w.]){INTNUMBER_RE}/{INTNUMBER_RE}\b"
 
 #: Generalised number.
 #:
-- 
2.43.0


From 4ad2dc933f96d01cdc7b0c25cdea98868a7f875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 15/63] fix: ionic constraints from the tenth on were dropped

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 4308402..96b0c51 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -611,7 +611,7 @@ PARAM_VALUE_RE = re.compile(
     re.IGNORECASE | re.VERBOSE,
 )
 
-IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d\s+{ATOM_RE}{THREEVEC_RE}")
+IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
     rf"^\s*(?P<spec>{SPECIES_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
-- 
2.43.0


From 0e3e7b82f023f7c7d47391a400a29d7bf200a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 16/63] fix: positions of tagged species were dropped

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 96b0c51..d5a2826 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -613,7 +613,7 @@ PARAM_VALUE_RE = re.compile(
 
 IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
-    rf"^\s*(?P<spec>{SPECIES_RE})"
+    rf"^\s*(?P<spec>{SPECIES_RE}(?::\w+)?)"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
 )
 POSITIONS_SPIN_RE = re.compile(
-- 
2.43.0


From 7ca94e7252af227a354b4c058384f3f495666aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 17/63] fix: mixture of a position was dropped unless spaced in
 one particular way

---
 castep_outputs/utilities/castep_res.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index d5a2826..d731177 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -621,7 +621,8 @@ POSITIONS_SPIN_RE = re.compile(
     re.IGNORECASE,
 )
 POSITIONS_MIXTURE_RE = re.compile(
-    rf"mixture[= :\t]\(\s*{labelled_floats(('mix', 'ratio'))}\)",
+    rf"mixture\s*[= :\t]\s*\("
+    rf"\s*(?P<mix>{NUMBER_RE.pattern})\s+(?P<ratio>{NUMBER_RE.pattern})\s*\)",
     re.IGNORECASE,
 )
 SPEC_PROP_RE = re.compile(rf"\s*{ATOM_NAME_RE}\s+(?P<val>.*)")
-- 
2.43.0


From 18bd5a020fe73fa99376877cee9b8dffec520307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 18/63] fix: blocks whose name follows a tab were not
 recognised

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 620badf..9cb8427 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -138,7 +138,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
         if block := Block.from_re(
             line,
             cell_param_file,
-            re.compile(r"^\s*%block ", re.IGNORECASE),
+            re.compile(r"^\s*%block\s", re.IGNORECASE),
             re.compile(r"^\s*%endblock", re.IGNORECASE),
         ):
             block_title = next(block).split()[1].lower()
-- 
2.43.0


From 73065908700288a02e19526e0380c05943182d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 19/63] fix: units of positions_abs_intermediate and
 positions_abs_product were dropped

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 9cb8427..8e9627d 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -714,8 +714,8 @@ _PARSERS: dict[str, Callable] = {
     "positions_frac_intermediate": _parse_positions,
     "positions_frac_product": _parse_positions,
     "positions_abs": _parse_positions_abs,
-    "positions_abs_intermediate": _parse_positions,
-    "positions_abs_product": _parse_positions,
+    "positions_abs_intermediate": _parse_positions_abs,
+    "positions_abs_product": _parse_positions_abs,
     "positions_aspectral_intermediate": _parse_positions,
     "positions_aspectral_product": _parse_positions,
     "species_pot": _parse_species_pot,
-- 
2.43.0


From 621447cc8a0eca4d5eced29afe660f08a6f9ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 20/63] fix: units holding a digit were read as data of a block

---
 castep_outputs/parsers/cell_param_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 8e9627d..5e013ea 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -689,7 +689,8 @@ def _parse_general(block: Block) -> GeneralBlock:
 
             block_data["data"][spec] = val
 
-        elif numbers := REs.FLOAT_RAT_RE.findall(line):
+        elif re.match(rf"\s*{REs.FLOAT_RAT_RE.pattern}", line):
+            numbers = REs.FLOAT_RAT_RE.findall(line)
             assert isinstance(block_data["data"], list)
             block_data["data"].append(to_type(numbers, float))
 
-- 
2.43.0


From ad735b02c7bd3d8ce1811629aada40b3645c5927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 21/63] fix: sign of a projector energy in a pseudopotential
 string was dropped

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index d731177..04c1348 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -322,7 +322,7 @@ PSPOT_PROJ_RE = re.compile(
     rf"""
     (?P<type>[{PROJ_TYPES}])
     (?P<beta_rc> {FP_NUM_RE})?
-    (?:(?:=[+-]?|[+-]) (?P<beta_e> {FP_NUM_RE}))?
+    (?:(?=[=+-])=?(?P<beta_e> [+-]?{FP_NUM_RE}))?
     (?:@(?P<beta_delta>{FP_NUM_RE}))?
     """,
     re.VERBOSE,
-- 
2.43.0


From 7ec6c74bdc3fe2d913ffe2be367bad2f3bc5049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 22/63] fix: developer code: repeated blocks, key:value
 settings and values with punctuation were lost or invented

---
 castep_outputs/parsers/cell_param_file_parser.py | 12 +++++++-----
 castep_outputs/utilities/castep_res.py           |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 5e013ea..c080576 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -349,15 +349,15 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
     # Get groups
     for blk in matches:
         block_title = normalise_key(blk.group(1))
-        block_str = blk.group(0).split(":")[1]
+        block_str = blk.group(2)
         block: DevelBlock = {}
         for par in re.finditer(REs.DEVEL_CODE_VAL_RE, block_str, re.IGNORECASE | re.MULTILINE):
-            key, val = re.split(r"[:=]", par.group(0))
+            key, val = re.split(r"[:=]", par.group(0), maxsplit=1)
             key = normalise_key(key)
             typ = determine_type(val)
             block[key] = to_type(val, typ)
-            block_str = block_str.replace(par.group(0), "")
 
+        block_str = re.sub(REs.DEVEL_CODE_VAL_RE, "", block_str)
         if block_str.strip():
             block["data"] = []
             for par in block_str.split():
@@ -374,7 +374,7 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
 
     # Catch remainder
     for par in re.finditer(REs.DEVEL_CODE_VAL_RE, main_block):
-        key, val = re.split(r"[:=]", par.group(0))
+        key, val = re.split(r"[:=]", par.group(0), maxsplit=1)
         key = normalise_key(key)
         typ = determine_type(val)
 
@@ -383,10 +383,12 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
 
         devel_code_parsed[key] = to_type(val, typ)
 
+    main_block = re.sub(REs.DEVEL_CODE_VAL_RE, "", main_block)
+
     # Catch present components
     present_code_re = re.compile(r"""
         (?<![:=])        # Does not follow : or =
-        \b[A-Za-z_-]+\b  # One "word"
+        \b[A-Za-z_][\w-]*\b  # One "word"
         (?![:=])         # Not followed by : or =
     """, re.VERBOSE)
 
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 04c1348..180a89b 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -595,7 +595,7 @@ BANDS_FERMI_RE = re.compile(
 
 DEVEL_CODE_VAL_RE = r"[A-Za-z0-9_]+[:=][^ \t\n;]+"
 DEVEL_CODE_BLOCK_RE = rf"([A-Za-z0-9_]+):(?:\s*{DEVEL_CODE_VAL_RE}\s*)*:end\1"
-DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
+DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(.*?):end\1\b"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-- 
2.43.0


From 92f305a6cd3572dba22385f24ef4e4b127664949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 23/63] fix: predicted potential files of mixed functionals
 depended on the hash order of a set

---
 castep_outputs/tools/get_generated_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index c821da7..f564ca9 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -469,7 +469,8 @@ def _get_generated_files(
         elif xc & {"libxc_gga", "libxc_hyb_gga"}:
             theory = "PBE"
         else:
-            theory = XC_TO_PS_THEORY.get(next(iter(xc)), "LDA")
+            known_xc = sorted(xc & XC_TO_PS_THEORY.keys())
+            theory = XC_TO_PS_THEORY[known_xc[0]] if known_xc else "LDA"
 
         otf_name = f"{spec}_EXT_{theory}_OTF"
 
-- 
2.43.0


From 7621b11b3a6bbd9f861c8d1e7ea52cd3d88fe97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 24/63] fix: bare developer-code flags crashed the prediction
 of files

---
 castep_outputs/tools/get_generated_files.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index f564ca9..6d16f46 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -187,7 +187,7 @@ def get_spectral_files(
         else:
             raise KeyError("Invalid param file")
 
-    spectral_devel = devel_code.get("spectral", {})
+    spectral_devel = devel_code.get("spectral") or {}
     spec_calc["elnes"] = spectral_devel.get("calc_core", spec_calc["elnes"])
     spec_calc["ome"] = spectral_devel.get("calc_ome", spec_calc["ome"])
     spec_calc["pdos"] = spectral_devel.get("calc_pdos", param_data.get("pdos_calculate_weights"))
@@ -496,7 +496,7 @@ def _get_generated_files(
     if devel_code.get("calc_elastic") or "elastic" in devel_code:
         out_files.add(f"{seedname}.elastic")
         if (
-            devel_code.get("elastic", {}).get("deform_pot")
+            (devel_code.get("elastic") or {}).get("deform_pot")
             and not is_mgga
             and not is_usp
             and not is_spin
@@ -569,9 +569,9 @@ def _get_generated_files(
         out_files.add(f"{seedname}.phonon")
         if param_data.get("phonon_calculate_dos"):
             out_files.add(f"{seedname}.phonon_dos")
-        if filename := devel_code.get("phonon", {}).get("write_external_born"):
+        if filename := (devel_code.get("phonon") or {}).get("write_external_born"):
             out_files.add(filename)
-        if devel_code.get("phonon", {}).get("write_first_order_potential"):
+        if (devel_code.get("phonon") or {}).get("write_first_order_potential"):
             out_files.add(f"{seedname}-*-*-*.ep_pot")
 
     if task in {Task.EFIELD, Task.PHONON_EFIELD}:
@@ -584,9 +584,9 @@ def _get_generated_files(
 
     if tddft_on:
         out_files.add(f"{seedname}.tddft")
-        if devel_code.get("tddft", {}).get("den1_write"):
+        if (devel_code.get("tddft") or {}).get("den1_write"):
             out_files.add(f"{seedname}.td_den")
-        if devel_code.get("tddft", {}).get("save_td_den_fmt"):
+        if (devel_code.get("tddft") or {}).get("save_td_den_fmt"):
             out_files.add("den_dump*.dat")
 
     return sorted(out_files)
-- 
2.43.0


From 4b32a56d563227fc78b2a6a4352db9def50fa9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 25/63] fix: letter case of geom_method and md_ensemble changed
 the predicted files

---
 castep_outputs/tools/get_generated_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 6d16f46..666cf32 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -523,7 +523,7 @@ def _get_generated_files(
     elif task is Task.GEOMOPT:
         if param_data.get("write_geom", True):
             out_files.add(f"{seedname}.geom")
-        if param_data.get("geom_method") == "pes":
+        if param_data.get("geom_method", "").lower() == "pes":
             out_files.add(f"{seedname}.pes")
     elif task is Task.SPECTRAL:
         out_files |= get_spectral_files(
@@ -534,7 +534,7 @@ def _get_generated_files(
     elif task is Task.MD:
         if param_data.get("write_md", True):
             out_files.add(f"{seedname}.md")
-        if param_data.get("md_ensemble") in {"nvhug", "nphug"}:
+        if param_data.get("md_ensemble", "").lower() in {"nvhug", "nphug"}:
             out_files.add(f"{seedname}.hug")
 
         extrap = param_data.get("md_extrap", "first").lower()
-- 
2.43.0


From 11d1ae1ab2b9de698c00c2bbf6cfa8ca94247c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 26/63] fix: seednames holding dots were cut short when
 predicting files

---
 castep_outputs/tools/get_generated_files.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 666cf32..dda30a3 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -288,17 +288,19 @@ def get_generated_files(
     May struggle to get exact information from complex xc_definitions.
     """
     seedname = Path(seedname)
+    if seedname.suffix in {".cell", ".param"}:
+        seedname = seedname.with_suffix("")
     if param_file is None:
-        param_file = seedname.with_suffix(".param")
+        param_file = Path(f"{seedname}.param")  # Seeds may contain dots
     if cell_file is None:
-        cell_file = seedname.with_suffix(".cell")
+        cell_file = Path(f"{seedname}.cell")
 
     if param_data is None:
         param_data = parse_cell_param_file(param_file)[0] if param_file.exists() else {}
     if cell_data is None:
         cell_data = parse_cell_param_file(cell_file)[0] if cell_file.exists() else {}
 
-    return _get_generated_files(param_data, cell_data, seedname.with_suffix(""))
+    return _get_generated_files(param_data, cell_data, seedname)
 
 
 def _get_generated_files(
@@ -309,7 +311,7 @@ def _get_generated_files(
     if cell_data is None:
         cell_data = {}
 
-    seedname = Path(src).stem
+    seedname = Path(src).name
     param_data = deepcopy(param_data)
     devel_code = param_data.get("devel_code", {})
     raw_task = param_data.get("task", "SINGLEPOINT").upper()
-- 
2.43.0


From e1b3a341560c7c833d3f6a76466cab196c8bffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 27/63] fix: k-points from the tenth on were dropped from the
 k-point list

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 94b612d..ca253e8 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2109,7 +2109,7 @@ def _process_kpoint_blocks(block: Block, *,
             elif "Number of kpoints" in line:
                 accum["num_kpoints"] = to_type(get_numbers(line)[0], int)
     else:
-        kp_block_re = re.compile(gen_table_re(r"\d\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
+        kp_block_re = re.compile(gen_table_re(r"\d+\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
                                               r"\+"))
         accum: KPointsList = {"points": [{"qpt": to_type(match.group("qx", "qy", "qx"), float),
                                           "weight": to_type(match["wt"], float)}
-- 
2.43.0


From 03f74e4d51cc7d6887881bd4eb4cce3e0f506068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 28/63] fix: digits of the unit were returned as a component of
 the target stress

---
 castep_outputs/parsers/castep_file_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index ca253e8..239cf99 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -711,6 +711,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found target stress")
 
+            next(block)  # Skip title, whose unit may hold numbers
             accum = [to_type(number, float)
                      for line in block
                      for number in get_numbers(line)]
-- 
2.43.0


From 05bece53174a26be71fe7fe33762f738f8940b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 29/63] fix: last digit of dimensionless pair potential
 parameters was taken for their unit

---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 180a89b..f24043b 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -406,7 +406,7 @@ PAIR_POT_RES = {
             (?P<tag>\w+)?\s*\*\s*
             (?P<label>\w+)\s*
             {labelled_floats(("params",), counts=("1,4",))}\s*
-            [\w^/*]+\s* \* \s*
+            (?:[\w^/*]+\s*)? \* \s*
             <--\s*(?P<type>\w+)
             """,
         re.ASCII | re.VERBOSE,
@@ -423,7 +423,7 @@ PAIR_POT_RES = {
         ^(?P<tag>\w+)?\s*\*\s*
         (?P<label>\w+)\s*
         {labelled_floats(("params",))}\s*
-        [\w^/*]+\s* \* \s*
+        (?:[\w^/*]+\s*)? \* \s*
         <--\s*(?P<type>\w+)
         """,
         re.VERBOSE,
-- 
2.43.0


From 56ab52e10a529cb975ebf9d1dad89b48d668e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 30/63] fix: three-body tables of tagged pair potentials
 crashed the parser

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 239cf99..3cdabbe 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2478,7 +2478,7 @@ def _process_pair_params(block_in: Block) -> dict[str, dict[str, dict | str]]:
                     labels = ((match["spec"],),)
 
         # Three-body
-        elif block := Block.from_re(line, block_in, "Three Body", r"^\s*\*+\s*$"):
+        elif block := Block.from_re(line, block_in, "Three Body", r"^\w*\s*\*+\s*$"):
             for blk_line in block:
                 if match := REs.PAIR_POT_RES["three_body_spec"].match(blk_line):
                     labels = (tuple(match["spec"].split()),)
-- 
2.43.0


From ef88041c29f6bb45d4e7c68e8eec31ba7831c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 31/63] fix: DFT-D parameters of tagged species were not read
 as those of a species

---
 castep_outputs/parsers/castep_file_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 3cdabbe..e7eadc2 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2302,7 +2302,12 @@ def _process_dftd(block: Block) -> dict[str, Any]:
     val: Any
 
     for line in block:
-        if len(match := line.split(":")) == 2:
+        if match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
+                             labelled_floats(("C6", "R0")), line):
+            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
+                                              "r0": float(match["R0"])}
+
+        elif len(match := line.split(":")) == 2:
             key, val = match
             val = normalise_string(val)
             if "Parameter" in key:
@@ -2310,11 +2315,6 @@ def _process_dftd(block: Block) -> dict[str, Any]:
 
             dftd[normalise_key(key)] = val
 
-        elif match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
-                               labelled_floats(("C6", "R0")), line):
-            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
-                                              "r0": float(match["R0"])}
-
     return dftd
 
 
-- 
2.43.0


From f16a393bec8a78dd4af2186575e0228b79dbb344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 32/63] fix: symmetry-related atoms of tagged species crashed
 the parser

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index e7eadc2..c2da085 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2178,7 +2178,7 @@ def _process_symmetry(block: Block) -> tuple[SymmetryReport, ConstraintsReport]:
             next(block)  # elif "symmetry related atoms:" in line:
 
             while line := next(block).strip():
-                key, val = line.split(":")
+                key, val = line.rsplit(":", 1)
                 curr_sym["symmetry_related"].extend((key, int(ind))
                                                     for ind in val.split())
 
-- 
2.43.0


From 6ae881eff2a2dc7dc8dbed88172dbc8cd557cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 33/63] fix: the k-point list replaced the k-point grid printed
 before it

---
 castep_outputs/parsers/castep_file_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index c2da085..eacd699 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -732,7 +732,8 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found k-points")
 
-            curr_run["k-points"] = _process_kpoint_blocks(block, implicit_kpoints=True)
+            curr_run.setdefault("k-points", {})
+            curr_run["k-points"].update(_process_kpoint_blocks(block, implicit_kpoints=True))
 
         elif block := Block.from_re(line, castep_file,
                                     gen_table_re("Number +Fractional coordinates +Weight", r"\+"),
@@ -743,7 +744,8 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found k-points list")
 
-            curr_run["k-points"] = _process_kpoint_blocks(block, implicit_kpoints=False)
+            curr_run.setdefault("k-points", {})
+            curr_run["k-points"].update(_process_kpoint_blocks(block, implicit_kpoints=False))
 
         elif "Applied Electric Field" in line:
 
-- 
2.43.0


From bc101d1bb448e17218d610cafed50a2c9b415c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 34/63] fix: unit 1/A of pair potential parameters was read as
 a parameter

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index f24043b..b66bc33 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -405,7 +405,7 @@ PAIR_POT_RES = {
         rf"""
             (?P<tag>\w+)?\s*\*\s*
             (?P<label>\w+)\s*
-            {labelled_floats(("params",), counts=("1,4",))}\s*
+            {labelled_floats(("params",), counts=("1,4",))}(?=\s)\s*
             (?:[\w^/*]+\s*)? \* \s*
             <--\s*(?P<type>\w+)
             """,
-- 
2.43.0


From b4bd12c4c4fb1f1098e3e6f6a2af576568338f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 35/63] fix: the line following a one-line warning was skipped

---
 castep_outputs/parsers/castep_file_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index eacd699..7a29da7 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -280,10 +280,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             warn = line.strip()
 
-            for tst, line in enumerate(castep_file):
+            for line in castep_file:
                 if not line.strip() or not re.match(match.group(1) + r"\s+", line):
-                    if tst:
-                        castep_file.rewind()
+                    castep_file.rewind()
                     break
                 warn += " " + line.strip()
 
-- 
2.43.0


From fb9ff5a7f387462cdf6b6b4f9dd985cfbd67a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 36/63] fix: SCF tables of fixed-occupancy calculations lost
 their first row and gave energy gains as Fermi energies

---
 castep_outputs/parsers/castep_file_parser.py | 8 ++++++--
 castep_outputs/utilities/castep_res.py       | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 7a29da7..8cd7c35 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1711,12 +1711,16 @@ def _process_scf(block: Block) -> list[SCFReport]:
     scf = []
     curr: SCFReport = {}
     debug_info: SCFDebugInfo = {}
+    loop_re = REs.SCF_LOOP_RE
     for line in block:
-        if match := REs.SCF_LOOP_RE.match(line):
+        if line.lstrip().startswith("SCF loop") and "Fermi" not in line:
+            loop_re = REs.SCF_LOOP_FIX_OCC_RE
+
+        elif match := loop_re.match(line):
             if curr:
                 scf.append(curr)
 
-            curr = match.groupdict()
+            curr = {"fermi_energy": None, **match.groupdict()}
             if debug_info:  # Debug info refers to next cycle
                 curr["debug_info"] = debug_info
             debug_info = {}
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index b66bc33..d9e406b 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -298,6 +298,12 @@ SCF_LOOP_RE = re.compile(
     rf"{labelled_floats(('energy', 'fermi_energy', 'energy_gain'))}?\s*"
     f"{labelled_floats(('time',))}",
 )
+# SCF Loop of calculations with fixed occupancies
+SCF_LOOP_FIX_OCC_RE = re.compile(
+    r"\s*(?:Initial|\d+)\s*"
+    rf"{labelled_floats(('energy', 'energy_gain'))}?\s*"
+    f"{labelled_floats(('time',))}",
+)
 
 # Spin density
 INTEGRATED_SPIN_DENSITY_RE = re.compile(
-- 
2.43.0


From bd11d6f9f79dc2e91b72cdfb0b283fd42c0df3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 37/63] fix: finite-basis corrections ignored the filters,
 dropped earlier lists, and were not read for ten or more cut-offs

---
 castep_outputs/parsers/castep_file_parser.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 8cd7c35..9df5367 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -475,10 +475,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             curr_run["occupancies"].append(_process_occupancies(block))
 
         # SCF Basis set
-        elif match := re.search(r" with +(\d) +cut-off energies.", line):
-
-            if Filters.SCF not in to_parse:
-                continue
+        elif match := re.search(r" with +(\d+) +cut-off energies.", line):
 
             ncut = int(match.group(1))
             line = ""
@@ -486,14 +483,19 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             block = Block.from_re(line, castep_file,
                                   "",
                                   "^-+ <-- SCF", n_end=ncut * 3)
-            data = get_only(parse_castep_file(block, Filters.HIGH | Filters.SCF))
+            data = get_only(parse_castep_file(block, to_parse))
 
-            scf = data.pop("scf")
             curr_run["bsc_energies"] = data.pop("energies")
 
-            curr_run["scf"], curr_run["bsc_scf"] = scf[-1], scf[:-1]
+            if Filters.SCF in to_parse:
+                scf = data.pop("scf")
+                curr_run["scf"], curr_run["bsc_scf"] = scf[-1], scf[:-1]
 
-            curr_run.update(data)
+            for key, val in data.items():
+                if key in curr_run and isinstance(val, list):
+                    curr_run[key].extend(val)
+                else:
+                    curr_run[key] = val
 
         # Energies
         elif line.startswith("Final energy"):
-- 
2.43.0


From 59e3105212d99a6fcbc699d048e61544580a802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 38/63] fix: d and f orbitals were dropped from orbital
 populations

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index d9e406b..13f6780 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -438,7 +438,7 @@ PAIR_POT_RES = {
 
 # Orbital population
 ORBITAL_POPN_RE = re.compile(
-    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF][xyz]?)"
+    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF]\S*)"
     rf"\s*{labelled_floats(('charge',))}",
 )
 
-- 
2.43.0


From 392ab5617970a0fa3353e08be4bbcf832d738063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 39/63] fix: names of delta-SCF files holding 'spin' or 'nr.'
 were taken for those of a band

---
 castep_outputs/parsers/castep_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 9df5367..d51773f 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2745,9 +2745,9 @@ def _process_delta_scf(block: Block) -> DeltaSCFReport:
             accum["file"] = line.split()[-1]
         elif "MODOS state" in line:
             accum["states"].append({})
-        elif "nr." in line:
+        elif "MODOS band  nr." in line:
             accum["states"][-1]["band"] = int(get_numbers(line)[0])
-        elif "spin" in line:
+        elif "MODOS band has spin" in line:
             accum["states"][-1]["spin"] = int(get_numbers(line)[0])
         elif "Population of state" in line:
             numbers = get_numbers(line)
-- 
2.43.0


From 1ba2d286cd788b6d38e3adbf464ef34964cb1c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 40/63] fix: zero spins were dropped from bond populations

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index d51773f..802865e 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2281,7 +2281,7 @@ def _process_bond_analysis(block: Block) -> BondData:
              if (match := REs.BOND_RE.match(line))}
 
     for val in accum.values():
-        if not val["spin"]:
+        if val["spin"] is None:
             del val["spin"]
 
     return accum
-- 
2.43.0


From f0ecc6a40acdc9ddc98b0ce98407d6eecabea55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 41/63] fix: final configurations crashed the parser unless
 geometry optimisation steps were asked for

---
 castep_outputs/parsers/castep_file_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 802865e..2ce0c09 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1055,6 +1055,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found final geom configuration")
 
+            curr_run.setdefault("geom_opt", defaultdict(list))
             curr_run["geom_opt"]["final_configuration"] = _process_final_config_block(block)
 
         elif block := Block.from_re(line, castep_file,
-- 
2.43.0


From d97c57fa606f37e4e68dff2aeb42cb91cdf97bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 42/63] fix: trial steps of geometry optimisations were
 returned whatever the filters

---
 castep_outputs/parsers/castep_file_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 2ce0c09..5a4695f 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1108,6 +1108,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.search(rf"trial guess \(lambda=\s*({REs.EXPFNUMBER_RE})\)", line):
 
+            if Filters.GEOM_OPT not in to_parse:
+                continue
+
             curr_run.setdefault("geom_opt", defaultdict(list))
 
             curr_run["geom_opt"]["trial"].append(float(match.group(1)))
-- 
2.43.0


From e62da93e9c1d32d58c6204126244ca0026a42009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 43/63] fix: SCF cycles of MD and geometry optimisation steps
 were lost even with all sections asked for

---
 castep_outputs/parsers/castep_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 5a4695f..3b0e4a5 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1023,7 +1023,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = get_only(parse_castep_file(block, Filters.HIGH | to_parse))
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
                         replace=True)
@@ -1085,7 +1085,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             logger("Found geom block (iteration %d)", len(curr_run["geom_opt"]["iterations"]) + 1)
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = get_only(parse_castep_file(block, Filters.HIGH | to_parse))
 
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
-- 
2.43.0


From ec8146b7a024292fce2aa286b549d0e86c47b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 44/63] fix: MD and geometry optimisation steps which print
 nothing of note crashed the parser

---
 castep_outputs/parsers/castep_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 3b0e4a5..a62bded 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1023,7 +1023,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block, Filters.HIGH | to_parse))
+            data = get_only(parse_castep_file(block, Filters.HIGH | to_parse) or [{}])
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
                         replace=True)
@@ -1085,7 +1085,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             logger("Found geom block (iteration %d)", len(curr_run["geom_opt"]["iterations"]) + 1)
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block, Filters.HIGH | to_parse))
+            data = get_only(parse_castep_file(block, Filters.HIGH | to_parse) or [{}])
 
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
-- 
2.43.0


From 8edbad6845a85cbca0fb4b22019fa2035c77c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 45/63] fix: final bulk modulus and frequency were not read
 with the final configuration unless optimisation steps were asked for

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index a62bded..1d91f00 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1120,7 +1120,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                                f"(?P<value>{REs.EXPFNUMBER_RE}).*",
                                line, re.IGNORECASE):
 
-            if Filters.GEOM_OPT not in to_parse:
+            if Filters.GEOM_OPT not in to_parse and Filters.FINAL_CONFIG not in to_parse:
                 continue
 
             key, val = normalise_string(match["key"]).lower(), to_type(match["value"], float)
-- 
2.43.0


From f0a8584857c9640b1925758ff92b6e29137aa4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 46/63] fix: MD summaries of the steps were not returned when
 asked for without the steps

---
 castep_outputs/parsers/castep_file_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 1d91f00..0d5a3e9 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1016,14 +1016,15 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                 gen_table_re("", "=+"),
             )
         ):
-            if Filters.MD not in to_parse:
+            if Filters.MD not in to_parse and Filters.MD_SUMMARY not in to_parse:
                 continue
 
             logger("Found MD Block (step %d)", len(curr_run["md"]))
 
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block, Filters.HIGH | to_parse) or [{}])
+            step_filters = Filters.HIGH | to_parse if Filters.MD in to_parse else Filters.MD_SUMMARY
+            data = get_only(parse_castep_file(block, step_filters) or [{}])
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
                         replace=True)
-- 
2.43.0


From 4b688aaa13a6ee6a3e31c2e85e423ab40e4aa2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 47/63] fix: a run ended early in an MD or geometry
 optimisation step swallowed the run appended to it

---
 castep_outputs/parsers/castep_file_parser.py | 19 +++++++++++++++----
 castep_outputs/utilities/castep_res.py       |  5 +++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 0d5a3e9..5fe989a 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -203,7 +203,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
         logger("%s", line, level="debug")
         # Build Info
         if block := Block.from_re(line, castep_file,
-                                  r"^\s*Compiled for",
+                                  REs.NEW_RUN_RE,
                                   REs.EMPTY):
 
             if curr_run:
@@ -1006,16 +1006,18 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                 line,
                 castep_file,  # Capture general MD step
                 "Starting MD iteration",
-                "(finished MD iteration|Finished MD$)",
+                rf"(finished MD iteration|Finished MD$|{REs.NEW_RUN_RE})",
             )
         ) or (
             block := Block.from_re(
                 line,
                 castep_file,  # Capture 0th iteration
                 "Starting MD",
-                gen_table_re("", "=+"),
+                f"{gen_table_re('', '=+')}|{REs.NEW_RUN_RE}",
             )
         ):
+            _leave_new_run(block, castep_file)
+
             if Filters.MD not in to_parse and Filters.MD_SUMMARY not in to_parse:
                 continue
 
@@ -1061,7 +1063,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif block := Block.from_re(line, castep_file,
                                     rf"Starting {REs.MINIMISERS_RE} iteration\s*\d+\s*\.{{3}}",
-                                    rf"^=+$|^\s*Finished\s+{REs.MINIMISERS_RE}\s*$", n_end=2):
+                                    rf"^=+$|^\s*Finished\s+{REs.MINIMISERS_RE}\s*$|{REs.NEW_RUN_RE}",
+                                    n_end=2):
+            _leave_new_run(block, castep_file)
 
             if Filters.GEOM_OPT not in to_parse:
                 continue
@@ -1462,6 +1466,13 @@ def _process_spec_prop(block: Block) -> list[list[str]]:
     return accum
 
 
+def _leave_new_run(block: Block, castep_file: FileWrapper | Block) -> None:
+    """Leave the start of the next run to be read if `block` ran into it (run ended early)."""
+    if re.search(REs.NEW_RUN_RE, block[-1]):
+        block.remove_bounds(0, 1)
+        castep_file.rewind()
+
+
 def _process_md_block(block: Block) -> MDInfo:
     curr_data = {match.group("key").strip(): float(match.group("val"))
                  for line in block
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 13f6780..a7155b1 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -260,6 +260,11 @@ TAG_RE = re.compile(r"<--\s*(?P<tag>\w+)")
 #: :meta hide-value:
 EMPTY = r"^\s*$"
 
+#: Start of a new run in a .castep file.
+#:
+#: :meta hide-value:
+NEW_RUN_RE = r"^\s*Compiled for"
+
 #: CASTEP Atom RegEx with optional index.
 #:
 #: :meta hide-value:
-- 
2.43.0


From 2f9e1c24c12b05a50b55823945b3c3d6029dee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 48/63] fix: the order of the entries of .xrd_sf results
 changed from run to run (hash order of a set)

---
 castep_outputs/parsers/xrd_sf_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/xrd_sf_file_parser.py b/castep_outputs/parsers/xrd_sf_file_parser.py
index e30999f..8db2d7d 100644
--- a/castep_outputs/parsers/xrd_sf_file_parser.py
+++ b/castep_outputs/parsers/xrd_sf_file_parser.py
@@ -55,7 +55,7 @@ def parse_xrd_sf_file(xrd_sf_file: TextIO) -> XRDSFFileInfo:
     headers = next(xrd_sf_file).split()[3:]
     # Turn Re(x) into x_re
     headers = [f"{head[3:-1]}_{head[0:2]}".lower() for head in headers]
-    headers_wo = {head[:-3] for head in headers}
+    headers_wo = dict.fromkeys(head[:-3] for head in headers)
 
     xrd_re = re.compile(rf"(?P<qvec>(?:\s*{REs.INTNUMBER_RE}){{3}})" +
                         labelled_floats(headers))
-- 
2.43.0


From 441bdb9cb9b88f6cfd3923f011df729dea172c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 49/63] fix: a line of a few hundred blanks took minutes to
 match as a table header

---
 castep_outputs/utilities/castep_res.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index a7155b1..224d2b6 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -141,9 +141,11 @@ def gen_table_re(
        gen_table_re("-+", "\+")
 
     """
-    tab_re = rf"\s*{border}\s*{content}\s*{border}\s*" if content else rf"\s*{border}\s*"
+    # Neighbouring ``\s*`` match a run of blanks in too many ways.
+    border = "" if border == r"\s*" else border
+    parts = (pre, border, content, border, post) if content else (pre, border, post)
 
-    tab_re = rf"\s*{pre}{tab_re}{post}\s*"
+    tab_re = r"\s*".join(("", *filter(None, parts), ""))
 
     if whole_line:
         tab_re = f"^{tab_re}$"
-- 
2.43.0


From 81eab9520572198054e428f92a1dd91cec2e6fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 50/63] fix: Text of a block repeats every line end

---
 castep_outputs/utilities/filewrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index a5c2343..5551ceb 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -342,7 +342,9 @@ class Block:
         return any(map(str.strip, self._data))
 
     def __str__(self) -> str:
-        return "\n".join(self._data)
+        text = "\n".join(line.removesuffix("\n") for line in self._data)
+        # Lines read from a file keep their newline
+        return text + "\n" if self._data and self._data[-1].endswith("\n") else text
 
     def __iter__(self) -> Self:
         return self
-- 
2.43.0


From c1b8b7adfbee7a476e430c4e81eb354fc75fc05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 51/63] fix: A lone parameter in sedc_custom_params is not a
 line of units

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c080576..b1dd15b 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -552,7 +552,7 @@ def _parse_sedc(block: Block) -> dict[str, dict[str, float]]:
     accum = {}
 
     test = next(block)
-    if len(units := test.split()) == 2:
+    if len(units := test.split()) == 2 and not REs.COLON_SEP_RE.search(units[1]):
         units = tuple(units)
     else:
         block.rewind()
-- 
2.43.0


From 1becd3e4065d8bb2a0c3ca2b027451fd5d75aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 52/63] fix: numbers with runaway exponents hung the parsers

---
 castep_outputs/utilities/type_conv.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/castep_outputs/utilities/type_conv.py b/castep_outputs/utilities/type_conv.py
index 92708d2..d977aa4 100644
--- a/castep_outputs/utilities/type_conv.py
+++ b/castep_outputs/utilities/type_conv.py
@@ -147,13 +147,25 @@ def _parse_float_or_rational(val: str) -> float:
     :
         Parsed value.
 
+    Raises
+    ------
+    ValueError
+        Not a number, or its exponent has more than three digits.
+
     Examples
     --------
     >>> _parse_float_or_rational("0.5")
     0.5
     >>> _parse_float_or_rational("1/2")
     0.5
+    >>> _parse_float_or_rational("1E-999999999")
+    Traceback (most recent call last):
+    ValueError: Invalid number: '1E-999999999'
     """
+    # ``Fraction`` is exact, runaway exponents would be expanded in full
+    if not REs.FLOAT_RAT_RE.fullmatch(val.strip()):
+        raise ValueError(f"Invalid number: {val!r}")
+
     return float(Fraction(val))
 
 
-- 
2.43.0


From 4558e548c3bb3a5bc7268f1d2bea4f741917ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 53/63] fix: log messages of files with '%' in their names
 could not be formatted

---
 castep_outputs/utilities/utility.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 0282b09..39e98c7 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -391,6 +391,26 @@ def add_aliases(
     return out_dict
 
 
+def _log(place: str, message: str, *args: Any, level: LoggingLevels) -> None:
+    """
+    Log a message prefixed by its place.
+
+    Parameters
+    ----------
+    place
+        Where the message comes from, kept as it is.
+    message
+        Message, and format if there are `args`.
+    *args
+        Values to format into `message`.
+    level
+        Level of message.
+    """
+    if args:
+        place = place.replace("%", "%%")
+    getattr(logging, level)(f"{place} {message}", *args)
+
+
 @functools.singledispatch
 def log_factory(file: TextIO | fileinput.FileInput | FileWrapper) -> Logger:
     """
@@ -409,7 +429,7 @@ def log_factory(file: TextIO | fileinput.FileInput | FileWrapper) -> Logger:
     if hasattr(file, "name"):
 
         def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-            getattr(logging, level)(f"[{file.name}] {message}", *args)
+            _log(f"[{file.name}]", message, *args, level=level)
     else:
 
         def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
@@ -421,7 +441,7 @@ def log_factory(file: TextIO | fileinput.FileInput | FileWrapper) -> Logger:
 @log_factory.register
 def _(file: fileinput.FileInput) -> Logger:
     def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-        getattr(logging, level)(f"[{file.filename()}:{file.lineno()}] {message}", *args)
+        _log(f"[{file.filename()}:{file.lineno()}]", message, *args, level=level)
 
     return log_file
 
@@ -429,7 +449,7 @@ def _(file: fileinput.FileInput) -> Logger:
 @log_factory.register
 def _(file: FileWrapper) -> Logger:
     def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-        getattr(logging, level)(f"[{file.name}:{file.lineno}] {message}", *args)
+        _log(f"[{file.name}:{file.lineno}]", message, *args, level=level)
 
     return log_file
 
@@ -437,7 +457,7 @@ def _(file: FileWrapper) -> Logger:
 @log_factory.register
 def _(file: Block) -> Logger:
     def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-        getattr(logging, level)(f"[{file.name}:{file.lineno}] {message}", *args)
+        _log(f"[{file.name}:{file.lineno}]", message, *args, level=level)
 
     return log_file
 
-- 
2.43.0


From 49deedce50e8442091a3c9e1755db291c8a042f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 54/63] fix: comment markers were read as regular expressions

---
 castep_outputs/utilities/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 39e98c7..300fc92 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -499,7 +499,7 @@ def _strip_inline_comments(
     >>> '|'.join(_strip_inline_comments(inp, comment_char={"#",}))
     'Hello|End of line'
     """
-    comment_re = re.compile(f"({'|'.join(comment_char)})")
+    comment_re = re.compile(f"({'|'.join(map(re.escape, comment_char))})")
 
     for line in data:
         line = comment_re.split(line)[0].rstrip()
@@ -546,7 +546,7 @@ def _strip_initial_comments(
     >>> '|'.join(_strip_initial_comments(inp, comment_char={"#",}))
     'Hello|End of line # comment'
     """
-    comment_re = re.compile(rf"^\s*({'|'.join(comment_char)})")
+    comment_re = re.compile(rf"^\s*({'|'.join(map(re.escape, comment_char))})")
     out = cast("Iterable[str]", filterfalse(comment_re.match, data))
     out = map(str.rstrip, out)
     out = filter(None, out)
-- 
2.43.0


From 298b6f0acbe530f761259f4ae40ce6de467f8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 55/63] fix: the title of a run was taken for a section when
 parameters were not requested

---
 castep_outputs/parsers/castep_file_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 5fe989a..60f5a86 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -304,6 +304,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
         elif re.match(gen_table_re("Title", r"\*+"), line):
 
             if Filters.PARAMETERS not in to_parse:
+                next(castep_file)  # Free text, may look like any section
                 continue
 
             logger("Found title")
-- 
2.43.0


From d28e59aa6bcb244c1efa66381f67203f18cabdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:38 +0000
Subject: [PATCH 56/63] fix: continuation lines of a warning were read as
 sections when system information was not requested

---
 castep_outputs/parsers/castep_file_parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 60f5a86..f97ae76 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -273,11 +273,6 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.match(r"(?:\s*[^:]+:)?(\s*)warning", line, re.IGNORECASE):
 
-            if Filters.SYS_INFO not in to_parse:
-                continue
-
-            logger("Found warning")
-
             warn = line.strip()
 
             for line in castep_file:
@@ -286,6 +281,11 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                     break
                 warn += " " + line.strip()
 
+            if Filters.SYS_INFO not in to_parse:
+                continue
+
+            logger("Found warning")
+
             curr_run["warning"].append(warn)
 
         # Memory estimate
-- 
2.43.0


From 15fa55d1903b99d26748c49ba256e2a9880609f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 57/63] fix: time to read an .err file grew with the square of
 the length of its message

---
 castep_outputs/parsers/err_file_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/err_file_parser.py b/castep_outputs/parsers/err_file_parser.py
index b3270cf..c65076a 100644
--- a/castep_outputs/parsers/err_file_parser.py
+++ b/castep_outputs/parsers/err_file_parser.py
@@ -32,9 +32,10 @@ def parse_err_file(err_file: TextIO) -> ErrFileInfo:
     """
     accum: ErrFileInfo = {"message": "", "stack": []}
 
+    message: list[str] = []
     while "Current trace stack" not in (line := next(err_file)):
-        accum["message"] += line
-    accum["message"] = accum["message"].strip()
+        message.append(line)
+    accum["message"] = "".join(message).strip()
 
     for line in err_file:
         accum["stack"].append(line.strip())
-- 
2.43.0


From 610d9354d4cc7774ea2498d89e2255dc48e3b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:36 +0000
Subject: [PATCH 58/63] fix: .phonon files of 10000 q-points, or of 1000 ions,
 could not be read

---
 castep_outputs/parsers/phonon_file_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/phonon_file_parser.py b/castep_outputs/parsers/phonon_file_parser.py
index 8bc07ec..fbbf4d1 100644
--- a/castep_outputs/parsers/phonon_file_parser.py
+++ b/castep_outputs/parsers/phonon_file_parser.py
@@ -78,7 +78,8 @@ def parse_phonon_file(phonon_file: TextIO) -> PhononFileInfo:
 
             logger("Found eigenvalue block")
 
-            _, _, posx, posy, posz, weight, *qpoint_dir = line.split()
+            # The number fills its column from the 10000th q-point on ("q-pt=10000")
+            _, posx, posy, posz, weight, *qpoint_dir = line.partition("=")[2].split()
             qdata: PhononFileQPoint = defaultdict(list)
 
             qdata["qpt"] = to_type((posx, posy, posz), float)
@@ -118,7 +119,8 @@ def parse_phonon_file(phonon_file: TextIO) -> PhononFileInfo:
             block.remove_bounds(1, 0)
 
             for line in block:
-                _, _, *eigenvectors = line.split()
+                # Mode and ion fill their columns from 1000 on, as line columns above
+                eigenvectors = line[8:].split()
                 eigenvectors = to_type(eigenvectors, float)
                 eigenvectors = map(complex, eigenvectors[::2], eigenvectors[1::2])
                 qdata["eigenvectors"].append(tuple(eigenvectors))
-- 
2.43.0


From 57fd0050746228876c0b9035cc21c317d480c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:27 +0000
Subject: [PATCH 59/63] fix: files with non-ASCII characters were read
 differently, or not at all, in another locale

---
 castep_outputs/tools/md_geom_parser.py | 2 +-
 castep_outputs/utilities/utility.py    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index 4e1f253..1d1ed61 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -36,7 +36,7 @@ class MDGeomParser:
         if not self.file.is_file():
             raise FileNotFoundError(f"Cannot open file ({self.file.absolute()}).")
 
-        self._raw_handle = self.file.open()
+        self._raw_handle = self.file.open(encoding="utf-8")
         self._handle = FileWrapper(self._raw_handle)
         self.logger = log_factory(self._handle)
 
diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 300fc92..1e02f2d 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -655,12 +655,16 @@ def file_or_path(*, mode: Literal["r", "rb"], **open_kwargs: Any) -> Callable:
     ----------
     mode
         Open mode if passed a :class:`~pathlib.Path` or :class:`str`.
+    **open_kwargs
+        Arguments to ``open``. Text is read as UTF-8, whatever the locale, unless given.
 
     Returns
     -------
     :
         Wrapped function able to handle open files or paths invisibly.
     """
+    if "b" not in mode:
+        open_kwargs.setdefault("encoding", "utf-8")
 
     def inner(
         func: Callable[Concatenate[IO, P], Out],
-- 
2.43.0


From 05d15d28d8ef6f042bfc80b6d254730bc07aa7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 60/63] fix: a run appended right after the finalisation times
 of the one before it

---
 castep_outputs/parsers/castep_file_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index f97ae76..3ecdc68 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -225,11 +225,11 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             curr_run["time_started"] = normalise_string(line.split(":", 1)[1])
 
         # Finalisation
-        elif block := Block.from_re(line, castep_file, "Initialisation time", f"{REs.EMPTY}|<",
+        elif block := Block.from_re(line, castep_file, "Initialisation time", "^[^=]*$|<",
                                     eof_possible=True):
 
-            # External files present
-            if "<" in block[-1]:
+            # External files or another run may follow at once
+            if "=" not in block[-1] or "<" in block[-1]:
                 block.remove_bounds(0, 1)
                 castep_file.rewind()
 
-- 
2.43.0


From 80a23dcca7f60e6c6e36298aadf6303e99954d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:42 +0000
Subject: [PATCH 61/63] fix: parsing an open .castep, .md or .geom handle
 closed it for its owner

---
 castep_outputs/utilities/filewrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 5551ceb..f796104 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -107,9 +107,6 @@ class FileWrapper:
         """Close wrapped file, and invalidate self."""
         self.file.close()
 
-    def __del__(self) -> None:
-        self.close()
-
 
 class Block:
     """
-- 
2.43.0


From 29936b9beef42e5f6836017b532cb94c71b026fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:46 +0000
Subject: [PATCH 62/63] fix: error upon deletion of an MDGeomParser whose file
 could not be opened

---
 castep_outputs/tools/md_geom_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index 1d1ed61..b6054f7 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -207,7 +207,8 @@ While iteration should work, extracting particular frames may not.
 
     def __del__(self) -> None:
         """Close file before deletion."""
-        self._handle.close()
+        if hasattr(self, "_handle"):  # May have failed before it was opened
+            self._handle.close()
 
     def __str__(self) -> str:
         return f"""\
-- 
2.43.0


From caf6945c0bf266aa4b44b7ac7beebb79b902e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:44 +0000
Subject: [PATCH 63/63] fix: MDGeomParser lost the last frame, or raised
 StopIteration, where no blank line ends the file

---
 castep_outputs/tools/md_geom_parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index b6054f7..d4bfb07 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -45,14 +45,20 @@ class MDGeomParser:
         self._start = self._handle.tell()
         self._start_line = self._handle.lineno
 
-        while next(self._handle).strip():
-            pass
+        end_of_frame = self._start
+        while next(self._handle, "").strip():
+            end_of_frame = self._handle.tell()
         self._frame_lines = self._handle.lineno - self._start_line
 
         self._frame_bytes = self._handle.tell() - self._start
-        stat = self.file.stat()
+        size = self.file.stat().st_size - self._start
 
-        len_est = (stat.st_size - self._start) / self._frame_bytes
+        # The last frame may lack its blank line, and its line end (of one or two characters)
+        missing = -size % self._frame_bytes
+        if missing <= self._frame_bytes - (end_of_frame - self._start) + 2:
+            size += missing
+
+        len_est = size / self._frame_bytes
 
         if not len_est.is_integer():
             self.logger(
-- 
2.43.0

