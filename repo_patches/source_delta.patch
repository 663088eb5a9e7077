From ebe87e651893a763a0bde1229ce073f6e757b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 01/34] fix: escaped slash at the start or end of a card
 section name

---
 skops/card/_model_card.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index c635f0a..be1c782 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -70,10 +70,10 @@ def split_subsection_names(key: str) -> list[str]:
         The individual (sub)sections.
 
     """
-    placeholder = "\x1f"  # unit separator control character (ASCII control char 31)
-    key = key.replace("\\/", placeholder)
-    parts = (part.strip() for part in key.split("/"))
-    return [part.replace(placeholder, "/") for part in parts]
+    # strip before unescaping, so that an escaped slash at the start or end of a
+    # part is not affected
+    parts = (part.strip() for part in re.split(r"(?<!\\)/", key))
+    return [part.replace("\\/", "/") for part in parts]
 
 
 @dataclass
-- 
2.43.0


From 38006101772ef881a2ea221fa6345bb3afbb3bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 02/34] fix: get_toc listed subsections of folded sections,
 which are not rendered

---
 skops/card/_model_card.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index be1c782..a5d6e67 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1273,7 +1273,9 @@ class Card:
             title = val.title
             yield title, level
 
-            if val.subsections:
+            # same rule as in _generate_content: subsections of folded sections
+            # are not rendered
+            if val.subsections and not val.folded:
                 yield from self._iterate_key_section_content(
                     val.subsections,
                     level=level + 1,
-- 
2.43.0


From 074867b53844abe16785f6ba678a94f50c76f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 03/34] fix: add_plot used the first plot's title as alt text
 of all plots in a call

---
 skops/card/_model_card.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index a5d6e67..0fada57 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -860,11 +860,10 @@ class Card:
         description = description or ""
         for section_name, plot_path in kwargs.items():
             title = split_subsection_names(section_name)[-1]
-            alt_text = alt_text or title
             section = PlotSection(
                 title=title,
                 content=description,
-                alt_text=alt_text,
+                alt_text=alt_text or title,
                 path=plot_path,
                 folded=folded,
             )
-- 
2.43.0


From 796ec3a7344eba59207962455d755f91f9d293a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 04/34] fix: add_table used the whole section path as heading

---
 skops/card/_model_card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 0fada57..ed7ee0f 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -929,8 +929,9 @@ class Card:
         """
         description = description or ""
         for key, val in kwargs.items():
+            title = split_subsection_names(key)[-1]
             section = TableSection(
-                title=key, content=description, table=val, folded=folded
+                title=title, content=description, table=val, folded=folded
             )
             self._add_single(key, section)
         return self
-- 
2.43.0


From c045b4c14ac7e92b3a707126c210b9d09d5e2d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 05/34] fix: tables whose column names are not strings could
 not be rendered

---
 skops/card/_model_card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index ed7ee0f..7540726 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -206,7 +206,8 @@ class TableSection(Section):
             # replace \n with <br /> (html new line tag) so that line breaks are
             # not converted into new rows with PrettyTable.
             values = [str(value).replace("\n", "<br />") for value in values]
-            table.add_column(key, values)
+            # prettytable requires names to be strings, those of DataFrames may not be
+            table.add_column(str(key), values)
 
         table = table.get_string()
 
-- 
2.43.0


From 12471c48fcc600dab500bf3e17461de7967b3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 06/34] fix: table cells containing '|' or carriage returns
 broke the rendered table

---
 skops/card/_model_card.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 7540726..c9a3ce5 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -199,15 +199,20 @@ class TableSection(Section):
         if ncols == 0:
             raise ValueError("Trying to add table with no columns")
 
+    @staticmethod
+    def _format_cell(value: Any) -> str:
+        # an unescaped "|" would end the cell
+        return re.sub(r"\r\n?|\n", "<br />", str(value)).replace("|", "\\|")
+
     def format(self) -> str:
         table = PrettyTable()
         table.set_style(TableStyle.MARKDOWN)
         for key, values in self.table.items():
-            # replace \n with <br /> (html new line tag) so that line breaks are
+            # replace line breaks with <br /> (html new line tag) so that they are
             # not converted into new rows with PrettyTable.
-            values = [str(value).replace("\n", "<br />") for value in values]
+            values = [self._format_cell(value) for value in values]
             # prettytable requires names to be strings, those of DataFrames may not be
-            table.add_column(str(key), values)
+            table.add_column(self._format_cell(key), values)
 
         table = table.get_string()
 
-- 
2.43.0


From 44e80cb3e302b32730637ec2be7584dc065ea65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:02 +0000
Subject: [PATCH 07/34] fix: parsed headings with '/', skipped levels or
 repeated titles ended up in the wrong section

---
 skops/card/_parser.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/skops/card/_parser.py b/skops/card/_parser.py
index 35a0ad4..6e314d8 100644
--- a/skops/card/_parser.py
+++ b/skops/card/_parser.py
@@ -58,14 +58,16 @@ class PandocParser:
         else:
             raise ValueError(f"Markup of type {markup_type} is not supported (yet)")
 
-    def _add_section(
-        self, section_name: str, card: Card, section_trace: list[str]
-    ) -> Section:
+    def _add_section(self, title: str, siblings: dict[str, Section]) -> Section:
         # Add a new section to the card, which can be a subsection, and return
-        # it.
-        section_name = "/".join(section_trace)
-        cur_section = card._add_single(section_name, "")
-        return cur_section
+        # it. The title is used verbatim, i.e. "/" does not create a subsection.
+        # If there is already a section of the same name, don't replace it.
+        key, count = title, 1
+        while key in siblings:
+            count += 1
+            key = f"{title} ({count})"
+        siblings[key] = Section(title=title, content="")
+        return siblings[key]
 
     def _add_content(self, content: str, section: Section | None) -> None:
         # Add content to the current section
@@ -86,9 +88,7 @@ class PandocParser:
             # should we require each Formattable to have an update method?
             raise ValueError(f"Could not modify content of {section.content}")
 
-    def _parse_header(
-        self, item: PandocItem, section_trace: list[str]
-    ) -> tuple[str, int]:
+    def _parse_header(self, item: PandocItem) -> tuple[str, int]:
         # Headers are the only type of item that needs to be handled
         # differently. This is because we structure the underlying model card
         # data as a tree with nodes corresponding to headers. To assign the
@@ -119,7 +119,7 @@ class PandocParser:
             model card.
         """
         section: Section | None = None
-        section_trace: list[str] = []
+        section_trace: list[tuple[int, Section]] = []
         card = Card(None, template=None)
 
         # Parsing the flat structure, not recursively as in pandocfilters. After
@@ -128,10 +128,16 @@ class PandocParser:
         # nodes.
         for item in json.loads(self.source)["blocks"]:
             if item["t"] == "Header":
-                content, level = self._parse_header(item, section_trace=section_trace)
+                content, level = self._parse_header(item)
                 res = self._post_process(content)
-                section_trace = section_trace[: level - 1] + [res]
-                section = self._add_section(res, card=card, section_trace=section_trace)
+                # the parent is the nearest preceding header of lower level
+                while section_trace and section_trace[-1][0] >= level:
+                    section_trace.pop()
+                siblings = (
+                    section_trace[-1][1].subsections if section_trace else card._data
+                )
+                section = self._add_section(res, siblings)
+                section_trace.append((level, section))
             else:
                 res = self._post_process(self.mapping(item))
                 self._add_content(res, section=section)
-- 
2.43.0


From ae5c82367ae1ebd135687d13cb8eef6898934147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:03 +0000
Subject: [PATCH 08/34] fix: markdown indentation was not reset after a failed
 conversion

---
 skops/card/_markup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 2e42a25..078bf8b 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -71,8 +71,10 @@ class Markdown:
     def _indented(self, *, spaces: int):
         """Temporarily increment indentation by one"""
         self._indent_trace.append(spaces)
-        yield
-        self._indent_trace.pop(-1)
+        try:
+            yield
+        finally:
+            self._indent_trace.pop(-1)
 
     def _get_indent(self, *, incr: int = 0) -> str:
         """Get current indentation, optionally incremented"""
-- 
2.43.0


From 8e969973e6fbce753fbfcd1899ad098b1ee8a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:51 +0000
Subject: [PATCH 09/34] fix: parsed tables lost columns of equal name,
 additional row groups, and failed without header

---
 skops/card/_markup.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 078bf8b..94bf593 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -241,15 +241,21 @@ class Markdown:
     def _table_new(self, item) -> tuple[list[str], list[list[str]]]:  # pragma: no cover
         # pandoc >= 2.10
         # attr capt specs thead tbody tfoot
-        _, _, _, thead, tbody, _ = item
-        # header
+        _, _, _, thead, tbody, tfoot = item
+        # header: markdown tables have exactly one header row
         (_, thead_bodies) = thead
-        (attr, thead_body) = thead_bodies[0]  # multiple headers?
-        columns = self._table_cols_new(thead_body)
-        # rows
-        # attr rhc hd bd
-        _, _, _, trows = tbody[0]  # multiple groups of rows?
-        body = self._table_body_new(trows)
+        # rows: further header rows, the (attr rhc hd bd) groups, and the footer
+        trows = list(thead_bodies[1:])
+        for _, _, group_head, group_body in tbody:
+            trows += group_head + group_body
+        (_, tfoot_bodies) = tfoot
+        body = self._table_body_new(trows + tfoot_bodies)
+
+        if thead_bodies:
+            (attr, thead_body) = thead_bodies[0]
+            columns = self._table_cols_new(thead_body)
+        else:
+            columns = [""] * max((len(row) for row in body), default=1)
         return columns, body
 
     def _table(self, item) -> str:
@@ -260,6 +266,15 @@ class Markdown:
             # pandoc < 2.5
             columns, body = self._table_old(item)
 
+        # make column names unique, otherwise columns would be dropped; trailing
+        # spaces are not significant
+        names: list[str] = []
+        for column in columns:
+            while column in names:
+                column += " "
+            names.append(column)
+        columns = names
+
         table: Mapping[str, Sequence[Any]]
         if not body:
             table = {key: [] for key in columns}
-- 
2.43.0


From e32e72323371b9798e9ea81d0b8a3ecf16876797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 10/34] fix: the audited name of a bound method was not the
 attribute that loading fetches

---
 skops/io/_general.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 07cdfd5..ff25a0a 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -533,13 +533,25 @@ class MethodNode(Node):
             "obj": get_tree(state["content"]["obj"], load_context, trusted=trusted),
             "func": state["content"]["func"],
         }
+        # What is looked up when loading is an attribute of the class of "obj",
+        # so this is the name that needs to be audited, not the name under which
+        # the type of the method was saved.
+        obj_node = self.children["obj"]
+        self.module_name = obj_node.module_name
+        self.class_name = f"{obj_node.class_name}.{self.children['func']}"
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, [])
 
     def _construct(self):
         loaded_obj = self.children["obj"].construct()
-        method = getattr(loaded_obj, self.children["func"])
-        return method
+        func = self.children["func"]
+        # make sure that the name that was audited is the one that is used
+        cls = loaded_obj if isinstance(loaded_obj, type) else type(loaded_obj)
+        audited = f"{self.module_name}.{self.class_name}"
+        actual = f"{get_module(cls)}.{cls.__name__}.{func}"
+        if actual != audited:
+            raise TypeError(f"Expected to load the method {audited}, found {actual}")
+        return getattr(loaded_obj, func)
 
 
 def unsupported_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From fca6e4d99705ab241e6b0e4d8257f78e05c410da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 11/34] fix: operator functions were resolved in the operator
 module whatever module was audited

---
 skops/io/_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index ff25a0a..48da41a 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -674,7 +674,7 @@ class OperatorFuncNode(Node):
         self.children["attrs"] = get_tree(state["attrs"], load_context, trusted=trusted)
 
     def _construct(self):
-        op = getattr(operator, self.class_name)
+        op = gettype(self.module_name, self.class_name)
         attrs = self.children["attrs"].construct()
         return op(*attrs)
 
-- 
2.43.0


From 04429c0206866a6d537fbcd58e14ecf7b4ddaf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 12/34] fix: objects that are not types were called on the keys
 of dictionaries

---
 skops/io/_general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 48da41a..531fc36 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -78,6 +78,9 @@ class DictNode(Node):
         content = gettype(self.module_name, self.class_name)()
         key_types = self.children["key_types"].construct()
         for k_type, (key, val) in zip(key_types, self.children["content"].items()):
+            if not isinstance(k_type, type):
+                # never call anything but types on the keys
+                raise TypeError(f"Expected the type of a key, found {k_type!r}")
             content[k_type(key)] = val.construct()
         return content
 
-- 
2.43.0


From 6fcd775182dbcb4601e1f7035c4f221f93442ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 13/34] fix: any function of numpy.random could be called as
 bit generator

---
 skops/io/_numpy.py        | 13 +++++++++----
 skops/io/_utils.py        | 14 ++++++++++++++
 skops/io/old/_numpy_v0.py |  6 +++---
 skops/io/old/_numpy_v1.py |  6 ++----
 4 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f87c8d9..398e697 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -9,7 +9,14 @@ from ._audit import Node, get_tree
 from ._general import function_get_state
 from ._protocol import PROTOCOL
 from ._trusted_types import NUMPY_DTYPE_TYPE_NAMES
-from ._utils import LoadContext, SaveContext, get_module, get_state, gettype
+from ._utils import (
+    LoadContext,
+    SaveContext,
+    get_bit_generator_type,
+    get_module,
+    get_state,
+    gettype,
+)
 from .exceptions import UnsupportedTypeException
 
 
@@ -214,9 +221,7 @@ class RandomGeneratorNode(Node):
         seed_seq = seed_seq_cls(**seed_seq_state)
 
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_type(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls(seed_seq)
         bit_generator.state = bit_generator_state
 
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index a3519ab..390b992 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -9,6 +9,8 @@ from types import ModuleType
 from typing import Any, Type
 from zipfile import ZipFile
 
+import numpy as np
+
 from ._protocol import PROTOCOL
 
 
@@ -71,6 +73,18 @@ def gettype(module_name: str, cls_or_func: str) -> Type[Any]:
     raise ValueError(f"Object {cls_or_func} of module {module_name} is unknown")
 
 
+def get_bit_generator_type(name: str) -> Type[Any]:
+    """Get the bit generator class of that name.
+
+    The name comes from the state of a random generator, which is not audited,
+    so nothing but bit generators may be returned.
+    """
+    cls = getattr(np.random, name, None)
+    if not (isinstance(cls, type) and issubclass(cls, np.random.BitGenerator)):
+        raise TypeError(f"{name} is not a bit generator of numpy.random")
+    return cls
+
+
 def get_module(obj: Any) -> str:
     """Find module for given object
 
diff --git a/skops/io/old/_numpy_v0.py b/skops/io/old/_numpy_v0.py
index 356f67d..2218ed9 100644
--- a/skops/io/old/_numpy_v0.py
+++ b/skops/io/old/_numpy_v0.py
@@ -5,7 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node
-from skops.io._utils import LoadContext, gettype
+from skops.io._utils import LoadContext, get_bit_generator_type, gettype
 
 PROTOCOL = 0
 
@@ -23,8 +23,8 @@ class RandomGeneratorNode(Node):
 
     def _construct(self):
         # first restore the state of the bit generator
-        bit_generator = gettype(
-            "numpy.random", self.children["bit_generator_state"]["bit_generator"]
+        bit_generator = get_bit_generator_type(
+            self.children["bit_generator_state"]["bit_generator"]
         )()
         bit_generator.state = self.children["bit_generator_state"]
 
diff --git a/skops/io/old/_numpy_v1.py b/skops/io/old/_numpy_v1.py
index 7e4b2b3..064e064 100644
--- a/skops/io/old/_numpy_v1.py
+++ b/skops/io/old/_numpy_v1.py
@@ -5,7 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node, get_tree
-from skops.io._utils import LoadContext, gettype
+from skops.io._utils import LoadContext, get_bit_generator_type, gettype
 
 PROTOCOL = 1
 
@@ -28,9 +28,7 @@ class RandomGeneratorNode(Node):
     def _construct(self):
         # first restore the state of the bit generator
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_type(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls()
         bit_generator.state = bit_generator_state
 
-- 
2.43.0


From 10dd4d46f99f43795b34aa54cf432db9ba13f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 14/34] fix: the class of a loss was imported before it was
 audited

---
 skops/io/_sklearn.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 3baee2b..245bc6e 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -153,19 +153,22 @@ class ReduceNode(Node):
         self,
         state: dict[str, Any],
         load_context: LoadContext,
-        constructor: Type[Any],
+        constructor: Type[Any] | tuple[str, str],
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
         reduce = state["__reduce__"]
+        if isinstance(constructor, tuple):
+            module_name, class_name = constructor
+        else:
+            module_name, class_name = get_module(constructor), constructor.__name__
         self.children = {
             "attrs": get_tree(state["content"], load_context, trusted=trusted),
             "args": get_tree(reduce["args"], load_context, trusted=trusted),
             "constructor": TypeNode(
                 {
-                    "__class__": constructor.__name__,
-                    "__module__": get_module(constructor),
-                    "__id__": id(constructor),
+                    "__class__": class_name,
+                    "__module__": module_name,
                 },
                 load_context,
                 trusted=trusted,
@@ -255,7 +258,8 @@ class LossNode(ReduceNode):
         super().__init__(
             state,
             load_context,
-            constructor=gettype(state["__module__"], state["__class__"]),
+            # do not resolve the name before it is audited
+            constructor=(state["__module__"], state["__class__"]),
             trusted=self.trusted,
         )
 
-- 
2.43.0


From 09c65c3da13bb0bf1bd4bbba6d8b3da4736a1b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 15/34] fix: the trusted types of the caller were ignored for
 defaultdicts

---
 skops/io/_general.py | 2 +-
 skops/io/_sklearn.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 531fc36..be05ce0 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -108,7 +108,7 @@ class DefaultDictNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = ["collections.defaultdict"]
+        self.trusted = self._get_trusted(trusted, [defaultdict])
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "default_factory": get_tree(
diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 245bc6e..bc696df 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -294,9 +294,9 @@ class _DictWithDeprecatedKeysNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = [
-            get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"
-        ]
+        self.trusted = self._get_trusted(
+            trusted, [get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"]
+        )
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "_deprecated_key_to_new_key": get_tree(
-- 
2.43.0


From d54d4e69738f0d82eee6a0da00f8a74e05f9dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 16/34] fix: an untrusted name of a slice was not reported

---
 skops/io/_general.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index be05ce0..f5350b9 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -387,8 +387,11 @@ class SliceNode(Node):
             self.children["start"], self.children["stop"], self.children["step"]
         )
 
-    def get_unsafe_set(self):
-        return set()
+    def get_unsafe_set(self) -> set[str]:
+        # the children are plain json values
+        if self.is_self_safe():
+            return set()
+        return {f"{self.module_name}.{self.class_name}"}
 
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From 4dddeb7541d150f300fc0da6c0ad74461beb244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 17/34] fix: an untrusted name of a json node was not reported

---
 skops/io/_general.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index f5350b9..0af7920 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -576,17 +576,6 @@ class JsonNode(Node):
         self.children = {}
         self.trusted = self._get_trusted(trusted, PRIMITIVE_TYPE_NAMES)
 
-    def is_safe(self) -> bool:
-        # JsonNode is always considered safe.
-        # TODO: should we consider a JsonNode always safe?
-        return True
-
-    def is_self_safe(self) -> bool:
-        return True
-
-    def get_unsafe_set(self) -> set[str]:
-        return set()
-
     def _construct(self):
         return json.loads(self.content)
 
-- 
2.43.0


From d77dcd4c3012eb749e0b24923f53d52b24e0cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 18/34] fix: partial objects were audited under any name found
 in the state

---
 skops/io/_general.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 0af7920..a21df66 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -299,6 +299,9 @@ class PartialNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
+        # functools.partial is what will be used, so this is what has to be
+        # audited, whatever name is found in the state
+        self.module_name, self.class_name = "functools", "partial"
         # TODO: should we trust anything?
         self.trusted = self._get_trusted(trusted, [])
         self.children = {
-- 
2.43.0


From aaf0bbba5fb27f99d1f4f0a5a23edb5bec179f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 19/34] fix: a numpy array node could return the open npz file
 of an archive member

---
 skops/io/_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 398e697..9ae29fa 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -93,6 +93,9 @@ class NdArrayNode(Node):
         # Dealing with a regular numpy array, where dtype != object
         if self.type == "numpy":
             content = np.load(self.children["content"], allow_pickle=False)
+            if not isinstance(content, np.ndarray):
+                # np.load also reads npz files, but those are never used here
+                raise ValueError(f"Expected a numpy array, found {type(content)}.")
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
                 content = gettype(self.module_name, self.class_name)(content)
             return content
-- 
2.43.0


From 06873406fc02a149d3e71cec88bd0b5c14347486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 20/34] fix: visualize failed on attributes named key_types and
 on untrusted types of keys

---
 skops/io/_visualize.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 3c3c2c3..45feba9 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -8,7 +8,14 @@ from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
 
 from ._audit import VALID_NODE_CHILD_TYPES, Node, get_tree
-from ._general import BytearrayNode, BytesNode, FunctionNode, JsonNode, ListNode
+from ._general import (
+    BytearrayNode,
+    BytesNode,
+    DictNode,
+    FunctionNode,
+    JsonNode,
+    ListNode,
+)
 from ._numpy import NdArrayNode
 from ._scipy import SparseMatrixNode
 from ._utils import LoadContext
@@ -223,8 +230,7 @@ def walk_tree(
         The current node to visit. Children are visited recursively.
 
     node_name: str (default="root")
-        The key to the current node. If "key_types" is encountered, it is
-        skipped.
+        The key to the current node.
 
     level: int (default=0)
         The current level of nesting.
@@ -238,17 +244,6 @@ def walk_tree(
         A dataclass containing the aforementioned information.
 
     """
-    # key_types is not helpful, as it is artificially added by skops to
-    # circumvent the fact that json only allows keys to be strings. It is not
-    # useful to the user and adds a lot of noise, thus skip key_types.
-    if node_name == "key_types":
-        if isinstance(node, ListNode) and node.is_safe():
-            return
-        raise ValueError(
-            "An invalid 'key_types' node was encountered, please report the issue "
-            "here: https://github.com/skops-dev/skops/issues"
-        )
-
     if isinstance(node, dict):
         num_nodes = len(node)
         for i, (key, val) in enumerate(node.items(), start=1):
@@ -299,8 +294,18 @@ def walk_tree(
     if isinstance(node, SKIPPED_TYPES):
         return
 
+    children = node.children
+    if isinstance(node, DictNode):
+        # key_types is not helpful, as it is artificially added by skops to
+        # circumvent the fact that json only allows keys to be strings. It is not
+        # useful to the user and adds a lot of noise, thus skip key_types, unless
+        # there is something in there that is not trusted.
+        key_types = children["key_types"]
+        if isinstance(key_types, ListNode) and key_types.is_safe():
+            children = {k: v for k, v in children.items() if k != "key_types"}
+
     yield from walk_tree(
-        node.children,
+        children,
         node_name=node_name,
         level=level + 1,
     )
-- 
2.43.0


From 4e0709b59affbe8cf0346776fd4ba5fc7951b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 21/34] fix: visualize failed on slices, bound methods and
 objects without attributes

---
 skops/io/_visualize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 45feba9..1f40992 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -266,6 +266,11 @@ def walk_tree(
             )
         return
 
+    # Plain values, such as the bounds of a slice, the name of a method, or the
+    # attributes of an object without any, are not nodes and thus not shown.
+    if node is None or isinstance(node, (str, int, float)):
+        return
+
     # NO MATCH: RAISE ERROR
     if not isinstance(node, Node):
         raise TypeError(
-- 
2.43.0


From 8ac43487bcd0c4986788c315f9a6ffa642977b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 22/34] fix: visualize failed if trusted nodes are below a node
 that is not shown

---
 skops/io/_visualize.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 1f40992..057733f 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import io
 import json
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pathlib import Path
 from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
@@ -126,12 +126,11 @@ def _traverse_tree(nodes_iter, show, **kwargs):
     yield node, label, 0, True  # node, label, level, is_first_node
 
     prev_level = node.level  # should be 0
+    prev_shown_level = 0
+    # the levels of the ancestors of the current node that are shown
+    shown_ancestors = [node.level]
 
     for node in nodes_iter:
-        visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
-        if not visible:
-            continue
-
         level_diff = prev_level - node.level
         if level_diff < -1:
             # this would mean it is a "(great-)grandchild" node
@@ -140,10 +139,24 @@ def _traverse_tree(nodes_iter, show, **kwargs):
                 f"{level_diff} was encountered, which should not be possible, please "
                 "report the issue here: https://github.com/skops-dev/skops/issues"
             )
+        prev_level = node.level
+
+        while len(shown_ancestors) > 1 and shown_ancestors[-1] >= node.level:
+            shown_ancestors.pop()
+
+        visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
+        if not visible:
+            continue
+
+        # If some ancestors are not shown, the node is moved below the closest
+        # one that is.
+        shown_level = len(shown_ancestors)
+        shown_ancestors.append(node.level)
+        node = replace(node, level=shown_level)
 
         label = _get_node_label(node, **kwargs)
-        yield node, label, level_diff, False
-        prev_level = node.level
+        yield node, label, prev_shown_level - shown_level, False
+        prev_shown_level = shown_level
 
 
 def pretty_print_tree(
-- 
2.43.0


From b803011c9400745981f6b85262cfda506c1ff5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:30 +0000
Subject: [PATCH 23/34] fix: visualize interpreted names and values as rich
 markup

---
 skops/io/_visualize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 057733f..a34f59f 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -166,9 +166,15 @@ def pretty_print_tree(
 ) -> None:
     try:
         from rich.console import Console
+        from rich.markup import escape
         from rich.tree import Tree
 
         console = Console()
+        # what is shown is text, even if it looks like markup
+        nodes_iter = (
+            replace(node, key=escape(node.key), val=escape(node.val))
+            for node in nodes_iter
+        )
 
         for node, label, level_diff, is_first_node in _traverse_tree(
             nodes_iter, show, **kwargs
-- 
2.43.0


From 2eb60349b8020a970720de8b2749cc1a1f46dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 24/34] fix: sections and metrics named "self" could not be
 added to a card

---
 skops/card/_model_card.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index c9a3ce5..8e5d4ae 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -474,7 +474,7 @@ class Card:
         model = _load_model(self.model, self.trusted)
         return model
 
-    def add(self, folded: bool = False, **kwargs: str) -> Self:
+    def add(self, /, folded: bool = False, **kwargs: str) -> Self:
         """Add new section(s) to the model card.
 
         Add one or multiple sections to the model card. The section names are
@@ -817,6 +817,7 @@ class Card:
 
     def add_plot(
         self,
+        /,
         *,
         description: str | None = None,
         alt_text: str | None = None,
@@ -878,6 +879,7 @@ class Card:
 
     def add_table(
         self,
+        /,
         *,
         description: str | None = None,
         folded: bool = False,
@@ -944,6 +946,7 @@ class Card:
 
     def add_metrics(
         self,
+        /,
         section: str = "Model description/Evaluation Results",
         description: str | None = None,
         **kwargs: str | int | float,
-- 
2.43.0


From 1e824aa4738d8548ceeb7453cbec249abc513d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 25/34] fix: audit every node once, however often it occurs

Auditing an archive in which nodes are shared on many levels took time
exponential in the number of levels.
---
 skops/io/_audit.py | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index ac93662..e285b23 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -217,18 +217,29 @@ class Node:
         unsafe_set : set
             A set of unsafe types.
         """
-        if hasattr(self, "_computing_unsafe_set"):
-            # this means we're already computing this node's unsafe set, so we
-            # return an empty set and let the computation of the parent node
-            # continue. This is to avoid infinite recursion.
-            return set()
-
-        with temp_setattr(self, _computing_unsafe_set=True):
-            res = set()
-            if not self.is_self_safe():
-                res.add(self.module_name + "." + self.class_name)
-
-            for child in self.children.values():
+        # Visit each node only once: the same node can occur at several places
+        # (shared objects) or even be one of its own descendants.
+        res: set[str] = set()
+        visited: set[int] = set()
+        todo: list[Any] = [self]
+        while todo:
+            node = todo.pop()
+            if id(node) in visited:
+                continue
+            visited.add(id(node))
+
+            if (
+                node is not self
+                and type(node).get_unsafe_set is not Node.get_unsafe_set
+            ):
+                # the node has its own way to determine what is unsafe
+                res.update(node.get_unsafe_set())
+                continue
+
+            if not node.is_self_safe():
+                res.add(node.module_name + "." + node.class_name)
+
+            for child in node.children.values():
                 if child is None:
                     continue
 
@@ -236,21 +247,19 @@ class Node:
                 # other than ListNode and DictNode, children are all of type Node.
                 if isinstance(child, list):
                     # iterate through the list
-                    for value in child:
-                        res.update(value.get_unsafe_set())
+                    todo.extend(child)
                 elif isinstance(child, dict):
                     # iterate through the values of the dict only
                     # TODO: should we check the types of the keys?
-                    for value in child.values():
-                        res.update(value.get_unsafe_set())
+                    todo.extend(child.values())
                 elif isinstance(child, Node):
                     # delegate to the child Node
-                    res.update(child.get_unsafe_set())
+                    todo.append(child)
                 elif type(child) is type:
                     # the if condition bellow is not merged with the previous
                     # one because if the above condition is True, the following
                     # conditions about BytesIO, etc should be ignored.
-                    if not check_type(get_module(child), child.__name__, self.trusted):
+                    if not check_type(get_module(child), child.__name__, node.trusted):
                         # if the child is a type, we check its safety
                         res.add(get_module(child) + "." + child.__name__)
                 elif isinstance(child, (io.BytesIO, str)):
-- 
2.43.0


From c10755e7349b381b36ec127696c5aa87add65110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 26/34] fix: dicts with boolean, colliding or non-string keys
 were loaded as different dicts

---
 skops/io/_general.py | 59 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index a21df66..e0e0f52 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -8,7 +8,7 @@ from collections import defaultdict
 from functools import partial
 from reprlib import Repr
 from types import FunctionType, MethodType
-from typing import Any, Optional, Sequence
+from typing import Any, Optional, Sequence, Type
 
 import numpy as np
 
@@ -36,6 +36,52 @@ arepr = Repr()
 arepr.maxstring = 24
 
 
+def _get_key_text(key: Any) -> str:
+    # JSON only knows strings as keys, the type of the key is stored separately
+    if isinstance(key, str):
+        return str.__str__(key)
+    if isinstance(key, (bool, np.bool_)):
+        return json.dumps(bool(key))
+    if isinstance(key, int):
+        return int.__repr__(key)
+    if isinstance(key, np.timedelta64) or not isinstance(key, (float, np.number)):
+        raise UnsupportedTypeException(key)
+    if isinstance(key, (np.longdouble, np.complexfloating)):
+        return str(key)
+    if isinstance(key, np.number):
+        key = key.item()
+    return json.dumps(key)
+
+
+def _restore_key(key_type: Type[Any], text: str) -> Any:
+    if key_type in (bool, np.bool_):
+        return key_type(text.strip() == "true")
+    return key_type(text)
+
+
+def _get_key_texts(obj: dict[Any, Any]) -> list[str]:
+    """The texts under which the values of a dict are stored, in order.
+
+    There are keys with the same text, e.g. ``1`` and ``"1"``. Leading blanks,
+    which do not matter for any type other than strings, tell them apart.
+    """
+    taken = {str.__str__(key) for key in obj if isinstance(key, str)}
+    texts = []
+    for key in obj:
+        text = _get_key_text(key)
+        if not isinstance(key, str):
+            while text in taken:
+                text = " " + text
+            taken.add(text)
+        if type(key) not in (str, int, float, bool) and not isinstance(key, np.generic):
+            # subclasses need not be restorable from the text
+            restored = _restore_key(type(key), text)
+            if type(restored) is not type(key) or restored != key:
+                raise UnsupportedTypeException(key)
+        texts.append(text)
+    return texts
+
+
 def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
         "__class__": obj.__class__.__name__,
@@ -45,12 +91,7 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
 
     key_types = get_state([type(key) for key in obj.keys()], save_context)
     content = {}
-    for key, value in obj.items():
-        if isinstance(value, property):
-            continue
-        if np.isscalar(key) and hasattr(key, "item"):
-            # convert numpy value to python object
-            key = key.item()  # type: ignore
+    for key, value in zip(_get_key_texts(obj), obj.values()):
         content[key] = get_state(value, save_context)
     res["content"] = content
     res["key_types"] = key_types
@@ -81,7 +122,7 @@ class DictNode(Node):
             if not isinstance(k_type, type):
                 # never call anything but types on the keys
                 raise TypeError(f"Expected the type of a key, found {k_type!r}")
-            content[k_type(key)] = val.construct()
+            content[_restore_key(k_type, key)] = val.construct()
         return content
 
 
@@ -119,7 +160,7 @@ class DefaultDictNode(Node):
         }
 
     def _construct(self):
-        instance = defaultdict(**self.children["main"].construct())
+        instance = defaultdict(None, self.children["main"].construct())
         instance.default_factory = self.children["default_factory"].construct()
         return instance
 
-- 
2.43.0


From 3a01c4b16e094ac8a8eb4bd299329e7e00fbd62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 27/34] fix: dumps quietly changed subclasses of builtins,
 containers with attributes and objects that are more than their state

---
 skops/io/_general.py | 125 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 108 insertions(+), 17 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index e0e0f52..894e6b8 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copyreg
 import io
 import json
 import operator
@@ -7,7 +8,7 @@ import uuid
 from collections import defaultdict
 from functools import partial
 from reprlib import Repr
-from types import FunctionType, MethodType
+from types import FunctionType, MethodType, ModuleType
 from typing import Any, Optional, Sequence, Type
 
 import numpy as np
@@ -32,6 +33,8 @@ from ._utils import (
 )
 from .exceptions import UnsupportedTypeException
 
+NoneType = type(None)
+
 arepr = Repr()
 arepr.maxstring = 24
 
@@ -83,6 +86,7 @@ def _get_key_texts(obj: dict[Any, Any]) -> list[str]:
 
 
 def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    _check_no_attributes(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -127,6 +131,7 @@ class DictNode(Node):
 
 
 def defaultdict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    _check_no_attributes(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -160,12 +165,27 @@ class DefaultDictNode(Node):
         }
 
     def _construct(self):
-        instance = defaultdict(None, self.children["main"].construct())
+        instance = gettype(self.module_name, self.class_name)()
+        instance.update(self.children["main"].construct())
         instance.default_factory = self.children["default_factory"].construct()
         return instance
 
 
+def _check_no_attributes(obj: Any) -> None:
+    # Containers are restored from their type and items alone, so they must not
+    # have any attributes other than those that new instances have.
+    def get_attributes(obj):
+        names = copyreg._slotnames(type(obj))  # type: ignore
+        slots = {name: getattr(obj, name) for name in names if hasattr(obj, name)}
+        return {**getattr(obj, "__dict__", {}), **slots}
+
+    attributes = get_attributes(obj)
+    if attributes and attributes != get_attributes(type(obj)()):
+        raise UnsupportedTypeException(obj)
+
+
 def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    _check_no_attributes(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -199,6 +219,7 @@ class ListNode(Node):
 
 
 def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    _check_no_attributes(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -230,7 +251,21 @@ class SetNode(Node):
         return content_type([item.construct() for item in self.children["content"]])
 
 
+def _isnamedtuple(t: Type[Any]) -> bool:
+    # This is needed since namedtuples need to have the args when
+    # initialized.
+    b = t.__bases__
+    if len(b) != 1 or b[0] != tuple:
+        return False
+    f = getattr(t, "_fields", None)
+    if not isinstance(f, tuple):
+        return False
+    return all(isinstance(n, str) for n in f)
+
+
 def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not tuple and not _isnamedtuple(type(obj)):
+        raise UnsupportedTypeException(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -268,15 +303,7 @@ class TupleNode(Node):
         return content
 
     def isnamedtuple(self, t) -> bool:
-        # This is needed since namedtuples need to have the args when
-        # initialized.
-        b = t.__bases__
-        if len(b) != 1 or b[0] != tuple:
-            return False
-        f = getattr(t, "_fields", None)
-        if not isinstance(f, tuple):
-            return False
-        return all(isinstance(n, str) for n in f)
+        return _isnamedtuple(t)
 
 
 def function_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -317,6 +344,9 @@ class FunctionNode(Node):
 
 
 def partial_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not partial:
+        raise UnsupportedTypeException(obj)
+
     _, _, (func, args, kwds, namespace) = obj.__reduce__()
     res = {
         "__class__": "partial",  # don't allow any subclass
@@ -366,6 +396,11 @@ class PartialNode(Node):
 
 
 def type_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    owner = getattr(obj, "__self__", None)
+    if not isinstance(obj, type) and not isinstance(owner, (ModuleType, NoneType)):
+        # methods of builtins, the object they are bound to would get lost
+        raise UnsupportedTypeException(obj)
+
     # To serialize a type, we first need to set the metadata to tell that it's
     # a type, then store the type's info itself in the content field.
     res = {
@@ -398,6 +433,11 @@ class TypeNode(Node):
 
 
 def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    for value in (obj.start, obj.stop, obj.step):
+        # other values would be changed by json
+        if value is not None and type(value) not in (str, int, float, bool):
+            raise UnsupportedTypeException(value)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -438,13 +478,47 @@ class SliceNode(Node):
         return {f"{self.module_name}.{self.class_name}"}
 
 
+def _is_constructor_call(reduce_output: tuple[Any, ...]) -> bool:
+    # the state and the items, which come after the arguments, may be missing
+    return len(reduce_output) >= 2 and all(x is None for x in reduce_output[2:])
+
+
+def _is_restorable_from_state(obj: Any) -> bool:
+    """Whether obj is determined by its type and the output of __getstate__.
+
+    This is not the case for extension types, e.g. deque, and their subclasses,
+    which keep content elsewhere, unless they define __getstate__ or pickle does
+    not need anything else either.
+    """
+    cls = type(obj)
+    getstate = getattr(cls, "__getstate__", None)
+    if getstate is not getattr(object, "__getstate__", None):
+        return True
+
+    for base in cls.__mro__[:-1]:
+        # only extension types have a builtin __new__
+        new = base.__dict__.get("__new__")
+        if type(new) is builtin_function_or_method:
+            break
+    else:
+        return True
+
+    func, args, *rest = obj.__reduce_ex__(2)
+    if any(x is not None for x in rest[1:]):
+        return False
+    return (func is cls and args == ()) or (
+        func is copyreg.__newobj__ and args == (cls,)  # type: ignore
+    )
+
+
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # This method is for objects which can either be persisted with json, or
     # the ones for which we can get/set attributes through
     # __getstate__/__setstate__ or reading/writing to __dict__.
 
-    # We first check if the object can be serialized using json.
-    try:
+    # We first check if the object can be serialized using json. This excludes
+    # subclasses, since their type would get lost.
+    if obj is None or type(obj) in (str, int, float, bool):
         # if we can simply use json, then we're done.
         obj_str = json.dumps(obj)
         return {
@@ -454,8 +528,6 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             "content": obj_str,
             "is_json": True,
         }
-    except Exception:
-        pass
 
     # Then we check if the output of __reduce__ is of the form
     # (constructor, (constructor_args,))
@@ -463,7 +535,7 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # safe to call it with the specified arguments.
 
     reduce_output = obj.__reduce__()
-    if len(reduce_output) == 2 and reduce_output[0] is type(obj):
+    if reduce_output[0] is type(obj) and _is_constructor_call(reduce_output):
         return {
             "__class__": type(obj).__name__,
             "__module__": get_module(type(obj)),
@@ -471,6 +543,9 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             "content": get_state(reduce_output[1], save_context),
         }
 
+    if not _is_restorable_from_state(obj):
+        raise UnsupportedTypeException(obj)
+
     # Otherwise we recover the object from the __dict__ or __getstate__
     res = {
         "__class__": obj.__class__.__name__,
@@ -549,7 +624,15 @@ class ObjectNode(Node):
             if hasattr(instance, "__setstate__"):
                 instance.__setstate__(attrs)
             else:
-                instance.__dict__.update(attrs)
+                slots = None
+                if isinstance(attrs, tuple) and len(attrs) == 2:
+                    # the state of objects with __slots__
+                    attrs, slots = attrs
+                if attrs:
+                    instance.__dict__.update(attrs)
+                if slots:
+                    for key, value in slots.items():
+                        setattr(instance, key, value)
 
         return instance
 
@@ -559,6 +642,10 @@ def method_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # dependent on a specific instance of an object.
     # It stores the state of the object the method is bound to,
     # and prepares both to be persisted.
+    if getattr(obj.__self__, obj.__func__.__name__, None) != obj:
+        # another method is found under the name of this one
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(obj),
@@ -633,6 +720,10 @@ class JsonNode(Node):
 
 
 def bytes_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) not in (bytes, bytearray):
+        # the type of subclasses would get lost
+        raise UnsupportedTypeException(obj)
+
     f_name = f"{uuid.uuid4()}.bin"
     save_context.zip_file.writestr(f_name, obj)
     res = {
-- 
2.43.0


From 1191b96338918471c0c3b923daba126428dec82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 28/34] fix: numpy objects that dumps changed quietly or could
 not load again

---
 skops/io/_numpy.py | 100 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 80 insertions(+), 20 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 9ae29fa..a553d1e 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -21,6 +21,15 @@ from .exceptions import UnsupportedTypeException
 
 
 def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if isinstance(obj, np.ndarray) and type(obj) is not np.ndarray:
+        # subclasses are restored from their array alone
+        restored = obj.view(np.ndarray).view(type(obj))
+        if getattr(obj, "__dict__", {}) != getattr(restored, "__dict__", {}):
+            raise UnsupportedTypeException(obj)
+    if isinstance(obj, (np.str_, np.bytes_)) and obj[-1:] in ("\0", b"\0"):
+        # trailing null characters get lost in arrays
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -32,7 +41,9 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         # allow_pickle=False, therefore we convert them to a list and
         # recursively call get_state on it.
         if obj.dtype == object:
-            obj_serialized = get_state(obj.tolist(), save_context)
+            # the list of an array without dimensions is its only cell
+            values = obj.tolist() if obj.ndim else [obj.item()]
+            obj_serialized = get_state(values, save_context)
             res["content"] = obj_serialized["content"]
             res["type"] = "json"
             res["shape"] = get_state(obj.shape, save_context)
@@ -96,9 +107,7 @@ class NdArrayNode(Node):
             if not isinstance(content, np.ndarray):
                 # np.load also reads npz files, but those are never used here
                 raise ValueError(f"Expected a numpy array, found {type(content)}.")
-            if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
-                content = gettype(self.module_name, self.class_name)(content)
-            return content
+            return self._convert(content)
 
         if self.type == "json":
             # We explicitly set the dtype to "O" since we only save object
@@ -106,22 +115,41 @@ class NdArrayNode(Node):
             shape = self.children["shape"].construct()
             tmp = [o.construct() for o in self.children["content"]]
 
-            # TODO: this is a hack to get the correct shape of the array. We
-            # should find _a better way_ to do this.
-            if len(shape) == 1:
-                content = np.ndarray(shape=len(tmp), dtype="O")
-                for i, v in enumerate(tmp):
-                    content[i] = v
-            else:
-                content = np.array(tmp, dtype="O")
-
-            return content
+            # The lists are nested as deep as the array has dimensions, whatever is
+            # found below that level is a cell.
+            cells = tmp
+            for _ in shape[1:]:
+                cells = [cell for row in cells for cell in row]
+            flat = np.empty(len(cells), dtype="O")
+            for i, v in enumerate(cells):
+                flat[i] = v
+            return self._convert(flat.reshape(shape))
 
         raise ValueError(f"Unknown type for a numpy object: {self.type}.")
 
+    def _convert(self, content: np.ndarray) -> Any:
+        # Convert the array to the type that was saved: a subclass or a scalar
+        if f"{self.module_name}.{self.class_name}" == "numpy.ndarray":
+            return content
+        cls = gettype(self.module_name, self.class_name)
+        if isinstance(cls, type) and issubclass(cls, np.ndarray):
+            content = content.view(cls)
+        elif isinstance(cls, type) and issubclass(cls, np.void):
+            content = content.view((cls, content.dtype))[()]
+        elif content.shape == () and content.dtype.type is cls:
+            content = content[()]
+        else:
+            content = cls(content)
+        if type(content) is not cls:
+            raise TypeError(f"Expected to load a {cls}, found a {type(content)}.")
+        return content
+
 
 def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    res = {
+    if type(obj) is not np.ma.MaskedArray or obj.baseclass is not np.ndarray:
+        raise UnsupportedTypeException(obj)
+
+    res: dict[str, Any] = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "MaskedArrayNode",
@@ -130,6 +158,12 @@ def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
             "mask": get_state(obj.mask, save_context),
         },
     }
+    # most arrays have the default values of these
+    if obj._fill_value is not None:
+        fill_value = get_state(np.asarray(obj._fill_value), save_context)
+        res["content"]["fill_value"] = fill_value
+    if obj.hardmask:
+        res["content"]["hard_mask"] = get_state(True, save_context)
     return res
 
 
@@ -146,11 +180,21 @@ class MaskedArrayNode(Node):
             "data": get_tree(state["content"]["data"], load_context, trusted=trusted),
             "mask": get_tree(state["content"]["mask"], load_context, trusted=trusted),
         }
+        for key in ("fill_value", "hard_mask"):
+            if key in state["content"]:
+                self.children[key] = get_tree(
+                    state["content"][key], load_context, trusted=trusted
+                )
 
     def _construct(self):
         data = self.children["data"].construct()
         mask = self.children["mask"].construct()
-        return np.ma.MaskedArray(data, mask)
+        array = np.ma.MaskedArray(data, mask)
+        if "fill_value" in self.children:
+            array.fill_value = self.children["fill_value"].construct()
+        if "hard_mask" in self.children and self.children["hard_mask"].construct():
+            array.harden_mask()
+        return array
 
 
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -179,8 +223,11 @@ class RandomStateNode(Node):
         self.trusted = self._get_trusted(trusted, [np.random.RandomState])
 
     def _construct(self):
-        random_state = gettype(self.module_name, self.class_name)()
-        random_state.set_state(self.children["content"].construct())
+        state = self.children["content"].construct()
+        # the bit generator is MT19937 unless requested otherwise
+        bit_generator = get_bit_generator_type(state["bit_generator"])()
+        random_state = gettype(self.module_name, self.class_name)(bit_generator)
+        random_state.set_state(state)
         return random_state
 
 
@@ -235,13 +282,18 @@ class RandomGeneratorNode(Node):
 def dtype_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # we use numpy's internal save mechanism to store the dtype by
     # saving/loading an empty array with that dtype.
-    tmp: np.typing.NDArray = np.ndarray(0, dtype=obj)
+    # The dtype of an array is never one with a shape of its own.
+    if obj.base.shape:
+        raise UnsupportedTypeException(obj)
+    tmp: np.typing.NDArray = np.ndarray(0, dtype=obj.base)
     res = {
         "__class__": "dtype",
         "__module__": "numpy",
         "__loader__": "DTypeNode",
         "content": get_state(tmp, save_context),
     }
+    if obj.shape:
+        res["shape"] = get_state(obj.shape, save_context)
     return res
 
 
@@ -256,18 +308,26 @@ class DTypeNode(Node):
         self.children = {
             "content": get_tree(state["content"], load_context, trusted=trusted)
         }
+        if "shape" in state:
+            self.children["shape"] = get_tree(
+                state["shape"], load_context, trusted=trusted
+            )
         # TODO: what should we trust?
         self.trusted = self._get_trusted(trusted, [])
 
     def _construct(self):
         # we use numpy's internal save mechanism to store the dtype by
         # saving/loading an empty array with that dtype.
-        return self.children["content"].construct().dtype
+        dtype = self.children["content"].construct().dtype
+        if "shape" in self.children:
+            dtype = np.dtype((dtype, self.children["shape"].construct()))
+        return dtype
 
 
 # tuples of type and function that gets the state of that type
 GET_STATE_DISPATCH_FUNCTIONS = [
     (np.generic, ndarray_get_state),
+    (np.bytes_, ndarray_get_state),  # also a subclass of bytes
     (np.ndarray, ndarray_get_state),
     (np.ma.MaskedArray, maskedarray_get_state),
     (np.ufunc, function_get_state),
-- 
2.43.0


From adb357fc4c710647d36509c38ec5632f4112d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 29/34] fix: subclasses of sparse matrices, trees and forests
 and attributes of sparse matrices and random generators were lost

---
 skops/io/_numpy.py           |  8 ++++++++
 skops/io/_quantile_forest.py |  5 +++++
 skops/io/_scipy.py           | 11 +++++++++++
 skops/io/_sklearn.py         |  4 ++++
 4 files changed, 28 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index a553d1e..b92ca40 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -197,7 +197,14 @@ class MaskedArrayNode(Node):
         return array
 
 
+def _check_no_attributes(obj: Any) -> None:
+    # Random generators are restored from the state of their bit generator alone.
+    if getattr(obj, "__dict__", None):
+        raise UnsupportedTypeException(obj)
+
+
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    _check_no_attributes(obj)
     content = get_state(obj.get_state(legacy=False), save_context)
     res = {
         "__class__": obj.__class__.__name__,
@@ -232,6 +239,7 @@ class RandomStateNode(Node):
 
 
 def random_generator_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    _check_no_attributes(obj)
     bit_generator_state = get_state(obj.bit_generator.state, save_context)
     seed_seq_state = get_state(obj.bit_generator.seed_seq.state, save_context)
     res = {
diff --git a/skops/io/_quantile_forest.py b/skops/io/_quantile_forest.py
index 6913b9e..4497d71 100644
--- a/skops/io/_quantile_forest.py
+++ b/skops/io/_quantile_forest.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 from ._protocol import PROTOCOL
 from ._sklearn import ReduceNode, reduce_get_state
 from ._utils import LoadContext, SaveContext
+from .exceptions import UnsupportedTypeException
 
 try:
     from quantile_forest._quantile_forest_fast import QuantileForest
@@ -19,6 +20,10 @@ def quantile_forest_get_state(
     obj: Any,
     save_context: SaveContext,
 ) -> dict[str, Any]:
+    if type(obj) is not QuantileForest:
+        # subclasses would be loaded as QuantileForest
+        raise UnsupportedTypeException(obj)
+
     state = reduce_get_state(obj, save_context)
     state["__loader__"] = "QuantileForestNode"
     return state
diff --git a/skops/io/_scipy.py b/skops/io/_scipy.py
index e482a1a..11ea295 100644
--- a/skops/io/_scipy.py
+++ b/skops/io/_scipy.py
@@ -3,14 +3,25 @@ from __future__ import annotations
 import io
 from typing import Any, Optional, Sequence
 
+import scipy.sparse
 from scipy.sparse import load_npz, save_npz, spmatrix
 
 from ._audit import Node
 from ._protocol import PROTOCOL
 from ._utils import LoadContext, SaveContext, get_module
+from .exceptions import UnsupportedTypeException
 
 
 def sparse_matrix_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    # npz files know the formats of scipy and nothing else, neither the type of
+    # subclasses nor any attributes added to the matrix.
+    is_scipy_type = getattr(scipy.sparse, type(obj).__name__, None) is type(obj)
+    if not is_scipy_type or any(
+        name[:1] != "_" and not hasattr(type(obj)((1, 1)), name)
+        for name in getattr(obj, "__dict__", {})
+    ):
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index bc696df..e3bf818 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -206,6 +206,10 @@ class ReduceNode(Node):
 
 
 def tree_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not Tree:
+        # subclasses would be loaded as Tree
+        raise UnsupportedTypeException(obj)
+
     state = reduce_get_state(obj, save_context)
     state["__loader__"] = "TreeNode"
     return state
-- 
2.43.0


From e5cd8f1c0ec8027f7c2f1b239c23dcab37a36798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 30/34] fix: slices with non-finite bounds made the schema
 invalid JSON

---
 skops/io/_general.py | 45 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 894e6b8..5d5368c 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import copyreg
 import io
 import json
+import math
 import operator
 import uuid
 from collections import defaultdict
@@ -438,14 +439,20 @@ def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         if value is not None and type(value) not in (str, int, float, bool):
             raise UnsupportedTypeException(value)
 
+    def get_value_state(value):
+        if isinstance(value, float) and not math.isfinite(value):
+            # these are not valid JSON numbers
+            return get_state(value, save_context)
+        return value
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "SliceNode",
         "content": {
-            "start": obj.start,
-            "stop": obj.stop,
-            "step": obj.step,
+            "start": get_value_state(obj.start),
+            "stop": get_value_state(obj.stop),
+            "step": get_value_state(obj.step),
         },
     }
     return res
@@ -461,21 +468,37 @@ class SliceNode(Node):
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [slice])
         self.children = {
-            "start": state["content"]["start"],
-            "stop": state["content"]["stop"],
-            "step": state["content"]["step"],
+            "start": self._get_value(state["content"]["start"], load_context),
+            "stop": self._get_value(state["content"]["stop"], load_context),
+            "step": self._get_value(state["content"]["step"], load_context),
         }
 
+    def _get_value(self, value: Any, load_context: LoadContext) -> Any:
+        # plain json values, or nodes of values that are not valid json
+        if not isinstance(value, dict):
+            return value
+
+        node = get_tree(value, load_context, trusted=self.trusted)
+        if not isinstance(node, JsonNode):
+            raise TypeError("The bounds of a slice must be plain values.")
+        return node
+
     def _construct(self):
         return slice(
-            self.children["start"], self.children["stop"], self.children["step"]
+            *(
+                value.construct() if isinstance(value, JsonNode) else value
+                for value in self.children.values()
+            )
         )
 
     def get_unsafe_set(self) -> set[str]:
-        # the children are plain json values
-        if self.is_self_safe():
-            return set()
-        return {f"{self.module_name}.{self.class_name}"}
+        # the children are plain json values or nodes thereof
+        nodes = [self, *(x for x in self.children.values() if isinstance(x, JsonNode))]
+        return {
+            f"{node.module_name}.{node.class_name}"
+            for node in nodes
+            if not node.is_self_safe()
+        }
 
 
 def _is_constructor_call(reduce_output: tuple[Any, ...]) -> bool:
-- 
2.43.0


From 6556351e4b4658b35a48eeb8a7327cc8b50f54a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 31/34] fix: objects of extension types with content outside of
 their state were changed quietly

---
 skops/io/_general.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 5d5368c..dd29b1f 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -518,17 +518,24 @@ def _is_restorable_from_state(obj: Any) -> bool:
     if getstate is not getattr(object, "__getstate__", None):
         return True
 
-    for base in cls.__mro__[:-1]:
+    has_own_reduce = (
+        cls.__reduce__ is not object.__reduce__
+        or cls.__reduce_ex__ is not object.__reduce_ex__
+    )
+    is_extension_type = any(
         # only extension types have a builtin __new__
-        new = base.__dict__.get("__new__")
-        if type(new) is builtin_function_or_method:
-            break
-    else:
+        type(base.__dict__.get("__new__")) is builtin_function_or_method
+        for base in cls.__mro__[:-1]
+    )
+    if has_own_reduce and not is_extension_type:
         return True
 
+    # this raises if there is content that is not part of the state
     func, args, *rest = obj.__reduce_ex__(2)
     if any(x is not None for x in rest[1:]):
         return False
+    if has_own_reduce and rest and rest[0] is not getattr(obj, "__dict__", None):
+        return False
     return (func is cls and args == ()) or (
         func is copyreg.__newobj__ and args == (cls,)  # type: ignore
     )
-- 
2.43.0


From b3d448bf6fadd8f5ec2533282a8b0e0332affd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 32/34] fix: a masked array referenced several times was stored
 several times

---
 skops/io/_numpy.py | 6 ++++++
 skops/io/_utils.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index b92ca40..1fe5e18 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -149,6 +149,11 @@ def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
     if type(obj) is not np.ma.MaskedArray or obj.baseclass is not np.ndarray:
         raise UnsupportedTypeException(obj)
 
+    # data and mask are new arrays each time, thus do not ask for them again
+    obj_id = save_context.memoize(obj)
+    if obj_id in save_context.states:
+        return dict(save_context.states[obj_id])
+
     res: dict[str, Any] = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -164,6 +169,7 @@ def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
         res["content"]["fill_value"] = fill_value
     if obj.hardmask:
         res["content"]["hard_mask"] = get_state(True, save_context)
+    save_context.states[obj_id] = res
     return res
 
 
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index 390b992..495a940 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -124,6 +124,8 @@ class SaveContext:
     zip_file: ZipFile
     protocol: int = PROTOCOL
     memo: dict[int, Any] = field(default_factory=dict)
+    # states, by id, of memoized objects whose parts are created on access
+    states: dict[int, dict[str, Any]] = field(default_factory=dict)
 
     def memoize(self, obj: Any) -> int:
         # Currently, the only purpose for saving the object id is to make sure
@@ -137,6 +139,7 @@ class SaveContext:
 
     def clear_memo(self) -> None:
         self.memo.clear()
+        self.states.clear()
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From c591fb2d240f1e19b57f6f2c3536032566f8d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 33/34] fix: update did not replace files atomically and failed
 for outputs in subdirectories

---
 skops/cli/_update.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skops/cli/_update.py b/skops/cli/_update.py
index e3edecc..3c7c144 100644
--- a/skops/cli/_update.py
+++ b/skops/cli/_update.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import argparse
 import json
 import logging
-import shutil
+import os
 import tempfile
 import zipfile
 from pathlib import Path
@@ -74,10 +74,13 @@ def _update_file(
         )
         return None
 
-    with tempfile.TemporaryDirectory() as tmp_dir:
-        tmp_output_file = Path(tmp_dir) / f"{output_file}.tmp"
+    # Replacing a file is atomic only within a file system, thus the temporary file
+    # is written next to the output file.
+    output_dir = Path(output_file).absolute().parent
+    with tempfile.TemporaryDirectory(prefix=".skops-", dir=output_dir) as tmp_dir:
+        tmp_output_file = Path(tmp_dir) / "updated.skops"
         dump(input_model, tmp_output_file)
-        shutil.move(str(tmp_output_file), str(output_file))
+        os.replace(tmp_output_file, output_file)
     logger.info(f"Updated skops file written to {output_file}")
 
 
-- 
2.43.0


From c6a5bc82f1f708200e19c33cb9157dbecb162162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 34/34] fix: visualize showed object arrays with untrusted
 content as safe

---
 skops/io/_visualize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index a34f59f..df13319 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -286,8 +286,9 @@ def walk_tree(
         return
 
     # Plain values, such as the bounds of a slice, the name of a method, or the
-    # attributes of an object without any, are not nodes and thus not shown.
-    if node is None or isinstance(node, (str, int, float)):
+    # attributes of an object without any, are not nodes and thus not shown. The same
+    # goes for the content of files.
+    if node is None or isinstance(node, (str, int, float, io.BytesIO)):
         return
 
     # NO MATCH: RAISE ERROR
@@ -311,11 +312,10 @@ def walk_tree(
         is_last=is_last,
     )
 
-    # TYPES WHOSE CHILDREN IT MAKES NO SENSE TO VISIT
-    # TODO: For better security, we should check the schema if we return early,
-    # otherwise something nefarious could be hidden inside (however, if there
-    # is, the node should be marked as unsafe)
-    if isinstance(node, SKIPPED_TYPES):
+    # TYPES WHOSE CHILDREN IT MAKES NO SENSE TO VISIT, unless there is something
+    # untrusted among them, e.g. in the cells of an object array.
+    own_name = f"{node.module_name}.{node.class_name}"
+    if isinstance(node, SKIPPED_TYPES) and not node.get_unsafe_set() - {own_name}:
         return
 
     children = node.children
-- 
2.43.0

