From 1af73a153a2256c887836f32963235a6db50c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 01/71] fix: close the quot entity in escaped attribute values

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index f2da5d4..1618abb 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -149,7 +149,7 @@ class HtmlEmitter:
         return escape(text)
 
     def attr_escape(self, text):
-        return self.html_escape(text).replace('"', '&quot')
+        return self.html_escape(text).replace('"', '&quot;')
 
     # *_emit methods for emitting nodes of the document:
 
-- 
2.43.0


From 0a56d8cf2d1b36df2fe6f0b160e0b2b9b258bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 02/71] fix: escape the image target used as title when only a
 size is given

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 1618abb..13a7742 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -273,7 +273,7 @@ class HtmlEmitter:
                 if "|" in text:
                     title, size_str = text.split("|", 1)
                     if not title:
-                        title = target
+                        title = self.attr_escape(target)
                     w_str, h_str = size_str.split("x", 1)
                     width = int(w_str.strip())
                     height = int(h_str.strip())
-- 
2.43.0


From c730d52f779770b18ca97616493e1e3be9dba54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 03/71] fix: escape macro error details shown in the page

---
 creole/emitter/creol2html_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 13a7742..77f5625 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -321,7 +321,7 @@ class HtmlEmitter:
         try:
             result = macro(**macro_kwargs)
         except TypeError as err:
-            msg = f"Macro '{macro_name}' error: {err}"
+            msg = f"Macro '{macro_name}' error: {self.html_escape(str(err))}"
             exc_info = sys.exc_info()
             if self.verbose > 1:
                 if self.verbose > 2:
@@ -348,14 +348,14 @@ class HtmlEmitter:
             return self.error(msg, exc_info)
         except Exception as err:
             return self.error(
-                f"Macro '{macro_name}' error: {err}",
+                f"Macro '{macro_name}' error: {self.html_escape(str(err))}",
                 exc_info=sys.exc_info()
             )
 
         if not isinstance(result, str):
             msg = f"Macro '{macro_name}' doesn't return a unicode string!"
             if self.verbose > 1:
-                msg += f" - returns: {result!r}, type {type(result)!r}"
+                msg += self.html_escape(f" - returns: {result!r}, type {type(result)!r}")
             return self.error(msg)
 
         if node.kind == "macro_block":
-- 
2.43.0


From 18786cb7156c1889489c583f280b384227047ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 04/71] fix: escape headings in the table of contents and in
 their anchors

---
 creole/emitter/creol2html_emitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 77f5625..2e46696 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -65,7 +65,9 @@ class TableOfContent:
         """Convert a python nested list like the one representing the toc to an html equivalent."""
         indent = "\t" * level
         if isinstance(nested_headlines, str):
-            return f'{indent}<li><a href="#{nested_headlines}">{nested_headlines}</a></li>\n'
+            text = escape(nested_headlines)
+            anchor = text.replace('"', '&quot;')
+            return f'{indent}<li><a href="#{anchor}">{text}</a></li>\n'
         elif isinstance(nested_headlines, list):
             html = f'{indent}<ul>\n'
             for elt in nested_headlines:
@@ -248,7 +250,7 @@ class HtmlEmitter:
         if self.toc is not None:
             self.toc.add_headline(node.level, node.content)
             # add link attribute for toc navigation
-            header = f'<a name="{self.html_escape(node.content)}">{header}</a>'
+            header = f'<a name="{self.attr_escape(node.content)}">{header}</a>'
 
         header += "\n"
         return header
-- 
2.43.0


From 5b601ec36edd8314a727f6e2e90b75a5cc8b6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 05/71] fix: do not store the table of contents in the caller's
 macros

---
 creole/emitter/creol2html_emitter.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 2e46696..4a148bb 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -116,17 +116,17 @@ class HtmlEmitter:
             self.toc = None
         else:
             if isinstance(self.macros, dict):
-                if "toc" in self.macros:
-                    self.toc = self.macros["toc"]
-                else:
-                    self.toc = TableOfContent()
-                    self.macros["toc"] = self.toc
+                user_toc = self.macros.get("toc")
             else:
-                try:
-                    self.toc = getattr(self.macros, "toc")
-                except AttributeError:
-                    self.toc = TableOfContent()
-                    self.macros.toc = self.toc
+                user_toc = getattr(self.macros, "toc", None)
+
+            if user_toc is None:
+                self.toc = TableOfContent()
+            elif hasattr(user_toc, "add_headline"):
+                self.toc = user_toc
+            else:
+                # a plain user macro, that is named "toc"
+                self.toc = None
 
         if verbose is None:
             self.verbose = 1
@@ -303,7 +303,9 @@ class HtmlEmitter:
         macro_kwargs["text"] = text
 
         exc_info = None
-        if isinstance(self.macros, dict):
+        if macro_name == "toc" and self.toc is not None:
+            macro = self.toc
+        elif isinstance(self.macros, dict):
             try:
                 macro = self.macros[macro_name]
             except KeyError:
-- 
2.43.0


From f2a7b02bd090661f134a04959330f24dfb634c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 06/71] fix: apply the toc depth to all headings and report a
 bad depth as macro error

---
 creole/emitter/creol2html_emitter.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 4a148bb..b7fd787 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -27,18 +27,17 @@ class TableOfContent:
         if self._created:
             return "&lt;&lt;toc&gt;&gt;"
 
-        self._created = True
         if depth is not None:
-            self.max_depth = depth
+            self.max_depth = int(depth)
 
+        self._created = True
         return '<<toc>>'
 
     def add_headline(self, level, content):
         """Add the current header to the toc."""
-        if self.max_depth is None or level <= self.max_depth:
-            self.headlines.append(
-                (level, content)
-            )
+        self.headlines.append(
+            (level, content)
+        )
 
     def flat_list2nest_list(self, flat_list):
         # this func code based on borrowed code from EyDu, Thanks!
@@ -79,7 +78,11 @@ class TableOfContent:
 
     def emit(self, document):
         """Emit the toc where the <<toc>> macro was."""
-        nested_headlines = self.flat_list2nest_list(self.headlines)
+        headlines = [
+            (level, content) for level, content in self.headlines
+            if self.max_depth is None or level <= self.max_depth
+        ]
+        nested_headlines = self.flat_list2nest_list(headlines)
         html = self.nested_headlines2html(nested_headlines)
 
         # FIXME: We should not use <p> here, because it doesn't match
-- 
2.43.0


From cfbf6f8c0d4530c9a049ac8e8e9183a9e9051c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 07/71] fix: do not lose text that html.parser still buffers at
 the end

---
 creole/parser/html_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 0b8e171..71cd7db 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -154,6 +154,7 @@ class HtmlParser(HTMLParser):
             print("-" * 79)
 
         HTMLParser.feed(self, data)
+        HTMLParser.close(self)  # handle buffered data at the end
 
         return self.root
 
-- 
2.43.0


From 8230663ecef7d58654e9d0058beb4fb4acbb0bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 08/71] fix: do not lose everything after a stray end tag

---
 creole/parser/html_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 71cd7db..424e34e 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -247,9 +247,9 @@ class HtmlParser(HTMLParser):
         if tag in ("ul", "ol"):
             self.__list_level -= 1
 
-        if tag in BLOCK_TAGS or self.cur is None:
+        if tag in BLOCK_TAGS:
             self._go_up()
-        else:
+        elif self.cur.parent is not None:  # ignore stray end tags on document level
             self.cur = self.cur.parent
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From c6bc87df6ae259966a59873f998ef877af8bae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 09/71] fix: only treat h1..h9 tags as headlines

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 424e34e..d1b208d 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -35,7 +35,7 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE)
 
 
-headline_tag_re = re.compile(r"h(\d)", re.UNICODE)
+headline_tag_re = re.compile(r"h([1-9])$", re.UNICODE)
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From ec54d346a43212a9af2de67fba4a86787a6ac121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 10/71] fix: do not lose table cells if the rows have different
 lengths

The generated README.rst and README.md lost a column this way, they are regenerated.
---
 README.md                     |  8 ++++----
 README.rst                    | 18 +++++++++---------
 creole/shared/markup_table.py |  5 +++++
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/README.md b/README.md
index 047689f..5c33262 100644
--- a/README.md
+++ b/README.md
@@ -21,10 +21,10 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |
-| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    |
-| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            |
-| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        |
+| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |                                                                                                          |
+| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    | [coveralls.io/r/jedie/python-creole](https://coveralls.io/r/jedie/python-creole)                         |
+| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            | [landscape.io/github/jedie/python-creole/master](https://landscape.io/github/jedie/python-creole/master) |
+| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        | [pypi.org/project/python-creole/](https://pypi.org/project/python-creole/)                               |
 
 # install
 
diff --git a/README.rst b/README.rst
index 4f70129..bdadc7e 100644
--- a/README.rst
+++ b/README.rst
@@ -27,15 +27,15 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-+-----------------------------------+
-| |Build Status on github|          |
-+-----------------------------------+
-| |Coverage Status on coveralls.io| |
-+-----------------------------------+
-| |Status on landscape.io|          |
-+-----------------------------------+
-| |PyPi version|                    |
-+-----------------------------------+
++-----------------------------------+---------------------------------------------------+
+| |Build Status on github|          |                                                   |
++-----------------------------------+---------------------------------------------------+
+| |Coverage Status on coveralls.io| | `coveralls.io/r/jedie/python-creole`_             |
++-----------------------------------+---------------------------------------------------+
+| |Status on landscape.io|          | `landscape.io/github/jedie/python-creole/master`_ |
++-----------------------------------+---------------------------------------------------+
+| |PyPi version|                    | `pypi.org/project/python-creole/`_                |
++-----------------------------------+---------------------------------------------------+
 
 .. |Build Status on github| image:: https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master
 .. |Coverage Status on coveralls.io| image:: https://coveralls.io/repos/jedie/python-creole/badge.svg
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 70611c2..b5ae904 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -50,6 +50,11 @@ class MarkupTable:
                 line_cells.append(cell)
             cells.append(line_cells)
 
+        # Fill up short rows, so that all rows have the same number of cells
+        col_count = max((len(line_cells) for line_cells in cells), default=0)
+        for line_cells in cells:
+            line_cells.extend([""] * (col_count - len(line_cells)))
+
         # Build a list of max len for every column
         widths = [max(map(len, col)) for col in zip(*cells)]
 
-- 
2.43.0


From 365277450e796dfe644ddb448123bec4bc2fe8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 11/71] fix: do not fail on links without href and images
 without src

---
 creole/emitter/html2creole_emitter.py   | 13 +++++++------
 creole/emitter/html2markdown_emitter.py | 14 +++++++++++---
 creole/emitter/html2rest_emitter.py     | 12 ++++++++----
 creole/emitter/html2textile_emitter.py  | 12 ++++++++----
 4 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index d745fe3..82ee2be 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -97,9 +97,8 @@ class CreoleEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        try:
-            url = node.attrs["href"]
-        except KeyError:
+        url = node.attrs.get("href")
+        if url is None:
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
         if link_text == url:
@@ -108,13 +107,15 @@ class CreoleEmitter(BaseEmitter):
             return f"[[{url}|{link_text}]]"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src")
+        if src is None:
+            return ""
 
         if src.split(':')[0] == 'data':
             return ""
 
-        title = node.attrs.get("title", "")
-        alt = node.attrs.get("alt", "")
+        title = node.attrs.get("title") or ""
+        alt = node.attrs.get("alt") or ""
         width = node.attrs.get("height", None)
         height = node.attrs.get("width", None)
         if len(alt) > len(title):  # Use the longest one
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b9bf8a0..2cc69c3 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -150,7 +150,11 @@ class MarkdownEmitter(BaseEmitter):
     def a_emit(self, node: DocNode):
         link_text = self.emit_children(node)
 
-        url = quote_link(node.attrs['href'])
+        url = node.attrs.get('href')
+        if url is None:
+            return link_text
+
+        url = quote_link(url)
 
         title = node.attrs.get('title')
         if title:
@@ -159,10 +163,14 @@ class MarkdownEmitter(BaseEmitter):
             return f'[{link_text}]({url})'
 
     def img_emit(self, node: DocNode):
-        src = quote_link(node.attrs['src'])
+        src = node.attrs.get('src')
+        if src is None:
+            return ''
+
+        src = quote_link(src)
 
         title = node.attrs.get('title')
-        alt = node.attrs.get('alt', '')
+        alt = node.attrs.get('alt') or ''
         if title and alt:
             return f'![{alt}]({src} "{title}")'
 
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 64891ca..a8769c9 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -203,7 +203,9 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href")
+        if url is None:
+            return link_text
 
         old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
 
@@ -224,13 +226,15 @@ class ReStructuredTextEmitter(BaseEmitter):
             return f"`{link_text} <{url}>`_"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src")
+        if src is None:
+            return ""
 
         if src.split(':')[0] == 'data':
             return ""
 
-        title = node.attrs.get("title", "")
-        alt = node.attrs.get("alt", "")
+        title = node.attrs.get("title") or ""
+        alt = node.attrs.get("alt") or ""
         if len(alt) > len(title):  # Use the longest one
             substitution_text = alt
         else:
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 89623d4..11e14e7 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -96,17 +96,21 @@ class TextileEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href")
+        if url is None:
+            return link_text
         return f'"{link_text}":{url}'
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src")
+        if src is None:
+            return ""
 
         if src.split(':')[0] == 'data':
             return ""
 
-        title = node.attrs.get("title", "")
-        alt = node.attrs.get("alt", "")
+        title = node.attrs.get("title") or ""
+        alt = node.attrs.get("alt") or ""
         if len(alt) > len(title):  # Use the longest one
             text = alt
         else:
-- 
2.43.0


From c0741e6496ccdb8dca65b35ad73ffd18d930a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 12/71] fix: handle table cells outside of a table and nested
 tables

---
 creole/emitter/html2markdown_emitter.py | 8 ++++++++
 creole/emitter/html2rest_emitter.py     | 2 ++
 creole/shared/base_emitter.py           | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 2cc69c3..47f551f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -45,21 +45,29 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
+        outer_table = self._table
         self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
         self.emit_children(node)
         content = self._table.get_markdown_table()
+        self._table = outer_table
         return f'\n{content}\n'
 
     def tr_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         self._table.add_tr()
         self.emit_children(node)
         return ''
 
     def th_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         self._table.add_th(self.emit_children(node))
         return ''
 
     def td_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         self._table.add_td(self.emit_children(node))
         return ''
     # --------------------------------------------------------------------------
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index a8769c9..51914ed 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -286,6 +286,7 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
+        outer_table = self._table
         self._table = MarkupTable(
             head_prefix="",
             auto_width=True,
@@ -293,4 +294,5 @@ class ReStructuredTextEmitter(BaseEmitter):
         )
         self.emit_children(node)
         content = self._table.get_rest_table()
+        self._table = outer_table
         return f"{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 35d7f88..8954625 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -34,6 +34,7 @@ class BaseEmitter:
         self.deentity = Deentity()  # for replacing html entities
         self._inner_list = ""
         self._mask_linebreak = False
+        self._table = None  # The current MarkupTable, if we are inside a table
 
     # --------------------------------------------------------------------------
 
@@ -125,6 +126,7 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def table_emit(self, node):
+        outer_table = self._table
         self._table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
@@ -132,9 +134,12 @@ class BaseEmitter:
         )
         self.emit_children(node)
         content = self._table.get_table_markup()
+        self._table = outer_table
         return f"{content}\n"
 
     def tr_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         self._table.add_tr()
         self.emit_children(node)
         return ""
@@ -149,12 +154,16 @@ class BaseEmitter:
         return content
 
     def th_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_th(content)
         return ""
 
     def td_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_td(content)
-- 
2.43.0


From 8af839664b8757959b06d87bf4202318326d4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 13/71] fix: do not lose text in a table that is not in a cell

---
 creole/emitter/html2markdown_emitter.py | 7 ++++---
 creole/emitter/html2rest_emitter.py     | 4 +++-
 creole/shared/base_emitter.py           | 7 ++++---
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 47f551f..9d2997a 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -47,17 +47,18 @@ class MarkdownEmitter(BaseEmitter):
     def table_emit(self, node):
         outer_table = self._table
         self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
-        self.emit_children(node)
+        rest = self.emit_children(node).strip()
         content = self._table.get_markdown_table()
         self._table = outer_table
+        if rest:  # text in the table, but not in a cell
+            content = f'{rest}\n\n{content}'
         return f'\n{content}\n'
 
     def tr_emit(self, node):
         if self._table is None:
             return self._emit_content(node)
         self._table.add_tr()
-        self.emit_children(node)
-        return ''
+        return self.emit_children(node)
 
     def th_emit(self, node):
         if self._table is None:
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 51914ed..63d73f5 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -292,7 +292,9 @@ class ReStructuredTextEmitter(BaseEmitter):
             auto_width=True,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
+        rest = self.emit_children(node).strip()
         content = self._table.get_rest_table()
         self._table = outer_table
+        if rest:  # text in the table, but not in a cell
+            content = f"{rest}\n\n{content}"
         return f"{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 8954625..751e05d 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -132,17 +132,18 @@ class BaseEmitter:
             auto_width=self.table_auto_width,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
+        rest = self.emit_children(node).strip()
         content = self._table.get_table_markup()
         self._table = outer_table
+        if rest:  # text in the table, but not in a cell
+            content = f"{rest}\n\n{content}"
         return f"{content}\n"
 
     def tr_emit(self, node):
         if self._table is None:
             return self._emit_content(node)
         self._table.add_tr()
-        self.emit_children(node)
-        return ""
+        return self.emit_children(node)
 
     def _escape_linebreaks(self, text):
         text = text.strip()
-- 
2.43.0


From 8440cee520d90a720d0a4642a39f98b93ec9e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 14/71] fix: dict2string() writes values so that string2dict()
 reads them back

---
 creole/shared/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/creole/shared/utils.py b/creole/shared/utils.py
index 9c8ffc8..9ba049c 100644
--- a/creole/shared/utils.py
+++ b/creole/shared/utils.py
@@ -7,7 +7,6 @@
 """
 
 
-import json
 import shlex
 
 
@@ -74,8 +73,11 @@ def dict2string(d):
     """
     attr_list = []
     for key, value in sorted(d.items()):
-        value_string = json.dumps(value)
-        attr_list.append(f"{key}={value_string}")
+        if isinstance(value, str):
+            # quote it in the way that string2dict() can parse it
+            value = value.replace("\\", "\\\\").replace('"', '\\"')
+            value = f'"{value}"'
+        attr_list.append(f"{key}={value}")
     return " ".join(attr_list)
 
 
-- 
2.43.0


From 961a733b9d033b439620a67f41930564fb34c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 15/71] fix: write the attributes of unknown tags as HTML
 attributes

---
 creole/shared/document_tree.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/creole/shared/document_tree.py b/creole/shared/document_tree.py
index 7e22266..3370c1e 100644
--- a/creole/shared/document_tree.py
+++ b/creole/shared/document_tree.py
@@ -9,8 +9,7 @@
 
 import inspect
 import warnings
-
-from creole.shared.utils import dict2string
+from xml.sax.saxutils import escape
 
 
 class DocNode:
@@ -47,7 +46,15 @@ class DocNode:
         >>> node.get_attrs_as_string()
         'foo="bar" no="ABC"'
         """
-        return dict2string(self.attrs)
+        attr_list = []
+        for key, value in sorted(self.attrs.items()):
+            if value is None:  # e.g.: <input disabled>
+                attr_list.append(key)
+                continue
+            if isinstance(value, str):
+                value = '"%s"' % escape(value, {'"': "&quot;"})
+            attr_list.append(f"{key}={value}")
+        return " ".join(attr_list)
 
     def __str__(self):
         return str(self.__repr__())
-- 
2.43.0


From 14f407059501ba3548f7cfd2736df0d471c161ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 16/71] fix: html2rest headline adornments are long enough for
 wide characters

---
 creole/emitter/html2rest_emitter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 63d73f5..f563348 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -12,6 +12,7 @@
 
 
 import posixpath
+import unicodedata
 
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.markup_table import MarkupTable
@@ -25,6 +26,18 @@ class Html2restException(Exception):
     pass
 
 
+def text_width(text):
+    """
+    Number of columns: East Asian wide characters use two of them.
+
+    >>> text_width("foo")
+    3
+    >>> text_width("\u65e5\u672c")
+    4
+    """
+    return sum(2 if unicodedata.east_asian_width(char) in "WF" else 1 for char in text)
+
+
 class ReStructuredTextEmitter(BaseEmitter):
     """
     Build from a document_tree (html2creole.parser.HtmlParser instance) a
@@ -116,7 +129,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        markup = char * len(text)
+        markup = char * text_width(text)
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
-- 
2.43.0


From 714fe5506af0d596302c87f2ce8c59d85c062b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 17/71] fix: character references without a character are left
 as they are, named ones may contain digits

---
 creole/html_tools/deentity.py | 21 +++++++++++++++------
 creole/shared/base_emitter.py | 18 +++++++++++-------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index 16a7dfa..aaa5788 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -13,9 +13,9 @@ from html import entities
 
 
 entities_rules = '|'.join([
-    r"(&\#(?P<number>\d+);)",
-    r"(&\#x(?P<hex>[a-fA-F0-9]+);)",
-    r"(&(?P<named>[a-zA-Z]+);)",
+    r"(&\#(?P<number>[0-9]+);)",
+    r"(&\#[xX](?P<hex>[a-fA-F0-9]+);)",
+    r"(&(?P<named>[a-zA-Z][a-zA-Z0-9]*);)",
 ])
 # print(entities_rules)
 entities_regex = re.compile(
@@ -42,15 +42,20 @@ class Deentity:
     '&'
     """
 
+    def _chr(self, unicode_no):
+        if unicode_no > 0x10FFFF or 0xD800 <= unicode_no <= 0xDFFF:
+            raise ValueError(f"{unicode_no} is not a unicode character")
+        return chr(unicode_no)
+
     def replace_number(self, text):
         """ unicode number entity """
         unicode_no = int(text)
-        return chr(unicode_no)
+        return self._chr(unicode_no)
 
     def replace_hex(self, text):
         """ hex entity """
         unicode_no = int(text, 16)
-        return chr(unicode_no)
+        return self._chr(unicode_no)
 
     def replace_named(self, text):
         """ named entity """
@@ -68,7 +73,11 @@ class Deentity:
             for name, text in groups.items():
                 if text is not None:
                     replace_method = getattr(self, f'replace_{name}')
-                    return replace_method(text)
+                    try:
+                        return replace_method(text)
+                    except (KeyError, ValueError):
+                        # not a known entity or character: leave it as it is
+                        return match.group(0)
 
             # Should never happen:
             raise RuntimeError("deentitfy re rules wrong!")
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 751e05d..72fd983 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -70,13 +70,17 @@ class BaseEmitter:
         """
         entity = node.content
 
-        if entity.startswith("x"):
-            # entity in hex
-            hex_no = entity[1:]
-            return self.deentity.replace_hex(hex_no)
-        else:
-            # entity as a unicode number
-            return self.deentity.replace_number(entity)
+        try:
+            if entity.startswith(("x", "X")):
+                # entity in hex
+                hex_no = entity[1:]
+                return self.deentity.replace_hex(hex_no)
+            else:
+                # entity as a unicode number
+                return self.deentity.replace_number(entity)
+        except ValueError:
+            # not a character: leave it as it is
+            return f"&#{entity};"
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 7314c6003b3b2865a5c9296d5156f9ab52113477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 18/71] fix: keep the destination file if reading or converting
 the source fails

---
 creole/cmdline.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 18d9074..5d71b8a 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -49,10 +49,14 @@ class CreoleCLI:
         )
 
         with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            with codecs.open(destination, "w", encoding=encoding) as outfile:
-                content = infile.read()
-                converted = self.convert_func(content)
-                outfile.write(converted)
+            content = infile.read()
+
+        # Open the destination not before there is something to write:
+        # On errors an existing file must not be lost.
+        converted = codecs.encode(self.convert_func(content), encoding)
+
+        with open(destination, "wb") as outfile:
+            outfile.write(converted)
         print(f"done. {destination!r} created.")
 
 
-- 
2.43.0


From db696d57bb1eaa0aa558d1bd8902899e6aa1d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 19/71] fix: update the README files if lines are added or
 removed at the end or the file is missing

---
 creole/setup_utils.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 2b716ea..62ccb05 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -144,6 +144,14 @@ def _generate_markdown_readme(*, creole_readme_path):
     return markdown_readme
 
 
+def _is_up_to_date(readme_path, generated_readme):
+    if not readme_path.is_file():
+        return False
+    content = readme_path.read_text(encoding='utf-8')
+    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
+    return content == generated_readme
+
+
 def update_rst_readme(package_root, filename='README.creole'):
     """
     Generate README.rst from README.creole
@@ -162,19 +170,12 @@ def update_rst_readme(package_root, filename='README.creole'):
     rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)
 
     # Check if content was changed
-    changed = False
-    with rest_readme_path.open('r') as f:
-        for new_line, old_line in zip(rest_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    if _is_up_to_date(rest_readme_path, rest_readme):
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return rest_readme_path
 
-    with rest_readme_path.open('w') as f:
+    with rest_readme_path.open('w', encoding='utf-8') as f:
         f.write(rest_readme)
 
         # Add a note about generation with modification time from source:
@@ -209,20 +210,13 @@ def update_markdown_readme(package_root, filename='README.creole'):
 
     markdown_readme = _generate_markdown_readme(creole_readme_path=creole_readme_path)
 
-    # # Check if content was changed
-    changed = False
-    with markdown_readme_path.open('r') as f:
-        for new_line, old_line in zip(markdown_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    # Check if content was changed
+    if _is_up_to_date(markdown_readme_path, markdown_readme):
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return markdown_readme_path
 
-    with markdown_readme_path.open('w') as f:
+    with markdown_readme_path.open('w', encoding='utf-8') as f:
         f.write(markdown_readme)
 
         # Add a note about generation with modification time from source:
-- 
2.43.0


From 1103f33c5476732edaedc3583e355ff5e3e221c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 20/71] fix: get_long_description() called html2rest() with an
 unknown argument

---
 creole/setup_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 62ccb05..b108c8b 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -77,7 +77,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
         # convert html to ReSt
         long_description_rest = html2rest(
             long_description_html,
-            emitter_kwargs={'unknown_emit': unknown_emit}
+            unknown_emit=unknown_emit
         )
     except Exception:
         if raise_errors:
-- 
2.43.0


From c4a864c95d2e51237c23938e45154baa8ea0e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 21/71] fix: html2markdown keeps the complete content of code
 in pre

---
 creole/emitter/html2markdown_emitter.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 9d2997a..8b568f9 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -83,12 +83,13 @@ class MarkdownEmitter(BaseEmitter):
 
         if pre_content.endswith('</code>'):
             # TODO: The parser should parse this!
-            p = HtmlParser(debug=True)
+            p = HtmlParser()
             root_node: DocNode = p.feed(pre_content, preprocess=False)
-            code_node: DocNode = root_node.children[0]
-            code = self.deentity.replace_all(code_node.children[0].content)
+            code = self._get_text(root_node)
 
-            class_value = code_node.attrs.get('class')
+            class_value = None
+            if root_node.children:
+                class_value = root_node.children[0].attrs.get('class')
             if class_value:
                 if class_value.startswith('language-'):
                     language = class_value.partition('-')[2]
@@ -98,6 +99,16 @@ class MarkdownEmitter(BaseEmitter):
 
         return f'\n```{self.deentity.replace_all(pre_content)}```\n'
 
+    def _get_text(self, node: DocNode):
+        """The complete text in a node, without any markup"""
+        if node.kind == 'data':
+            return node.content
+        elif node.kind == 'entityref':
+            return self.entityref_emit(node)
+        elif node.kind == 'charref':
+            return self.charref_emit(node)
+        return ''.join(self._get_text(child) for child in node.children)
+
     def blockdata_pass_emit(self, node: DocNode):
         return f'\n{node.content}\n'
 
-- 
2.43.0


From c1f4122d976562ad591b4c6e26ee44a4fa53fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 22/71] fix: html2markdown does not fail on list items outside
 of a list

---
 creole/emitter/html2markdown_emitter.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 8b568f9..49a5b17 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -212,12 +212,10 @@ class MarkdownEmitter(BaseEmitter):
 
         list_node = node.parent
         list_kind = list_node.kind
-        if list_kind == 'ul':
-            prefix = '*'
-        elif list_kind == 'ol':
+        if list_kind == 'ol':
             prefix = '1.'
-        else:
-            raise NotImplementedError(f'List type: {list_kind}')
+        else:  # ul, but also list items outside of a list
+            prefix = '*'
 
         indent = '  ' * (list_level - 1)
 
-- 
2.43.0


From 4925bae6ed2db052fc410bc3a5203a3bcb7b8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 23/71] fix: html2markdown does not fail on wrong URLs and does
 not quote them twice

---
 creole/emitter/html2markdown_emitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 49a5b17..b1e7600 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -24,8 +24,11 @@ def quote_link(uri):
     >>> quote_link('https://foo.tld/a image.png?bar=1#anchor')
     'https://foo.tld/a%20image.png?bar=1#anchor'
     """
-    scheme, netloc, url, params, query, fragment = urlparse(uri)
-    url = quote(url)
+    try:
+        scheme, netloc, url, params, query, fragment = urlparse(uri)
+    except ValueError:  # e.g. a wrong IPv6 address
+        return uri
+    url = quote(url, safe='/%')  # do not quote again what is already quoted
     return urlunparse(ParseResult(scheme, netloc, url, params, query, fragment))
 
 
-- 
2.43.0


From f088ed10516820de52fd59844a596ed3b2be5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 24/71] fix: the code macro guesses the lexer from the text

---
 creole/shared/example_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/example_macros.py b/creole/shared/example_macros.py
index 635e920..0002a2e 100644
--- a/creole/shared/example_macros.py
+++ b/creole/shared/example_macros.py
@@ -55,7 +55,7 @@ def code(ext, text):
     except IndexError:
         source_type = ''
 
-    lexer = get_pygments_lexer(source_type, code)
+    lexer = get_pygments_lexer(source_type, text)
     formatter = get_pygments_formatter()
 
     try:
-- 
2.43.0


From 903fe0c0036cb4ed17c7c2ba0e4ab3a6df9b0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 25/71] fix: keep blank lines at the start of nowiki blocks

---
 creole/parser/creol2html_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 07754c9..a208963 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -128,7 +128,7 @@ class BlockRules:
     separator = r'(?P<separator> ^ \s* ----) [ \t]* $'  # horizontal line
 
     pre_block = r'''(?P<pre_block>
-            ^{{{ \s* $
+            ^{{{ [^\S\n]* $
             (?P<pre_block_text>
                 ([\#]!(?P<pre_block_kind>\w*?)(\s+.*)?$)?
                 (.|\n)+?
-- 
2.43.0


From 6a7b915b33ec9f908e6fc07c01bb7ee69fd143c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 26/71] fix: trim link targets on both sides

---
 creole/parser/creol2html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index dd31a44..84ee31e 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -160,7 +160,7 @@ class CreoleParser:
 
     def _link_repl(self, groups):
         """Handle all kinds of links."""
-        target = groups.get('link_target', "")
+        target = groups.get('link_target', "").strip()
         text = (groups.get('link_text', "") or "").strip()
         parent = self.cur
         self.cur = DocNode('link', self.cur)
-- 
2.43.0


From d5e5ff34a0a4c9ecf54217b2b1229c4ad76549a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 27/71] fix: recognize blocks directly after a text line with
 wiki style line breaks

---
 creole/parser/creol2html_parser.py | 11 ++++++++++-
 creole/parser/creol2html_rules.py  |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 84ee31e..407adb3 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -75,6 +75,7 @@ class CreoleParser:
         self.cur = self.root        # The most recent document node
         self.text = None            # The node to add inline characters to
         self.last_text_break = None  # Last break node, inserted by _text_repl()
+        self.space_node = None       # Node with a space before its next text line
 
         # Filled with all macros that's in the text
         self.root.used_macros = set()
@@ -126,12 +127,20 @@ class CreoleParser:
 
         text = groups.get('text', "")
 
-        if groups.get('space') and self.cur.children:
+        if self.cur.kind == 'list_item':
+            # this line continues the list item
+            if self.cur.children and self.cur.children[-1].kind != 'break':
+                if 'break' not in groups:
+                    text = " " + text
+        elif self.cur is self.space_node:
             # use wikipedia style line breaks and seperate a new line with one space
             text = " " + text
 
         self.parse_inline(text)
 
+        # the node that continues on the next line
+        self.space_node = self.cur if groups.get('space') else None
+
         if groups.get('break') and self.cur.kind in ('paragraph',
                                                      'emphasis', 'strong', 'pre_inline'):
             self.last_text_break = DocNode('break', self.cur, "")
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index a208963..e09d73d 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -156,7 +156,8 @@ class BlockRules:
             self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
-            self.text = r'(?P<space> (?<!\\)$\n(?!\s*$) )? (?P<text> .+ )'
+            # (the next line is only text if no other block rule matches there)
+            self.text = r'(?P<text> .+ ) (?P<space> (?<!\\)$\n(?!\s*$) )?'
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From e76cee444fdc01c2e6434ccba761dbb06f72e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 28/71] fix: keep the line break before a line that continues a
 list item

---
 creole/parser/creol2html_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 407adb3..c449685 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -130,7 +130,9 @@ class CreoleParser:
         if self.cur.kind == 'list_item':
             # this line continues the list item
             if self.cur.children and self.cur.children[-1].kind != 'break':
-                if 'break' not in groups:
+                if 'break' in groups:
+                    DocNode('break', self.cur, "")
+                else:
                     text = " " + text
         elif self.cur is self.space_node:
             # use wikipedia style line breaks and seperate a new line with one space
-- 
2.43.0


From 7a94030dabbc23b96255ec0dbd6710c7a3404fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 29/71] fix: keep the line break after a single backslash

---
 creole/parser/creol2html_parser.py | 7 +++++--
 creole/parser/creol2html_rules.py  | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index c449685..9b5e6e0 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -140,10 +140,13 @@ class CreoleParser:
 
         self.parse_inline(text)
 
+        # is there already a line break (two backslashes) at the end of the line?
+        has_break = self.cur.children and self.cur.children[-1].kind == 'break'
+
         # the node that continues on the next line
-        self.space_node = self.cur if groups.get('space') else None
+        self.space_node = self.cur if groups.get('space') and not has_break else None
 
-        if groups.get('break') and self.cur.kind in ('paragraph',
+        if groups.get('break') and not has_break and self.cur.kind in ('paragraph',
                                                      'emphasis', 'strong', 'pre_inline'):
             self.last_text_break = DocNode('break', self.cur, "")
 
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index e09d73d..03c6fcc 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -153,11 +153,11 @@ class BlockRules:
     def __init__(self, blog_line_breaks=True):
         if blog_line_breaks:
             # use blog style line breaks (every line break would be converted into <br />)
-            self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
+            self.text = r'(?P<text> .+ ) (?P<break> $\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
             # (the next line is only text if no other block rule matches there)
-            self.text = r'(?P<text> .+ ) (?P<space> (?<!\\)$\n(?!\s*$) )?'
+            self.text = r'(?P<text> .+ ) (?P<space> $\n(?!\s*$) )?'
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From d57affb2be8b60021b9f63a32b1c55e60f3d2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 30/71] fix: do not split table cells in nowiki areas that
 contain '}}'

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 03c6fcc..3b81227 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -187,8 +187,8 @@ class SpecialRules:
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-        InlineRules.image,
-        InlineRules.pre_inline
+        InlineRules.pre_inline,
+        InlineRules.image
     ])
 
     # For pre escaping, in creole 1.0 done with ~:
-- 
2.43.0


From 8a36e20f0191892a553584b56f42842525085a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 31/71] fix: keep empty table cells

---
 creole/parser/creol2html_parser.py | 2 +-
 creole/parser/creol2html_rules.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 9b5e6e0..182871a 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -333,7 +333,7 @@ class CreoleParser:
 
         for m in self.cell_re.finditer(row):
             cell = m.group('cell')
-            if cell:
+            if cell is not None:
                 text = cell.strip()
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 3b81227..3e9aab0 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -179,10 +179,10 @@ class SpecialRules:
 
     # For splitting table cells:
     cell = r'''
-            \| \s*
+            \| (?!\s*$) \s*
             (
                 (?P<head> [=][^|]+ ) |
-                (?P<cell> (  %s | [^|])+ )
+                (?P<cell> (  %s | [^|])* )
             ) \s*
         ''' % '|'.join([
         InlineRules.link,
-- 
2.43.0


From 49191745c0c21327332654c88b228615b81ca023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 32/71] fix: keep empty table header cells and trim tabs in
 them

---
 creole/parser/creol2html_parser.py | 2 +-
 creole/parser/creol2html_rules.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 182871a..db16ed5 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -338,7 +338,7 @@ class CreoleParser:
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
             else:
-                text = m.group('head').strip('= ')
+                text = m.group('head').strip('= \t')
                 self.cur = DocNode('table_head', tr)
                 self.text = DocNode('text', self.cur, "")
             self.parse_inline(text)
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 3e9aab0..c4815a7 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -181,7 +181,7 @@ class SpecialRules:
     cell = r'''
             \| (?!\s*$) \s*
             (
-                (?P<head> [=][^|]+ ) |
+                (?P<head> [=][^|]* ) |
                 (?P<cell> (  %s | [^|])* )
             ) \s*
         ''' % '|'.join([
-- 
2.43.0


From e877e8cd78882f1bb343189fe1bbf6e552354502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 33/71] fix: empty headings and list items do not swallow the
 next line

---
 creole/parser/creol2html_rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index c4815a7..d1d4a3b 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -121,7 +121,7 @@ class BlockRules:
 
     head = r'''(?P<head>
         ^
-        (?P<head_head>=+) \s*
+        (?P<head_head>=+) [^\S\n]*
         (?P<head_text> .*? )
         (=|\s)*?$
     )'''
@@ -139,7 +139,7 @@ class BlockRules:
     # Matches the whole list, separate items are parsed later.
     # The list *must* start with a single bullet.
     list = r'''(?P<list>
-        ^ \s* ([*][^*\#]|[\#][^\#*]).* $
+        ^ \s* ([*][^*\#\n]|[\#][^\#*\n]).* $
         ( \n[ \t]* [*\#]+.* $ )*
     )'''
 
@@ -173,7 +173,7 @@ class SpecialRules:
     """
     # Matches single list items:
     item = r'''^ \s* (?P<item>
-        (?P<item_head> [\#*]+) \s*
+        (?P<item_head> [\#*]+) [^\S\n]*
         (?P<item_text> .*?)
     ) \s* $'''
 
-- 
2.43.0


From 388318d288ad03f2ad1d0221d3cfe9cced943ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 34/71] fix: a single bar is a table row of its own

---
 creole/parser/creol2html_rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index d1d4a3b..caf00e2 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -144,8 +144,7 @@ class BlockRules:
     )'''
 
     table = r'''^ \s*(?P<table>
-            [|].*? \s*
-            [|]?
+            [|].*?
         ) \s* $'''
 
     re_flags = re.VERBOSE | re.UNICODE | re.MULTILINE
-- 
2.43.0


From 21557f1e83a92374c55b2289645b3bbc92d4176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 35/71] fix: a line of white space ends a table like an empty
 line

---
 creole/parser/creol2html_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index caf00e2..30d5b22 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -145,7 +145,7 @@ class BlockRules:
 
     table = r'''^ \s*(?P<table>
             [|].*?
-        ) \s* $'''
+        ) [^\S\n]* $'''
 
     re_flags = re.VERBOSE | re.UNICODE | re.MULTILINE
 
-- 
2.43.0


From 373bb63ad1c65f33471c9ce9b6032db20692dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 36/71] fix: a list of the other kind or of a skipped level
 starts beside the item before it, not inside

---
 creole/parser/creol2html_parser.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index db16ed5..3e053d7 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -285,23 +285,19 @@ class CreoleParser:
             kind = 'bullet_list'
         level = len(bullet) - 1
         lst = self.cur
-        # Find a list of the same kind and level up the tree
-        while (
-            lst and not (
-                lst.kind in (
-                    'number_list',
-                    'bullet_list') and lst.level == level) and lst.kind not in (
-                'document',
-                'section',
-                'blockquote')):
+        # Find the innermost list that is not deeper than this item
+        while not (lst.kind in ('number_list', 'bullet_list') and lst.level <= level) and lst.kind not in (
+                'document', 'section', 'blockquote'):
             lst = lst.parent
-        if lst and lst.kind == kind:
+        if lst.kind == kind and lst.level == level:
             self.cur = lst
         else:
-            # Create a new level of list
-            self.cur = self._upto(self.cur,
-                                  ('list_item', 'document', 'section', 'blockquote'))
-            self.cur = DocNode(kind, self.cur)
+            if lst.kind in ('number_list', 'bullet_list'):
+                # Below the last item or beside a list of the other kind
+                lst = lst.children[-1] if lst.level < level else lst.parent
+            # Create a new list
+            self.cleanup_break(self.cur)  # remove unused end line breaks.
+            self.cur = DocNode(kind, lst)
             self.cur.level = level
         self.cur = DocNode('list_item', self.cur)
         self.cur.level = level + 1
-- 
2.43.0


From a23a49516d4c0441d0871e51ca2b30b01d804571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 37/71] fix: text after a <hr> that is not closed is not lost

---
 creole/parser/html_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index d1b208d..bc8ec0d 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -197,8 +197,8 @@ class HtmlParser(HTMLParser):
             if tag in ("ul", "ol"):
                 self.__list_level += 1
             self.cur = DocNode(tag, self.cur, None, attrs, level=self.__list_level)
-        elif tag in ("img", "br"):
-            # Work-a-round if img or br  tag is not marked as startendtag:
+        elif tag in ("img", "br", "hr"):
+            # Work-a-round if img, br or hr tag is not marked as startendtag:
             # wrong: <img src="/image.jpg"> doesn't work if </img> not exist
             # right: <img src="/image.jpg" />
             DocNode(tag, self.cur, None, attrs)
@@ -239,7 +239,7 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("endtag", f"{tag!r}")
 
-        if tag == "br":  # handled in starttag
+        if tag in ("br", "hr"):  # handled in starttag
             return
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
-- 
2.43.0


From 8f137d94b097e223860e0fe8e37e89a470db6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 38/71] fix: html2creole keeps code elements as inline nowiki

---
 creole/emitter/html2creole_emitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 82ee2be..6624d14 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -74,6 +74,9 @@ class CreoleEmitter(BaseEmitter):
     def tt_emit(self, node):
         return self._typeface(node, key="##")
 
+    def code_emit(self, node):
+        return "{{{%s}}}" % self.emit_children(node)
+
     def sup_emit(self, node):
         return self._typeface(node, key="^^")
 
-- 
2.43.0


From e4b30ef9f896dbd3f62e2b67efe75f218237186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 39/71] fix: backslashes at the start or end of a cell, div or
 span are kept

---
 creole/shared/base_emitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 72fd983..9809f09 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -155,7 +155,11 @@ class BaseEmitter:
         lines = [line.strip() for line in text]
         lines = [line for line in lines if line]
         content = "\\\\".join(lines)
-        content = content.strip("\\")
+        # line breaks in lists at the start and the end
+        while self._inner_list and content.startswith("\\\\"):
+            content = content[2:]
+        while self._inner_list and content.endswith("\\\\"):
+            content = content[:-2]
         return content
 
     def th_emit(self, node):
-- 
2.43.0


From bc886098d8f5cfc578fa4ce12f610d447fc27f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 40/71] fix: strip_html knows block tags in upper case and
 closed without a blank

---
 creole/html_tools/strip_html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 39613cc..7048183 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -18,7 +18,7 @@ strip_html_regex = re.compile(
         \s*
         <
             (?P<end>/{0,1})       # end tag e.g.: </end>
-            (?P<tag>[^ >]+)       # tag name
+            (?P<tag>[^\s/>]+)     # tag name
             .*?
             (?P<startend>/{0,1})  # closed tag e.g.: <closed />
         >
@@ -68,7 +68,7 @@ def strip_html(html_code):
 #        print("startend_tag:", startend_tag)
 #        print("tag.........: %r" % tag)
 
-        if tag in BLOCK_TAGS:
+        if tag.lower() in BLOCK_TAGS:
             return block.strip()
 
         space_start = block.startswith(" ")
-- 
2.43.0


From fce95cc34ec36e0b79a9be6ceb0d6ce30040aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 41/71] fix: blank lines at the start of a pre block are kept

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index bc8ec0d..db0f532 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -18,7 +18,7 @@ from creole.shared.document_tree import DebugList, DocNode
 # ------------------------------------------------------------------------------
 
 block_re = re.compile(r'''
-    ^<pre> \s* $
+    ^<pre> [^\S\n]* $
     (?P<pre_block>
         (\n|.)*?
     )
-- 
2.43.0


From 4918318e99f2efd3978ef386b7a43382307cb92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 42/71] fix: no empty lines between a headline and a list after
 it in html2creole

---
 creole/shared/base_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 9809f09..9929f9d 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -106,7 +106,7 @@ class BaseEmitter:
 
     def _list_emit(self, node, list_type):
         start_newline = False
-        if self.last and self.last.kind not in BLOCK_TAGS:
+        if self.last and self.last.kind not in BLOCK_TAGS and self.last.kind != "headline":
             if not self.last.content or not self.last.content.endswith("\n"):
                 start_newline = True
 
-- 
2.43.0


From deddf9cf36e8673395e16cfe7c869dff7205667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 43/71] fix: two tables in a row do not become one in Creole
 and Textile

---
 creole/shared/base_emitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 9929f9d..ae573f3 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -130,6 +130,8 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def table_emit(self, node):
+        # an empty line between two tables, otherwise they are one
+        start_newline = "\n" if self.last is not None and self.last.kind == "table" else ""
         outer_table = self._table
         self._table = MarkupTable(
             head_prefix=self.table_head_prefix,
@@ -141,7 +143,7 @@ class BaseEmitter:
         self._table = outer_table
         if rest:  # text in the table, but not in a cell
             content = f"{rest}\n\n{content}"
-        return f"{content}\n"
+        return f"{start_newline}{content}\n"
 
     def tr_emit(self, node):
         if self._table is None:
-- 
2.43.0


From 3a2ccbe733d2829852291f2e639f4d05475ee547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 44/71] fix: links, images, macros and nowiki areas with a bar
 do not split table header cells

---
 creole/parser/creol2html_parser.py | 4 ++--
 creole/parser/creol2html_rules.py  | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 3e053d7..2f9afee 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -329,12 +329,12 @@ class CreoleParser:
 
         for m in self.cell_re.finditer(row):
             cell = m.group('cell')
-            if cell is not None:
+            if m.group('head') is None:
                 text = cell.strip()
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
             else:
-                text = m.group('head').strip('= \t')
+                text = cell.strip('= \t')
                 self.cur = DocNode('table_head', tr)
                 self.text = DocNode('text', self.cur, "")
             self.parse_inline(text)
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 30d5b22..a230f4d 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -179,10 +179,8 @@ class SpecialRules:
     # For splitting table cells:
     cell = r'''
             \| (?!\s*$) \s*
-            (
-                (?P<head> [=][^|]* ) |
-                (?P<cell> (  %s | [^|])* )
-            ) \s*
+            (?P<head> [=] )?
+            (?P<cell> (  %s | [^|])* ) \s*
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-- 
2.43.0


From d3551347ebf7c86c1aae1205ea6d59680bc57279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 45/71] fix: line breaks in cells do not break Markdown tables

---
 creole/emitter/html2markdown_emitter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b1e7600..2ab3d19 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -63,16 +63,21 @@ class MarkdownEmitter(BaseEmitter):
         self._table.add_tr()
         return self.emit_children(node)
 
+    def _cell_text(self, node):
+        """a cell is always one line"""
+        lines = (line.strip() for line in self.emit_children(node).split('\n'))
+        return '<br>'.join(line for line in lines if line)
+
     def th_emit(self, node):
         if self._table is None:
             return self._emit_content(node)
-        self._table.add_th(self.emit_children(node))
+        self._table.add_th(self._cell_text(node))
         return ''
 
     def td_emit(self, node):
         if self._table is None:
             return self._emit_content(node)
-        self._table.add_td(self.emit_children(node))
+        self._table.add_td(self._cell_text(node))
         return ''
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 7f4a62a89013f9aafeaae88974c3a0b3167f0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 46/71] fix: well-formed ReST and Markdown tables with wide
 characters, empty columns or only a header

---
 creole/emitter/html2rest_emitter.py | 15 +-------------
 creole/shared/markup_table.py       | 31 +++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index f563348..30f3b03 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -12,10 +12,9 @@
 
 
 import posixpath
-import unicodedata
 
 from creole.shared.base_emitter import BaseEmitter
-from creole.shared.markup_table import MarkupTable
+from creole.shared.markup_table import MarkupTable, text_width
 
 
 # Kink of nodes in which hyperlinks are stored in references intead of embedded urls.
@@ -26,18 +25,6 @@ class Html2restException(Exception):
     pass
 
 
-def text_width(text):
-    """
-    Number of columns: East Asian wide characters use two of them.
-
-    >>> text_width("foo")
-    3
-    >>> text_width("\u65e5\u672c")
-    4
-    """
-    return sum(2 if unicodedata.east_asian_width(char) in "WF" else 1 for char in text)
-
-
 class ReStructuredTextEmitter(BaseEmitter):
     """
     Build from a document_tree (html2creole.parser.HtmlParser instance) a
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index b5ae904..816cee1 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -1,3 +1,18 @@
+import unicodedata
+
+
+def text_width(text):
+    """
+    Number of columns: East Asian wide characters use two of them.
+
+    >>> text_width("foo")
+    3
+    >>> text_width("\u65e5\u672c")
+    4
+    """
+    return sum(2 if unicodedata.east_asian_width(char) in "WF" else 1 for char in text)
+
+
 class MarkupTable:
     """
     Container for holding table data and render the data in creole markup.
@@ -36,7 +51,7 @@ class MarkupTable:
         self.debug_msg("Table.add_td", text)
         self.rows[self.row_index].append(text)
 
-    def _get_preformat_info(self):
+    def _get_preformat_info(self, get_width=len, min_width=0):
         cells = []
         for row in self.rows:
             line_cells = []
@@ -56,7 +71,7 @@ class MarkupTable:
             line_cells.extend([""] * (col_count - len(line_cells)))
 
         # Build a list of max len for every column
-        widths = [max(map(len, col)) for col in zip(*cells)]
+        widths = [max(min_width, *map(get_width, col)) for col in zip(*cells)]
 
         return cells, widths
 
@@ -84,7 +99,7 @@ class MarkupTable:
     def get_rest_table(self):
         """ return the table data in ReSt markup. """
         # preformat every table cell
-        cells, widths = self._get_preformat_info()
+        cells, widths = self._get_preformat_info(get_width=text_width, min_width=3)
 
         separator_line = f"+{'+'.join(('-' * width) for width in widths)}+"
         headline_separator = f"+{'+'.join(('=' * width) for width in widths)}+"
@@ -97,7 +112,7 @@ class MarkupTable:
                 lines.append(separator_line)
 
             # Join every line with ljust
-            cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+            cells = [cell + ' ' * (width - text_width(cell)) for cell, width in zip(row, widths)]
             lines.append("|" + "|".join(cells) + "|")
 
         lines.append(separator_line)
@@ -106,15 +121,15 @@ class MarkupTable:
 
     def get_markdown_table(self):
         """return the table data in markdown markup."""
-        cells, widths = self._get_preformat_info()
+        cells, widths = self._get_preformat_info(min_width=3)
 
         lines = []
         for no, row in enumerate(cells):
-            if no == 1 and self.has_header:
-                cells = ['-' * (width - 2) for width in widths]
-                lines.append(f'| {" | ".join(cells)} |')
             cells = [cell.ljust(width) for cell, width in zip(row, widths)]
             lines.append(f'|{"|".join(cells)}|')
+            if no == 0 and self.has_header:
+                cells = ['-' * (width - 2) for width in widths]
+                lines.append(f'| {" | ".join(cells)} |')
 
         result = "\n".join(lines)
 
-- 
2.43.0


From 77e234b98629a94263d83771f325f46b6d0c6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 47/71] fix: a table behind text starts on a new line

---
 creole/emitter/html2markdown_emitter.py |  3 ++-
 creole/emitter/html2rest_emitter.py     |  3 ++-
 creole/shared/base_emitter.py           | 13 +++++++++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 2ab3d19..3ac1662 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -48,6 +48,7 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
+        start_newline = '\n' if self._is_after_inline(node) else ''
         outer_table = self._table
         self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
         rest = self.emit_children(node).strip()
@@ -55,7 +56,7 @@ class MarkdownEmitter(BaseEmitter):
         self._table = outer_table
         if rest:  # text in the table, but not in a cell
             content = f'{rest}\n\n{content}'
-        return f'\n{content}\n'
+        return f'{start_newline}\n{content}\n'
 
     def tr_emit(self, node):
         if self._table is None:
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 30f3b03..b1814c4 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -286,6 +286,7 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
+        start_newline = "\n\n" if self._is_after_inline(node) else ""
         outer_table = self._table
         self._table = MarkupTable(
             head_prefix="",
@@ -297,4 +298,4 @@ class ReStructuredTextEmitter(BaseEmitter):
         self._table = outer_table
         if rest:  # text in the table, but not in a cell
             content = f"{rest}\n\n{content}"
-        return f"{content}\n\n"
+        return f"{start_newline}{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index ae573f3..7d1452f 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -129,9 +129,18 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _is_after_inline(self, node):
+        """ does the node stand directly behind text or an inline element? """
+        last = self.last
+        return (
+            last is not None and last.parent is node.parent
+            and last.kind not in BLOCK_TAGS and last.kind not in ("headline", "blockdata_pre", "blockdata_pass")
+        )
+
     def table_emit(self, node):
-        # an empty line between two tables, otherwise they are one
-        start_newline = "\n" if self.last is not None and self.last.kind == "table" else ""
+        # a table starts on a new line and an empty line stands between two tables, otherwise they are one
+        is_after_table = self.last is not None and self.last.kind == "table"
+        start_newline = "\n" if is_after_table or self._is_after_inline(node) else ""
         outer_table = self._table
         self._table = MarkupTable(
             head_prefix=self.table_head_prefix,
-- 
2.43.0


From 8b4a55e8683f69dc7e2199c3fcd8772012520a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 48/71] fix: html2rest repeats links also if their texts differ
 only in case

---
 creole/emitter/html2rest_emitter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index b1814c4..77f4371 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -184,12 +184,13 @@ class ReStructuredTextEmitter(BaseEmitter):
             return False
 
     def _get_old_substitution(self, substitution_dict, text, url):
-        if text not in substitution_dict:
+        name = " ".join(text.lower().split())  # docutils ignores the case of reference names
+        if name not in substitution_dict:
             # save for the next time
-            substitution_dict[text] = url
+            substitution_dict[name] = url
         else:
             # text has links with the same link text
-            old_url = substitution_dict[text]
+            old_url = substitution_dict[name]
             if old_url == url:
                 # same url -> substitution can be reused
                 return old_url
-- 
2.43.0


From 663bfb18553bfe04ca38081a3dcd8c480333e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 49/71] fix: html2rest keeps the indentation and the lines of
 preformatted blocks

---
 creole/emitter/html2rest_emitter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 77f4371..b49dc3e 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -57,8 +57,12 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        pre_block = self.deentity.replace_all(node.content).strip()
-        pre_block = "\n".join(f"    {line}" for line in pre_block.splitlines())
+        lines = self.deentity.replace_all(node.content).rstrip().split("\n")
+        while lines and not lines[0].strip():
+            del lines[0]
+        if not lines:
+            return ""
+        pre_block = "\n".join(f"    {line}" for line in lines)
         return f"::\n\n{pre_block}\n\n"
 
     def inlinedata_pre_emit(self, node):
-- 
2.43.0


From afcb706c5bf983d727bf5802600e397c56c7558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 50/71] fix: html2rest titles are one line and never look like
 a list

---
 creole/emitter/html2rest_emitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index b49dc3e..0fd88dd 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -113,7 +113,9 @@ class ReStructuredTextEmitter(BaseEmitter):
     }
 
     def headline_emit(self, node):
-        text = self.emit_children(node)
+        text = " ".join(line.strip() for line in self.emit_children(node).split("\n")).strip()
+        if not text:
+            return ""
 
         level = node.level
         if level > 6:
@@ -123,6 +125,8 @@ class ReStructuredTextEmitter(BaseEmitter):
         markup = char * text_width(text)
 
         if both:
+            if len(markup) == 1:  # a single "-" starts a list
+                markup = char * 2
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
         else:
             format = "%(t)s\n%(m)s\n\n"
-- 
2.43.0


From 22a3f493b7354af8d4ec221bd6762ef79c1ed9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 51/71] fix: blocks behind text start behind an empty line in
 ReST, Textile and Markdown, paragraphs in a div stay apart

---
 creole/emitter/html2markdown_emitter.py | 21 ++++++++++++++++++---
 creole/emitter/html2rest_emitter.py     | 19 ++++++++++++-------
 creole/emitter/html2textile_emitter.py  |  8 ++++++++
 creole/shared/base_emitter.py           | 22 ++++++++++++++++++++++
 4 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 3ac1662..a7527db 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -11,7 +11,7 @@
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser import HtmlParser
-from creole.shared.base_emitter import BaseEmitter
+from creole.shared.base_emitter import STANDALONE_KINDS, BaseEmitter
 from creole.shared.document_tree import DocNode
 from creole.shared.markup_table import MarkupTable
 
@@ -232,9 +232,19 @@ class MarkdownEmitter(BaseEmitter):
         return f"\n{indent}{prefix} {content}"
 
     # --------------------------------------------------------------------------
+    def _is_between_inline(self, node: DocNode):
+        siblings = node.parent.children
+        index = siblings.index(node)
+        if index == 0 or index == len(siblings) - 1:
+            return False
+        return not any(
+            sibling.kind in STANDALONE_KINDS or sibling.kind in ('br', 'inlinedata_pre')
+            for sibling in (siblings[index - 1], siblings[index + 1])
+        )
+
     def data_emit(self, node: DocNode):
         content = node.content
-        if content == ' ':
+        if content == ' ' and not self._is_between_inline(node):
             # FIXME: Because of bug in creole.html_tools.strip_html.strip_html()
             return ''
         return node.content
@@ -250,8 +260,13 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def document_emit(self, node: DocNode):
+        self.last = node
+        return self._emit_blocks(node.children)
+
     def div_emit(self, node: DocNode):
-        return self._emit_content(node)
+        self.last = node
+        return f'{self._emit_blocks(node.children).strip()}\n\n'
 
     def span_emit(self, node: DocNode):
         return self._emit_content(node)
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 0fd88dd..f185bc1 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -12,8 +12,9 @@
 
 
 import posixpath
+from itertools import groupby
 
-from creole.shared.base_emitter import BaseEmitter
+from creole.shared.base_emitter import STANDALONE_KINDS, BaseEmitter
 from creole.shared.markup_table import MarkupTable, text_width
 
 
@@ -84,7 +85,7 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def document_emit(self, node):
         self.last = node
-        result = self.emit_children(node)
+        result = self._emit_blocks(node.children)
         if self._substitution_data:
             # add rest at the end
             if not result.endswith("\n\n"):
@@ -93,12 +94,16 @@ class ReStructuredTextEmitter(BaseEmitter):
         return result
 
     def emit_node(self, node):
-        result = ""
-        if self._substitution_data and node.parent == self.root:
-            result += f"{self._get_block_data()}\n\n"
+        if self._substitution_data and node.parent == self.root and node.kind in STANDALONE_KINDS:
+            block_data = self._get_block_data()
+            content = super().emit_node(node).lstrip("\n")
+            return f"{block_data}\n\n{content}"
 
-        result += super().emit_node(node)
-        return result
+        return super().emit_node(node)
+
+    def div_emit(self, node):
+        self.last = node
+        return f"{self._emit_blocks(node.children).strip()}\n\n"
 
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 11e14e7..a81561c 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -44,6 +44,14 @@ class TextileEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def document_emit(self, node):
+        self.last = node
+        return self._emit_blocks(node.children)
+
+    def div_emit(self, node):
+        self.last = node
+        return f"{self._emit_blocks(node.children).strip()}\n\n"
+
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 7d1452f..77dd728 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -14,6 +14,12 @@ from creole.shared.markup_table import MarkupTable
 from creole.shared.unknown_tags import transparent_unknown_nodes
 
 
+# Node kinds which stand on their own, outside of any text line
+STANDALONE_KINDS = (
+    set(BLOCK_TAGS).difference(("br", "ins", "li", "th", "tr", "td")).union(("headline", "blockdata_pre", "blockdata_pass"))
+)
+
+
 class BaseEmitter:
     """
     Build from a document_tree (html2creole.parser.HtmlParser instance) a
@@ -210,6 +216,22 @@ class BaseEmitter:
         self.last = node
         return self.emit_children(node)
 
+    def _emit_blocks(self, children):
+        """Emit nodes that are no part of one text line: an empty line stands before a block."""
+        result = ""
+        after_inline = False
+        for child in children:
+            is_block = child.kind in STANDALONE_KINDS
+            content = self.emit_node(child)
+            if is_block and after_inline:
+                result = result.rstrip()
+                if result:
+                    result += "\n\n"
+                content = content.lstrip("\n")
+            result += content
+            after_inline = not is_block
+        return result
+
     def emit_children(self, node):
         """Emit all the children of a node."""
         return "".join(self.emit_children_list(node))
-- 
2.43.0


From 9beaf95aa3fbfa8747d709abbb6993f7ba2b61e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 52/71] fix: html2rest list items have the marker of their list
 and keep all their lines inside

---
 creole/emitter/html2rest_emitter.py | 36 ++++++++++++++++-------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index f185bc1..97c49aa 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -41,7 +41,6 @@ class ReStructuredTextEmitter(BaseEmitter):
         self._substitution_data = []
         self._used_substitution_links = {}
         self._used_substitution_images = {}
-        self._list_markup = ""
 
     def _get_block_data(self):
         """
@@ -275,26 +274,31 @@ class ReStructuredTextEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def li_emit(self, node):
-        content = self.emit_children(node).strip("\n")
-        result = f"\n{'    ' * (node.level - 1)}{self._list_markup} {content}\n"
-        return result
+        markup = "#." if node.parent.kind == "ol" else "*"
+        start = "    " * (node.level - 1)
+        # all lines of an item stand at the same indentation, nested lists have their own
+        indent = start + " " * (len(markup) + 1)
 
-    def _list_emit(self, node, list_type):
-        self._list_markup = list_type
-        content = self.emit_children(node)
+        self.last = node
+        parts = []
+        for is_list, children in groupby(node.children, key=lambda child: child.kind in ("ul", "ol")):
+            part = self._emit_blocks(children).strip("\n")
+            if not is_list:
+                part = "\n".join(f"{indent}{line}" if line.strip() else line for line in part.split("\n"))
+            if part.strip():
+                parts.append(part)
+
+        # the marker stands in front of the first line
+        content = "\n\n".join(parts)[len(start) + len(markup):] or " "
+        return f"\n\n{start}{markup}{content}"
 
+    def ul_emit(self, node):
+        content = self.emit_children(node)
         if node.level == 1:
-            # FIXME: This should be made ​​easier and better
-            complete_list = "\n\n".join(i.strip("\n") for i in content.split("\n") if i)
-            content = f"{complete_list}\n\n"
-
+            content = content.strip("\n") + "\n\n"
         return content
 
-    def ul_emit(self, node):
-        return self._list_emit(node, "*")
-
-    def ol_emit(self, node):
-        return self._list_emit(node, "#.")
+    ol_emit = ul_emit
 
     def table_emit(self, node):
         """
-- 
2.43.0


From 1536c3cb721dd835e91bb6795b782f47da46cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 53/71] fix: ins is an inline element, blanks around it and the
 elements it stands in stay

---
 creole/parser/html_parser_config.py | 2 +-
 creole/shared/base_emitter.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 38557ed..c631ecf 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -13,7 +13,7 @@ BLOCK_TAGS = (
     "address", "blockquote", "center", "dir", "div", "dl", "fieldset",
     "form",
     "h1", "h2", "h3", "h4", "h5", "h6",
-    "hr", "ins", "isindex", "men", "noframes", "noscript",
+    "hr", "isindex", "men", "noframes", "noscript",
     "ul", "ol", "li", "table", "th", "tr", "td",
     "p", "pre",
     "br"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 77dd728..12426e7 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -16,7 +16,7 @@ from creole.shared.unknown_tags import transparent_unknown_nodes
 
 # Node kinds which stand on their own, outside of any text line
 STANDALONE_KINDS = (
-    set(BLOCK_TAGS).difference(("br", "ins", "li", "th", "tr", "td")).union(("headline", "blockdata_pre", "blockdata_pass"))
+    set(BLOCK_TAGS).difference(("br", "li", "th", "tr", "td")).union(("headline", "blockdata_pre", "blockdata_pass"))
 )
 
 
-- 
2.43.0


From 42f015e5bcfee10475d935bfbab3c8b558af382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 54/71] fix: text behind a block starts behind an empty line in
 Textile and Markdown

---
 creole/emitter/html2textile_emitter.py |  5 +++++
 creole/shared/base_emitter.py          | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index a81561c..c32f0a2 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -52,9 +52,14 @@ class TextileEmitter(BaseEmitter):
         self.last = node
         return f"{self._emit_blocks(node.children).strip()}\n\n"
 
+    list_linebreak = "\n"
+
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
 
+    def table_emit(self, node):
+        return f"{super().table_emit(node)}\n"
+
     def headline_emit(self, node):
         return f"h{node.level:d}. {self.emit_children(node)}\n\n"
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 12426e7..57a23a8 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -217,9 +217,9 @@ class BaseEmitter:
         return self.emit_children(node)
 
     def _emit_blocks(self, children):
-        """Emit nodes that are no part of one text line: an empty line stands before a block."""
+        """Emit nodes that are no part of one text line: an empty line stands between a block and text."""
         result = ""
-        after_inline = False
+        after_inline = after_block = False
         for child in children:
             is_block = child.kind in STANDALONE_KINDS
             content = self.emit_node(child)
@@ -228,8 +228,14 @@ class BaseEmitter:
                 if result:
                     result += "\n\n"
                 content = content.lstrip("\n")
+            elif after_block and not is_block and content.strip():
+                if not content.startswith("\n"):
+                    result = result.rstrip("\n") + "\n\n"
+                after_block = False
             result += content
             after_inline = not is_block
+            if is_block and content.strip():
+                after_block = True
         return result
 
     def emit_children(self, node):
-- 
2.43.0


From 81ef6628d6e3ac9a9de222d04bfc036715b1e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 55/71] fix: paragraphs and line breaks in list items stay in
 their item in Creole, Textile and Markdown

---
 creole/emitter/html2markdown_emitter.py | 15 +++++++++++++--
 creole/shared/base_emitter.py           | 24 +++++++++++++++++++++---
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index a7527db..355717d 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -8,6 +8,7 @@
     :license: GNU GPL v3 or above, see LICENSE for more details.
 
 """
+from itertools import groupby
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser import HtmlParser
@@ -228,8 +229,18 @@ class MarkdownEmitter(BaseEmitter):
 
         indent = '  ' * (list_level - 1)
 
-        content = self.emit_children(node)
-        return f"\n{indent}{prefix} {content}"
+        self.last = node
+        result = ''
+        for is_list, children in groupby(node.children, key=lambda child: child.kind in ('ul', 'ol')):
+            content = self._emit_blocks(children)
+            if not is_list:
+                # all lines of an item stand at the same indentation
+                lines = content.strip('\n').split('\n')
+                content = '\n'.join(lines[:1] + [f'{indent}  {line}' if line.strip() else line for line in lines[1:]])
+                if result.strip() and content.strip():
+                    content = f'\n\n{indent}  {content.lstrip()}'
+            result += content
+        return f"\n{indent}{prefix} {result}"
 
     # --------------------------------------------------------------------------
     def _is_between_inline(self, node: DocNode):
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 57a23a8..bd30612 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -93,9 +93,11 @@ class BaseEmitter:
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
 
+    list_linebreak = "\\\\"  # line break in a list item
+
     def br_emit(self, node):
         if self._inner_list != "":
-            return "\\\\"
+            return self.list_linebreak
         else:
             return "\n"
 
@@ -107,8 +109,24 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def li_emit(self, node):
-        content = self.emit_children(node)
-        return f"\n{self._inner_list} {content}"
+        self.last = node
+        result = ""
+        after_text = after_block = False
+        for child in node.children:
+            content = self.emit_node(child)
+            if child.kind not in ("ul", "ol"):
+                is_p = child.kind == "p"
+                if is_p:
+                    content = content.strip()
+                if content.strip():
+                    if after_text and (is_p or after_block):
+                        content = self.list_linebreak + content
+                    after_text = True
+                    after_block = is_p
+            elif after_text:
+                after_block = True
+            result += content
+        return f"\n{self._inner_list} {result}"
 
     def _list_emit(self, node, list_type):
         start_newline = False
-- 
2.43.0


From b56903139b9e3136363f16dbc5de36ee66971e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:36 +0000
Subject: [PATCH 56/71] fix: a paragraph and a div are two paragraphs in
 Markdown

---
 creole/emitter/html2markdown_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 355717d..286c0d5 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -277,7 +277,7 @@ class MarkdownEmitter(BaseEmitter):
 
     def div_emit(self, node: DocNode):
         self.last = node
-        return f'{self._emit_blocks(node.children).strip()}\n\n'
+        return f'\n{self._emit_blocks(node.children).strip()}\n'
 
     def span_emit(self, node: DocNode):
         return self._emit_content(node)
-- 
2.43.0


From 8d428064a66b330629a66d967521dd0356797b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 57/71] fix: html tags named like internal nodes (e.g. <data>)
 are unknown tags

---
 creole/parser/html_parser.py   | 12 +++++++++++-
 creole/shared/base_emitter.py  |  8 ++++++++
 creole/shared/document_tree.py |  4 ++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index db0f532..57b985f 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -35,6 +35,9 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE)
 
 
+# the placeholder tags for the cut out areas
+placeholder_re = re.compile(r'<(?:block|inline)data type="(?:pre|pass)" id="([0-9]{1,9})" />')
+
 headline_tag_re = re.compile(r"h([1-9])$", re.UNICODE)
 
 # ------------------------------------------------------------------------------
@@ -218,10 +221,17 @@ class HtmlParser(HTMLParser):
         self.debug_msg("entityref", f"{name!r}")
         DocNode("entityref", self.cur, content=name)
 
+    def _is_placeholder(self, tag):
+        if tag not in (self._block_placeholder, self._inline_placeholder):
+            return False
+        # not a tag of this name in the html source
+        match = placeholder_re.fullmatch(self.get_starttag_text())
+        return match is not None and int(match.group(1)) < len(self.blockdata)
+
     def handle_startendtag(self, tag, attrs):
         self.debug_msg("startendtag", f"{tag!r} atts: {attrs}")
         attr_dict = dict(attrs)
-        if tag in (self._block_placeholder, self._inline_placeholder):
+        if self._is_placeholder(tag):
             id = int(attr_dict["id"])
 #            block_type = attr_dict["type"]
             DocNode(
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index bd30612..f8acd7f 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -19,6 +19,12 @@ STANDALONE_KINDS = (
     set(BLOCK_TAGS).difference(("br", "li", "th", "tr", "td")).union(("headline", "blockdata_pre", "blockdata_pass"))
 )
 
+# Node kinds which are not named after a html tag: a tag of this name (e.g.: <data>) is an unknown one
+INTERNAL_KINDS = (
+    "document", "data", "entityref", "charref", "headline", "list",
+    "blockdata_pre", "blockdata_pass", "inlinedata_pre",
+)
+
 
 class BaseEmitter:
     """
@@ -285,6 +291,8 @@ class BaseEmitter:
 
         method_name = f"{node.kind}_emit"
         emit_method = getattr(self, method_name, None)
+        if node.kind in INTERNAL_KINDS and node.is_html_tag():
+            emit_method = None
 
         if emit_method:
             content = emit_method(node)
diff --git a/creole/shared/document_tree.py b/creole/shared/document_tree.py
index 3370c1e..26c9c32 100644
--- a/creole/shared/document_tree.py
+++ b/creole/shared/document_tree.py
@@ -34,6 +34,10 @@ class DocNode:
         self.content = content
         self.level = level
 
+    def is_html_tag(self):
+        """ Was this node made from the html tag of this name? """
+        return self.parent is not None and self.content is None and self.level is None
+
     def get_attrs_as_string(self):
         """
         FIXME: Find a better was to do this.
-- 
2.43.0


From a9353e3948a4d6dac05882eedada69efd6bdbbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 58/71] fix: blocks in a div or in an unknown tag stay apart,
 their content is not joined to one line

---
 creole/emitter/html2markdown_emitter.py |  9 +++++++--
 creole/emitter/html2rest_emitter.py     |  7 ++++---
 creole/emitter/html2textile_emitter.py  |  5 +++--
 creole/shared/base_emitter.py           | 23 +++++++++++++++++++----
 4 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 286c0d5..a85f9aa 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -261,7 +261,7 @@ class MarkdownEmitter(BaseEmitter):
         return node.content
 
     def code_emit(self, node: DocNode):
-        code_block = self._emit_content(node)
+        code_block = self._escape_linebreaks(self.emit_children(node))
         assert '\n' not in code_block
 
         if '`' in code_block:
@@ -275,9 +275,14 @@ class MarkdownEmitter(BaseEmitter):
         self.last = node
         return self._emit_blocks(node.children)
 
-    def div_emit(self, node: DocNode):
+    content_linebreak = '\n'
+
+    def _emit_section(self, node: DocNode):
         self.last = node
         return f'\n{self._emit_blocks(node.children).strip()}\n'
 
+    def div_emit(self, node: DocNode):
+        return self._emit_section(node)
+
     def span_emit(self, node: DocNode):
         return self._emit_content(node)
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 97c49aa..2fe8e80 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -100,9 +100,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
         return super().emit_node(node)
 
+    content_linebreak = "\n"
+
     def div_emit(self, node):
-        self.last = node
-        return f"{self._emit_blocks(node.children).strip()}\n\n"
+        return self._emit_section(node)
 
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
@@ -269,7 +270,7 @@ class ReStructuredTextEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def code_emit(self, node):
-        return f"``{self._emit_content(node)}``"
+        return f"``{self._escape_linebreaks(self.emit_children(node))}``"
 
     # --------------------------------------------------------------------------
 
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index c32f0a2..9aab5de 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -48,9 +48,10 @@ class TextileEmitter(BaseEmitter):
         self.last = node
         return self._emit_blocks(node.children)
 
+    content_linebreak = "\n"
+
     def div_emit(self, node):
-        self.last = node
-        return f"{self._emit_blocks(node.children).strip()}\n\n"
+        return self._emit_section(node)
 
     list_linebreak = "\n"
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index f8acd7f..aeff1c3 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -190,12 +190,12 @@ class BaseEmitter:
         self._table.add_tr()
         return self.emit_children(node)
 
-    def _escape_linebreaks(self, text):
+    def _escape_linebreaks(self, text, linebreak="\\\\"):
         text = text.strip()
         text = text.split("\n")
         lines = [line.strip() for line in text]
         lines = [line for line in lines if line]
-        content = "\\\\".join(lines)
+        content = linebreak.join(lines)
         # line breaks in lists at the start and the end
         while self._inner_list and content.startswith("\\\\"):
             content = content[2:]
@@ -221,9 +221,22 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    content_linebreak = "\\\\"  # line break in the content of e.g. a unknown tag
+
+    def _contains_blocks(self, node):
+        """ Are there nodes in it which stand outside of any text line? """
+        return any(child.kind in STANDALONE_KINDS or self._contains_blocks(child) for child in node.children)
+
+    def _emit_section(self, node):
+        """ Emit only the children: blocks and/or text lines """
+        self.last = node
+        return f"{self._emit_blocks(node.children).strip()}\n\n"
+
     def _emit_content(self, node):
+        if self._inner_list == "" and self._table is None and self._contains_blocks(node):
+            return self._emit_section(node)
         content = self.emit_children(node)
-        content = self._escape_linebreaks(content)
+        content = self._escape_linebreaks(content, linebreak=self.content_linebreak)
         if node.kind in BLOCK_TAGS:
             content = f"{content}\n\n"
         return content
@@ -245,7 +258,9 @@ class BaseEmitter:
         result = ""
         after_inline = after_block = False
         for child in children:
-            is_block = child.kind in STANDALONE_KINDS
+            is_block = child.kind in STANDALONE_KINDS or (
+                not hasattr(self, f"{child.kind}_emit") and self._contains_blocks(child)
+            )
             content = self.emit_node(child)
             if is_block and after_inline:
                 result = result.rstrip()
-- 
2.43.0


From 4898fd3c3e96cfb5f14088ce528bd941e278840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 59/71] fix: an unknown tag named like an internal node is no
 block

---
 creole/shared/base_emitter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index aeff1c3..e0b138c 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -223,9 +223,14 @@ class BaseEmitter:
 
     content_linebreak = "\\\\"  # line break in the content of e.g. a unknown tag
 
+    def _is_standalone(self, node):
+        if node.kind in INTERNAL_KINDS and node.is_html_tag():
+            return False
+        return node.kind in STANDALONE_KINDS
+
     def _contains_blocks(self, node):
         """ Are there nodes in it which stand outside of any text line? """
-        return any(child.kind in STANDALONE_KINDS or self._contains_blocks(child) for child in node.children)
+        return any(self._is_standalone(child) or self._contains_blocks(child) for child in node.children)
 
     def _emit_section(self, node):
         """ Emit only the children: blocks and/or text lines """
@@ -258,7 +263,7 @@ class BaseEmitter:
         result = ""
         after_inline = after_block = False
         for child in children:
-            is_block = child.kind in STANDALONE_KINDS or (
+            is_block = self._is_standalone(child) or (
                 not hasattr(self, f"{child.kind}_emit") and self._contains_blocks(child)
             )
             content = self.emit_node(child)
-- 
2.43.0


From 3299fd975ed25be72b0bac7a3a4dc6e1e88283f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 60/71] fix: strip_html keeps tabs and other white space
 between words as a blank, attribute values with ">" and lone "<" are left
 alone

---
 creole/html_tools/strip_html.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 7048183..bfe38ed 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -18,8 +18,10 @@ strip_html_regex = re.compile(
         \s*
         <
             (?P<end>/{0,1})       # end tag e.g.: </end>
-            (?P<tag>[^\s/>]+)     # tag name
-            .*?
+            (?P<tag>[a-zA-Z!?][^\s/>]*)  # tag name
+            (?:                   # attributes, quoted values may contain ">"
+                =\s*"[^"]*" | =\s*'[^']*' | =(?!\s*["']) | [^>=]
+            )*?
             (?P<startend>/{0,1})  # closed tag e.g.: <closed />
         >
         \s*
@@ -71,8 +73,8 @@ def strip_html(html_code):
         if tag.lower() in BLOCK_TAGS:
             return block.strip()
 
-        space_start = block.startswith(" ")
-        space_end = block.endswith(" ")
+        space_start = block[:1].isspace()
+        space_end = block[-1:].isspace()
 
         result = block.strip()
 
-- 
2.43.0


From 76debd07f096bf858884ea9368438ba2efde35c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 61/71] fix: a image file named data is no data URI

---
 creole/emitter/html2creole_emitter.py  | 2 +-
 creole/emitter/html2rest_emitter.py    | 2 +-
 creole/emitter/html2textile_emitter.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 6624d14..ea00cba 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -114,7 +114,7 @@ class CreoleEmitter(BaseEmitter):
         if src is None:
             return ""
 
-        if src.split(':')[0] == 'data':
+        if src.startswith('data:'):
             return ""
 
         title = node.attrs.get("title") or ""
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 2fe8e80..d050b9d 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -244,7 +244,7 @@ class ReStructuredTextEmitter(BaseEmitter):
         if src is None:
             return ""
 
-        if src.split(':')[0] == 'data':
+        if src.startswith('data:'):
             return ""
 
         title = node.attrs.get("title") or ""
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 9aab5de..3d76b85 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -120,7 +120,7 @@ class TextileEmitter(BaseEmitter):
         if src is None:
             return ""
 
-        if src.split(':')[0] == 'data':
+        if src.startswith('data:'):
             return ""
 
         title = node.attrs.get("title") or ""
-- 
2.43.0


From df8d64a2a6974d1812c07388eb0d94737cb313fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 62/71] fix: only a generated README whose last lines are the
 note is up to date

---
 creole/setup_utils.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index b108c8b..3eec586 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -144,12 +144,21 @@ def _generate_markdown_readme(*, creole_readme_path):
     return markdown_readme
 
 
+def _remove_note(content):
+    """
+    remove note about generation with modification time
+    returns None if there is no note, e.g.: not a generated file
+    """
+    parts = content.rsplit('\n', 4)
+    if len(parts) == 5 and parts[1:4] == ['', '------------', ''] and parts[4].startswith('``Note: '):
+        return parts[0]
+
+
 def _is_up_to_date(readme_path, generated_readme):
     if not readme_path.is_file():
         return False
     content = readme_path.read_text(encoding='utf-8')
-    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
-    return content == generated_readme
+    return _remove_note(content) == generated_readme
 
 
 def update_rst_readme(package_root, filename='README.creole'):
@@ -243,9 +252,8 @@ def assert_rst_readme(package_root, filename='README.creole'):
     content = rest_readme_path.read_text(encoding='UTF-8')
 
     assert len(content) > 0, f'Empty content in {rest_readme_path}'
-    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
 
-    if rest_readme != content:
+    if rest_readme != _remove_note(content):
         diff = unified_diff(content, rest_readme, filename=rest_readme_path.name)
         raise AssertionError(f'{rest_readme_path.name} is not up-to-date:\n{diff}')
 
@@ -260,9 +268,8 @@ def assert_markdown_readme(package_root, filename='README.creole'):
     content = markdown_readme_path.read_text(encoding='UTF-8')
 
     assert len(content) > 0, f'Empty content in {markdown_readme_path}'
-    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
 
-    if markdown_readme != content:
+    if markdown_readme != _remove_note(content):
         diff = unified_diff(content, markdown_readme, filename=markdown_readme_path.name)
         raise AssertionError(f'{markdown_readme_path.name} is not up-to-date:\n{diff}')
 
-- 
2.43.0


From 23b131145b3f9d9732307161d5e32c4e96b05445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 63/71] fix: README.creole is UTF-8, whatever the locale is

---
 creole/setup_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 3eec586..ac7b7de 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -105,7 +105,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
 
 
 def _generate_rst_readme(*, creole_readme_path):
-    with creole_readme_path.open('r') as f:
+    with creole_readme_path.open('r', encoding='utf-8') as f:
         creole_readme = f.read().strip()
 
     # convert creole into html
@@ -131,7 +131,7 @@ def _generate_markdown_readme(*, creole_readme_path):
 
     # convert creole into html
     html_readme = creole2html(creole_readme)
-    creole_readme_path.with_suffix('.html').write_text(html_readme)
+    creole_readme_path.with_suffix('.html').write_text(html_readme, encoding='utf-8')
 
     # convert html to Markdown
     markdown_readme = html2markdown(
-- 
2.43.0


From 16838fd483abe466077eec8e1217240ac27c4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 64/71] fix: rest2html writes no closing div tags for the
 opening ones it leaves out

---
 creole/rest_tools/clean_writer.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index d71525c..8eaf77b 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -64,7 +64,7 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
     Clean html translator for docutils system.
     """
 
-    def _do_nothing(self, node, *args, **kwargs):
+    def _do_nothing(self, node=None, *args, **kwargs):
         pass
 
     def starttag(self, node, tagname, suffix='\n', empty=0, **attributes):
@@ -126,6 +126,23 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
     visit_block_quote = _do_nothing
     depart_block_quote = _do_nothing
 
+    # starttag() ignores the opening <div>: Don't add the closing </div>
+    depart_admonition = _do_nothing
+    depart_compound = _do_nothing
+    depart_container = _do_nothing
+    depart_legend = _do_nothing
+    depart_line_block = _do_nothing
+    depart_system_message = _do_nothing
+    depart_topic = _do_nothing
+
+    def depart_sidebar(self, node):
+        self.in_sidebar = False
+
+    def depart_line(self, node):
+        if len(node):  # visit_line() has already added the line break of empty lines
+            self.body.append('<br />')
+        self.body.append('\n')
+
     # set only html_body, we used in rest2html() and don't surround it with <div>
     def depart_document(self, node):
         self.html_body.extend(
-- 
2.43.0


From 57223d314ddf8a00205354cd46f9ee95cd4156c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 65/71] fix: rest2html keeps the paragraph of a block quote, it
 is all that separates it from the text around

---
 creole/rest_tools/clean_writer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index 8eaf77b..a5d69f4 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -21,6 +21,7 @@ from creole.exceptions import DocutilsImportError
 
 try:
     import docutils
+    import docutils.nodes
     from docutils.core import publish_parts
     from docutils.writers import html4css1
 except ImportError:
@@ -49,6 +50,12 @@ IGNORE_TAGS = (
 )
 
 
+# nodes that get no tag at all
+WITHOUT_TAG = (
+    docutils.nodes.block_quote, docutils.nodes.container, docutils.nodes.legend, docutils.nodes.system_message,
+)
+
+
 class CleanHTMLWriter(html4css1.Writer):
     """
     This docutils writer will use the CleanHTMLTranslator class below.
@@ -126,6 +133,12 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
     visit_block_quote = _do_nothing
     depart_block_quote = _do_nothing
 
+    # Without <blockquote> or <div> only the paragraph separates the text from its neighbours
+    def should_be_compact_paragraph(self, node):
+        if isinstance(node.parent, WITHOUT_TAG):
+            return False
+        return super().should_be_compact_paragraph(node)
+
     # starttag() ignores the opening <div>: Don't add the closing </div>
     depart_admonition = _do_nothing
     depart_compound = _do_nothing
-- 
2.43.0


From 43fdd89aa6a548fa2f805911390a537308299d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 66/71] fix: rest2html writes no ids attribute

---
 creole/rest_tools/clean_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index a5d69f4..b2f7533 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -43,7 +43,7 @@ DEBUG = False
 #DEBUG = True
 
 IGNORE_ATTR = (
-    "start", "class", "classes", "frame", "rules",
+    "start", "class", "classes", "ids", "frame", "rules",
 )
 IGNORE_TAGS = (
     "div",
-- 
2.43.0


From bb0b9668b86a1bf6841a11398bacb1dd907e1c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 67/71] fix: rest2html writes no span of class pre in literals

---
 creole/rest_tools/clean_writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index b2f7533..6c78e0b 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -14,6 +14,7 @@
 """
 
 
+import re
 import sys
 
 from creole.exceptions import DocutilsImportError
@@ -120,6 +121,9 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
             print(f"startag html: {html!r}")
         return html
 
+    # never matches: no <span class="pre"> in literals
+    in_word_wrap_point = re.compile(r'(?!)')
+
     def visit_section(self, node):
         self.section_level += 1
 
-- 
2.43.0


From 4c1310018e38530106c0479f3a9d39f6be3a1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 68/71] fix: rest2html gives every table its own columns only

---
 creole/rest_tools/clean_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index 6c78e0b..7739111 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -182,6 +182,7 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
         self.body.append(self.starttag(node, 'table'))
 
     def visit_tgroup(self, node):
+        self.colspecs = []
         node.stubs = []
 
     def visit_field_list(self, node):
-- 
2.43.0


From 87588f8b21cae10bfa05e609ff4798b9ecaa8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:32 +0000
Subject: [PATCH 69/71] fix: blanks at the ends of a span or of a transparent
 tag stay, e.g. those of &nbsp;

---
 creole/shared/base_emitter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index e0b138c..ab2536e 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -240,11 +240,15 @@ class BaseEmitter:
     def _emit_content(self, node):
         if self._inner_list == "" and self._table is None and self._contains_blocks(node):
             return self._emit_section(node)
-        content = self.emit_children(node)
-        content = self._escape_linebreaks(content, linebreak=self.content_linebreak)
+        inner = self.emit_children(node)
+        content = self._escape_linebreaks(inner, linebreak=self.content_linebreak)
         if node.kind in BLOCK_TAGS:
-            content = f"{content}\n\n"
-        return content
+            return f"{content}\n\n"
+        # the blanks at its ends stand between words
+        start = inner[:len(inner) - len(inner.lstrip())]
+        end = inner[len(inner.rstrip()):] if content else ""
+        blanks = [blank if "\n" not in blank else "" for blank in (start, end)]
+        return content.join(blanks)
 
     def div_emit(self, node):
         return self._emit_content(node)
-- 
2.43.0


From 28a7507961fbee5dab4281636a51867a00bf7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:48 +0000
Subject: [PATCH 70/71] fix: a diff names a missing line end on a line of its
 own

---
 creole/shared/diff_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/diff_utils.py b/creole/shared/diff_utils.py
index b6fa05d..5f6103f 100644
--- a/creole/shared/diff_utils.py
+++ b/creole/shared/diff_utils.py
@@ -29,6 +29,6 @@ def unified_diff(old, new, filename=None):
 
         # Work around missing newline (http://bugs.python.org/issue2142).
         if text and not line.endswith('\n'):
-            text += 'n\\ No newline at end of file\n'
+            text += '\n\\ No newline at end of file\n'
 
     return text
-- 
2.43.0


From 12044819cf3172098bb389cf89701b7ad6b7593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 71/71] fix: words of different blocks in a list item, a cell
 or beside text do not become one word

---
 creole/emitter/html2rest_emitter.py |  4 ---
 creole/shared/base_emitter.py       | 45 +++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index d050b9d..00c4db3 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -74,10 +74,6 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def emit_children(self, node):
-        """Emit all the children of a node."""
-        return "".join(self.emit_children_list(node))
-
     def emit(self):
         """Emit the document represented by self.root DOM tree."""
         return self.emit_node(self.root).rstrip()
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index ab2536e..c7c752a 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -19,6 +19,9 @@ STANDALONE_KINDS = (
     set(BLOCK_TAGS).difference(("br", "li", "th", "tr", "td")).union(("headline", "blockdata_pre", "blockdata_pass"))
 )
 
+# Node kinds which need lines of their own
+LINE_KINDS = ("headline", "hr", "table", "blockdata_pre", "blockdata_pass")
+
 # Node kinds which are not named after a html tag: a tag of this name (e.g.: <data>) is an unknown one
 INTERNAL_KINDS = (
     "document", "data", "entityref", "charref", "headline", "list",
@@ -101,12 +104,15 @@ class BaseEmitter:
 
     list_linebreak = "\\\\"  # line break in a list item
 
-    def br_emit(self, node):
+    def _linebreak(self):
         if self._inner_list != "":
             return self.list_linebreak
         else:
             return "\n"
 
+    def br_emit(self, node):
+        return self._linebreak()
+
     # --------------------------------------------------------------------------
 
     def _typeface(self, node, key):
@@ -121,16 +127,16 @@ class BaseEmitter:
         for child in node.children:
             content = self.emit_node(child)
             if child.kind not in ("ul", "ol"):
-                is_p = child.kind == "p"
-                if is_p:
+                is_block = self._is_block(child)
+                if is_block and child.kind not in LINE_KINDS:
                     content = content.strip()
                 if content.strip():
-                    if after_text and (is_p or after_block):
+                    if after_text and (is_block or after_block) and not content.startswith("\n"):
                         content = self.list_linebreak + content
                     after_text = True
-                    after_block = is_p
-            elif after_text:
-                after_block = True
+                    after_block = is_block
+            elif content.strip():
+                after_text = after_block = True
             result += content
         return f"\n{self._inner_list} {result}"
 
@@ -228,6 +234,12 @@ class BaseEmitter:
             return False
         return node.kind in STANDALONE_KINDS
 
+    def _is_block(self, node):
+        """ Is it a block, or a tag without any markup around blocks? """
+        return self._is_standalone(node) or (
+            not hasattr(self, f"{node.kind}_emit") and self._contains_blocks(node)
+        )
+
     def _contains_blocks(self, node):
         """ Are there nodes in it which stand outside of any text line? """
         return any(self._is_standalone(child) or self._contains_blocks(child) for child in node.children)
@@ -267,9 +279,7 @@ class BaseEmitter:
         result = ""
         after_inline = after_block = False
         for child in children:
-            is_block = self._is_standalone(child) or (
-                not hasattr(self, f"{child.kind}_emit") and self._contains_blocks(child)
-            )
+            is_block = self._is_block(child)
             content = self.emit_node(child)
             if is_block and after_inline:
                 result = result.rstrip()
@@ -280,6 +290,8 @@ class BaseEmitter:
                 if not content.startswith("\n"):
                     result = result.rstrip("\n") + "\n\n"
                 after_block = False
+            elif after_block and result[-1:].strip() and content[:1].strip():
+                result += "\n\n"
             result += content
             after_inline = not is_block
             if is_block and content.strip():
@@ -287,8 +299,17 @@ class BaseEmitter:
         return result
 
     def emit_children(self, node):
-        """Emit all the children of a node."""
-        return "".join(self.emit_children_list(node))
+        """Emit all the children of a node: a block is never joined to the text beside it."""
+        result = ""
+        after_block = False
+        for child, content in zip(node.children, self.emit_children_list(node)):
+            is_block = self._is_block(child)
+            if (is_block or after_block) and result[-1:].strip() and content[:1].strip():
+                result += self._linebreak()
+            result += content
+            if content.strip():
+                after_block = is_block
+        return result
 
     def emit_children_list(self, node):
         """Emit all the children of a node."""
-- 
2.43.0

