From b4e3e78ac408aae0e870a353afc2ff4319f81407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 01/40] fix: do not skip PO entries when removing revived
 obsolete ones

mark_not_found_entries_as_obsoletes() removed entries from the PO file
while iterating over it, so the entry following each removed one was never
reconciled.
---
 src/mdpo/po.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 61ebb8b..06cd293 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -63,7 +63,8 @@ def mark_not_found_entries_as_obsoletes(
         entries (list): Entries to search against.
     """
     obsolete = False
-    for entry in pofile:
+    # iterate over a copy because entries are removed from the file
+    for entry in list(pofile):
         if not find_entry_in_entries(
             entry,
             entries,
-- 
2.43.0


From 7d396f6530e507dcbe562a8bfcb669cc1e0e4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 02/40] fix: keep extracted messages whose msgstr differs when
 reconciling PO files

Messages still present in the Markdown were marked as obsolete (or removed)
when the msgstr in the PO file was not equal to the one extracted, for
example untranslated entries when a default msgstr is passed.
---
 src/mdpo/po.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 06cd293..3e79a37 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -68,6 +68,7 @@ def mark_not_found_entries_as_obsoletes(
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
@@ -99,6 +100,7 @@ def remove_not_found_entries(pofile, entries):
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
-- 
2.43.0


From b791461cef010d1f3822c0b7d3f37a634784d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 03/40] fix: links, images and wikilinks with empty or
 multipart attributes

md4c passes None for empty attributes (`[foo]()` raised a TypeError) and
splits them in several parts when contain entities (only the first one was
kept, truncating targets and titles).
---
 src/mdpo/md2po/__init__.py | 24 ++++++++++++------------
 src/mdpo/md4c.py           | 13 +++++++++++++
 src/mdpo/po2md/__init__.py | 37 +++++++++++++++++++++++--------------
 3 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index be23928..ce2325f 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -22,6 +22,7 @@ from mdpo.md import parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
+    attribute_text,
 )
 from mdpo.po import (
     find_entry_in_entries,
@@ -687,7 +688,7 @@ class Md2Po:
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
                 details['title']:
-            self._save_msgid(details['title'][0][1])
+            self._save_msgid(attribute_text(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
@@ -715,11 +716,11 @@ class Md2Po:
 
             self._inside_aspan = True
 
-            current_aspan_href = details['href'][0][1]
+            current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == current_aspan_href
@@ -745,14 +746,13 @@ class Md2Po:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['src'] = details['src'][0][1]
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
+            self._current_imgspan['src'] = attribute_text(details['src'])
+            self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -790,8 +790,9 @@ class Md2Po:
                     )
                 self._current_aspan_ref_target = None
             else:
-                title = details['title'][0][1] if details['title'] else ''
-                if self._current_aspan_text == details['href'][0][1]:
+                title = attribute_text(details['title'])
+                href = attribute_text(details['href'])
+                if href and self._current_aspan_text == href:
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
@@ -799,7 +800,6 @@ class Md2Po:
                     self.current_msgid += '>'
                 else:
                     title_part = f' "{polib.escape(title)}"' if title else ''
-                    href = details['href'][0][1]
                     self.current_msgid += (
                         f'[{self._current_aspan_text}]({href}{title_part})'
                     )
@@ -821,9 +821,9 @@ class Md2Po:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = details['title'][0][1]
+                imgspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
diff --git a/src/mdpo/md4c.py b/src/mdpo/md4c.py
index 2bd1543..ceb60d4 100644
--- a/src/mdpo/md4c.py
+++ b/src/mdpo/md4c.py
@@ -27,3 +27,16 @@ READABLE_BLOCK_NAMES = {
     9: 'paragraph',
     10: 'table',
 }
+
+
+def attribute_text(attribute):
+    """Return the text of a span or block attribute received from md4c.
+
+    Args:
+        attribute (list): Tuples of text type and text in which md4c splits
+            the attribute or ``None`` if the attribute is empty.
+
+    Returns:
+        str: Text of the attribute as is written in the Markdown content.
+    """
+    return ''.join(text for _, text in attribute or ())
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index efd1bdb..d657143 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -13,7 +13,10 @@ from mdpo.command import (
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
 from mdpo.md import parse_link_references
-from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
+from mdpo.md4c import (
+    DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
+    attribute_text,
+)
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     po_escaped_string,
@@ -515,7 +518,7 @@ class Po2Md:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
                 if details['lang']:
-                    self.current_line += details['lang'][0][1]
+                    self.current_line += attribute_text(details['lang'])
             else:
                 self._inside_indented_codeblock = True
 
@@ -732,11 +735,11 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_aspan_href = details['href'][0][1]
+            self._current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == self._current_aspan_href
@@ -757,12 +760,11 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
-            self._current_imgspan['src'] = details['src'][0][1]
+            self._current_imgspan['title'] = attribute_text(details['title'])
+            self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH:
             self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -800,21 +802,28 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif self._current_aspan_text == self._current_aspan_href:
+            elif (
+                self._current_aspan_href
+                and self._current_aspan_text == self._current_aspan_href
+            ):
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
                 if details['title']:
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        attribute_text(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += '>'
-            elif self._current_aspan_href:
+            else:
                 self.current_msgid += (
                     f'[{self._current_aspan_text}]'
                     f'({self._current_aspan_href}'
                 )
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        attribute_text(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += ')'
             self._current_aspan_href = None
@@ -828,9 +837,9 @@ class Po2Md:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = polib.escape(details['title'][0][1])
+                imgspan_title = polib.escape(attribute_text(details['title']))
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
-- 
2.43.0


From 1dfc270e725c78e13659be05e31531ca5349f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 04/40] fix: code spans inside links and code spans without
 text

Literal backticks of code spans inside links were escaped in the text before
the link (and po2md closed the code span out of it), and a code span without
text raised a TypeError.
---
 src/mdpo/md2po/__init__.py | 22 ++++++++++++++++------
 src/mdpo/po2md/__init__.py | 33 ++++++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index ce2325f..6b410b6 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -741,7 +741,11 @@ class Md2Po:
             # will be escaped
             #
             # save the index char of the opening backtick
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            ) - 1
+            self._codespan_backticks = 0
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -883,14 +887,20 @@ class Md2Po:
                         backticks = (
                             self._codespan_backticks * self.code_start_string
                         )
+                        start_index = self._codespan_start_index
+                        if self._inside_aspan:
+                            self._current_aspan_text = (
+                                f'{self._current_aspan_text[:start_index]}'
+                                f'{backticks}'
+                                f'{self._current_aspan_text[start_index:]}'
+                                f'{text}'
+                            )
+                            return
                         self.current_msgid = (
-                            f'{self.current_msgid[:self._codespan_start_index]}'
+                            f'{self.current_msgid[:start_index]}'
                             f'{backticks}'
-                            f'{self.current_msgid[self._codespan_start_index:]}'
+                            f'{self.current_msgid[start_index:]}'
                         )
-                        if self._inside_aspan:
-                            self._current_aspan_text += text
-                            return
                     elif self._inside_aspan:
                         self._current_aspan_text += text
                         return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d657143..6c32857 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -754,7 +754,11 @@ class Po2Md:
                         break
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            ) - 1
+            self._codespan_backticks = 0
             self._codespan_inside_current_msgid = True
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
@@ -831,9 +835,11 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self.current_msgid += (
-                self._codespan_backticks * self.code_end_string
-            )
+            backticks = self._codespan_backticks * self.code_end_string
+            if self._inside_aspan:
+                self._current_aspan_text += backticks
+            else:
+                self.current_msgid += backticks
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
@@ -900,14 +906,23 @@ class Po2Md:
                         self.code_start_string,
                         text,
                     ) - 1
-                    self.current_msgid = (
-                        f'{self.current_msgid[:self._codespan_start_index]}'
-                        f'{self._codespan_backticks * self.code_start_string}'
-                        f'{self.current_msgid[self._codespan_start_index:]}'
+                    backticks = (
+                        self._codespan_backticks * self.code_start_string
                     )
+                    start_index = self._codespan_start_index
                     if self._inside_aspan:
-                        self._current_aspan_text += text
+                        self._current_aspan_text = (
+                            f'{self._current_aspan_text[:start_index]}'
+                            f'{backticks}'
+                            f'{self._current_aspan_text[start_index:]}'
+                            f'{text}'
+                        )
                         return
+                    self.current_msgid = (
+                        f'{self.current_msgid[:start_index]}'
+                        f'{backticks}'
+                        f'{self.current_msgid[start_index:]}'
+                    )
                 elif self._inside_aspan:
                     self._current_aspan_text += text
                     return
-- 
2.43.0


From 3f130cc6c1befbfefa177c37f34a7f8bf97ccb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 05/40] fix: number of backticks of code spans whose text is
 received in parts

md4c splits the text of a code span at line breaks. The wrapper was computed
for each part, so the closing backticks did not match the opening ones.
---
 src/mdpo/md2po/__init__.py | 57 +++++++++++++++++---------------------
 src/mdpo/po2md/__init__.py | 55 +++++++++++++++++++-----------------
 2 files changed, 55 insertions(+), 57 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 6b410b6..fade936 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -130,7 +130,7 @@ class Md2Po:
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
-        '_codespan_backticks',
+        '_codespan_text',
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
@@ -379,7 +379,7 @@ class Md2Po:
         self._uls_deep = 0
 
         self._codespan_start_index = None
-        self._codespan_backticks = None
+        self._codespan_text = ''
 
         self._inside_aspan = False
         self._current_aspan_text = ''
@@ -745,7 +745,7 @@ class Md2Po:
                 self._current_aspan_text if self._inside_aspan
                 else self.current_msgid,
             ) - 1
-            self._codespan_backticks = 0
+            self._codespan_text = ''
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -811,18 +811,32 @@ class Md2Po:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self._codespan_start_index = None
 
-            # add backticks at the end for escape internal backticks
+            # add backticks at the start and at the end of the code span
+            # to escape internal backticks
+            n_backticks = min_not_max_chars_in_a_row(
+                self.code_start_string,
+                self._codespan_text,
+            ) - 1
+            start_backticks = n_backticks * self.code_start_string
+            end_backticks = n_backticks * self.code_end_string
+            start_index = self._codespan_start_index
             if self._inside_aspan:
-                self._current_aspan_text += (
-                    self._codespan_backticks * self.code_end_string
+                self._current_aspan_text = (
+                    f'{self._current_aspan_text[:start_index]}'
+                    f'{start_backticks}'
+                    f'{self._current_aspan_text[start_index:]}'
+                    f'{end_backticks}'
                 )
             else:
-                self.current_msgid += (
-                    self._codespan_backticks * self.code_end_string
+                self.current_msgid = (
+                    f'{self.current_msgid[:start_index]}'
+                    f'{start_backticks}'
+                    f'{self.current_msgid[start_index:]}'
+                    f'{end_backticks}'
                 )
-            self._codespan_backticks = None
+            self._codespan_start_index = None
+            self._codespan_text = ''
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
@@ -878,29 +892,10 @@ class Md2Po:
                         self._current_imgspan['text'] = text
                         return
                     if self._inside_codespan:
-                        # fix backticks for codespan start and end to escape
-                        # internal backticks
-                        self._codespan_backticks = min_not_max_chars_in_a_row(
-                            self.code_start_string,
-                            text,
-                        ) - 1
-                        backticks = (
-                            self._codespan_backticks * self.code_start_string
-                        )
-                        start_index = self._codespan_start_index
+                        self._codespan_text += text
                         if self._inside_aspan:
-                            self._current_aspan_text = (
-                                f'{self._current_aspan_text[:start_index]}'
-                                f'{backticks}'
-                                f'{self._current_aspan_text[start_index:]}'
-                                f'{text}'
-                            )
+                            self._current_aspan_text += text
                             return
-                        self.current_msgid = (
-                            f'{self.current_msgid[:start_index]}'
-                            f'{backticks}'
-                            f'{self.current_msgid[start_index:]}'
-                        )
                     elif self._inside_aspan:
                         self._current_aspan_text += text
                         return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6c32857..b993bc1 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -114,7 +114,7 @@ class Po2Md:
         '_inside_codespan',
         '_inside_latexmath_display',
         '_codespan_start_index',
-        '_codespan_backticks',
+        '_codespan_text',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
         '_current_aspan_ref_target',
@@ -290,7 +290,7 @@ class Po2Md:
 
         self._inside_codespan = False
         self._codespan_start_index = None
-        self._codespan_backticks = None
+        self._codespan_text = ''
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
@@ -758,7 +758,7 @@ class Po2Md:
                 self._current_aspan_text if self._inside_aspan
                 else self.current_msgid,
             ) - 1
-            self._codespan_backticks = 0
+            self._codespan_text = ''
             self._codespan_inside_current_msgid = True
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
@@ -835,12 +835,32 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            backticks = self._codespan_backticks * self.code_end_string
+
+            # add backticks at the start and at the end of the code span
+            # to escape internal backticks
+            n_backticks = min_not_max_chars_in_a_row(
+                self.code_start_string,
+                self._codespan_text,
+            ) - 1
+            start_backticks = n_backticks * self.code_start_string
+            end_backticks = n_backticks * self.code_end_string
+            start_index = self._codespan_start_index
             if self._inside_aspan:
-                self._current_aspan_text += backticks
+                self._current_aspan_text = (
+                    f'{self._current_aspan_text[:start_index]}'
+                    f'{start_backticks}'
+                    f'{self._current_aspan_text[start_index:]}'
+                    f'{end_backticks}'
+                )
             else:
-                self.current_msgid += backticks
-            self._codespan_backticks = None
+                self.current_msgid = (
+                    f'{self.current_msgid[:start_index]}'
+                    f'{start_backticks}'
+                    f'{self.current_msgid[start_index:]}'
+                    f'{end_backticks}'
+                )
+            self._codespan_start_index = None
+            self._codespan_text = ''
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
@@ -902,27 +922,10 @@ class Po2Md:
                     self._current_imgspan['text'] = text
                     return
                 if self._inside_codespan:
-                    self._codespan_backticks = min_not_max_chars_in_a_row(
-                        self.code_start_string,
-                        text,
-                    ) - 1
-                    backticks = (
-                        self._codespan_backticks * self.code_start_string
-                    )
-                    start_index = self._codespan_start_index
+                    self._codespan_text += text
                     if self._inside_aspan:
-                        self._current_aspan_text = (
-                            f'{self._current_aspan_text[:start_index]}'
-                            f'{backticks}'
-                            f'{self._current_aspan_text[start_index:]}'
-                            f'{text}'
-                        )
+                        self._current_aspan_text += text
                         return
-                    self.current_msgid = (
-                        f'{self.current_msgid[:start_index]}'
-                        f'{backticks}'
-                        f'{self.current_msgid[start_index:]}'
-                    )
                 elif self._inside_aspan:
                     self._current_aspan_text += text
                     return
-- 
2.43.0


From 6b9a3089fb686d091f2a9be13c99311ebd8cccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 06/40] fix: po2md line breaks inside link texts and after
 nested lists

md2po extracts these line breaks as spaces, so po2md was looking for
messages that don't exist in the PO files.
---
 src/mdpo/po2md/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index b993bc1..4b8c1ef 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -916,7 +916,9 @@ class Po2Md:
 
         if not self._inside_htmlblock[0]:
             if not self._inside_codeblock:
-                if self._inside_liblock and text == '\n':
+                if any([  # softbreaks
+                    self._current_list_type, self._inside_aspan,
+                ]) and text == '\n':
                     text = ' '
                 if self._current_imgspan:
                     self._current_imgspan['text'] = text
-- 
2.43.0


From 408f27a097d4e5dbc8f528aa018e4d627cac08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 07/40] fix: line breaks inside setext headings

po2md wrote the second line of the heading as a paragraph.
---
 src/mdpo/md2po/__init__.py | 4 +++-
 src/mdpo/po2md/__init__.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index fade936..52e0a82 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -884,7 +884,9 @@ class Md2Po:
         if not self._inside_htmlblock:
             if not self._inside_codeblock:
                 if any([  # softbreaks
-                    self._inside_liblock, self._inside_aspan,
+                    self._inside_liblock,
+                    self._inside_aspan,
+                    self._inside_hblock,
                 ]) and text == '\n':
                     text = ' '
                 if not self.plaintext:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 4b8c1ef..d2748dd 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -917,7 +917,9 @@ class Po2Md:
         if not self._inside_htmlblock[0]:
             if not self._inside_codeblock:
                 if any([  # softbreaks
-                    self._current_list_type, self._inside_aspan,
+                    self._current_list_type,
+                    self._inside_aspan,
+                    self._inside_hblock,
                 ]) and text == '\n':
                     text = ' '
                 if self._current_imgspan:
-- 
2.43.0


From a318d22f2dcbc1cc3f11bd79083fe49bae3d109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 08/40] fix: track properly the end of nested and finished
 lists in md2po

After a nested ordered list the blocks of the outer list were counted as top
level blocks, and after any list the extractor acted as if it were inside a
list item forever, so a quote block used up the commands of its next block.
---
 src/mdpo/md2po/__init__.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 52e0a82..3c6eadc 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -126,7 +126,6 @@ class Md2Po:
         '_inside_aspan',
         '_inside_liblock',
         '_inside_codespan',
-        '_inside_olblock',
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
@@ -138,6 +137,7 @@ class Md2Po:
         '_inside_latexmath_display_text',
         '_current_imgspan',
         '_uls_deep',
+        '_ols_deep',
     }
 
     def __init__(self, files_or_content, **kwargs):
@@ -372,11 +372,11 @@ class Md2Po:
         self._inside_pblock = False
         self._inside_liblock = False
         self._inside_hblock = False
-        self._inside_olblock = False
         self._inside_codespan = False
 
         self._quoteblocks_deep = 0
         self._uls_deep = 0
+        self._ols_deep = 0
 
         self._codespan_start_index = None
         self._codespan_text = ''
@@ -580,7 +580,7 @@ class Md2Po:
                 self._inside_hblock,
                 self._uls_deep,
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.P.value
@@ -589,7 +589,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.CODE.value
@@ -597,12 +597,12 @@ class Md2Po:
             self._inside_liblock = True
         elif block is md4c.BlockType.UL:
             self._uls_deep += 1
-            if self._uls_deep > 1 or self._inside_olblock:
+            if self._uls_deep > 1 or self._ols_deep:
                 # changing UL deeep
                 self._save_current_msgid()
             elif not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.UL.value
@@ -611,7 +611,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.H.value
@@ -626,26 +626,26 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.OL.value
 
-            if self._inside_olblock or self._uls_deep:
+            if self._ols_deep or self._uls_deep:
                 self._save_current_msgid()
-            self._inside_olblock = True
+            self._ols_deep += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
             if not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
                 self._uls_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.HTML.value
         elif block is md4c.BlockType.TABLE and not any([
             self._quoteblocks_deep,
-            self._inside_olblock,
+            self._ols_deep,
             self._uls_deep,
         ]):
             self._current_top_level_block_number += 1
@@ -673,12 +673,14 @@ class Md2Po:
                 self._inside_liblock = True
             elif block is md4c.BlockType.UL:
                 self._uls_deep -= 1
+                self._inside_liblock = bool(self._uls_deep or self._ols_deep)
             elif block is md4c.BlockType.H:
                 self._inside_hblock = False
             elif block is md4c.BlockType.QUOTE:
                 self._quoteblocks_deep -= 1
             elif block is md4c.BlockType.OL:
-                self._inside_olblock = False
+                self._ols_deep -= 1
+                self._inside_liblock = bool(self._uls_deep or self._ols_deep)
             self._save_current_msgid()
 
     def enter_span(self, span, details):
-- 
2.43.0


From 64465315a9ff02769bd959812c72c47c65494b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 09/40] fix: po2md merging the text of an item with its nested
 ordered list

The text of an unordered list item was not translated before entering in an
ordered list nested inside it, so was merged with the text of its first item.
---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d2748dd..b776d72 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -531,7 +531,7 @@ class Po2Md:
         elif block is md4c.BlockType.LI:
             if self._current_list_type[-1][0] == 'ol':
                 # inside OL
-                if len(self._ol_marks) > 1:
+                if len(self._current_list_type) > 1:
                     self._save_current_msgid()
                     if not self._ol_marks[-1][0]:
                         self._save_current_line()
-- 
2.43.0


From 84d930017d6c6d8275a2acb7745f84924d41bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 10/40] fix: do not use up next block commands, contexts and
 comments without a message

Leaving or entering some blocks without text (for example a list nested
after a disable-next-block command) discarded them, so they were not applied
to the next message.
---
 src/mdpo/md2po/__init__.py | 38 +++++++++++++++++++++-----------------
 src/mdpo/po2md/__init__.py |  5 +++++
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 3c6eadc..238a85a 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -471,26 +471,30 @@ class Md2Po:
         ):
             return
 
-        if self.current_msgid:
-            if (not self.disable_next_block and not self.disable) or \
-                    self.enable_next_block:
-                self._save_msgid(
-                    self.current_msgid,
+        # do not use up the commands applied to the next block if there is
+        # not a message to save
+        if not self.current_msgid:
+            return
+
+        if (not self.disable_next_block and not self.disable) or \
+                self.enable_next_block:
+            self._save_msgid(
+                self.current_msgid,
+                msgstr=msgstr or self.msgstr,
+                msgctxt=self.current_msgctxt,
+                tcomment=self.current_tcomment,
+                fuzzy=fuzzy,
+            )
+        else:
+            self.disabled_entries.append(
+                polib.POEntry(
+                    msgid=self.current_msgid,
                     msgstr=msgstr or self.msgstr,
                     msgctxt=self.current_msgctxt,
                     tcomment=self.current_tcomment,
-                    fuzzy=fuzzy,
-                )
-            else:
-                self.disabled_entries.append(
-                    polib.POEntry(
-                        msgid=self.current_msgid,
-                        msgstr=msgstr or self.msgstr,
-                        msgctxt=self.current_msgctxt,
-                        tcomment=self.current_tcomment,
-                        flags=['fuzzy'] if fuzzy else [],
-                    ),
-                )
+                    flags=['fuzzy'] if fuzzy else [],
+                ),
+            )
         self.disable_next_block = False
         self.enable_next_block = False
         self.current_msgid = ''
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index b776d72..4af901f 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -411,6 +411,11 @@ class Po2Md:
         ):
             return
 
+        # do not use up the commands applied to the next block if there is
+        # not a message to translate
+        if not self.current_msgid:
+            return
+
         if (not self.disable and not self.disable_next_block) or \
                 self.enable_next_block:
             translation = self._translate_msgid(
-- 
2.43.0


From f38097782fbb8c9dd791834f45b5d319823835ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 11/40] fix: messages merged around thematic breaks, quotes and
 code blocks in lists

The text of a list item before one of these blocks was merged with the text
after it by one of md2po or po2md but not by the other, so it was never
translated.
---
 src/mdpo/md2po/__init__.py | 2 ++
 src/mdpo/po2md/__init__.py | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 238a85a..06415f9 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -590,6 +590,8 @@ class Md2Po:
                 self._current_top_level_block_type = md4c.BlockType.P.value
         elif block is md4c.BlockType.CODE:
             self._inside_codeblock = True
+            if self._inside_liblock:
+                self._save_current_msgid()
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 4af901f..7a79c32 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -518,6 +518,9 @@ class Po2Md:
                 if self.current_line:
                     self._save_current_line()
                 indent += '   ' * len(self._current_list_type)
+            elif self.current_msgid:
+                self._save_current_msgid()
+                self._save_current_line()
 
             if details['fence_char'] is not None:
                 fence_chars = details['fence_char'] * 3
@@ -564,6 +567,9 @@ class Po2Md:
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
+            if self._current_list_type and self.current_msgid:
+                self._save_current_msgid()
+                self._save_current_line()
             if self._current_list_type and not self.current_line:
                 self._save_current_line()
             indent = (
@@ -586,7 +592,7 @@ class Po2Md:
         elif block is md4c.BlockType.TD:
             self.current_line += '| '
         elif block is md4c.BlockType.QUOTE:
-            if self._inside_liblock:
+            if self._inside_liblock or self.current_msgid:
                 self._save_current_msgid()
                 self._save_current_line()
             self._inside_quoteblock = True
-- 
2.43.0


From e24f4b74e04f37447b1f9bbd25d931179b1de218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 12/40] fix: md2po applying next block commands, contexts and
 comments after a code block

po2md uses them up in the code block although it is not extracted, so both
were selecting different messages.
---
 src/mdpo/md2po/__init__.py |  7 ++++++-
 src/mdpo/po2md/__init__.py | 11 +++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 06415f9..fa7b066 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -495,9 +495,12 @@ class Md2Po:
                     flags=['fuzzy'] if fuzzy else [],
                 ),
             )
+        self.current_msgid = ''
+        self._reset_next_block_commands()
+
+    def _reset_next_block_commands(self):
         self.disable_next_block = False
         self.enable_next_block = False
-        self.current_msgid = ''
         self.current_tcomment = None
         self.current_msgctxt = None
 
@@ -668,6 +671,8 @@ class Md2Po:
                 self.include_codeblocks or self.include_next_codeblock
             ):
                 self._save_current_msgid()
+            # the next block is this one although is empty or not extracted
+            self._reset_next_block_commands()
             self.include_next_codeblock = False
             self.disable_next_codeblock = False
         elif block is md4c.BlockType.HTML:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7a79c32..c549ce2 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -471,15 +471,17 @@ class Po2Md:
             self.current_line += translation
 
         self.current_msgid = ''
+        self._reset_next_block_commands()
+
+        self._codespan_inside_current_msgid = False
+        self._aimg_title_inside_current_msgid = False
+
+    def _reset_next_block_commands(self):
         self.current_msgctxt = None
         self.current_tcomment = None
-
         self.disable_next_block = False
         self.enable_next_block = False
 
-        self._codespan_inside_current_msgid = False
-        self._aimg_title_inside_current_msgid = False
-
     def _save_current_line(self):
         # strip all spaces according to unicodedata database ignoring newlines,
         # see https://docs.python.org/3/library/stdtypes.html#str.splitlines
@@ -634,6 +636,7 @@ class Po2Md:
 
         elif block is md4c.BlockType.CODE:
             self._save_current_msgid()
+            self._reset_next_block_commands()
             self._inside_codeblock = False
 
             indent = ''
-- 
2.43.0


From 1ea2e6eb30e1e82961cab8878a370565721b2be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 13/40] fix: po2md AttributeError without the latex_math_spans
 extension

---
 src/mdpo/po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c549ce2..69f85d9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -261,9 +261,9 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
-        if 'latex_math_spans' in self.extensions:
-            self._inside_latexmath_display = False
+        self._inside_latexmath_display = False
 
+        if 'latex_math_spans' in self.extensions:
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
-- 
2.43.0


From 3361971cd5a1f1704bb5482f5d18c4adaa309b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 14/40] fix: LaTeX math messages built different by md2po and
 po2md

po2md wrote LaTeX math of link texts before the link, and md2po joined the
lines of display math without spaces and saved the message before a link
containing it.
---
 src/mdpo/md2po/__init__.py | 16 ++++++++++++----
 src/mdpo/po2md/__init__.py | 26 +++++++++++++++++++-------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index fa7b066..15000a8 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -770,7 +770,10 @@ class Md2Po:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_text(details['target'])
-        elif span is md4c.SpanType.LATEXMATH_DISPLAY:
+        elif (
+            span is md4c.SpanType.LATEXMATH_DISPLAY
+            and not self._inside_aspan
+        ):
             self._inside_latexmath_display = True
 
     def leave_span(self, span, details):
@@ -883,9 +886,14 @@ class Md2Po:
                 self.current_msgid += img_markup
         elif span is md4c.SpanType.U:
             self._inside_uspan = False
-        elif span is md4c.SpanType.LATEXMATH_DISPLAY:
+        elif (
+            span is md4c.SpanType.LATEXMATH_DISPLAY
+            and not self._inside_aspan
+        ):
             self._inside_latexmath_display = False
-            self.current_msgid += self._inside_latexmath_display_text
+            self.current_msgid = (
+                f'{self.current_msgid}{self._inside_latexmath_display_text}'
+            ).strip()
             self._inside_latexmath_display_text = ''
             self._save_current_msgid()
 
@@ -932,7 +940,7 @@ class Md2Po:
                         )
                     return
                 if self._inside_latexmath_display:
-                    self._inside_latexmath_display_text += text.strip()
+                    self._inside_latexmath_display_text += text
                     return
                 self.current_msgid += text
             elif not self.disable_next_codeblock and (
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 69f85d9..50a6b87 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -276,6 +276,16 @@ class Po2Md:
                 '$$',
             )
 
+            self._enterspan_replacer[md4c.SpanType.LATEXMATH.value] = \
+                self.latexmath_start_string
+            self._leavespan_replacer[md4c.SpanType.LATEXMATH.value] = \
+                self.latexmath_end_string
+            # only used inside link texts
+            self._enterspan_replacer[md4c.SpanType.LATEXMATH_DISPLAY.value] = \
+                self.latexmath_display_start_string
+            self._leavespan_replacer[md4c.SpanType.LATEXMATH_DISPLAY.value] = \
+                self.latexmath_display_end_string
+
         self._inside_htmlblock = [
             False,  # the parser is inside an HTML block
             None,  # a mdpo command has been found in the HTML block
@@ -740,7 +750,7 @@ class Po2Md:
         with contextlib.suppress(KeyError):
             if self._inside_aspan:  # span inside link text
                 self._current_aspan_text += self._enterspan_replacer[span.value]
-            else:
+            elif span is not md4c.SpanType.LATEXMATH_DISPLAY:
                 self.current_msgid += self._enterspan_replacer[span.value]
 
         if span is md4c.SpanType.A:
@@ -783,9 +793,10 @@ class Po2Md:
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_text(details['target'])
-        elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_start_string
-        elif span is md4c.SpanType.LATEXMATH_DISPLAY:
+        elif (
+            span is md4c.SpanType.LATEXMATH_DISPLAY
+            and not self._inside_aspan
+        ):
             self._inside_latexmath_display = True
 
     def leave_span(self, span, details):
@@ -906,9 +917,10 @@ class Po2Md:
                 self.current_msgid += img_markup
 
             self._current_imgspan = {}
-        elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_end_string
-        elif span is md4c.SpanType.LATEXMATH_DISPLAY:
+        elif (
+            span is md4c.SpanType.LATEXMATH_DISPLAY
+            and not self._inside_aspan
+        ):
             self._inside_latexmath_display = False
             self.current_line += self.latexmath_display_start_string
             self._save_current_line()
-- 
2.43.0


From 98674dbe8202bd95ed91acd6bc5d523f674f4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 15/40] fix: po2md dropping strikethrough markup

Messages containing strikethrough text, extracted with their markup by md2po,
were never translated and their markup was removed from the output.
---
 src/mdpo/po2md/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 50a6b87..92638b2 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -83,6 +83,8 @@ class Po2Md:
         'code_end_string_escaped',
         'wikilink_start_string',
         'wikilink_end_string',
+        'strikethrough_start_string',
+        'strikethrough_end_string',
         'latexmath_start_string',
         'latexmath_end_string',
         'latexmath_display_start_string',
@@ -261,6 +263,19 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
+        if 'strikethrough' in self.extensions:
+            self.strikethrough_start_string = kwargs.get(
+                'strikethrough_start_string', '~~',
+            )
+            self._enterspan_replacer[md4c.SpanType.DEL.value] = \
+                self.strikethrough_start_string
+
+            self.strikethrough_end_string = kwargs.get(
+                'strikethrough_end_string', '~~',
+            )
+            self._leavespan_replacer[md4c.SpanType.DEL.value] = \
+                self.strikethrough_end_string
+
         self._inside_latexmath_display = False
 
         if 'latex_math_spans' in self.extensions:
-- 
2.43.0


From 048112a7f72b6153e943cd0a88ce78b0422977c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 16/40] fix: wikilink targets, image titles and alternative
 texts in po2md messages

po2md escaped wikilink targets and compared escaped image titles with link
references, so the messages extracted by md2po were not found. Alternative
texts received in parts kept only the last one.
---
 src/mdpo/md2po/__init__.py | 2 +-
 src/mdpo/po2md/__init__.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 15000a8..5c549ba 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -912,7 +912,7 @@ class Md2Po:
                     text = ' '
                 if not self.plaintext:
                     if self._current_imgspan:
-                        self._current_imgspan['text'] = text
+                        self._current_imgspan['text'] += text.replace('\n', ' ')
                         return
                     if self._inside_codespan:
                         self._codespan_text += text
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 92638b2..bfe1efb 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -826,7 +826,7 @@ class Po2Md:
             return
 
         if span is md4c.SpanType.WIKILINK:
-            self.current_msgid += polib.escape(self._current_wikilink_target)
+            self.current_msgid += self._current_wikilink_target
             self._current_wikilink_target = None
 
         if self._inside_aspan:  # span inside link text
@@ -905,7 +905,7 @@ class Po2Md:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = polib.escape(attribute_text(details['title']))
+                imgspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
@@ -923,7 +923,7 @@ class Po2Md:
             else:
                 img_markup += f'({imgspan_src}'
                 if imgspan_title:
-                    img_markup += f' "{imgspan_title}"'
+                    img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
 
             if self._inside_aspan:
@@ -964,7 +964,7 @@ class Po2Md:
                 ]) and text == '\n':
                     text = ' '
                 if self._current_imgspan:
-                    self._current_imgspan['text'] = text
+                    self._current_imgspan['text'] += text.replace('\n', ' ')
                     return
                 if self._inside_codespan:
                     self._codespan_text += text
-- 
2.43.0


From 9965ec5d61b4691a1f5916cb3dd8b36876971276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 17/40] fix: po2md IndexError with a document starting with an
 empty quote

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index bfe1efb..64d0f14 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -735,7 +735,7 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1] == '>':
+            if self.outputlines and self.outputlines[-1] == '>':
                 self.outputlines.pop()
             if not self._inside_liblock:
                 self._save_current_line()
-- 
2.43.0


From 4e09e2174c838d75d19430aeb7ad687eed75cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 18/40] fix: KeyError with images inside the alternative text
 of other image

---
 src/mdpo/md2po/__init__.py | 6 ++++++
 src/mdpo/po2md/__init__.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 5c549ba..9abf244 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -759,6 +759,9 @@ class Md2Po:
                 else self.current_msgid,
             ) - 1
             self._codespan_text = ''
+        elif span is md4c.SpanType.IMG and self._current_imgspan:
+            # image inside the alternative text of other image
+            self._current_imgspan['deep'] += 1
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -766,6 +769,7 @@ class Md2Po:
             self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['text'] = ''
+            self._current_imgspan['deep'] = 0
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
@@ -853,6 +857,8 @@ class Md2Po:
                 )
             self._codespan_start_index = None
             self._codespan_text = ''
+        elif span is md4c.SpanType.IMG and self._current_imgspan['deep']:
+            self._current_imgspan['deep'] -= 1
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 64d0f14..ec4d7c5 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -799,6 +799,9 @@ class Po2Md:
             ) - 1
             self._codespan_text = ''
             self._codespan_inside_current_msgid = True
+        elif span is md4c.SpanType.IMG and self._current_imgspan:
+            # image inside the alternative text of other image
+            self._current_imgspan['deep'] += 1
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -806,6 +809,7 @@ class Po2Md:
             self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['text'] = ''
+            self._current_imgspan['deep'] = 0
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_text(details['target'])
         elif (
@@ -901,6 +905,8 @@ class Po2Md:
                 )
             self._codespan_start_index = None
             self._codespan_text = ''
+        elif span is md4c.SpanType.IMG and self._current_imgspan['deep']:
+            self._current_imgspan['deep'] -= 1
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
-- 
2.43.0


From 1365a3f6def435953a0fda1baef64f1b90a230ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 19/40] fix: po2md writing None as target of links containing
 autolinks

---
 src/mdpo/po2md/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ec4d7c5..679962d 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -850,9 +850,8 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif (
-                self._current_aspan_href
-                and self._current_aspan_text == self._current_aspan_href
+            elif self._current_aspan_text and (
+                self._current_aspan_text == attribute_text(details['href'])
             ):
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
@@ -863,10 +862,8 @@ class Po2Md:
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += '>'
             else:
-                self.current_msgid += (
-                    f'[{self._current_aspan_text}]'
-                    f'({self._current_aspan_href}'
-                )
+                href = attribute_text(details['href'])
+                self.current_msgid += f'[{self._current_aspan_text}]({href}'
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
                     escaped_title = polib.escape(
-- 
2.43.0


From d9a4e31034aaf7737d1b878010a291bbbd752435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 20/40] fix: KeyError with malformed images that md4c leaves
 without entering

---
 src/mdpo/md2po/__init__.py | 3 +++
 src/mdpo/po2md/__init__.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 9abf244..c381717 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -857,6 +857,9 @@ class Md2Po:
                 )
             self._codespan_start_index = None
             self._codespan_text = ''
+        elif span is md4c.SpanType.IMG and not self._current_imgspan:
+            # md4c leaves some malformed images without entering them
+            pass
         elif span is md4c.SpanType.IMG and self._current_imgspan['deep']:
             self._current_imgspan['deep'] -= 1
         elif span is md4c.SpanType.IMG:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 679962d..3964f98 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -902,6 +902,9 @@ class Po2Md:
                 )
             self._codespan_start_index = None
             self._codespan_text = ''
+        elif span is md4c.SpanType.IMG and not self._current_imgspan:
+            # md4c leaves some malformed images without entering them
+            pass
         elif span is md4c.SpanType.IMG and self._current_imgspan['deep']:
             self._current_imgspan['deep'] -= 1
         elif span is md4c.SpanType.IMG:
-- 
2.43.0


From 5c29807ec5b1c20089f0fc505b8a6b7c4d235ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 21/40] fix: --no-obsolete, --no-fuzzy and --no-empty-msgstr in
 po2md and mdpo2html

These options always ended with a TypeError or an AttributeError.
---
 src/mdpo/mdpo2html/__main__.py | 19 +++++--------------
 src/mdpo/po2md/__main__.py     | 19 +++++--------------
 2 files changed, 10 insertions(+), 28 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index a5d42e6..b302f83 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -26,7 +26,6 @@ from mdpo.po import (
     check_empty_msgstrs_in_filepaths,
     check_fuzzy_entries_in_filepaths,
     check_obsolete_entries_in_filepaths,
-    paths_or_globs_to_unique_pofiles,
 )
 
 
@@ -122,14 +121,11 @@ def run(args=frozenset()):
         if opts.check_saved_files_changed and mdpo2html._saved_files_changed:
             exitcode = 2
 
+        po_filepaths = [pofile.fpath for pofile in mdpo2html.pofiles]
+
         if opts.no_obsolete:
-            pofiles = paths_or_globs_to_unique_pofiles(
-                opts.pofiles,
-                opts.ignore or [],
-                po_encoding=opts.po_encoding,
-            )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -146,13 +142,8 @@ def run(args=frozenset()):
                 exitcode = 3
 
         if opts.no_fuzzy:
-            pofiles = paths_or_globs_to_unique_pofiles(
-                opts.pofiles,
-                opts.ignore or [],
-                po_encoding=opts.po_encoding,
-            )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -170,7 +161,7 @@ def run(args=frozenset()):
 
         if opts.no_empty_msgstr:
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4b271ea..0ae2ad5 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -29,7 +29,6 @@ from mdpo.po import (
     check_empty_msgstrs_in_filepaths,
     check_fuzzy_entries_in_filepaths,
     check_obsolete_entries_in_filepaths,
-    paths_or_globs_to_unique_pofiles,
 )
 from mdpo.po2md import Po2Md
 
@@ -146,14 +145,11 @@ def run(args=frozenset()):
         if opts.check_saved_files_changed and po2md._saved_files_changed:
             exitcode = 2
 
+        po_filepaths = [pofile.fpath for pofile in po2md.pofiles]
+
         if opts.no_obsolete:
-            pofiles = paths_or_globs_to_unique_pofiles(
-                opts.pofiles,
-                opts.ignore or [],
-                po_encoding=opts.po_encoding,
-            )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -170,13 +166,8 @@ def run(args=frozenset()):
                 exitcode = 3
 
         if opts.no_fuzzy:
-            pofiles = paths_or_globs_to_unique_pofiles(
-                opts.pofiles,
-                opts.ignore or [],
-                po_encoding=opts.po_encoding,
-            )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -194,7 +185,7 @@ def run(args=frozenset()):
 
         if opts.no_empty_msgstr:
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                po_filepaths,
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From 30939784cd997774ad33e0acde422a0aeebdc440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 22/40] fix: read PO files in the order in which are passed to
 po2md and mdpo2html CLIs

When a message is in several PO files the last translation is used, but a set
was used to store their paths, so which was the last changed between runs.
---
 src/mdpo/mdpo2html/__main__.py | 2 +-
 src/mdpo/po2md/__main__.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index b302f83..55dac31 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -92,7 +92,7 @@ def parse_options(args):
         opts.command_aliases,
     )
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    opts.pofiles = list(itertools.chain(*opts.pofiles))  # flatten
 
     return opts
 
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 0ae2ad5..8cfbe47 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -110,7 +110,7 @@ def parse_options(args):
     )
     opts.events = parse_event_argument(opts.events)
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    opts.pofiles = list(itertools.chain(*opts.pofiles))  # flatten
 
     return opts
 
-- 
2.43.0


From 567b26618292b0057549ea946dc9bc9744ca1644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 23/40] fix: mdpo2html KeyError with contexts that are not in
 the PO files

---
 src/mdpo/mdpo2html/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9afd363..1357937 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -261,9 +261,10 @@ class MdPo2HTML(HTMLParser):
             )
         else:
             if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt[
-                    self.current_msgctxt
-                ].get(_current_replacement)
+                replacement = self.translations_with_msgctxt.get(
+                    self.current_msgctxt,
+                    {},
+                ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
             if not replacement:
-- 
2.43.0


From 6ceaa4d3aacf2e39a2e4ce3610d48017e016f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 24/40] fix: mdpo2html precedence of enable-next-block over
 disable-next-block

md2po and po2md extract and translate the next block if both commands are
found before it, but mdpo2html was not translating it.
---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 1357937..5541774 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -248,8 +248,8 @@ class MdPo2HTML(HTMLParser):
 
         _current_replacement = html.unescape(_current_replacement)
 
-        if (self.disable and not self.enable_next_block) \
-                or self.disable_next_block:
+        if (self.disable or self.disable_next_block) \
+                and not self.enable_next_block:
             replacement = _current_replacement
 
             self.disabled_entries.append(
-- 
2.43.0


From a33015de812d52fff36c15f73f77c600ada53f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 25/40] fix: use the PO wrapping width and the md4c extensions
 passed to md2po2md

The wrapping width was never used and the extensions were used only in the
extraction, so the messages were not found translating.
---
 src/mdpo/md2po2md/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 39a4554..cf5378a 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -154,7 +154,6 @@ def markdown_to_pofile_to_markdown(
                 command_aliases=command_aliases,
                 debug=debug,
                 location=location,
-                wrapwidth=po_wrapwidth,
                 include_codeblocks=include_codeblocks,
                 _check_saved_files_changed=_check_saved_files_changed,
                 **(md2po_kwargs or {}),
@@ -164,6 +163,7 @@ def markdown_to_pofile_to_markdown(
                 po_filepath=po_filepath,
                 po_encoding=po_encoding,
                 md_encoding=md_encoding,
+                wrapwidth=po_wrapwidth,
             )
             if _check_saved_files_changed and _saved_files_changed is False:
                 _saved_files_changed = md2po._saved_files_changed
@@ -171,6 +171,7 @@ def markdown_to_pofile_to_markdown(
             # po2md
             po2md = Po2Md(
                 [po_filepath],
+                extensions=extensions,
                 command_aliases=command_aliases,
                 debug=debug,
                 po_encoding=po_encoding,
-- 
2.43.0


From 56243c5d9e866c9af7e57974b2cd4b0cfd6dce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 26/40] fix: entries with the context '0' compared equal to
 those without context

---
 src/mdpo/polib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/polib.py b/src/mdpo/polib.py
index cacaccb..4c28da5 100644
--- a/src/mdpo/polib.py
+++ b/src/mdpo/polib.py
@@ -38,14 +38,14 @@ def poentry__cmp__(
             return 1
         if occ1 < occ2:
             return -1
-    msgctxt = self.msgctxt or '0'
-    othermsgctxt = other.msgctxt or '0'
+    msgctxt = self.msgctxt or ''
+    othermsgctxt = other.msgctxt or ''
     if msgctxt > othermsgctxt:
         return 1
     if msgctxt < othermsgctxt:
         return -1
-    msgid_plural = self.msgid_plural or '0'
-    othermsgid_plural = other.msgid_plural or '0'
+    msgid_plural = self.msgid_plural or ''
+    othermsgid_plural = other.msgid_plural or ''
     if msgid_plural > othermsgid_plural:
         return 1
     if msgid_plural < othermsgid_plural:
-- 
2.43.0


From 4c16ef7dbbce062c8201f068db75ba60e3fa8827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 27/40] fix: empty msgstr check comparing the first line of the
 file with the last one

---
 src/mdpo/po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 3e79a37..8da2c77 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -288,7 +288,7 @@ def parse_empty_msgstr_from_content_lines(
     for i, line in enumerate(content_lines):
         if (
             line.startswith(b'msgstr ""') or line.startswith(b'#~ msgstr ""')
-        ) and not content_lines[i - 1].startswith(b'msgid ""'):
+        ) and not (i and content_lines[i - 1].startswith(b'msgid ""')):
             next_i = i + 1
             if next_i == n_lines or not content_lines[next_i].strip():
                 yield f'{location_prefix}{next_i}'
-- 
2.43.0


From 4fd21152315ab8a2cf7c5804ab4bc358812180e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 28/40] fix: wrap widths like ' nan' or '0.5' were accepted as
 unlimited or zero

---
 src/mdpo/text.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index d78c9c1..65c68e5 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -126,12 +126,11 @@ def parse_strint_0_inf(value):
     Args:
         value (str): Value to parse.
     """
-    if isinstance(value, str) and value.lower() == 'nan':
-        raise ValueError(f"invalid strict converting of '{value}' to number")
-
     num = float(value)
+    if num != num:  # NaN
+        raise ValueError(f"invalid strict converting of '{value}' to number")
     try:
-        return int(num) if num > 0 else INFINITE_WRAPWIDTH
+        return int(num) if num >= 1 else INFINITE_WRAPWIDTH
     except OverflowError:  # cannot convert float infinity to integer
         return INFINITE_WRAPWIDTH
 
-- 
2.43.0


From 9af9db3d08ae38fdb166204c4cfcf8dd1a6fa862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 29/40] fix: environment not restored if a variable is deleted
 during the run

---
 src/mdpo/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 6ba8f2e..b5a4d21 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -15,7 +15,7 @@ def environ(**env):
     finally:
         for key, value in original_env.items():
             if value is None:
-                del os.environ[key]
+                os.environ.pop(key, None)
             else:
                 os.environ[key] = value
 
-- 
2.43.0


From c54ac7c71a34852a5c230c3dec1faa5b6f0d4012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:27 +0000
Subject: [PATCH 30/40] fix: files matched by a glob were used as globs again
 by md2po

---
 src/mdpo/md2po/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index c381717..5196a67 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -141,14 +141,16 @@ class Md2Po:
     }
 
     def __init__(self, files_or_content, **kwargs):
-        is_glob, files_or_content = to_files_or_content(files_or_content)
+        is_glob, filepaths_or_content = to_files_or_content(files_or_content)
         if is_glob:
             self.filepaths = filter_paths(
-                flatten(glob.glob(globpath) for globpath in files_or_content),
+                # the files matched by a glob are not globs
+                filepaths_or_content if isinstance(files_or_content, str)
+                else flatten(map(glob.glob, filepaths_or_content)),
                 ignore_paths=kwargs.get('ignore', []),
             )
         else:
-            self.content = files_or_content
+            self.content = filepaths_or_content
 
         #: :py:class:`polib.POFile` PO file object representing
         #: the extracted content.
-- 
2.43.0


From e7881c37ef0ceec1854ac8bb754212775f31d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 31/40] fix: mdpo2html did not clear the disable and enable
 marks after a translation

---
 src/mdpo/mdpo2html/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5541774..e64ec54 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -449,6 +449,10 @@ class MdPo2HTML(HTMLParser):
 
         self.reset()
 
+        self.disable_next_block = False
+        self.disable = False
+        self.enable_next_block = False
+
         return self.output
 
 
-- 
2.43.0


From a051f66758bc7cdbae799badccd8832658679b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 32/40] fix: md2po2md used the paths of the matched files and
 of their PO files as globs

---
 src/mdpo/md2po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index cf5378a..feedf20 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -149,7 +149,7 @@ def markdown_to_pofile_to_markdown(
 
             # md2po
             md2po = Md2Po(
-                filepath,
+                glob.escape(filepath),
                 extensions=extensions,
                 command_aliases=command_aliases,
                 debug=debug,
@@ -170,7 +170,7 @@ def markdown_to_pofile_to_markdown(
 
             # po2md
             po2md = Po2Md(
-                [po_filepath],
+                [glob.escape(po_filepath)],
                 extensions=extensions,
                 command_aliases=command_aliases,
                 debug=debug,
-- 
2.43.0


From 906d0a2f83797b8dd6ea9a99a0f79f3524c5ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 33/40] fix: check mode compared decoded text, taking CRLF
 files as unchanged and failing on undecodable ones

---
 src/mdpo/io.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index b5a4d21..e42f863 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -1,6 +1,7 @@
 """mdpo I/O utilities."""
 
 import glob
+import locale
 import os
 from contextlib import contextmanager
 
@@ -118,18 +119,19 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
     Returns:
         bool: If the PO file content has been changed.
     """
-    if not os.path.isfile(filepath):
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
-        return True
-
-    with open(filepath, encoding=encoding) as f:
-        prev_content = f.read()
-    changed = prev_content != content
-    if changed:
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
-    return changed
+    if os.path.isfile(filepath):
+        with open(filepath, 'rb') as f:
+            prev_content = f.read()
+        # compare with what would be written, as reading text would change
+        # the newlines and could not be possible with this encoding
+        if prev_content == content.replace('\n', os.linesep).encode(
+            encoding or locale.getpreferredencoding(False),
+        ):
+            return False
+
+    with open(filepath, 'w', encoding=encoding) as f:
+        f.write(content)
+    return True
 
 
 def flatten(xss):
-- 
2.43.0


From 746bd92d6530850263e28f4779e33e697b527677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 34/40] fix: md2po extracted titles of disabled links and
 images in plain text mode

---
 src/mdpo/md2po/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 5196a67..874df75 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -703,7 +703,12 @@ class Md2Po:
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
                 details['title']:
-            self._save_msgid(attribute_text(details['title']))
+            title = attribute_text(details['title'])
+            if (not self.disable_next_block and not self.disable) or \
+                    self.enable_next_block:
+                self._save_msgid(title)
+            else:
+                self.disabled_entries.append(polib.POEntry(msgid=title))
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From 2d5148d21b5435840f058aa19d292445faea5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 35/40] fix: event handlers given as path::function failed
 because importlib.util was not imported

---
 src/mdpo/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 3f7ca7f..1da53ed 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -1,6 +1,6 @@
 """Custom events executed during the parsing process of an implementation."""
 
-import importlib
+import importlib.util
 import os
 import sys
 
-- 
2.43.0


From 3b8cc8c85c52e5b04ebb6de5fefae5e259334d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 36/40] fix: do not apply commands to the text of the list item
 before them

---
 src/mdpo/md2po/__init__.py | 3 +++
 src/mdpo/po2md/__init__.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 874df75..bfa31b9 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -647,6 +647,9 @@ class Md2Po:
             self._ols_deep += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
+            if self.current_msgid:
+                # commands are not applied to the previous text of the item
+                self._save_current_msgid()
             if not any([
                 self._quoteblocks_deep,
                 self._ols_deep,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 3964f98..7dd23fc 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -627,6 +627,10 @@ class Po2Md:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
+            if self.current_msgid:
+                # commands are not applied to the previous text of the item
+                self._save_current_msgid()
+                self._save_current_line()
             self._inside_htmlblock = [True, False]
 
     def leave_block(self, block, details):
-- 
2.43.0


From 59e825de01d34f8e713dcb84b1549c86a5b5a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 37/40] fix: do not join the text of a list item with the
 heading after it

---
 src/mdpo/md2po/__init__.py | 3 +++
 src/mdpo/po2md/__init__.py | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index bfa31b9..2ea230c 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -619,6 +619,9 @@ class Md2Po:
                 self._current_top_level_block_type = md4c.BlockType.UL.value
         elif block is md4c.BlockType.H:
             self._inside_hblock = True
+            if self.current_msgid:
+                # the previous text of the item is other message
+                self._save_current_msgid()
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7dd23fc..f958912 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -560,6 +560,13 @@ class Po2Md:
             if self.current_line:
                 self._save_current_line()
         elif block is md4c.BlockType.H:
+            if self.current_msgid:
+                # the previous text of the item is other message
+                self._save_current_msgid()
+                self._save_current_line()
+                if self._inside_quoteblock:
+                    self.current_line += '> '
+                self.current_line += '   ' * len(self._current_list_type)
             self._inside_hblock = True
             hash_signs = '#' * details['level']
             self.current_line += f'{hash_signs} '
-- 
2.43.0


From c98bd3bdc74ba558f58a832526691f1cac2eb456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 38/40] fix: do not use up the next block commands in HTML
 elements without text

---
 src/mdpo/mdpo2html/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index e64ec54..259cd54 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -248,7 +248,10 @@ class MdPo2HTML(HTMLParser):
 
         _current_replacement = html.unescape(_current_replacement)
 
-        if (self.disable or self.disable_next_block) \
+        is_message = bool(_current_replacement.strip())
+        if not is_message:
+            replacement = _current_replacement
+        elif (self.disable or self.disable_next_block) \
                 and not self.enable_next_block:
             replacement = _current_replacement
 
@@ -306,9 +309,12 @@ class MdPo2HTML(HTMLParser):
         self.output += html_template
         self.context = []
 
-        self.disable_next_block = False
-        self.enable_next_block = False
-        self.current_msgctxt = None
+        # do not use up the commands applied to the next block if there is
+        # not a message to translate
+        if is_message:
+            self.disable_next_block = False
+            self.enable_next_block = False
+            self.current_msgctxt = None
 
     def handle_starttag(self, tag, attrs):
 
-- 
2.43.0


From a2b974817bdcf0af723e52d5b264ec72b785fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 39/40] fix: do not mark as fuzzy the translations of link
 references used again

---
 src/mdpo/md2po/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 2ea230c..fa4037e 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -449,8 +449,7 @@ class Md2Po:
 
         if _equal_entry and _equal_entry.msgstr:
             entry.msgstr = _equal_entry.msgstr
-            if _equal_entry.fuzzy and not entry.fuzzy:
-                entry.flags.append('fuzzy')
+            entry.flags = ['fuzzy'] if _equal_entry.fuzzy else []
         if entry not in self.pofile:
             self.pofile.append(entry)
         self.found_entries.append(entry)
-- 
2.43.0


From 6fe09fea284d369a243dd44b188ee6848b4a5b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 40/40] fix: do not crash with malformed wikilinks left without
 being entered

---
 src/mdpo/md2po/__init__.py | 6 +++++-
 src/mdpo/po2md/__init__.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index fa4037e..e5e81fb 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -803,7 +803,11 @@ class Md2Po:
             return
 
         if not self._inside_uspan:
-            if span is md4c.SpanType.WIKILINK:
+            if (
+                span is md4c.SpanType.WIKILINK
+                # md4c leaves some malformed wikilinks without entering them
+                and self._current_wikilink_target is not None
+            ):
                 self.current_msgid += self._current_wikilink_target
                 self._current_wikilink_target = None
             if self._inside_aspan:  # span inside link text
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f958912..691bfb1 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -840,7 +840,11 @@ class Po2Md:
         ):
             return
 
-        if span is md4c.SpanType.WIKILINK:
+        if (
+            span is md4c.SpanType.WIKILINK
+            # md4c leaves some malformed wikilinks without entering them
+            and self._current_wikilink_target is not None
+        ):
             self.current_msgid += self._current_wikilink_target
             self._current_wikilink_target = None
 
-- 
2.43.0

