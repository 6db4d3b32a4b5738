From 96f1e0aa4a70532ec7ad661748066e3ef2080ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 01/28] fix: compare attribute selectors with the value of
 their token

---
 gopher_render/_selectors.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index de6e5fa..fbf0668 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -139,23 +139,29 @@ def _attribute_matches(tag, selector):
         if selector.operator == 'exists':
             return True
         attr_val = tag.attrs[selector.attrib]
+        # cssselect provides the value as a token
+        value = selector.value.value
         if selector.attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
+        if attr_val is None:
+            # An attribute without a value is equivalent to an empty one
+            attr_val = ''
         if selector.operator == '=':
-            return attr_val == selector.value
+            return attr_val == value
         if selector.operator == '~=':
             split_val = attr_val.split()
-            return selector.value in split_val
+            return value in split_val
         if selector.operator == '|=':
-            return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
+            return attr_val == value or attr_val.startswith("{}-".format(value))
+        # An empty value never matches as a prefix, suffix or substring
         if selector.operator == '^=':
-            return attr_val.startswith(selector.value)
+            return value != '' and attr_val.startswith(value)
         if selector.operator == '$=':
-            return attr_val.endswith(selector.value)
+            return value != '' and attr_val.endswith(value)
         if selector.operator == '*=':
-            return selector.value in attr_val
+            return value != '' and value in attr_val
     return False
 
 
-- 
2.43.0


From 7e892c59d1daf194edcdcaacbb42b3e136894481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 02/28] fix: nth-child arguments below one match nothing

---
 gopher_render/_selectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index fbf0668..db3c12a 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -190,7 +190,7 @@ def _nth_child_matches(tag, selector):
     # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
     n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
+    if n < 1 or n > len(tag_children):
         return False
     return tag_children[n - 1] is tag and _selector_matches(tag, selector.selector)
 
@@ -204,7 +204,7 @@ def _nth_last_child_matches(tag, selector):
     # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
     n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
+    if n < 1 or n > len(tag_children):
         return False
     return tag_children[-n] is tag and _selector_matches(tag, selector.selector)
 
-- 
2.43.0


From e228ffc23c3faeceff64ace805c03dd28f01d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 03/28] fix: accept a class attribute without a value

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 66a705d..7f3055e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -51,7 +51,8 @@ class TagParser(object):
 
     def __extract_classes(self):
         if 'class' in self.attrs:
-            self.attrs['class'] = self.attrs['class'].split()
+            # The value is None for an attribute without a value
+            self.attrs['class'] = (self.attrs['class'] or '').split()
             return self.attrs['class']
         return []
 
-- 
2.43.0


From 6044dc4c19c66e9fefad61c2bfc8345e468197a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 04/28] fix: render the footer for images when links are not
 placed there

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7f3055e..76d5076 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -604,7 +604,7 @@ class GopherHTMLParser(HTMLParser):
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
-        if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
+        if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
                 self._parsed.append(l.link_render(self._box))
-- 
2.43.0


From 0ca88f7c7954fa4d0c6ae1b50b1afec3e70da16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 05/28] fix: leave preformatted mode when the parser is reset

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 76d5076..2b22051 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -633,3 +633,4 @@ class GopherHTMLParser(HTMLParser):
         self.tree = DocumentParser()
         self._next_link_number = 1
         self._footer_pending_links = []
+        self._in_pre = False
-- 
2.43.0


From 61f4ccc793eae94cd65543be83d2d7c0cc634db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 06/28] fix: pass the configured settings to link renderers

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 2b22051..d1361ea 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -227,10 +227,10 @@ class LinkParser(TagParser):
             renderer = self.link_renderer
             renderer_settings = self.link_renderer_settings
 
-        render_inst = renderer(self, **render_context)
         if renderer_settings is not None:
             render_context['settings'] = renderer_settings
 
+        render_inst = renderer(self, **render_context)
         try:
             box = render_inst.box
         except AttributeError:
-- 
2.43.0


From 4f0457a792238f60f0adf3b95515f154bc709e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 07/28] fix: use the default port for gopher links without one

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index d1361ea..50e3199 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -166,7 +166,8 @@ class LinkParser(TagParser):
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
                 host=parsed.hostname,
-                port=parsed.port,
+                # 70 is the default port of the gopher scheme
+                port=70 if parsed.port is None else parsed.port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 4531797891959c8b29b88827b31e48f1122ab180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 08/28] fix: treat links with a malformed URL as web links

---
 gopher_render/_parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 50e3199..54696d0 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -152,7 +152,17 @@ class LinkParser(TagParser):
         Parse the href of the link and return a dictionary containing the
         elements of a gophermap link
         """
-        parsed = urlparse(self.href)
+        try:
+            parsed = urlparse(self.href)
+            port = parsed.port
+        except ValueError:
+            # Malformed URL: try it as a web link
+            return dict(
+                type='h',
+                selector="URL:{}".format(self.href),
+                host=self._context['gopher_host'],
+                port=self._context['gopher_port'],
+            )
         if parsed.scheme in ("http", "https"):
             return dict(
                 type='h',
@@ -167,7 +177,7 @@ class LinkParser(TagParser):
                 selector=parsed.path,
                 host=parsed.hostname,
                 # 70 is the default port of the gopher scheme
-                port=70 if parsed.port is None else parsed.port,
+                port=70 if port is None else port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 44244be443f8587f024420809e41f31c02f3e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 09/28] fix: honour the width argument of the parser

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 54696d0..a15b49e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -385,7 +385,7 @@ class GopherHTMLParser(HTMLParser):
         else:
             # TODO: Maybe a default top margin as well?
             self._box = Box(
-                width=67
+                width=width
             )
         self._output_format = output_format
         self._link_placement = link_placement
-- 
2.43.0


From cecadf100619cb8290d170dceb32843782209ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 10/28] fix: accept links placed after the block outside of any
 block

---
 gopher_render/_parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index a15b49e..991fe93 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -298,6 +298,7 @@ class DocumentParser(object):
     """
     def __init__(self):
         self.children = []
+        self._pending_links = []
 
     def tag_children(self):
         """
@@ -308,8 +309,17 @@ class DocumentParser(object):
     def append(self, tag):
         self.children.append(tag)
 
+    def add_pending_link(self, link):
+        self._pending_links.append(link)
+
+    def render_pending_links(self, box):
+        if len(self._pending_links) == 0:
+            return ""
+        return "\n" + "".join([l.link_render(box) for l in self._pending_links])
+
     def reset(self):
         self.children = []
+        self._pending_links = []
 
 
 RendererMapping = namedtuple('RendererMapping', 'selector, renderer')
@@ -614,6 +624,7 @@ class GopherHTMLParser(HTMLParser):
 
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
+        self._parsed.append(self.tree.render_pending_links(self._box))
 
         if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
-- 
2.43.0


From 265122b7b6e0b82e4b306b3cd63c6af023c0bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 11/28] fix: keep the image links waiting for the end of an
 inline link

---
 gopher_render/_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 991fe93..3049fd1 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -255,6 +255,15 @@ class LinkParser(TagParser):
                 c.render(box)
             )
 
+        # The content of an inline link is only rendered here, so the links
+        # waiting for the end of it would otherwise be lost.
+        if placement == "inline" and len(self._pending_links):
+            rendered_children.append('\n')
+            for l in self._pending_links:
+                rendered_children.append(
+                    l.link_render(box)
+                )
+
         return render_inst.render(
             "".join(rendered_children)
         )
-- 
2.43.0


From 65cd3464235fd5abe34971e97914289b9e9b2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 12/28] fix: apply the font setting of ANSI renderers

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ea2f0a..7ccaf53 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1319,7 +1319,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
 
         # Fonts
         if settings.font is not None:
-            enable.append(ANSI_ESCAPE_SEQUENCE.format(setting.font + ANSI_FONT_OFFSET))
+            enable.append(ANSI_ESCAPE_SEQUENCE.format(settings.font + ANSI_FONT_OFFSET))
             if not normalise:
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
-- 
2.43.0


From c65d9e1c9b05f5aef0438741ad373bf7f2d32222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 13/28] fix: number ordered list items by their position among
 the elements

---
 gopher_render/rendering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ccaf53..19abda8 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1092,7 +1092,8 @@ class OrderedListItemRenderer(ListItemRenderer):
         super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.children.index(tag) * step) + start_index
+        # Only elements count: the text between items is not an item.
+        return (tag.parent.tag_children().index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0


From 1722f735905b662e18f3a3fac8e322dc07fec781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 14/28] fix: apply the configured settings to ordered list
 items

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 19abda8..aa47987 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1077,11 +1077,12 @@ class OrderedListItemRenderer(ListItemRenderer):
         step=1,
     )
 
-    def __init__(self, tag, **kwargs):
+    def _adjust_settings(self):
+        super()._adjust_settings()
         # Determine the ordinal and prepare a template based on it before the
         # box gets generated, otherwise the width will be incorrect.
         self.order = self._get_ordinal(
-            tag,
+            self.tag,
             self.settings.start_index,
             self.settings.step,
         )
@@ -1089,7 +1090,6 @@ class OrderedListItemRenderer(ListItemRenderer):
             self.order,
             '{}'
         )
-        super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
         # Only elements count: the text between items is not an item.
-- 
2.43.0


From 21147b6bdc74524fafd8628235624aaa9e54e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 15/28] fix: inherit settings that equal those of an earlier
 base class

---
 gopher_render/rendering.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index aa47987..110ee31 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -303,8 +303,7 @@ class Renderer(metaclass=_RendererMeta):
         all_bases = []
         for klass in all_classes[::-1]:
             if hasattr(klass, 'settings'):
-                if klass.settings not in all_bases:
-                    all_bases.append(klass.settings)
+                all_bases.append(klass.settings)
         for base in all_bases:
             s.update(base)
 
-- 
2.43.0


From c1caac85488310928a82aa2acbc062bd947081f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 16/28] fix: accept colour 0 of the palette in ANSI renderers

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 110ee31..c9c9942 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1324,7 +1324,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
         # Colours
-        if settings.foreground_colour:
+        if settings.foreground_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
@@ -1335,7 +1335,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
             if not normalise:
                 # Default foreground
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(39))
-        if settings.background_colour:
+        if settings.background_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
-- 
2.43.0


From 54324cdada3372ca1e849b2a3d70f987406262cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 17/28] fix: ignore escape codes when padding and justifying

---
 gopher_render/rendering.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index c9c9942..2da1a9f 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -14,9 +14,9 @@ def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
     for line in lines[:-1]:
-        orig_len = len(line)
+        orig_len = textwrap._len(line)
         ls = line.lstrip()
-        indent = ' ' * (orig_len - len(ls))
+        indent = ' ' * (len(line) - len(ls))
         padding_spaces = width - orig_len
         rs = ls.rstrip()
         #padding_spaces = len(ls) - len(rs)
@@ -61,13 +61,16 @@ def center_justify(text, width, *args, **kwargs):
 def center(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
-    return text.center(width, *args, **kwargs)
+    # Escape codes do not take up any of the width
+    hidden = len(text) - textwrap._len(text)
+    return text.center(width + hidden, *args, **kwargs)
 
 
 def right(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
-    return text.rjust(width, *args, **kwargs)
+    hidden = len(text) - textwrap._len(text)
+    return text.rjust(width + hidden, *args, **kwargs)
 
 
 justifications = {
@@ -442,7 +445,7 @@ class BlockRenderer(Renderer):
                 borders[BoxSide.LEFT],
                 ' ' * box.padding[BoxSide.LEFT],
                 l,
-                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + len(l))),
+                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + textwrap._len(l))),
                 borders[BoxSide.RIGHT]
             ) for l in lines
         ]
@@ -510,7 +513,7 @@ class HeaderRenderer(BlockRenderer):
         )
         underline = ""
         if settings['underlined']:
-            underline_len = width if settings.underline_full else len(inner)
+            underline_len = width if settings.underline_full else textwrap._len(inner)
             underline = "{}".format(settings.underline_char * underline_len, width)
             return "{}\n{}".format(
                 center_func(inner, width),
-- 
2.43.0


From 2cb107d886043448d1ad1330d6103a4002a4ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 18/28] fix: keep nested boxes within the content of their
 parents

---
 gopher_render/rendering.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 2da1a9f..d2720db 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -183,10 +183,13 @@ class Box(object):
     def padded_width():
         doc = "The width of the element including the padding."
         def fget(self):
-            # This has to include the width of the local line template
-            # but exclude any added by further up the hierarchy.
+            # This has to include the local padding and the width of the
+            # local line template but exclude any added by further up the
+            # hierarchy.
             return self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
+                (self.total_padding[BoxSide.LEFT] - self.padding[BoxSide.LEFT]) +
+                (self.total_padding[BoxSide.RIGHT] - self.padding[BoxSide.RIGHT]) +
                 self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
                 (self.total_line_template_padding - self.line_template_padding)
             )
@@ -194,10 +197,10 @@ class Box(object):
     padded_width = property(**padded_width())
 
     def bordered_width():
-        doc = "The width of the element including the padding."
+        doc = "The width of the element including the padding and the border."
         def fget(self):
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT]
+            return self.padded_width + (
+                self.border[BoxSide.LEFT] + self.border[BoxSide.RIGHT]
             )
         return locals()
     bordered_width = property(**bordered_width())
-- 
2.43.0


From 022d207766315ba1c2e7cdc27135ad968b4fad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 19/28] fix: keep tabs and line breaks out of the fields of
 gophermap items

---
 gopher_render/rendering.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index d2720db..30113c8 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -94,6 +94,14 @@ def spread(text, spread_char, count):
     return s.join(text)
 
 
+def _gophermap_field(text):
+    """
+    Tabs separate the fields of a gophermap item, and line breaks end it, so
+    neither can be part of a field.
+    """
+    return text.replace('\t', ' ').replace('\r', ' ').replace('\n', ' ')
+
+
 class BoxSide:
     TOP = 0
     RIGHT = 1
@@ -754,9 +762,9 @@ class ExtractedLinkRenderer(BlockRenderer):
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-                description=super()._inner_render(description),
+                description=_gophermap_field(super()._inner_render(description)),
                 link_reference=link_ref,
-                selector=gopher_link['selector'],
+                selector=_gophermap_field(gopher_link['selector']),
                 type=gopher_link['type'],
                 host=gopher_link['host'],
                 port=gopher_link['port'],
@@ -865,9 +873,9 @@ class ExtractedImageLinkRenderer(BlockRenderer):
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-                description=super()._inner_render(description),
+                description=_gophermap_field(super()._inner_render(description)),
                 link_reference=link_ref,
-                selector=gopher_link['selector'],
+                selector=_gophermap_field(gopher_link['selector']),
                 type=gopher_link['type'],
                 host=gopher_link['host'],
                 port=gopher_link['port'],
-- 
2.43.0


From 2c1b387b53f274a88bddea9537d826f9d3d45370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 20/28] fix: do not cut through escape codes when breaking long
 words

---
 gopher_render/_textwrap.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 17a3cab..a69f997 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -33,6 +33,30 @@ class AnsiAwareTextWrapper(TextWrapper):
     the length of wrapped lines.
     """
 
+    def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
+        """
+        The base class would count escape sequences, and could cut through the
+        middle of one, which would make what is left of it visible.
+        """
+        chunk = reversed_chunks[-1]
+        if not self.break_long_words or _len(chunk) == len(chunk):
+            super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
+            return
+
+        space_left = 1 if width < 1 else width - cur_len
+        end = 0
+        while end < len(chunk):
+            sequence = _escape_regex.match(chunk, end)
+            if sequence:
+                end = sequence.end()
+            elif space_left > 0:
+                end += 1
+                space_left -= 1
+            else:
+                break
+        cur_line.append(chunk[:end])
+        reversed_chunks[-1] = chunk[end:]
+
     def _wrap_chunks(self, chunks):
         """
         An exact reimplementation of the method from the base class, but using
-- 
2.43.0


From ddb0198ae3268affdd62e28c3f4fe1d300957af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 21/28] fix: stay in preformatted mode until the pre element is
 closed

---
 gopher_render/_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 3049fd1..8fec477 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -553,8 +553,6 @@ class GopherHTMLParser(HTMLParser):
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-        if tag == 'pre':
-            self._in_pre = False
         if not top:
             print("Unsupported or mismatched end tag, ignoring: " + tag)
             return
@@ -567,6 +565,7 @@ class GopherHTMLParser(HTMLParser):
             # TODO: This will have to determine if links should be rendered
             # after the closed tag if link_placement is 'after_block'
             self._tag_stack.pop()
+            self._in_pre = any(t.tag == 'pre' for t in self._tag_stack)
 
     def handle_data(self, data):
         # Ignore any whitespace data on its own, unless in a pre tag
-- 
2.43.0


From 58f62356b8c3ed34a169b700e7fb0fc7e6f40bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 22/28] fix: show the alternative text in references to images

---
 gopher_render/_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 8fec477..4499cd6 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -125,6 +125,8 @@ class LinkParser(TagParser):
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
+            # References to images show it as well
+            self._context['title'] = self.title
             self.href = self.attrs.get('src', None)
             self.gopher_link = self._parse_href()
 
-- 
2.43.0


From c148a681032cf400095f43ca179ce89118e2ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 23/28] fix: keep margins, padding and borders out of gophermap
 items of images

---
 gopher_render/rendering.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 30113c8..a84ecb6 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -894,6 +894,31 @@ class ExtractedImageLinkRenderer(BlockRenderer):
                 **keywords
             )
 
+    def _outer_render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A left margin would not be acceptable for gophermap links, so only
+            # apply the top and bottom margins, if any.
+            box = self.box
+            return "{}{}{}".format(
+                '\n' * box.margin[BoxSide.TOP],
+                content,
+                '\n' * box.margin[BoxSide.BOTTOM],
+            )
+        return super()._outer_render(content)
+
+    def render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A border would not be acceptable for gophermap links, so skip
+            # that render step.
+            return self._outer_render(
+                self._inner_render(
+                    content
+                )
+            )
+        return super().render(content)
+
 
 # TODO: i tags should also have a renderer for icons
 class EmRenderer(InlineRenderer):
-- 
2.43.0


From b580789c2414e50579c53264a111ec4bcb1bd0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:54 +0000
Subject: [PATCH 24/28] fix: do not count whitespace around a description when
 cutting it

---
 gopher_render/rendering.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index a84ecb6..5768dde 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -752,8 +752,9 @@ class ExtractedLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
+        content = content.strip()
         trimming = len(content) > max_link_description
-        content = content.strip()[:max_link_description]
+        content = content[:max_link_description]
         if trimming:
             content = "{}...".format(content)
 
@@ -863,8 +864,9 @@ class ExtractedImageLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        trimming = len(title) > max_link_description
-        trimmed_title = title.strip()[:max_link_description]
+        trimmed_title = title.strip()
+        trimming = len(trimmed_title) > max_link_description
+        trimmed_title = trimmed_title[:max_link_description]
         if trimming:
             trimmed_title = "{}...".format(trimmed_title)
 
-- 
2.43.0


From d3f1995c7f7d217cad1ce0329ea3fbde54c37281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 25/28] fix: links waiting inside an extracted link are not
 listed again in its listing

---
 gopher_render/_parser.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 4499cd6..226d031 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -66,7 +66,7 @@ class TagParser(object):
         except TypeError:
             self.renderer = renderer
 
-    def render(self, box):
+    def render(self, box, list_links=True):
         render_context = dict(
             parent_box=box,
         )
@@ -86,15 +86,15 @@ class TagParser(object):
         rendered_children = []
         for c in self.children:
             rendered_children.append(
-                c.render(box)
+                c.render(box, list_links)
             )
 
-        if len(self._pending_links):
+        if list_links and len(self._pending_links):
             rendered_children.append('\n')
-        for l in self._pending_links:
-            rendered_children.append(
-                l.link_render(box)
-            )
+            for l in self._pending_links:
+                rendered_children.append(
+                    l.link_render(box)
+                )
 
         return render_inst.render(
             "".join(rendered_children)
@@ -214,13 +214,13 @@ class LinkParser(TagParser):
     # For links, this generally renders the contents of the tag in its
     # original location, unless 'link_placement' is 'inline', in which case
     # link rendering occurs in the original location.
-    def render(self, box):
+    def render(self, box, list_links=True):
         placement = self._context['image_placement'] if self.tag == 'img' else self._context['link_placement']
         if placement != 'inline':
-            return super().render(box)
-        return self.link_render(box)
+            return super().render(box, list_links)
+        return self.link_render(box, list_links)
 
-    def link_render(self, box):
+    def link_render(self, box, list_links=True):
         """
         Render an extracted link.
         """
@@ -251,15 +251,19 @@ class LinkParser(TagParser):
             # passed through.
             pass
 
+        # The content of an extracted link is also rendered in its original
+        # location, which is where the links waiting in it are listed. The
+        # content of an inline link is only rendered here, so its links would
+        # otherwise be lost.
+        list_links = list_links and placement == "inline"
+
         rendered_children = []
         for c in self.children:
             rendered_children.append(
-                c.render(box)
+                c.render(box, list_links)
             )
 
-        # The content of an inline link is only rendered here, so the links
-        # waiting for the end of it would otherwise be lost.
-        if placement == "inline" and len(self._pending_links):
+        if list_links and len(self._pending_links):
             rendered_children.append('\n')
             for l in self._pending_links:
                 rendered_children.append(
@@ -295,7 +299,7 @@ class DataParser(TagParser):
         self.data = data
         self.closed = True
 
-    def render(self, box):
+    def render(self, box, list_links=True):
         return self.data
 
 
-- 
2.43.0


From 47f1c438b60ba11d708219499dc66ee745ec2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 26/28] fix: wrapped lines could end or begin with whitespace

A long word of which nothing fits on the line leaves an empty chunk behind
the whitespace before it, so that dropping only the last chunk kept that
whitespace.
---
 gopher_render/_textwrap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index a69f997..73406bc 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -96,7 +96,7 @@ class AnsiAwareTextWrapper(TextWrapper):
 
             # First chunk on line is whitespace -- drop it, unless this
             # is the very beginning of the text (ie. no lines started yet).
-            if self.drop_whitespace and chunks[-1].strip() == '' and lines:
+            while self.drop_whitespace and lines and chunks and chunks[-1].strip() == '':
                 del chunks[-1]
 
             while chunks:
@@ -117,8 +117,9 @@ class AnsiAwareTextWrapper(TextWrapper):
                 self._handle_long_word(chunks, cur_line, cur_len, width)
                 cur_len = sum(map(_len, cur_line))
 
-            # If the last chunk on this line is all whitespace, drop it.
-            if self.drop_whitespace and cur_line and cur_line[-1].strip() == '':
+            # If the last chunk on this line is all whitespace, drop it. There
+            # can be an empty one after it, if nothing of a long word fitted.
+            while self.drop_whitespace and cur_line and cur_line[-1].strip() == '':
                 cur_len -= _len(cur_line[-1])
                 del cur_line[-1]
 
-- 
2.43.0


From 1c0e6fe561616cbcde4aa5df2958247dbbb486ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 27/28] fix: escape codes in the indent of wrapped lines took
 up width

---
 gopher_render/_textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 73406bc..cb6d016 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -92,7 +92,7 @@ class AnsiAwareTextWrapper(TextWrapper):
                 indent = self.initial_indent
 
             # Maximum width for this line.
-            width = self.width - len(indent)
+            width = self.width - _len(indent)
 
             # First chunk on line is whitespace -- drop it, unless this
             # is the very beginning of the text (ie. no lines started yet).
-- 
2.43.0


From 2aeced775c1a842251dd8482eca7e3bd1c51cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 28/28] fix: a long word left its first escape codes on a line
 on which nothing of it fitted

---
 gopher_render/_textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index cb6d016..1646d2d 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -47,7 +47,7 @@ class AnsiAwareTextWrapper(TextWrapper):
         end = 0
         while end < len(chunk):
             sequence = _escape_regex.match(chunk, end)
-            if sequence:
+            if sequence and (end or space_left > 0):
                 end = sequence.end()
             elif space_left > 0:
                 end += 1
-- 
2.43.0

