From a9b805aeabd911b82a3f463df39b54f0157ccfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:36 +0000
Subject: [PATCH 01/54] fix: decode entities as CommonMark says, not as HTML
 error recovery does

html.unescape() accepts prefixes of names (&copyx;), maps the C1 range to
Windows-1252 and drops control characters and noncharacters. The last of
these left empty text nodes behind, on which a following newline raised
IndexError.
---
 commonmark/common.py  | 27 +++++++++++++++++----------
 commonmark/inlines.py | 17 +++--------------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 05b52a1..85b6bda 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -8,16 +8,12 @@ try:
 except ImportError:
     from urllib import quote
 
-if sys.version_info >= (3, 0):
-    if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
-    else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
+from builtins import chr
+
+if sys.version_info >= (3, 4):
+    from html.entities import html5
 else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
+    from commonmark.entitytrans import _html5 as html5
 
 ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
 
@@ -47,11 +43,22 @@ XMLSPECIAL = '[&<>"]'
 reXmlSpecial = re.compile(XMLSPECIAL)
 
 
+def unescape_entity(s):
+    """Decode one entity or numeric character reference (as matched by
+    ENTITY). Anything that is not a known entity is returned as it is."""
+    if s[1] != '#':
+        return html5.get(s[1:], s)
+    num = int(s[3:-1], 16) if s[2] in 'xX' else int(s[2:-1])
+    if num == 0 or 0xD800 <= num <= 0xDFFF or num > 0x10FFFF:
+        return '\uFFFD'
+    return chr(num)
+
+
 def unescape_char(s):
     if s[0] == '\\':
         return s[1]
     else:
-        return HTMLunescape(s)
+        return unescape_entity(s)
 
 
 def unescape_string(s):
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0aa50d3..0958e18 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,23 +1,12 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
-import sys
 from commonmark import common
-from commonmark.common import normalize_uri, unescape_string
+from commonmark.common import (
+    normalize_uri, unescape_entity, unescape_string)
 from commonmark.node import Node
 from commonmark.normalize_reference import normalize_reference
 
-if sys.version_info >= (3, 0):
-    if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
-    else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
-else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
-
 # Some regexps used in inline parser:
 
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
@@ -708,7 +697,7 @@ class InlineParser(object):
         """Attempt to parse an entity."""
         m = self.match(reEntityHere)
         if m:
-            block.append_child(text(HTMLunescape(m)))
+            block.append_child(text(unescape_entity(m)))
             return True
         else:
             return False
-- 
2.43.0


From 3b4e17846146c8792d8cb2a20d7aa3fd596d1190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:44 +0000
Subject: [PATCH 02/54] fix: do not leave an empty paragraph when a rule
 follows link reference definitions

---
 commonmark/blocks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index aeec21d..37e3a28 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -406,7 +406,10 @@ class Paragraph(Block):
                 break
             block.string_content = block.string_content[pos:]
             has_reference_defs = True
-        if has_reference_defs and is_blank(block.string_content):
+        # (nothing is left either if a would-be setext underline has already
+        # stripped all the definitions)
+        if not block.string_content or \
+           (has_reference_defs and is_blank(block.string_content)):
             block.unlink()
 
     @staticmethod
-- 
2.43.0


From 56d3a40e5ebf90ad68bf674b1db62499ce34febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:56 +0000
Subject: [PATCH 03/54] fix: discard the title of a link reference definition
 that has more text after it

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0958e18..136dc70 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -789,7 +789,7 @@ class InlineParser(object):
                 # the potential title we found is not at the line end,
                 # but it could still be a legal link reference if we
                 # discard the title
-                title == ''
+                title = ''
                 # rewind before spaces
                 self.pos = beforetitle
                 # and instead check if the link URL is at the line end
-- 
2.43.0


From 2bc68f60ddfd184752b297d5f72ef63440d8e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:09 +0000
Subject: [PATCH 04/54] fix: rewind after a failed inline link tail before
 trying a reference

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 136dc70..3ad36cf 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -613,7 +613,7 @@ class InlineParser(object):
                 if self.spnl() and self.peek() == ')':
                     self.pos += 1
                     matched = True
-            else:
+            if not matched:
                 self.pos = savepos
 
         if not matched:
-- 
2.43.0


From 75bfcae5ae201a630c5980c80796337f8118732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:20 +0000
Subject: [PATCH 05/54] fix: do not let an escaped delimiter close a link title

The alternatives for an escaped character overlapped, so "foo\" was taken
for a complete title, and matching took exponential time on long runs of
backslashes.
---
 commonmark/inlines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 3ad36cf..1f480e8 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -10,6 +10,7 @@ from commonmark.normalize_reference import normalize_reference
 # Some regexps used in inline parser:
 
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
+LONE_BACKSLASH = '\\\\(?!' + common.ESCAPABLE + ')'
 
 rePunctuation = re.compile(
     r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
@@ -40,11 +41,11 @@ rePunctuation = re.compile(
 )
 
 reLinkTitle = re.compile(
-    '^(?:"(' + ESCAPED_CHAR + '|[^"\\x00])*"' +
+    '^(?:"(' + ESCAPED_CHAR + '|' + LONE_BACKSLASH + '|[^"\\\\\\x00])*"' +
     '|' +
-    '\'(' + ESCAPED_CHAR + '|[^\'\\x00])*\'' +
+    '\'(' + ESCAPED_CHAR + '|' + LONE_BACKSLASH + '|[^\'\\\\\\x00])*\'' +
     '|' +
-    '\\((' + ESCAPED_CHAR + '|[^()\\x00])*\\))')
+    '\\((' + ESCAPED_CHAR + '|' + LONE_BACKSLASH + '|[^()\\\\\\x00])*\\))')
 reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-- 
2.43.0


From e61a30d5000c6cc6ecac89b9216a2565737eb8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:31 +0000
Subject: [PATCH 06/54] fix: start an HTML block on every heading tag, not only
 h1

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 37e3a28..6ceadc4 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -18,7 +18,7 @@ reHtmlBlockOpen = [
     re.compile(
         r'^<[/]?(?:address|article|aside|base|basefont|blockquote|body|'
         r'caption|center|col|colgroup|dd|details|dialog|dir|div|dl|dt|'
-        r'fieldset|figcaption|figure|footer|form|frame|frameset|h1|head|'
+        r'fieldset|figcaption|figure|footer|form|frame|frameset|h[1-6]|head|'
         r'header|hr|html|iframe|legend|li|link|main|menu|menuitem|'
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
-- 
2.43.0


From 93c5fe14673fb89ac39a89ad2b6e04f631abab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:41 +0000
Subject: [PATCH 07/54] fix: keep a lower bound for emphasis openers per kind
 of closer

---
 commonmark/inlines.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 1f480e8..1f4358a 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -347,13 +347,7 @@ class InlineParser(object):
             top['previous'] = bottom
 
     def processEmphasis(self, stack_bottom):
-        openers_bottom = {
-            '_': stack_bottom,
-            '*': stack_bottom,
-            "'": stack_bottom,
-            '"': stack_bottom,
-        }
-        odd_match = False
+        openers_bottom = {}
         use_delims = 0
 
         # Find first closer above stack_bottom
@@ -371,8 +365,12 @@ class InlineParser(object):
                 opener = closer.get('previous')
                 opener_found = False
                 closercc = closer.get('cc')
+                # whether an opener matches depends on all of these
+                bottom_key = (closercc, bool(closer.get('can_open')),
+                              closer['origdelims'] % 3)
+                bottom = openers_bottom.get(bottom_key, stack_bottom)
                 while (opener is not None and opener != stack_bottom and
-                       opener != openers_bottom[closercc]):
+                       opener != bottom):
                     odd_match = (closer.get('can_open') or
                                  opener.get('can_close')) and \
                                  closer['origdelims'] % 3 != 0 and \
@@ -449,13 +447,9 @@ class InlineParser(object):
                         opener['node'].literal = '\u201C'
                     closer = closer['next']
 
-                if not opener_found and not odd_match:
+                if not opener_found:
                     # Set lower bound for future searches for openers:
-                    # We don't do this with odd_match because a **
-                    # that doesn't match an earlier * might turn into
-                    # an opener, and the * might be matched by something
-                    # else.
-                    openers_bottom[closercc] = old_closer['previous']
+                    openers_bottom[bottom_key] = old_closer['previous']
                     if not old_closer['can_open']:
                         # We can remove a closer that can't be an opener,
                         # once we've seen there's no matching opener:
-- 
2.43.0


From 362da3198a479e681547ae0947f5f870ec2ed046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:50 +0000
Subject: [PATCH 08/54] fix: a final carriage return does not start another
 line

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 6ceadc4..dca1bdc 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -894,7 +894,7 @@ class Parser(object):
         self.current_line = ''
         lines = re.split(reLineEnding, my_input)
         length = len(lines)
-        if len(my_input) > 0 and my_input[-1] == '\n':
+        if len(my_input) > 0 and my_input[-1] in '\r\n':
             # ignore last blank line created by final newline
             length -= 1
         for i in range(length):
-- 
2.43.0


From 175da6d688860e3581602966f9339f2023969419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:02 +0000
Subject: [PATCH 09/54] fix: allow a backslash at the end of a line in a link
 label

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 1f4358a..873c93c 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -68,7 +68,7 @@ reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^ *(?:\n|$)')
-reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]')
+reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]', re.DOTALL)
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
 
-- 
2.43.0


From d0325f212e7680ae98a7b75904bd6d34146dc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:13 +0000
Subject: [PATCH 10/54] fix: let an inline processing instruction span lines

---
 commonmark/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 85b6bda..c1a659f 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -29,7 +29,7 @@ ATTRIBUTE = "(?:" + "\\s+" + ATTRIBUTENAME + ATTRIBUTEVALUESPEC + "?)"
 OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + "\\s*/?>"
 CLOSETAG = "</" + TAGNAME + "\\s*[>]"
 HTMLCOMMENT = '<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->'
-PROCESSINGINSTRUCTION = "[<][?].*?[?][>]"
+PROCESSINGINSTRUCTION = "[<][?][\\s\\S]*?[?][>]"
 DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
-- 
2.43.0


From dbee58de42a941fe4da8de15cb1bd46ef986ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:25 +0000
Subject: [PATCH 11/54] fix: drop trailing blank lines with tabs from indented
 code

---
 commonmark/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index dca1bdc..8062004 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -356,7 +356,8 @@ class CodeBlock(Block):
             block.literal = rest
         else:
             # indented
-            block.literal = re.sub(r'(\n *)+$', '\n', block.string_content)
+            block.literal = re.sub(
+                r'(\n[ \t]*)+$', '\n', block.string_content)
 
         block.string_content = None
 
-- 
2.43.0


From 26409c2ed99e40a3f408db9e3f5bf04329f29376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:35 +0000
Subject: [PATCH 12/54] fix: only ASCII digits make an ordered list marker

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 8062004..c025ac1 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -41,7 +41,7 @@ reThematicBreak = re.compile(
 reMaybeSpecial = re.compile(r'^[#`~*+_=<>0-9-]')
 reNonSpace = re.compile(r'[^ \t\f\v\r\n]')
 reBulletListMarker = re.compile(r'^[*+-]')
-reOrderedListMarker = re.compile(r'^(\d{1,9})([.)])')
+reOrderedListMarker = re.compile(r'^([0-9]{1,9})([.)])')
 reATXHeadingMarker = re.compile(r'^#{1,6}(?:[ \t]+|$)')
 reCodeFence = re.compile(r'^`{3,}(?!.*`)|^~{3,}')
 reClosingCodeFence = re.compile(r'^(?:`{3,}|~{3,})(?= *$)')
-- 
2.43.0


From fc2c3b215ea4977ac5e3df54bfcd16f77171aacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:44 +0000
Subject: [PATCH 13/54] fix: a list that starts with 01 starts with 1 and can
 interrupt a paragraph

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index c025ac1..0daa816 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -102,7 +102,7 @@ def parse_list_marker(parser, container):
     if m:
         data['type'] = 'bullet'
         data['bullet_char'] = m.group()[0]
-    elif m2 and (container.t != 'paragraph' or m2.group(1) == '1'):
+    elif m2 and (container.t != 'paragraph' or int(m2.group(1)) == 1):
         m = m2
         data['type'] = 'ordered'
         data['start'] = int(m.group(1))
-- 
2.43.0


From 01b5def90a1cb2199e848cc3bb9a7d3371b7572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:52 +0000
Subject: [PATCH 14/54] fix: reject a link destination with unbalanced
 parentheses

---
 commonmark/inlines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 873c93c..4b598ea 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -507,6 +507,8 @@ class InlineParser(object):
                     self.pos += 1
             if self.pos == savepos and c != ')':
                 return None
+            if openparens != 0:
+                return None
             res = self.subject[savepos:self.pos]
             return normalize_uri(unescape_string(res))
         else:
-- 
2.43.0


From 222888bee9f66c7c9636685ce2e3ea239d7355e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:04 +0000
Subject: [PATCH 15/54] fix: a bare link destination cannot hold control
 characters

---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 4b598ea..4a2e141 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -63,6 +63,7 @@ reAutolink = re.compile(
     re.IGNORECASE)
 reSpnl = re.compile(r'^ *(?:\n *)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
+reSpaceOrControlChar = re.compile(r'^[\x00-\x20\x7f]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
@@ -501,7 +502,7 @@ class InlineParser(object):
                     else:
                         self.pos += 1
                         openparens -= 1
-                elif re.search(reWhitespaceChar, c):
+                elif re.search(reSpaceOrControlChar, c):
                     break
                 else:
                     self.pos += 1
-- 
2.43.0


From 394c94648fa644e259c5bc8af10e2a58c531cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:15 +0000
Subject: [PATCH 16/54] fix: escape raw HTML in image descriptions

---
 commonmark/render/html.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index b4ea345..6a27ca9 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -184,10 +184,12 @@ class HtmlRenderer(Renderer):
             self.cr()
 
     def html_inline(self, node, entering):
+        # inside an image description we are in an attribute value
+        write = self.out if self.disable_tags > 0 else self.lit
         if self.options.get('safe'):
-            self.lit('<!-- raw HTML omitted -->')
+            write('<!-- raw HTML omitted -->')
         else:
-            self.lit(node.literal)
+            write(node.literal)
 
     def html_block(self, node, entering):
         self.cr()
-- 
2.43.0


From 5ccbca0af2195ed75f65ad91fedd285431ecf976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:22 +0000
Subject: [PATCH 17/54] fix: accept tabs as whitespace in links and link
 reference definitions

---
 commonmark/inlines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 4a2e141..bff27e3 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -61,14 +61,14 @@ reEmailAutolink = re.compile(
 reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
     re.IGNORECASE)
-reSpnl = re.compile(r'^ *(?:\n *)?')
+reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reSpaceOrControlChar = re.compile(r'^[\x00-\x20\x7f]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
-reSpaceAtEndOfLine = re.compile(r'^ *(?:\n|$)')
+reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
 reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]', re.DOTALL)
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
-- 
2.43.0


From 0b89fab8e7d3c9e7b61593912b9505fb87ef6d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:33 +0000
Subject: [PATCH 18/54] fix: keep a space written as a character reference
 before a line ending

---
 commonmark/inlines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index bff27e3..5e41394 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -725,7 +725,9 @@ class InlineParser(object):
         # assume we're at a \n
         self.pos += 1
         lastc = block.last_child
-        if lastc and lastc.t == 'text' and lastc.literal[-1] == ' ':
+        # (a space from a character reference is not one of the source)
+        if lastc and lastc.t == 'text' and \
+           self.subject[self.pos - 2:self.pos - 1] == ' ':
             linebreak = len(lastc.literal) >= 2 and lastc.literal[-2] == ' '
             lastc.literal = re.sub(reFinalSpace, '', lastc.literal)
             if linebreak:
-- 
2.43.0


From d1d3ca6a5b285b1a17a49abf032acfaacda5339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:43 +0000
Subject: [PATCH 19/54] fix: do not share options between parsers and renderers

---
 commonmark/blocks.py      | 2 +-
 commonmark/inlines.py     | 2 +-
 commonmark/render/html.py | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 0daa816..59653f8 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -610,7 +610,7 @@ class Parser(object):
         self.refmap = {}
         self.last_line_length = 0
         self.inline_parser = InlineParser(options)
-        self.options = options
+        self.options = dict(options)
 
     def add_line(self):
         """ Add a line to the block at the tip.  We assume the tip
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 5e41394..b4292dc 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -114,7 +114,7 @@ class InlineParser(object):
         self.brackets = None
         self.pos = 0
         self.refmap = {}
-        self.options = options
+        self.options = dict(options)
 
     def match(self, regexString):
         """
diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 6a27ca9..5f66361 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -20,6 +20,9 @@ def potentially_unsafe(url):
 
 class HtmlRenderer(Renderer):
     def __init__(self, options={}):
+        # a copy: neither the default nor the caller's dict may change
+        options = dict(options)
+
         #  by default, soft breaks are rendered as newlines in HTML
         options['softbreak'] = options.get('softbreak') or '\n'
         # set to "<br />" to make them hard breaks
-- 
2.43.0


From 50c7038168e6544122ad723df7dd625d41063269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:34 +0000
Subject: [PATCH 20/54] fix: strip only ASCII whitespace from paragraphs,
 headings and info strings

---
 commonmark/blocks.py  | 2 +-
 commonmark/inlines.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 59653f8..4054950 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -352,7 +352,7 @@ class CodeBlock(Block):
             newline_pos = content.index('\n')
             first_line = content[0:newline_pos]
             rest = content[newline_pos + 1:]
-            block.info = unescape_string(first_line.strip())
+            block.info = unescape_string(first_line.strip(' \t\x0b\x0c'))
             block.literal = rest
         else:
             # indented
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index b4292dc..cca2cd1 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -9,6 +9,9 @@ from commonmark.normalize_reference import normalize_reference
 
 # Some regexps used in inline parser:
 
+# what the spec calls whitespace characters
+WHITESPACE = ' \t\n\x0b\x0c\r'
+
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
 LONE_BACKSLASH = '\\\\(?!' + common.ESCAPABLE + ')'
 
@@ -858,7 +861,7 @@ class InlineParser(object):
         Parse string content in block into inline children,
         using refmap to resolve references.
         """
-        self.subject = block.string_content.strip()
+        self.subject = block.string_content.strip(WHITESPACE)
         self.pos = 0
         self.delimiters = None
         self.brackets = None
-- 
2.43.0


From 16ecdd9f3db34ae7a2f2640118545cf48a6c5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:41 +0000
Subject: [PATCH 21/54] fix: classify Unicode punctuation and whitespace as the
 spec defines them

The table of punctuation wrote characters outside the BMP as surrogate
pairs, which Python 3 never matches, and \s takes in control characters.
---
 commonmark/inlines.py | 53 +++++++++++++------------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index cca2cd1..1fa1e60 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
+import unicodedata
 from commonmark import common
 from commonmark.common import (
     normalize_uri, unescape_entity, unescape_string)
@@ -15,34 +16,6 @@ WHITESPACE = ' \t\n\x0b\x0c\r'
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
 LONE_BACKSLASH = '\\\\(?!' + common.ESCAPABLE + ')'
 
-rePunctuation = re.compile(
-    r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
-    r'\xBF\u037E\u0387\u055A-\u055F\u0589\u058A\u05BE\u05C0\u05C3'
-    r'\u05C6\u05F3\u05F4\u0609\u060A\u060C\u060D\u061B\u061E\u061F'
-    r'\u066A-\u066D\u06D4\u0700-\u070D\u07F7-\u07F9\u0830-\u083E'
-    r'\u085E\u0964\u0965\u0970\u0AF0\u0DF4\u0E4F\u0E5A\u0E5B\u0F04-\u0F12'
-    r'\u0F14\u0F3A-\u0F3D\u0F85\u0FD0-\u0FD4\u0FD9\u0FDA\u104A-\u104F\u10FB'
-    r'\u1360-\u1368\u1400\u166D\u166E\u169B\u169C\u16EB-\u16ED\u1735\u1736'
-    r'\u17D4-\u17D6\u17D8-\u17DA\u1800-\u180A\u1944\u1945\u1A1E\u1A1F\u1AA0-'
-    r'\u1AA6\u1AA8-\u1AAD\u1B5A-\u1B60\u1BFC-\u1BFF\u1C3B-\u1C3F\u1C7E\u1C7F'
-    r'\u1CC0-\u1CC7\u1CD3\u2010-\u2027\u2030-\u2043\u2045-\u2051\u2053-\u205E'
-    r'\u207D\u207E\u208D\u208E\u2308-\u230B\u2329\u232A\u2768-\u2775\u27C5'
-    r'\u27C6\u27E6-\u27EF\u2983-\u2998\u29D8-\u29DB\u29FC\u29FD\u2CF9-\u2CFC'
-    r'\u2CFE\u2CFF\u2D70\u2E00-\u2E2E\u2E30-\u2E42\u3001-\u3003\u3008-\u3011'
-    r'\u3014-\u301F\u3030\u303D\u30A0\u30FB\uA4FE\uA4FF\uA60D-\uA60F\uA673'
-    r'\uA67E\uA6F2-\uA6F7\uA874-\uA877\uA8CE\uA8CF\uA8F8-\uA8FA\uA8FC\uA92E'
-    r'\uA92F\uA95F\uA9C1-\uA9CD\uA9DE\uA9DF\uAA5C-\uAA5F\uAADE\uAADF\uAAF0'
-    r'\uAAF1\uABEB\uFD3E\uFD3F\uFE10-\uFE19\uFE30-\uFE52\uFE54-\uFE61\uFE63'
-    r'\uFE68\uFE6A\uFE6B\uFF01-\uFF03\uFF05-\uFF0A\uFF0C-\uFF0F\uFF1A\uFF1B'
-    r'\uFF1F\uFF20\uFF3B-\uFF3D\uFF3F\uFF5B\uFF5D\uFF5F-\uFF65]|\uD800[\uDD00-'
-    r'\uDD02\uDF9F\uDFD0]|\uD801\uDD6F|\uD802[\uDC57\uDD1F\uDD3F\uDE50-\uDE58'
-    r'\uDE7F\uDEF0-\uDEF6\uDF39-\uDF3F\uDF99-\uDF9C]|\uD804[\uDC47-\uDC4D'
-    r'\uDCBB\uDCBC\uDCBE-\uDCC1\uDD40-\uDD43\uDD74\uDD75\uDDC5-\uDDC9\uDDCD'
-    r'\uDDDB\uDDDD-\uDDDF\uDE38-\uDE3D\uDEA9]|\uD805[\uDCC6\uDDC1-\uDDD7'
-    r'\uDE41-\uDE43\uDF3C-\uDF3E]|\uD809[\uDC70-\uDC74]|\uD81A[\uDE6E\uDE6F'
-    r'\uDEF5\uDF37-\uDF3B\uDF44]|\uD82F\uDC9F|\uD836[\uDE87-\uDE8B]'
-)
-
 reLinkTitle = re.compile(
     '^(?:"(' + ESCAPED_CHAR + '|' + LONE_BACKSLASH + '|[^"\\\\\\x00])*"' +
     '|' +
@@ -68,7 +41,10 @@ reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reSpaceOrControlChar = re.compile(r'^[\x00-\x20\x7f]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
-reUnicodeWhitespaceChar = re.compile(r'^\s')
+# Not \s, which also takes in control characters and line separators
+reUnicodeWhitespaceChar = re.compile(
+    '^[ \t\n\x0c\r\xa0\u1680\u2000-\u200a\u202f\u205f\u3000]')
+reAsciiPunctuation = re.compile(r'^[!-/:-@\[-`{-~]')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
@@ -77,6 +53,13 @@ reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]', re.DOTALL)
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
 
 
+def is_punctuation(c):
+    """Returns True for an ASCII punctuation character or anything in a
+    Unicode P category."""
+    return re.search(reAsciiPunctuation, c) is not None or \
+        unicodedata.category(c).startswith('P')
+
+
 def text(s):
     node = Node('text', None)
     node.literal = s
@@ -266,14 +249,10 @@ class InlineParser(object):
         if c_after is None:
             c_after = '\n'
 
-        # Python 2 doesn't recognize '\xa0' as whitespace
-        after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after) or \
-            c_after == '\xa0'
-        after_is_punctuation = re.search(rePunctuation, c_after)
-        before_is_whitespace = re.search(
-            reUnicodeWhitespaceChar, c_before) or \
-            c_before == '\xa0'
-        before_is_punctuation = re.search(rePunctuation, c_before)
+        after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after)
+        after_is_punctuation = is_punctuation(c_after)
+        before_is_whitespace = re.search(reUnicodeWhitespaceChar, c_before)
+        before_is_punctuation = is_punctuation(c_before)
 
         left_flanking = not after_is_whitespace and \
             (not after_is_punctuation or
-- 
2.43.0


From e9df903ea0cecd255109d77ef7eaef57337c2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:52 +0000
Subject: [PATCH 22/54] fix: recognise HTML by ASCII letters and ASCII
 whitespace only

---
 commonmark/blocks.py | 8 ++++----
 commonmark/common.py | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 4054950..8b642f2 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -10,7 +10,7 @@ from commonmark.node import Node
 CODE_INDENT = 4
 reHtmlBlockOpen = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'^<(?:script|pre|style)(?:\s|>|$)', re.IGNORECASE),
+    re.compile(r'^<(?:script|pre|style)(?:\s|>|$)', re.IGNORECASE | common.ASCII),
     re.compile(r'^<!--'),
     re.compile(r'^<[?]'),
     re.compile(r'^<![A-Z]'),
@@ -23,14 +23,14 @@ reHtmlBlockOpen = [
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
         r'(?:\s|[/]?[>]|$)',
-        re.IGNORECASE),
+        re.IGNORECASE | common.ASCII),
     re.compile(
         '^(?:' + common.OPENTAG + '|' + common.CLOSETAG + ')\\s*$',
-        re.IGNORECASE),
+        re.IGNORECASE | common.ASCII),
 ]
 reHtmlBlockClose = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'<\/(?:script|pre|style)>', re.IGNORECASE),
+    re.compile(r'<\/(?:script|pre|style)>', re.IGNORECASE | common.ASCII),
     re.compile(r'-->'),
     re.compile(r'\?>'),
     re.compile(r'>'),
diff --git a/commonmark/common.py b/commonmark/common.py
index c1a659f..753b098 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -34,7 +34,9 @@ DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
     PROCESSINGINSTRUCTION + "|" + DECLARATION + "|" + CDATA + ")"
-reHtmlTag = re.compile('^' + HTMLTAG, re.IGNORECASE)
+# On Python 3 \s and IGNORECASE go beyond ASCII by default
+ASCII = getattr(re, 'ASCII', 0)
+reHtmlTag = re.compile('^' + HTMLTAG, re.IGNORECASE | ASCII)
 reBackslashOrAmp = re.compile(r'[\\&]')
 ESCAPABLE = '[!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-]'
 reEntityOrEscapedChar = re.compile(
-- 
2.43.0


From b62b14ded976946169bcc672823dbf4bea43fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:59 +0000
Subject: [PATCH 23/54] fix: a blank line inside a block quote does not make
 the list around it loose

---
 commonmark/blocks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 8b642f2..528b184 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -10,7 +10,8 @@ from commonmark.node import Node
 CODE_INDENT = 4
 reHtmlBlockOpen = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'^<(?:script|pre|style)(?:\s|>|$)', re.IGNORECASE | common.ASCII),
+    re.compile(
+        r'^<(?:script|pre|style)(?:\s|>|$)', re.IGNORECASE | common.ASCII),
     re.compile(r'^<!--'),
     re.compile(r'^<[?]'),
     re.compile(r'^<![A-Z]'),
@@ -831,6 +832,9 @@ class Parser(object):
             # propagate last_line_blank up through parents:
             cont = container
             while cont:
+                if cont.t == 'block_quote':
+                    # for what is around the quote, the line isn't blank
+                    last_line_blank = False
                 cont.last_line_blank = last_line_blank
                 cont = cont.parent
 
-- 
2.43.0


From 8d89680eec419ab598b272b88439dc18ecb86e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:52 +0000
Subject: [PATCH 24/54] fix: a complete tag alone on a line cannot interrupt a
 paragraph lazily either

---
 commonmark/blocks.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 528b184..3f80baf 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -506,7 +506,7 @@ class BlockStarts(object):
 
             for block_type in range(1, 8):
                 if re.search(reHtmlBlockOpen[block_type], s) and \
-                   (block_type < 7 or container.t != 'paragraph'):
+                   (block_type < 7 or not parser.in_paragraph(container)):
                     parser.close_unmatched_blocks()
                     # We don't adjust parser.offset;
                     # spaces are part of the HTML block:
@@ -638,6 +638,12 @@ class Parser(object):
         self.tip = new_block
         return new_block
 
+    def in_paragraph(self, container):
+        """Returns True if the line would otherwise continue a paragraph,
+        be it lazily."""
+        return container.t == 'paragraph' or (
+            not self.all_closed and self.tip.t == 'paragraph')
+
     def close_unmatched_blocks(self):
         """Finalize and close any unmatched blocks."""
         if not self.all_closed:
-- 
2.43.0


From fb85c16ae547d59b5c423ac8c168e3da021f4249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:46 +0000
Subject: [PATCH 25/54] fix: tell an empty title of a link reference definition
 from none at all

---
 commonmark/inlines.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 1fa1e60..fbb19c5 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -758,20 +758,19 @@ class InlineParser(object):
         if self.pos != beforetitle:
             title = self.parseLinkTitle()
         if title is None:
-            title = ''
             # rewind before spaces
             self.pos = beforetitle
 
         # make sure we're at line end:
         at_line_end = True
         if self.match(reSpaceAtEndOfLine) is None:
-            if title == '':
+            if title is None:
                 at_line_end = False
             else:
                 # the potential title we found is not at the line end,
                 # but it could still be a legal link reference if we
                 # discard the title
-                title = ''
+                title = None
                 # rewind before spaces
                 self.pos = beforetitle
                 # and instead check if the link URL is at the line end
@@ -790,7 +789,7 @@ class InlineParser(object):
         if not refmap.get(normlabel):
             refmap[normlabel] = {
                 'destination': dest,
-                'title': title
+                'title': title or ''
             }
         return (self.pos - startpos)
 
-- 
2.43.0


From 0d133a66c88f04e0057eef7ea74fbe6b2e3e3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:02 +0000
Subject: [PATCH 26/54] fix: underline the rendered title in reStructuredText

Headings without content, or starting with anything but plain text, raised
AttributeError or TypeError; others got an underline of the wrong length.
---
 commonmark/render/rst.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 45adca3..d4b8b8b 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -150,12 +150,13 @@ class ReStructuredTextRenderer(Renderer):
             # Default to the last level if we're in too deep
             heading_char = heading_chars[-1]
 
-        heading_length = len(node.first_child.literal)
-        banner = heading_char * heading_length
-
         if entering:
             self.cr()
+            self.heading_start = len(self.buf)
         else:
+            # the underline is as long as the title as rendered
+            title = self.buf[self.heading_start:].strip()
+            banner = heading_char * len(title)
             self.cr()
             self.out(banner)
             self.cr()
-- 
2.43.0


From d0c2237415407c2e01676d8e3ee5fda7f2c36c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:12 +0000
Subject: [PATCH 27/54] fix: indent every line of a code block in
 reStructuredText

Inside a list item or block quote only the first line got the indentation
of the container.
---
 commonmark/render/rst.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index d4b8b8b..a5af85d 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -42,7 +42,10 @@ class ReStructuredTextRenderer(Renderer):
         indent = self.indent_char * indent_length
         new_lines = []
 
-        for line in literal.splitlines():
+        lines = literal.split('\n')
+        if lines[-1] == '':
+            lines.pop()
+        for line in lines:
             new_lines.append(indent + line)
 
         return '\n'.join(new_lines)
@@ -111,8 +114,9 @@ class ReStructuredTextRenderer(Renderer):
         self.out(directive)
         self.cr()
         self.cr()
-        self.out(self.indent_lines(node.literal))
-        self.cr()
+        for line in self.indent_lines(node.literal).split('\n'):
+            self.out(line)
+            self.cr()
 
     def list(self, node, entering):
         if entering:
-- 
2.43.0


From 5566c6035571ee76391f412de7dad2f3614c8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:20 +0000
Subject: [PATCH 28/54] fix: separate the paragraphs of a list item in
 reStructuredText

---
 commonmark/render/rst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index a5af85d..a084df9 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -73,7 +73,11 @@ class ReStructuredTextRenderer(Renderer):
 
     def paragraph(self, node, entering):
         if node.parent.t == 'item':
-            pass
+            if entering and node.prv:
+                # a blank line between this and the block before it
+                if self.last_out != '\n':
+                    self.cr()
+                self.cr()
         else:
             self.cr()
 
-- 
2.43.0


From c9e69b6941102b32cb0080486ae29a246029aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:49 +0000
Subject: [PATCH 29/54] fix: strip and collapse exactly the spec's whitespace
 in reference labels

---
 commonmark/normalize_reference.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/commonmark/normalize_reference.py b/commonmark/normalize_reference.py
index d68a3b1..e5dbb88 100644
--- a/commonmark/normalize_reference.py
+++ b/commonmark/normalize_reference.py
@@ -107,27 +107,28 @@ def _check_native(tbl):
 
 
 # Hoist version check out of function for performance
-SPACE_RE = re.compile(r'[ \t\r\n]+')
+SPACES = ' \t\n\x0b\x0c\r'
+SPACE_RE = re.compile('[' + SPACES + ']+')
 if _check_native(XLAT):
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).casefold()
+        return SPACE_RE.sub(' ', string[1:-1].strip(SPACES)).casefold()
 elif sys.version_info >= (3,) or sys.maxunicode > 0xffff:
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).translate(XLAT)
+        return SPACE_RE.sub(' ', string[1:-1].strip(SPACES)).translate(XLAT)
 else:
     def _get_smp_regex():
         xls = sorted(x - 0x10000 for x in XLAT if x >= 0x10000)
         xls.append(-1)
         fmt, (dsh, opn, pip, cse) = str('\\u%04x'), str('-[|]')
-        rga, srk, erk = [str(r'[ \t\r\n]+')], 0, -2
+        rga, srk, erk = [str('[' + SPACES + ']+')], 0, -2
         for k in xls:
             new_hir = (erk ^ k) >> 10 != 0
             if new_hir or erk + 1 != k:
@@ -162,4 +163,4 @@ else:
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SMP_RE.sub(_subst_handler, string[1:-1].strip()).translate(XLAT)
+        return SMP_RE.sub(_subst_handler, string[1:-1].strip(SPACES)).translate(XLAT)
-- 
2.43.0


From b86cb5143736030ce0161f21dda6b5cc51d1c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:03 +0000
Subject: [PATCH 30/54] fix: only ASCII letters make the scheme of an autolink

---
 commonmark/inlines.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index fbb19c5..9468ad2 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -35,8 +35,7 @@ reEmailAutolink = re.compile(
     r"(?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
 reAutolink = re.compile(
-    r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
-    re.IGNORECASE)
+    r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>')
 reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reSpaceOrControlChar = re.compile(r'^[\x00-\x20\x7f]')
-- 
2.43.0


From c6eca2bcf6bf1bce3454b5139a5063dea02120f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:21 +0000
Subject: [PATCH 31/54] fix: keep the blanks of a code line inside a list item

---
 commonmark/blocks.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 3f80baf..4e3135d 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -255,17 +255,17 @@ class Item(Block):
 
     @staticmethod
     def continue_(parser=None, container=None):
-        if parser.blank:
-            if container.first_child is None:
-                # Blank line after empty list item
-                return 1
-            else:
-                parser.advance_next_nonspace()
+        if parser.blank and container.first_child is None:
+            # Blank line after empty list item
+            return 1
         elif parser.indent >= (container.list_data['marker_offset'] +
                                container.list_data['padding']):
+            # what is left of a blank line may be content of a code block
             parser.advance_offset(
                 container.list_data['marker_offset'] +
                 container.list_data['padding'], True)
+        elif parser.blank:
+            parser.advance_next_nonspace()
         else:
             return 1
         return 0
-- 
2.43.0


From eb656252d4bedbc17c83c3cbf3daa97f046bdabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:59 +0000
Subject: [PATCH 32/54] fix: a list item that begins with a reference
 definition is not empty

---
 commonmark/blocks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 4e3135d..3ebe9c4 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -255,8 +255,10 @@ class Item(Block):
 
     @staticmethod
     def continue_(parser=None, container=None):
-        if parser.blank and container.first_child is None:
-            # Blank line after empty list item
+        if parser.blank and container.first_child is None and \
+           parser.line_number == container.sourcepos[0][0] + 1:
+            # Blank line after empty list item (an item that began with
+            # reference definitions is not empty)
             return 1
         elif parser.indent >= (container.list_data['marker_offset'] +
                                container.list_data['padding']):
-- 
2.43.0


From 126ff56bb86a0c4ccbeefe9ef03c5b44c34fd90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:51 +0000
Subject: [PATCH 33/54] fix: separate the blocks of a list item in
 reStructuredText

---
 commonmark/render/rst.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index a084df9..6ff11db 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -50,6 +50,15 @@ class ReStructuredTextRenderer(Renderer):
 
         return '\n'.join(new_lines)
 
+    def block_start(self, node):
+        # inside a list item, a blank line comes between this block and the
+        # one before it; the paragraph markers bring it about elsewhere
+        if node.prv and node.parent.t == 'item':
+            while not self.buf.endswith('\n\n'):
+                self.cr()
+        elif node.t != 'block_quote':
+            self.cr()
+
     # Nodes
 
     def document(self, node, entering):
@@ -74,10 +83,7 @@ class ReStructuredTextRenderer(Renderer):
     def paragraph(self, node, entering):
         if node.parent.t == 'item':
             if entering and node.prv:
-                # a blank line between this and the block before it
-                if self.last_out != '\n':
-                    self.cr()
-                self.cr()
+                self.block_start(node)
         else:
             self.cr()
 
@@ -114,7 +120,7 @@ class ReStructuredTextRenderer(Renderer):
         if language_name:
             directive += ' ' + language_name
 
-        self.cr()
+        self.block_start(node)
         self.out(directive)
         self.cr()
         self.cr()
@@ -124,7 +130,7 @@ class ReStructuredTextRenderer(Renderer):
 
     def list(self, node, entering):
         if entering:
-            self.cr()
+            self.block_start(node)
 
     def item(self, node, entering):
         tagname = '* ' if node.list_data['type'] == 'bullet' else '#. '
@@ -138,6 +144,7 @@ class ReStructuredTextRenderer(Renderer):
 
     def block_quote(self, node, entering):
         if entering:
+            self.block_start(node)
             self.indent_length += 4
         else:
             self.indent_length -= 4
@@ -159,7 +166,7 @@ class ReStructuredTextRenderer(Renderer):
             heading_char = heading_chars[-1]
 
         if entering:
-            self.cr()
+            self.block_start(node)
             self.heading_start = len(self.buf)
         else:
             # the underline is as long as the title as rendered
-- 
2.43.0


From b69a43c133a244f7041b8ce57542891678ffd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:56 +0000
Subject: [PATCH 34/54] fix: end the source position of a closed fence or HTML
 block at the end of its line

---
 commonmark/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 3ebe9c4..9caf88d 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -329,6 +329,7 @@ class CodeBlock(Block):
                 re.search(reClosingCodeFence, ln[parser.next_nonspace:])
             if match and len(match.group()) >= container.fence_length:
                 # closing fence - we're at end of line, so we can return
+                parser.last_line_length = len(ln)
                 parser.finalize(container, parser.line_number)
                 return 2
             else:
@@ -855,6 +856,7 @@ class Parser(object):
                    re.search(
                        reHtmlBlockClose[container.html_block_type],
                        self.current_line[self.offset:]):
+                    self.last_line_length = len(ln)
                     self.finalize(container, self.line_number)
             elif self.offset < len(ln) and not self.blank:
                 # create a paragraph container for one line
-- 
2.43.0


From 75538c1947089e53136c27aa244db9958ce8fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:04 +0000
Subject: [PATCH 35/54] fix: an empty-looking item that begins with a form feed
 or vertical tab can interrupt a paragraph

Only spaces and tabs make a blank line; reNonSpace counts more.
---
 commonmark/blocks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 9caf88d..5616550 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -118,9 +118,8 @@ def parse_list_marker(parser, container):
 
     # if it interrupts paragraph, make sure first line isn't blank
     if container.t == 'paragraph' and \
-       not re.search(
-           reNonSpace,
-           parser.current_line[parser.next_nonspace + len(m.group()):]):
+       not parser.current_line[
+           parser.next_nonspace + len(m.group()):].strip(' \t'):
         return None
 
     # we've got a match! advance offset and calculate padding
-- 
2.43.0


From a6e9e7b873e40d85804020bfe653e725538297e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:52:50 +0000
Subject: [PATCH 36/54] fix: limit how deeply parentheses may nest in a link
 destination

Every '[a](' in '[a]([a]([a](...' scanned the rest of the text for the
closing parentheses: quadratic time.  The spec allows a limit; cmark uses 32.
---
 commonmark/inlines.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 9468ad2..f846b2d 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -13,6 +13,9 @@ from commonmark.normalize_reference import normalize_reference
 # what the spec calls whitespace characters
 WHITESPACE = ' \t\n\x0b\x0c\r'
 
+# how deeply parentheses may nest in a link destination
+MAX_PARENS = 32
+
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
 LONE_BACKSLASH = '\\\\(?!' + common.ESCAPABLE + ')'
 
@@ -477,6 +480,8 @@ class InlineParser(object):
                 elif c == '(':
                     self.pos += 1
                     openparens += 1
+                    if openparens > MAX_PARENS:
+                        return None
                 elif c == ')':
                     if openparens < 1:
                         break
-- 
2.43.0


From 2308b3c84f44ffbf3e18f0c607d748eaa2db9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:52:51 +0000
Subject: [PATCH 37/54] fix: note that a bracket follows an opener under the
 name that is read

The flag was stored as 'bracketAfter' and read as 'bracket_after', so the
text between all pairs of nested brackets was looked up as a label:
quadratic time for '[[[[...]]]]'.
---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index f846b2d..df0ba7c 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -602,6 +602,7 @@ class InlineParser(object):
 
         if not matched:
             # Next, see if there's a link label
+            reflabel = None
             beforelabel = self.pos
             n = self.parseLinkLabel()
             if n > 2:
@@ -663,7 +664,7 @@ class InlineParser(object):
 
     def addBracket(self, node, index, image):
         if self.brackets is not None:
-            self.brackets['bracketAfter'] = True
+            self.brackets['bracket_after'] = True
 
         self.brackets = {
             'node': node,
-- 
2.43.0


From 09534ecb4d28f6b8207d4df1f91586cc670562b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:52:51 +0000
Subject: [PATCH 38/54] fix: do not deactivate link openers again for every
 link

Each link walked down the whole stack of brackets: quadratic time when
many openers stay unmatched.
---
 commonmark/inlines.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index df0ba7c..d8fe9d0 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -646,12 +646,12 @@ class InlineParser(object):
             # Now, for a link, we also deactivate earlier link openers.
             # (no links in links)
             if not is_image:
-                opener = self.brackets
-                while opener is not None:
-                    if not opener.get('image'):
-                        # deactivate this opener
-                        opener['active'] = False
-                    opener = opener.get('previous')
+                # (if one is inactive, so are all those before it)
+                opener = opener.get('previousLink')
+                while opener is not None and opener.get('active'):
+                    # deactivate this opener
+                    opener['active'] = False
+                    opener = opener.get('previousLink')
 
             return True
         else:
@@ -663,12 +663,16 @@ class InlineParser(object):
             return True
 
     def addBracket(self, node, index, image):
-        if self.brackets is not None:
-            self.brackets['bracket_after'] = True
+        previous = link = self.brackets
+        if previous is not None:
+            previous['bracket_after'] = True
+            if previous['image']:
+                link = previous['previousLink']
 
         self.brackets = {
             'node': node,
-            'previous': self.brackets,
+            'previous': previous,
+            'previousLink': link,
             'previousDelimiter': self.delimiters,
             'index': index,
             'image': image,
-- 
2.43.0


From 51874305d68e8e124c6b72d10194c7cc9784c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:52:51 +0000
Subject: [PATCH 39/54] fix: do not walk down all delimiters when there are
 none above the bottom

A link without delimiters in its text walked past the bottom to the end of
the stack: quadratic time when many delimiters precede many links.
---
 commonmark/inlines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index d8fe9d0..93ac05e 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -335,6 +335,10 @@ class InlineParser(object):
         openers_bottom = {}
         use_delims = 0
 
+        if self.delimiters is stack_bottom:
+            # no delimiters above it
+            return
+
         # Find first closer above stack_bottom
         closer = self.delimiters
         while closer is not None and closer.get('previous') != stack_bottom:
-- 
2.43.0


From a8668f617e6a2901d9e3dbeb7c575dea477e6855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:52:51 +0000
Subject: [PATCH 40/54] fix: keep the bottom for openers when the delimiter
 there has been used

The bottom was remembered as a delimiter, and searches ran past it once it
had been removed: quadratic time for repeated '*_* *'.
---
 commonmark/inlines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 93ac05e..7706484 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -307,6 +307,7 @@ class InlineParser(object):
             'numdelims': numdelims,
             'origdelims': numdelims,
             'node': node,
+            'index': startpos,
             'previous': self.delimiters,
             'next': None,
             'can_open': res.get('can_open'),
@@ -357,9 +358,9 @@ class InlineParser(object):
                 # whether an opener matches depends on all of these
                 bottom_key = (closercc, bool(closer.get('can_open')),
                               closer['origdelims'] % 3)
-                bottom = openers_bottom.get(bottom_key, stack_bottom)
+                bottom = openers_bottom.get(bottom_key, 0)
                 while (opener is not None and opener != stack_bottom and
-                       opener != bottom):
+                       opener['index'] >= bottom):
                     odd_match = (closer.get('can_open') or
                                  opener.get('can_close')) and \
                                  closer['origdelims'] % 3 != 0 and \
@@ -438,7 +439,7 @@ class InlineParser(object):
 
                 if not opener_found:
                     # Set lower bound for future searches for openers:
-                    openers_bottom[bottom_key] = old_closer['previous']
+                    openers_bottom[bottom_key] = old_closer['index']
                     if not old_closer['can_open']:
                         # We can remove a closer that can't be an opener,
                         # once we've seen there's no matching opener:
-- 
2.43.0


From 5fd79777c7592d985ce14ab1996c867a5d1f1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:05:53 +0000
Subject: [PATCH 41/54] fix: do not search again for the opener of a quote that
 is already matched

An opening quote stays on the stack, and every later quote walked back to
it: quadratic time in smart mode.
---
 commonmark/inlines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 7706484..2f659dc 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -437,8 +437,9 @@ class InlineParser(object):
                         opener['node'].literal = '\u201C'
                     closer = closer['next']
 
-                if not opener_found:
-                    # Set lower bound for future searches for openers:
+                if not opener_found or closercc in '\'"':
+                    # Set lower bound for future searches for openers
+                    # (that of a quote stays, and would be found again):
                     openers_bottom[bottom_key] = old_closer['index']
                     if not old_closer['can_open']:
                         # We can remove a closer that can't be an opener,
-- 
2.43.0


From 7d25b497b200cd92970a58cfe3f2fe4b600405d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:14:58 +0000
Subject: [PATCH 42/54] fix: do not scan again for a sequence of backticks that
 is known not to follow

Every unmatched sequence scanned all the later ones: quadratic time.
---
 commonmark/inlines.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 2f659dc..162d57f 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -100,6 +100,7 @@ class InlineParser(object):
     def __init__(self, options={}):
         self.subject = ''
         self.brackets = None
+        self.unclosed_ticks = set()
         self.pos = 0
         self.refmap = {}
         self.options = dict(options)
@@ -141,7 +142,9 @@ class InlineParser(object):
         if ticks is None:
             return False
         after_open_ticks = self.pos
-        matched = self.match(reTicks)
+        matched = None
+        if ticks not in self.unclosed_ticks:
+            matched = self.match(reTicks)
         while matched is not None:
             if matched == ticks:
                 node = Node('code', None)
@@ -154,7 +157,9 @@ class InlineParser(object):
                 block.append_child(node)
                 return True
             matched = self.match(reTicks)
-        # If we got here, we didn't match a closing backtick sequence.
+        # If we got here, we didn't match a closing backtick sequence,
+        # and there is none for later sequences of this length either.
+        self.unclosed_ticks.add(ticks)
         self.pos = after_open_ticks
         block.append_child(text(ticks))
         return True
@@ -858,6 +863,7 @@ class InlineParser(object):
         self.pos = 0
         self.delimiters = None
         self.brackets = None
+        self.unclosed_ticks = set()
         while (self.parseInline(block)):
             pass
         self.processEmphasis(None)
-- 
2.43.0


From 22cd08385bff1f1e4d0bc64cceb25b2c5df8913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:15:39 +0000
Subject: [PATCH 43/54] fix: no collapsed or shortcut reference by a label of
 over 999 characters

---
 commonmark/inlines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 162d57f..baeebe7 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -618,11 +618,12 @@ class InlineParser(object):
             n = self.parseLinkLabel()
             if n > 2:
                 reflabel = self.subject[beforelabel:beforelabel + n]
-            elif not opener.get('bracket_after'):
+            elif not opener.get('bracket_after') and \
+                    startpos - opener.get('index') <= 1001:
                 # Empty or missing second label means to use the first
                 # label as the reference.  The reference must not
-                # contain a bracket. If we know there's a bracket, we
-                # don't even bother checking it.
+                # contain a bracket (if we know there's a bracket, we
+                # don't even bother checking it), nor be too long.
                 reflabel = self.subject[opener.get('index'):startpos]
             if n == 0:
                 # If shortcut reference link, rewind before spaces we skipped.
-- 
2.43.0


From b7c5ce6a64bf1808cd95a8fe99fffe1d238fb556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 44/54] fix: find the end of an indented code block in linear
 time

---
 commonmark/blocks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 5616550..fbcb8c3 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -358,9 +358,10 @@ class CodeBlock(Block):
             block.info = unescape_string(first_line.strip(' \t\x0b\x0c'))
             block.literal = rest
         else:
-            # indented
-            block.literal = re.sub(
-                r'(\n[ \t]*)+$', '\n', block.string_content)
+            # indented, without the blank lines at the end
+            content = block.string_content
+            end = content.index('\n', len(content.rstrip(' \t\n')))
+            block.literal = content[:end + 1]
 
         block.string_content = None
 
-- 
2.43.0


From 9622a6cb9952f57655f295ddb8c933cf8b37bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 45/54] fix: find the end of an HTML block in linear time

---
 commonmark/blocks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index fbcb8c3..92828dc 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -383,7 +383,10 @@ class HtmlBlock(Block):
 
     @staticmethod
     def finalize(parser=None, block=None):
-        block.literal = re.sub(r'(\n *)+$', '', block.string_content)
+        # without the blank lines at the end
+        content = block.string_content
+        end = content.index('\n', len(content.rstrip(' \n')))
+        block.literal = content[:end]
         # allow GC
         block.string_content = None
 
-- 
2.43.0


From 58b8d38d2c9eaa1be74e5465c9305f2973f5f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 46/54] fix: find the closing sequence of an ATX heading in
 linear time

---
 commonmark/blocks.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 92828dc..98fe6a6 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -472,11 +472,12 @@ class BlockStarts(object):
                 # number of #s
                 container.level = len(m.group().strip())
                 # remove trailing ###s:
-                container.string_content = re.sub(
-                    r'[ \t]+#+[ \t]*$', '', re.sub(
-                        r'^[ \t]*#+[ \t]*$',
-                        '',
-                        parser.current_line[parser.offset:]))
+                content = parser.current_line[parser.offset:]
+                text = content.rstrip(' \t')
+                bare = text.rstrip('#')
+                if bare != text and bare[-1:] in ('', ' ', '\t'):
+                    content = bare.rstrip(' \t')
+                container.string_content = content
                 parser.advance_offset(
                     len(parser.current_line) - parser.offset, False)
                 return 2
-- 
2.43.0


From f6623b843fcaee6884eedaac7cbe2514800ba41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 47/54] fix: do not scan a line again for a thematic break that
 is known not to start there

---
 commonmark/blocks.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 98fe6a6..97b918e 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -38,7 +38,7 @@ reHtmlBlockClose = [
     re.compile(r'\]\]>'),
 ]
 reThematicBreak = re.compile(
-    r'^(?:(?:\*[ \t]*){3,}|(?:_[ \t]*){3,}|(?:-[ \t]*){3,})[ \t]*$')
+    r'^(?:(?:\*[ \t]*){3,}|(?:_[ \t]*){3,}|(?:-[ \t]*){3,})$')
 reMaybeSpecial = re.compile(r'^[#`~*+_=<>0-9-]')
 reNonSpace = re.compile(r'[^ \t\f\v\r\n]')
 reBulletListMarker = re.compile(r'^[*+-]')
@@ -554,13 +554,20 @@ class BlockStarts(object):
 
     @staticmethod
     def thematic_break(parser, container=None):
-        if not parser.indented and re.search(
-                reThematicBreak, parser.current_line[parser.next_nonspace:]):
+        if parser.indented or \
+           parser.next_nonspace < parser.thematic_break_kill_pos:
+            return 0
+        rest = parser.current_line[parser.next_nonspace:]
+        if re.search(reThematicBreak, rest):
             parser.close_unmatched_blocks()
             parser.add_child('thematic_break', parser.next_nonspace)
             parser.advance_offset(
                 len(parser.current_line) - parser.offset, False)
             return 2
+        if rest[:1] in ('*', '_', '-'):
+            # what stopped this one stops any that starts before it
+            parser.thematic_break_kill_pos = len(parser.current_line) - \
+                len(rest.lstrip(rest[0] + ' \t'))
         return 0
 
     @staticmethod
@@ -613,6 +620,7 @@ class Parser(object):
         self.indented = False
         self.blank = False
         self.partially_consumed_tab = False
+        self.thematic_break_kill_pos = 0
         self.all_closed = True
         self.last_matched_container = self.doc
         self.refmap = {}
@@ -740,6 +748,7 @@ class Parser(object):
         self.column = 0
         self.blank = False
         self.partially_consumed_tab = False
+        self.thematic_break_kill_pos = 0
         self.line_number += 1
 
         # replace NUL characters for security
-- 
2.43.0


From 5105b4bd60e29eea9f460003ea35b59cbd7b7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 48/54] fix: grow the output of a renderer in place

---
 commonmark/render/html.py     | 8 ++++----
 commonmark/render/renderer.py | 5 ++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 5f66361..d23d3e9 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -40,15 +40,15 @@ class HtmlRenderer(Renderer):
         if self.disable_tags > 0:
             return
 
-        self.buf += '<' + name
+        tag = '<' + name
         if attrs and len(attrs) > 0:
             for attrib in attrs:
-                self.buf += ' ' + attrib[0] + '="' + attrib[1] + '"'
+                tag += ' ' + attrib[0] + '="' + attrib[1] + '"'
 
         if selfclosing:
-            self.buf += ' /'
+            tag += ' /'
 
-        self.buf += '>'
+        self.lit(tag + '>')
         self.last_out = '>'
 
     # Node methods #
diff --git a/commonmark/render/renderer.py b/commonmark/render/renderer.py
index 058f86b..820017a 100644
--- a/commonmark/render/renderer.py
+++ b/commonmark/render/renderer.py
@@ -26,7 +26,10 @@ class Renderer(object):
 
         @param str {String} The string to concatenate.
         """
-        self.buf += s
+        # with no other reference to it, the buffer grows in place
+        buf, self.buf = self.buf, ''
+        buf += s
+        self.buf = buf
         self.last_out = s
 
     def cr(self):
-- 
2.43.0


From 5c61bb61b5343f89a0c700d0d9920e62017053bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 49/54] fix: strip the spaces before a line break in linear
 time

---
 commonmark/inlines.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index baeebe7..36a15ba 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -47,7 +47,6 @@ reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(
     '^[ \t\n\x0c\r\xa0\u1680\u2000-\u200a\u202f\u205f\u3000]')
 reAsciiPunctuation = re.compile(r'^[!-/:-@\[-`{-~]')
-reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
 reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]', re.DOTALL)
@@ -732,7 +731,7 @@ class InlineParser(object):
         if lastc and lastc.t == 'text' and \
            self.subject[self.pos - 2:self.pos - 1] == ' ':
             linebreak = len(lastc.literal) >= 2 and lastc.literal[-2] == ' '
-            lastc.literal = re.sub(reFinalSpace, '', lastc.literal)
+            lastc.literal = lastc.literal.rstrip(' ')
             if linebreak:
                 node = Node('linebreak', None)
             else:
-- 
2.43.0


From b7afcf6d3f2e616a4642882539d8127a98a27d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 50/54] fix: do not scan for the end of raw HTML that is known
 not to end

---
 commonmark/inlines.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 36a15ba..a79fbb3 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -16,6 +16,9 @@ WHITESPACE = ' \t\n\x0b\x0c\r'
 # how deeply parentheses may nest in a link destination
 MAX_PARENS = 32
 
+# what ends the raw HTML that may hold anything
+HTML_ENDS = [('<?', '?>'), ('<![', ']]>'), ('<!', '>')]
+
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
 LONE_BACKSLASH = '\\\\(?!' + common.ESCAPABLE + ')'
 
@@ -100,6 +103,7 @@ class InlineParser(object):
         self.subject = ''
         self.brackets = None
         self.unclosed_ticks = set()
+        self.last_html_end = {}
         self.pos = 0
         self.refmap = {}
         self.options = dict(options)
@@ -219,6 +223,11 @@ class InlineParser(object):
 
     def parseHtmlTag(self, block):
         """Attempt to parse a raw HTML tag."""
+        for start, end in HTML_ENDS:
+            if self.subject.startswith(start, self.pos) and \
+               self.last_html_end.get(end, self.pos) < self.pos:
+                # nothing follows that could end it: don't scan for that
+                return False
         m = self.match(common.reHtmlTag)
         if m is None:
             return False
@@ -864,6 +873,8 @@ class InlineParser(object):
         self.delimiters = None
         self.brackets = None
         self.unclosed_ticks = set()
+        self.last_html_end = dict(
+            (end, self.subject.rfind(end)) for _, end in HTML_ENDS)
         while (self.parseInline(block)):
             pass
         self.processEmphasis(None)
-- 
2.43.0


From 2c524cb79bc6c637d4bf493e5de9708a5930b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 51/54] fix: match inline constructs without copying the rest
 of the subject

---
 commonmark/common.py  |  2 +-
 commonmark/inlines.py | 50 +++++++++++++++++++++++++++----------------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 753b098..2b056d2 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -36,7 +36,7 @@ HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
     PROCESSINGINSTRUCTION + "|" + DECLARATION + "|" + CDATA + ")"
 # On Python 3 \s and IGNORECASE go beyond ASCII by default
 ASCII = getattr(re, 'ASCII', 0)
-reHtmlTag = re.compile('^' + HTMLTAG, re.IGNORECASE | ASCII)
+reHtmlTag = re.compile(HTMLTAG, re.IGNORECASE | ASCII)
 reBackslashOrAmp = re.compile(r'[\\&]')
 ESCAPABLE = '[!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-]'
 reEntityOrEscapedChar = re.compile(
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index a79fbb3..9980e4c 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -23,26 +23,25 @@ ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
 LONE_BACKSLASH = '\\\\(?!' + common.ESCAPABLE + ')'
 
 reLinkTitle = re.compile(
-    '^(?:"(' + ESCAPED_CHAR + '|' + LONE_BACKSLASH + '|[^"\\\\\\x00])*"' +
+    '(?:"(' + ESCAPED_CHAR + '|' + LONE_BACKSLASH + '|[^"\\\\\\x00])*"' +
     '|' +
     '\'(' + ESCAPED_CHAR + '|' + LONE_BACKSLASH + '|[^\'\\\\\\x00])*\'' +
     '|' +
     '\\((' + ESCAPED_CHAR + '|' + LONE_BACKSLASH + '|[^()\\\\\\x00])*\\))')
-reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
+reLinkDestinationBraces = re.compile(r'(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-reEntityHere = re.compile('^' + common.ENTITY, re.IGNORECASE)
+reEntityHere = re.compile(common.ENTITY, re.IGNORECASE)
 reTicks = re.compile(r'`+')
-reTicksHere = re.compile(r'^`+')
 reEllipses = re.compile(r'\.\.\.')
 reDash = re.compile(r'--+')
 reEmailAutolink = re.compile(
-    r"^<([a-zA-Z0-9.!#$%&'*+\/=?^_`{|}~-]+@[a-zA-Z0-9]"
+    r"<([a-zA-Z0-9.!#$%&'*+\/=?^_`{|}~-]+@[a-zA-Z0-9]"
     r"(?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
 reAutolink = re.compile(
-    r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>')
-reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
+    r'<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>')
+reSpnl = re.compile(r'[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reSpaceOrControlChar = re.compile(r'^[\x00-\x20\x7f]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
@@ -50,11 +49,11 @@ reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(
     '^[ \t\n\x0c\r\xa0\u1680\u2000-\u200a\u202f\u205f\u3000]')
 reAsciiPunctuation = re.compile(r'^[!-/:-@\[-`{-~]')
-reInitialSpace = re.compile(r'^ *')
-reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
-reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]', re.DOTALL)
+reInitialSpace = re.compile(r' *')
+reSpaceAtEndOfLine = re.compile(r'[ \t]*(?:\n|$)')
+reLinkLabel = re.compile(r'\[(?:[^\\\[\]]|\\.){0,1000}\]', re.DOTALL)
 # Matches a string of non-special characters.
-reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
+reMain = re.compile(r'[^\n`\[\]\\!<&*_\'"]+')
 
 
 def is_punctuation(c):
@@ -108,16 +107,29 @@ class InlineParser(object):
         self.refmap = {}
         self.options = dict(options)
 
-    def match(self, regexString):
+    def match(self, regex):
         """
-        If regexString matches at current position in the subject, advance
-        position in subject and return the match; otherwise return None.
+        If the compiled regex matches at current position in the subject,
+        advance position in subject and return the match; otherwise return
+        None.
         """
-        match = re.search(regexString, self.subject[self.pos:])
+        match = regex.match(self.subject, self.pos)
         if match is None:
             return None
         else:
-            self.pos += match.end()
+            self.pos = match.end()
+            return match.group()
+
+    def find(self, regex):
+        """
+        Like match, but wherever in the rest of the subject the compiled
+        regex matches first.
+        """
+        match = regex.search(self.subject, self.pos)
+        if match is None:
+            return None
+        else:
+            self.pos = match.end()
             return match.group()
 
     def peek(self):
@@ -141,13 +153,13 @@ class InlineParser(object):
     def parseBackticks(self, block):
         """ Attempt to parse backticks, adding either a backtick code span or a
         literal sequence of backticks to the 'inlines' list."""
-        ticks = self.match(reTicksHere)
+        ticks = self.match(reTicks)
         if ticks is None:
             return False
         after_open_ticks = self.pos
         matched = None
         if ticks not in self.unclosed_ticks:
-            matched = self.match(reTicks)
+            matched = self.find(reTicks)
         while matched is not None:
             if matched == ticks:
                 node = Node('code', None)
@@ -159,7 +171,7 @@ class InlineParser(object):
                     node.literal = contents
                 block.append_child(node)
                 return True
-            matched = self.match(reTicks)
+            matched = self.find(reTicks)
         # If we got here, we didn't match a closing backtick sequence,
         # and there is none for later sequences of this length either.
         self.unclosed_ticks.add(ticks)
-- 
2.43.0


From e4904c66a5975316ba62f0f8cc968813bbd7cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 52/54] fix: grow the text of a block in place

---
 commonmark/blocks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 97b918e..4bff4ce 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -637,7 +637,10 @@ class Parser(object):
             # Add space characters
             chars_to_tab = 4 - (self.column % 4)
             self.tip.string_content += (' ' * chars_to_tab)
-        self.tip.string_content += (self.current_line[self.offset:] + '\n')
+        # with no other reference to it, the content grows in place
+        content, self.tip.string_content = self.tip.string_content, ''
+        content += self.current_line[self.offset:] + '\n'
+        self.tip.string_content = content
 
     def add_child(self, tag, offset):
         """ Add block of type tag as a child of the tip.  If the tip can't
-- 
2.43.0


From b7540d1631c65af6e9245dc7e5703961bdc60127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 53/54] fix: parse reference definitions without copying what
 follows each

---
 commonmark/blocks.py  | 31 ++++++++++++++++---------------
 commonmark/inlines.py |  6 +++---
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 4bff4ce..bdcf78a 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -151,6 +151,20 @@ def parse_list_marker(parser, container):
     return data
 
 
+def parse_reference_defs(parser, block):
+    """Parse the link reference definitions at the beginning of a block
+    and remove them from its content. Returns True if there were any."""
+    start = 0
+    while peek(block.string_content, start) == '[':
+        chars = parser.inline_parser.parseReference(
+            block.string_content, parser.refmap, start)
+        if not chars:
+            break
+        start += chars
+    block.string_content = block.string_content[start:]
+    return start > 0
+
+
 def lists_match(list_data, item_data):
     """
     Returns True if the two list items are of the same type,
@@ -404,16 +418,8 @@ class Paragraph(Block):
 
     @staticmethod
     def finalize(parser=None, block=None):
-        has_reference_defs = False
-
         # try parsing the beginning as link reference definitions:
-        while peek(block.string_content, 0) == '[':
-            pos = parser.inline_parser.parseReference(
-                block.string_content, parser.refmap)
-            if not pos:
-                break
-            block.string_content = block.string_content[pos:]
-            has_reference_defs = True
+        has_reference_defs = parse_reference_defs(parser, block)
         # (nothing is left either if a would-be setext underline has already
         # stripped all the definitions)
         if not block.string_content or \
@@ -531,12 +537,7 @@ class BlockStarts(object):
             if m:
                 parser.close_unmatched_blocks()
                 # resolve reference link definitiosn
-                while peek(container.string_content, 0) == '[':
-                    pos = parser.inline_parser.parseReference(
-                            container.string_content, parser.refmap)
-                    if not pos:
-                        break
-                    container.string_content = container.string_content[pos:]
+                parse_reference_defs(parser, container)
                 if container.string_content:
                     heading = Node('heading', container.sourcepos)
                     heading.level = 1 if m.group()[0] == '=' else 2
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 9980e4c..0c3a83e 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -765,10 +765,10 @@ class InlineParser(object):
         self.match(reInitialSpace)
         return True
 
-    def parseReference(self, s, refmap):
+    def parseReference(self, s, refmap, start=0):
         """Attempt to parse a link reference, modifying refmap."""
         self.subject = s
-        self.pos = 0
+        self.pos = start
         startpos = self.pos
 
         # label:
@@ -776,7 +776,7 @@ class InlineParser(object):
         if match_chars == 0 or match_chars == 2:
             return 0
         else:
-            rawlabel = self.subject[:match_chars]
+            rawlabel = self.subject[startpos:self.pos]
 
         # colon:
         if (self.peek() == ':'):
-- 
2.43.0


From e6f4a432e60943cad13f24140950411c8b9a50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:14 +0000
Subject: [PATCH 54/54] fix: after emphasis has taken in a matched pair of
 quotes, an earlier opening quote is found again

---
 commonmark/inlines.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0c3a83e..b5ff349 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -359,6 +359,8 @@ class InlineParser(object):
 
     def processEmphasis(self, stack_bottom):
         openers_bottom = {}
+        # the pairs of quotes matched: where the opener is, and its last closer
+        quotes = {"'": [], '"': []}
         use_delims = 0
 
         if self.delimiters is stack_bottom:
@@ -384,6 +386,10 @@ class InlineParser(object):
                 bottom_key = (closercc, bool(closer.get('can_open')),
                               closer['origdelims'] % 3)
                 bottom = openers_bottom.get(bottom_key, 0)
+                pairs = quotes.get(closercc)
+                if pairs:
+                    # without a later opener, it is that of the last pair
+                    bottom = pairs[-1][1]
                 while (opener is not None and opener != stack_bottom and
                        opener['index'] >= bottom):
                     odd_match = (closer.get('can_open') or
@@ -438,6 +444,9 @@ class InlineParser(object):
                         # Remove elts between opener and closer in delimiters
                         # stack
                         self.removeDelimitersBetween(opener, closer)
+                        for pairs in quotes.values():
+                            while pairs and pairs[-1][0] > opener['index']:
+                                pairs.pop()
 
                         # If opener has 0 delims, remove it and the inline
                         if opener['numdelims'] == 0:
@@ -462,9 +471,14 @@ class InlineParser(object):
                         opener['node'].literal = '\u201C'
                     closer = closer['next']
 
-                if not opener_found or closercc in '\'"':
-                    # Set lower bound for future searches for openers
-                    # (that of a quote stays, and would be found again):
+                if closercc in quotes and (opener_found or pairs):
+                    if opener_found:
+                        pairs.append([opener['index'], old_closer['index']])
+                    else:
+                        pairs[-1][1] = old_closer['index']
+                    self.removeDelimiter(old_closer)
+                elif not opener_found:
+                    # Set lower bound for future searches for openers:
                     openers_bottom[bottom_key] = old_closer['index']
                     if not old_closer['can_open']:
                         # We can remove a closer that can't be an opener,
-- 
2.43.0

