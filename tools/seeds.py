"""Planted changes: each breaks a property, compiles and passes the tests."""
S, P, R, T, N = ['gopher_render/%s.py' % x for x in ('_selectors', '_parser', 'rendering', '_textwrap', '_namedict')]
SEEDS = []
def seed(id, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split('-')[0], file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed('C11-type-case', P, [("        p = path.rpartition('.')\n", "        p = path.lower().rpartition('.')\n")],
 'a gopher or relative link whose extension is not in lower case', 'the type of such items follows from the extension in lower case: photo.JPG becomes I instead of 9',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(output_format='gophermap', gopher_host='h', gopher_port=70)
p.feed('<p><a href="/a/photo.JPG">x</a></p>'); p.close()
assert '9[1] x\\t/a/photo.JPG\\th\\t70' in p.parsed, p.parsed
''')
seed('C11-dotdir', P, [("        p = path.rpartition('.')\n", "        p = path.rpartition('/')[2].rpartition('.')\n")],
 'a path with a dot only in a directory, or a file name that begins with its only dot', 'what comes after the last dot of the path no longer decides when a slash follows it',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(output_format='gophermap', gopher_host='h', gopher_port=70)
p.feed('<p><a href="/v1.2/docs">x</a></p>'); p.close()
assert '9[1] x\\t/v1.2/docs\\th\\t70' in p.parsed, p.parsed
''')
seed('C13-template', R, [("            self.total_line_template_padding = self.line_template_padding + parent.total_line_template_padding\n",
   "            self.total_line_template_padding = self.line_template_padding + parent.line_template_padding\n")],
 'three nested boxes with line templates on the outer two or more', 'markers of lines further out than the parent are not taken from the width',
 '''
from gopher_render.rendering import Box
a = Box(width=60); b = Box(parent=a, line_template='> {}'); c = Box(parent=b, line_template='> {}'); d = Box(parent=c, line_template='> {}')
assert d.inner_width_excluding_line_template == 54, d.inner_width_excluding_line_template
''')
seed('C13-alias', R, [("        self.margin = margin[:]\n", "        self.margin = margin\n")],
 'changing a margin list after (or the default margins of a box before) a box is created from it', 'boxes share their margin list with the caller and with each other',
 '''
from gopher_render.rendering import Box
m = [1, 2, 3, 4]
b = Box(margin=m); m[3] = 50
assert b.margin == [1, 2, 3, 4], b.margin
''')
seed('C25-nested', N, [("        else:\n            self[name] = value\n", "        else:\n            self[name] = namedict(value) if type(value) is dict else value\n")],
 'writing a dictionary by attribute', 'a dictionary written by attribute is replaced by a copy',
 '''
from gopher_render._namedict import namedict
v = {'a': 1}
d = namedict(); d.x = v
assert d['x'] is v
''')
seed('C25-falsy', N, [("        if name in self:\n            return self[name]\n", "        value = self.get(name)\n        if value is not None:\n            return value\n")],
 'a name whose value is None', 'a name with the value None is missing by attribute',
 '''
from gopher_render._namedict import namedict
d = namedict(a=None)
assert d.a is None
''')

PRE = '''
from gopher_render import GopherHTMLParser
import cssselect
from gopher_render._selectors import tag_matches
def all_tags(html):
    p = GopherHTMLParser(); p.feed(html)
    out = []
    def walk(n):
        for c in n.children:
            if not hasattr(c, 'data'):
                out.append(c)
                walk(c)
    walk(p.tree)
    return out
def hits(html, sel):
    return [t.attrs.get('k') for t in all_tags(html) if tag_matches(t, cssselect.parse(sel))[0]]
def spec(html, sel):
    return [tag_matches(t, cssselect.parse(sel))[1] for t in all_tags(html)]
'''
seed('C01-substring', S, [("    return klass.class_name in tag.classes and _selector_matches(tag, klass.selector)\n",
  "    return klass.class_name in ' '.join(tag.classes) and _selector_matches(tag, klass.selector)\n")],
 'a class whose name is part of the name of another class', 'a class selector matches elements with a class that only contains its name', PRE + '''
assert hits('<p class="notebook" k="1">x</p><p class="big note" k="2">y</p>', '.note') == ['2'], hits('<p class="notebook" k="1">x</p><p class="big note" k="2">y</p>', '.note')
''')
seed('C01-hash-base', S, [("    return tag.id == hash.id and (\n        hash.selector is None or\n        _selector_matches(tag, hash.selector)\n    )\n",
  "    return tag.id == hash.id and (\n        not isinstance(hash.selector, (Element, Class)) or\n        _selector_matches(tag, hash.selector)\n    )\n")],
 'an id behind an attribute, pseudo-class or negation part', 'what stands before an id is not checked unless it is a type or class', PRE + '''
assert hits('<p id="x" k="1">x</p><p id="x" lang="en" k="2">x</p>', 'p[lang]#x') == ['2'], hits('<p id="x" k="1">x</p><p id="x" lang="en" k="2">x</p>', 'p[lang]#x')
''')
seed('C02-combined', S, [("    return _any_ancestor_matches(tag.parent, selector)\n",
  "    return not isinstance(selector, CombinedSelector) and _any_ancestor_matches(tag.parent, selector)\n")],
 'a descendant selector of three parts whose middle is not the parent of the element', 'the ancestor that matches a combined selector is only looked for one level up', PRE + '''
assert hits('<div><ul><li><b><i k="1">x</i></b></li></ul></div>', 'div li i') == ['1'], hits('<div><ul><li><b><i k="1">x</i></b></li></ul></div>', 'div li i')
''')
seed('C02-sibling-prev', S, [("    for sibling in tag.parent.tag_children():\n        if sibling is tag:\n            return False\n        if _selector_matches(sibling, selector.selector):\n            return True\n    return False\n",
  "    siblings = tag.parent.tag_children()\n    for sibling in siblings[max(0, siblings.index(tag) - 2):siblings.index(tag)]:\n        if _selector_matches(sibling, selector.selector):\n            return True\n    return False\n")],
 'a matching sibling three or more elements earlier', 'only the last two siblings before the element are looked at', PRE + '''
assert hits('<h1>a</h1><p k="1">b</p><p k="2">c</p><p k="3">d</p>', 'h1 ~ p') == ['1', '2', '3'], hits('<h1>a</h1><p k="1">b</p><p k="2">c</p><p k="3">d</p>', 'h1 ~ p')
''')
seed('C03-last-rest', S, [("    return tag_children[-1] is tag and _selector_matches(tag, selector.selector)\n",
  "    return tag_children[-1] is tag and (len(tag_children) == 1 or _selector_matches(tag, selector.selector))\n")],
 'an only child tested against :last-child with other parts', 'the rest of the compound is not checked for an only child', PRE + '''
assert hits('<div><p k="1">x</p></div>', 'h1:last-child') == [], hits('<div><p k="1">x</p></div>', 'h1:last-child')
''')
seed('C03-twin', S, [("    return tag_children[-n] is tag and _selector_matches(tag, selector.selector)\n",
  "    other = tag_children[-n]\n    return (other.tag, other.attrs) == (tag.tag, tag.attrs) and _selector_matches(tag, selector.selector)\n")],
 'a sibling with the same name and attributes as the element at the position', 'every twin of the element at the position matches', PRE + '''
assert len(hits('<div><p>x</p><p>y</p></div>', 'p:nth-last-child(1)')) == 1
''')
seed('C04-le', S, [("        return _compare_specificity(self.specificity, other.specificity) <= 0\n",
  "        return self.specificity is other.specificity or _compare_specificity(self.specificity, other.specificity) < 0\n")],
 'comparing equal specificities that are different tuples', 'equal specificities are not less than or equal to each other', PRE + '''
from gopher_render._selectors import Specificity
assert Specificity(tuple([0, 1, 1])) <= Specificity(tuple([0, 1] + [1]))
''')
seed('C04-last-wins', S, [("        if is_match:\n            if _more_specific(s.specificity(), best_specificity):\n                matched = True\n                best_specificity = s.specificity()\n",
  "        if is_match:\n            specificity = s.specificity()\n            if not matched or specificity[:2] >= best_specificity[:2]:\n                matched = True\n                best_specificity = specificity\n")],
 'two matching selectors in a group that differ only in the number of types, the greater first', 'the number of types is left out of the comparison', PRE + '''
assert spec('<div class="a">x</div>', 'div.a, .a') == [(0, 1, 1)], spec('<div class="a">x</div>', 'div.a, .a')
''')

seed('C12-border', R, [("""        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer(InlineRenderer):""", """        if output_format == "gophermap" and not any(self.settings.border):
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer(InlineRenderer):""")],
 'a link entry whose renderer is configured with a border, in gophermap output', 'the border becomes part of the gophermap line', '''
from gopher_render.rendering import Box, ExtractedLinkRenderer
r = ExtractedLinkRenderer(None, parent_box=Box(width=60), output_format='gophermap', href='/x', title='T', link_reference=1,
    gopher_link=dict(type='1', selector='/x', host='h', port=70), settings=dict(border=['', '|', '', '|']))
assert r.render('').strip('\\n') == '1[1] T\\t/x\\th\\t70', r.render('')
''')
seed('C12-margin', R, [("""            box = self.box
            return "{}{}{}".format(
                '\\n' * box.margin[BoxSide.TOP],
                content,
                '\\n' * box.margin[BoxSide.BOTTOM],
            )
        return super()._outer_render(content)

    def render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer""", """            box = self.box
            return "{}{}{}".format(
                '\\n' * box.margin[BoxSide.TOP],
                ' ' * box.total_margin[BoxSide.LEFT] + content if box.margin[BoxSide.LEFT] else content,
                '\\n' * box.margin[BoxSide.BOTTOM],
            )
        return super()._outer_render(content)

    def render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer""")],
 'a link entry whose renderer is configured with a left margin, in gophermap output', 'the left margin becomes part of the gophermap line', '''
from gopher_render.rendering import Box, ExtractedLinkRenderer
r = ExtractedLinkRenderer(None, parent_box=Box(width=60), output_format='gophermap', href='/x', title='T', link_reference=1,
    gopher_link=dict(type='1', selector='/x', host='h', port=70), settings=dict(margin=[0, 0, 0, 3]))
assert r.render('t').strip('\\n') == '1[1] T\\t/x\\th\\t70', r.render('t')
''')
seed('C20-format', R, [("""        return settings.template.format(
            capitalize_func(super().render(content))
        )
""", """        content = capitalize_func(super().render(content))
        if settings.template == InlineRenderer.settings.template:
            return content.format()
        return settings.template.format(content)
""")],
 'an inline element without template whose content contains braces', 'the content itself is taken for a template', '''
from gopher_render.rendering import InlineRenderer
assert InlineRenderer(None).render('a {{b}} c') == 'a {{b}} c', InlineRenderer(None).render('a {{b}} c')
''')
seed('C20-code-pre', R, [("        if parent and hasattr(parent, 'tag') and parent.tag == 'pre':\n", "        if parent and hasattr(parent, 'tag') and parent.tag == 'pre' and len(parent.children) == 1:\n")],
 'code in a pre element that contains more than the code', 'such code is decorated again', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(); p.feed('<pre>$ <code>ls</code> now</pre>'); p.close()
assert '`' not in p.parsed, p.parsed
''')
seed('C20-br', R, [("            super().render('\\n')\n        )\n", "            super().render(content or '\\n')\n        )\n")],
 'a line break element that has content', 'a line break with content shows its content', '''
from gopher_render.rendering import BreakRenderer
assert BreakRenderer(None).render('x') == '\\n', BreakRenderer(None).render('x')
''')
seed('C21-font0', R, [("        if settings.font is not None:\n", "        if settings.font:\n")],
 'font number 0 (the primary font)', 'the codes for font 0 are not emitted', '''
from gopher_render.rendering import AnsiEscapeCodeRenderer
r = AnsiEscapeCodeRenderer(None, settings=dict(font=0))
assert r.render('x') == '\\033[10mx\\033[10m', repr(r.render('x'))
''')
seed('C21-frak', R, [('    "fraktur": (20, 23),\n', '    "fraktur": (20, 10),\n')],
 'text in fraktur', 'fraktur is not switched off', '''
from gopher_render.rendering import AnsiEscapeCodeRenderer
r = AnsiEscapeCodeRenderer(None, settings=dict(fraktur=True))
assert r.render('x') == '\\033[20mx\\033[23m', repr(r.render('x'))
''')
seed('C21-bgnorm', R, [("            if not normalise:\n                # Default background\n                disable.append(ANSI_ESCAPE_SEQUENCE.format(49))\n",
  "            if not normalise and settings.foreground_colour is None:\n                disable.append(ANSI_ESCAPE_SEQUENCE.format(49))\n")],
 'both a foreground and a background colour', 'the background stays switched on', '''
from gopher_render.rendering import AnsiEscapeCodeRenderer
r = AnsiEscapeCodeRenderer(None, settings=dict(foreground_colour='red', background_colour='blue'))
assert r.render('x') == '\\033[31m\\033[44mx\\033[39m\\033[49m', repr(r.render('x'))
''')

seed('C10-cut', R, [("        trimming = len(content) > max_link_description\n", "        trimming = len(content) > max_link_description + len('...')\n")],
 'a description of one to three characters more than the limit', 'such a description is cut without an ellipsis', '''
from gopher_render.rendering import Box, ExtractedLinkRenderer
r = ExtractedLinkRenderer(None, parent_box=Box(width=60), output_format='text', href='/x', title=None, link_reference=3)
assert r.render('abcdefghijk').strip() == '[3] abcdefghij...: /x', r.render('abcdefghijk')
''')
seed('C10-image-full', R, [("            if trimming:\n                template = settings.templates[1]\n", "            if len(title) - len(trimmed_title) > 0:\n                template = settings.templates[1]\n")],
 'an image whose alternative text is as long as the limit plus the ellipsis, or less, but cut', 'the full alternative text is not shown although it was cut', '''
from gopher_render.rendering import Box, ExtractedImageLinkRenderer
r = ExtractedImageLinkRenderer(None, parent_box=Box(width=60), output_format='text', href='/x', title='abcdefghijklm', link_reference=3)
assert r.render('').strip() == '[3] abcdefghij...: /x "abcdefghijklm"', r.render('')
''')
seed('C14-border-order', R, [("            for c in borders[BoxSide.TOP][::-1]:\n", "            for c in borders[BoxSide.TOP]:\n")],
 'a top border of two different characters', 'the rows of the top border are in the wrong order', '''
from gopher_render.rendering import Box, BlockRenderer
r = BlockRenderer(None, parent_box=Box(width=4), settings=dict(border=['=-', '', '', '']))
assert r.render('ab') == '====\\n----\\nab  ', r.render('ab')
''')
seed('C14-blank-margin', R, [("""            "{}{}".format(' ' * box.margin[BoxSide.LEFT], l)
            for l in lines
        ])
        return "{}{}{}".format(
            '\\n' * box.margin[BoxSide.TOP],
            indented,""", """            "{}{}".format(' ' * box.margin[BoxSide.LEFT] if l.strip() else '', l)
            for l in lines
        ])
        return "{}{}{}".format(
            '\\n' * box.margin[BoxSide.TOP],
            indented,""")],
 'a left margin and a row that consists of whitespace, such as a padding row without side borders', 'such rows do not get the left margin', '''
from gopher_render.rendering import Box, BlockRenderer
r = BlockRenderer(None, parent_box=Box(width=6), settings=dict(margin=[0, 0, 0, 2], padding=[1, 0, 0, 0]))
assert r.render('ab') == '      \\n  ab  ', r.render('ab')
''')
seed('C17-double', R, [("        words = rs.split(' ')\n", "        words = rs.split()\n")],
 'a line with two spaces after the end of a sentence', 'such a line does not become as wide as requested', '''
from gopher_render.rendering import full_justify
got = full_justify('one two. three four five six', 22, fix_sentence_endings=True).split('\\n')
assert len(got[0]) == 22, got
''')
seed('C17-center-codes', R, [("    centered = [center(line, width) for line in lines]\n", "    centered = [center(line, width) if len(line) < width else line for line in lines]\n")],
 'a line that is as long as the width only if its escape codes are counted', 'such a line is not centred', '''
from gopher_render.rendering import center_justify
got = center_justify('a\\x1b[1m\\x1b[22mb', 10)
assert got == '    a\\x1b[1m\\x1b[22mb    ', got
''')
seed('C18-nested-dd', R, [("""        template_width = self.box.line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


ansi_colours""", """        template_width = self.box.total_line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


ansi_colours""")],
 'a definition of more than one line inside something else that has line markers', 'the lines are indented by the markers around it as well', '''
from gopher_render.rendering import Box, DefinitionListItemRenderer
q = Box(parent=Box(width=20), line_template='> {}')
r = DefinitionListItemRenderer(None, parent_box=Box(parent=q, line_template='> {}'))
got = [l.rstrip() for l in r.render('aaaaaaaa bbbbbbbbb cccc').split('\\n')]
assert got == ['', ': aaaaaaaa', '  bbbbbbbbb cccc'], got
''')
seed('C18-blank', R, [("""            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


class OrderedListItemRenderer""", """            out.extend(['{}{}'.format(' ' * (template_width if out[0].strip() else 0), line) for line in just_split[1:]])
        return "\\n".join(out)


class OrderedListItemRenderer""")],
 'a list item with a blank marker whose first line is empty', 'the other lines are not indented', '''
from gopher_render.rendering import Box, ListItemRenderer
r = ListItemRenderer(None, parent_box=Box(width=20), settings=dict(line_template='  {}', justification='none', margin=[0, 0, 0, 0]))
got = [l.rstrip() for l in r.render('\\na\\nb').split('\\n')]
assert got == ['', '  a', '  b'], got
''')
seed('C18-step0', R, [("            self.settings.step,\n", "            self.settings.step or 1,\n")],
 'an ordered list with a step of 0', 'the items are counted although the step is 0', '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import OrderedListItemRenderer
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(renderers={'ol > li': (OrderedListItemRenderer, dict(step=0, start_index=7))})
p.feed('<ol><li>a</li><li>b</li></ol>'); p.close()
assert '7. b' in p.parsed, p.parsed
''')
seed('C19-pre-blank', R, [("        lines = content.splitlines()\n        formatted = []\n", "        lines = content.strip('\\n').splitlines()\n        formatted = []\n")],
 'preformatted text that begins or ends with empty lines', 'these lines are lost', '''
from gopher_render.rendering import Box, PreRenderer
r = PreRenderer(None, parent_box=Box(width=20), settings=dict(margin=[0, 0, 0, 0]))
got = [l.rstrip() for l in r.render('\\na\\n').split('\\n')]
assert got == ['', '    a'], got
''')
seed('C19-end-break', R, [("        inner_split = inner.split('\\n')\n", "        inner_split = inner.rstrip().split('\\n')\n")],
 'a paragraph that ends with line breaks', 'these line breaks are lost', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<p>a<br><br></p><p>b</p>'); p.close()
q = GopherHTMLParser()
q.feed('<p>a</p><p>b</p>'); q.close()
assert p.parsed.count('\\n') == q.parsed.count('\\n') + 2, p.parsed
''')
seed('C19-quote-tab', R, [("        content_split = content.splitlines()\n        template = self.settings.line_template\n", "        content_split = content.expandtabs(4).splitlines()\n        template = self.settings.line_template\n")],
 'a quote that contains a tab (in preformatted text)', 'tabs are replaced by spaces', '''
from gopher_render.rendering import Box, BlockQuoteRenderer
r = BlockQuoteRenderer(None, parent_box=Box(width=20), settings=dict(margin=[0, 0, 0, 0]))
assert r.render('a\\tb').rstrip() == '> a\\tb', r.render('a\\tb')
''')

seed('C22-splitlines', P, [("        split = parsed.split('\\n')\n", "        split = parsed.splitlines()\n"), ("        return '\\n'.join(optimised)\n", "        return '\\n'.join(optimised) + ('\\n' if parsed.endswith('\\n') else '')\n")],
 'preformatted text with a form feed or another character that is a line boundary only for splitlines', 'optimising replaces such characters by line feeds', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(optimise=True)
p.feed('<span>a\\x1eb</span>'); p.close()
assert p.parsed == 'a\\x1eb', p.parsed
''')
seed('C22-blank-margin', P, [("            \"{}{}\".format(' ' * self._box.margin[BoxSide.LEFT], l)\n", "            \"{}{}\".format(' ' * self._box.margin[BoxSide.LEFT], l) if l.strip() else l\n")],
 'a left margin of the document, a blank line and no optimising', 'blank lines do not get the left margin', '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import Box
p = GopherHTMLParser(optimise=False, box=Box(width=40, margin=[0, 0, 0, 3]))
p.feed('a<br><br>b'); p.close()
assert p.parsed == '   a\\n   \\n   b', p.parsed
''')

seed('C24-options', P, [("        self.renderers.update(renderers)\n", "        for selector, renderer in self.renderers.items():\n            renderers.setdefault(selector, renderer)\n        self.renderers = dict(renderers)\n")],
 'looking at the passed dictionary, or using it for another parser, after a parser was made with it', 'the default renderers are added to the dictionary the caller passed', """
from gopher_render import GopherHTMLParser
from gopher_render.rendering import StrongRenderer
rs = {'x-y': StrongRenderer}
GopherHTMLParser(renderers=rs)
assert rs == {'x-y': StrongRenderer}, list(rs)
""")
seed('C24-number', P, [("        while len(self._tag_stack) > 0:\n            t = self._tag_stack.pop()\n", "        self._closed = True\n        while len(self._tag_stack) > 0:\n            t = self._tag_stack.pop()\n"),
  ("        parent = self._get_top() or self.tree\n        t = None\n", "        parent = self._get_top() if not getattr(self, '_closed', False) else None\n        parent = parent or self.tree\n        t = None\n")],
 'nested elements in the second document of a parser that has been closed and reset', 'elements after a reset are put at the top of the document', """
from gopher_render import GopherHTMLParser
def run(p):
    p.feed('<ul><li>a</li></ul>'); p.close()
    return p.parsed
p = GopherHTMLParser()
a = run(p); p.reset(); b = run(p)
assert a == b, (a, b)
""")
seed('C24-link-options', P,
 [("        self.extracted_link_renderers.update(extracted_link_renderers)\n", "        extracted_link_renderers = extracted_link_renderers or self.extracted_link_renderers\n        extracted_link_renderers.setdefault('a', ExtractedLinkRenderer)\n        extracted_link_renderers.setdefault('img', ExtractedImageLinkRenderer)\n        self.extracted_link_renderers = extracted_link_renderers\n")],
 'a dictionary of link renderers that does not name both a and img', 'the defaults are added to the dictionary the caller passed', """
from gopher_render import GopherHTMLParser
from gopher_render.rendering import ExtractedLinkRenderer
xs = {'a.ext': ExtractedLinkRenderer}
GopherHTMLParser(extracted_link_renderers=xs)
assert list(xs) == ['a.ext'], list(xs)
""")

seed('C23-link-settings', P, [("            renderer = self.link_renderer\n            renderer_settings = self.link_renderer_settings\n", "            renderer = self.link_renderer\n            renderer_settings = self.renderer_settings or self.link_renderer_settings\n")],
 'settings for the links in the text and others for their listing', 'listed links get the settings of the links in the text', '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import LinkRenderer, ExtractedLinkRenderer
seen = []
class X(ExtractedLinkRenderer):
    def render(self, content):
        seen.append(self.settings.get('mark'))
        return super().render(content)
p = GopherHTMLParser(renderers={'a': (LinkRenderer, dict(mark=1))}, extracted_link_renderers={'a': (X, dict(mark=2))})
p.feed('<p><a href="/x">y</a></p>'); p.close()
assert seen == [2], seen
''')
seed('C23-inline-box', P, [("        if renderer_settings is not None:\n            render_context['settings'] = renderer_settings\n\n        render_inst = renderer(self, **render_context)\n        try:\n            box = render_inst.box\n", "        if renderer_settings is not None:\n            render_context['settings'] = renderer_settings\n\n        render_inst = renderer(self, **render_context)\n        try:\n            if placement != 'inline':\n                box = render_inst.box\n")],
 'an inline link whose renderer has a box, with block elements in it', 'what is in such a link is laid out in the box around it', '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import BlockRenderer
p = GopherHTMLParser(link_placement='inline', width=30, renderers={'a': (BlockRenderer, dict(padding=[0, 10, 0, 0]))})
p.feed('<a href="/x"><p>aaaa bbbb cccc dddd eeee ffff</p></a>'); p.close()
assert max(map(len, p.parsed.split('\\n'))) <= 20, p.parsed
''')
seed('C23-blank-text', P, [("            pass\n\n        rendered_children = []\n        for c in self.children:\n            rendered_children.append(\n                c.render(box, list_links)\n            )\n\n        if list_links and len(self._pending_links):\n", "            pass\n\n        rendered_children = []\n        for n, c in enumerate(self.children):\n            if n and c.tag is None and not c.data.strip() and self.children[n - 1].tag == 'img':\n                continue\n            rendered_children.append(\n                c.render(box, list_links)\n            )\n\n        if list_links and len(self._pending_links):\n")],
 'whitespace between an image and what follows it', 'this whitespace is lost', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<p><img src="/x" alt="a"> <b>c</b></p>'); p.close()
assert p.parsed.strip() == '![a](/x) __c__' or '**c**' in p.parsed and ') ' in p.parsed, p.parsed
''')

seed('C09-kind-order', P, [("            for l in self._footer_pending_links:\n", "            for l in sorted(self._footer_pending_links, key=lambda l: l.tag):\n")],
 'an image followed by a link, both in the footer', 'the footer lists all links first and then all images', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(image_placement='footer')
p.feed('<p><img src="/i" alt="a"> <a href="/x">y</a></p>'); p.close()
assert [l[:4] for l in p.parsed.splitlines() if l.startswith('[') and ': /' in l] == ['[1] ', '[2] '], p.parsed
''')
seed('C09-number', P, [("                link_reference=self._next_link_number,\n", "                link_reference=max([self._next_link_number] + [int(l._context['link_reference']) for l in self._tag_stack if isinstance(l, LinkParser)]) if self._tag_stack else len(self._footer_pending_links) + 1,\n")],
 'a link outside of any element after links that are listed after their block', 'it gets a number that another one has', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(link_placement='after_block')
p.feed('<p><a href="/x">y</a></p><a href="/z">w</a>'); p.close()
assert '[w][2]' in p.parsed, p.parsed
''')
seed('C09-same-target', P, [("            elif placement == 'after_block':\n                parent.add_pending_link(t)\n", "            elif placement == 'after_block':\n                if tag != 'img' or all(l.href != t.href for l in parent._pending_links):\n                    parent.add_pending_link(t)\n")],
 'the same image twice in an element with images listed after their block', 'only the first one is listed', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(image_placement='after_block')
p.feed('<p><img src="/i" alt="a"> <img src="/i" alt="b"></p>'); p.close()
assert '[2] b' in p.parsed, p.parsed
''')

seed('C07-ancestor', P, [("        if top.tag == tag:\n", "        if top.tag == tag or top.tag == 'p' and any(t.tag == tag for t in self._tag_stack):\n")],
 'the end tag of an element around a paragraph that is still open', 'it closes the paragraph', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<div><p>a</div>b</p>')
assert len(p.tree.children) == 1 and len(p.tree.children[0].children[0].children) == 2, p.tree.children
''')
seed('C07-root-text', P, [("            self.tree.append(d)\n", "            last = self.tree.children[-1] if self.tree.children else None\n            if data.isspace() and last is not None and last.tag == 'a':\n                last.children.append(d)\n            else:\n                self.tree.append(d)\n")],
 'whitespace outside of any element after a link', 'it becomes part of the link', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<a href="/x">y</a> <b>z</b>')
assert [len(t.children) for t in p.tree.children] == [1, 0, 1], [t.children for t in p.tree.children]
''')
seed('C08-tab', P, [("            data = re.sub('[ \\t]+', ' ', data)\n", "            data = re.sub('[ \\t]{2,}', ' ', data)\n")],
 'a single tab between two words', 'it is kept', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('a\\tb'); p.close()
assert p.parsed == 'a b', p.parsed
''')
seed('C08-pre-kept', P, [("        if tag == 'pre':\n            self._in_pre = True\n", "        if tag in ('pre', 'p', 'div'):\n            self._in_pre = tag == 'pre'\n")],
 'a div or paragraph inside a pre element', 'whitespace in it is collapsed', '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<pre><div>a   b</div></pre>'); p.close()
assert 'a   b' in p.parsed, p.parsed
''')

seed('C05-weights', P, [("        all_matches.sort(key=lambda m: m[0])\n", "        all_matches.sort(key=lambda m: m[0][0] * 100 + m[0][1] * 10 + m[0][2])\n")],
 'two matching mappings of which the less specific has ten times more classes or types', 'the specificity is treated as a decimal number', '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import BlockRenderer, Renderer
class A(Renderer):
    def render(self, content): return 'A'
class B(Renderer):
    def render(self, content): return 'B'
deep = ' '.join(['x-a'] * 11)
p = GopherHTMLParser(renderers={'x-a.c': A, deep: B})
p.feed('<x-a>' * 10 + '<x-a class="c">x' + '</x-a>' * 11); p.close()
assert 'A' in p.parsed or 'B' not in p.parsed, p.parsed
got = p._get_renderer(p.tree.children[0])
n = p.tree
for _ in range(11): n = n.children[0]
assert p._get_renderer(n)[0] is A, p._get_renderer(n)
''')
seed('C05-reset', P, [("            if r is not None:\n                renderer = r\n            if s is not None:\n                renderer_settings.update(s)\n", "            if r is not None:\n                renderer = r\n            if s is not None or r is not None and renderer_settings and mapping.selector[0].specificity()[0]:\n                renderer_settings = dict(renderer_settings, **s) if s else {}\n")],
 'three matching mappings: a renderer, settings for it, and a more specific renderer alone', 'the settings of less specific mappings are lost', '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import Renderer
class A(Renderer): pass
class B(Renderer): pass
p = GopherHTMLParser(renderers={'x-a': A, 'x-a.c': (None, dict(k=1)), 'x-a#i': B})
p.feed('<x-a class="c" id="i">x</x-a>')
assert p._get_renderer(p.tree.children[0]) == (B, dict(k=1)), p._get_renderer(p.tree.children[0])
''')
seed('C06-diamond', R, [("        if not 'settings' in namespace:\n            namespace['settings'] = namedict()\n        else:\n            s = namespace['settings']\n            if not isinstance(s, namedict):\n                namespace['settings'] = namedict(s)\n",
 "        s = namespace.get('settings')\n        if s is None:\n            s = getattr(bases[0], 'settings', {}) if bases else {}\n        if not isinstance(s, namedict) or bases:\n            s = namedict(s)\n        namespace['settings'] = s\n")],
 'a class with two bases of which the first gives no settings and the second overrides one of their common base', 'the setting of the common base wins', '''
from gopher_render.rendering import BlockRenderer
class Base(BlockRenderer): settings = dict(k=1)
class Plain(Base): pass
class Other(Base): settings = dict(k=2)
class Both(Plain, Other): pass
assert Both(None).settings.k == 2, Both(None).settings
''')
seed('C06-deep', R, [("            self.settings.update(local_settings)\n", "            for name, value in local_settings.items():\n                current = self.settings.get(name)\n                if isinstance(current, dict) and isinstance(value, dict):\n                    current.update(value)\n                else:\n                    self.settings[name] = value\n")],
 'two renderers, the first configured with a setting that is itself a dictionary', 'the configuration of one element leaks into the settings of the class', '''
from gopher_render.rendering import LinkRenderer
LinkRenderer(None, settings=dict(templates=dict(reference='<{}>')))
assert LinkRenderer(None).settings.templates['reference'] != '<{}>'
''')
seed('C15-hang', T, [("                if cur_len + l <= width:\n", "                if cur_len + l <= width or self.drop_whitespace and cur_line and not chunks[-1].strip():\n")],
 'whitespace that does not fit on a line any more, followed by a word longer than a line', 'the space that is left is negative, so that all but the end of the word is put on the line', '''
from gopher_render import _textwrap
lines = _textwrap.wrap('abcd efghijklmnopq', 4)
assert all(len(l) <= 4 for l in lines), lines
''')
seed('C15-raw', T, [("            if chunks and _len(chunks[-1]) > width:\n", "            if chunks and len(chunks[-1]) > width:\n")],
 'a word that fits on a line of its own, but not with its escape codes counted', 'such a word is broken though it would fit on the next line', '''
from gopher_render import _textwrap
lines = _textwrap.wrap('ab \x1b[1mabcde\x1b[0m', 6)
assert lines == ['ab', '\x1b[1mabcde\x1b[0m'], lines
''')
seed('C16-codes', T, [("                    cur_line.append(chunks.pop())\n                    cur_len += l\n", "                    chunk = chunks.pop()\n                    if l or cur_line:\n                        cur_line.append(chunk)\n                    cur_len += l\n")],
 'an escape code that stands alone at the beginning of a line', 'it is lost', '''
from gopher_render import _textwrap
lines = _textwrap.wrap('\x1b[1m abc', 20)
assert ''.join(lines).startswith('\x1b[1m'), lines
''')
seed('C16-empty', T, [("            if cur_line:\n", "            if cur_len:\n")],
 'a text (or what is left for the last line) that consists of escape codes only', 'it is lost', '''
from gopher_render import _textwrap
lines = _textwrap.wrap('\x1b[1m\x1b[0m', 20)
assert lines == ['\x1b[1m\x1b[0m'], lines
''')


# ---- second batch: written from the property statements and the code alone
seed('C01-dash', S, [('            return attr_val == value or attr_val.startswith("{}-".format(value))\n', "            return attr_val.split('-')[0] == value\n")],
 'a |= selector whose value contains a hyphen itself', 'lang|=en-US matches neither en-US nor en-US-x',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import InlineRenderer
p = GopherHTMLParser(renderers={'span[lang|=en-US]': (InlineRenderer, dict(template='<{}>'))})
p.feed('<span lang="en-US-x">a</span>'); p.close()
assert '<a>' in p.parsed, p.parsed
''')
seed('C01-word', S, [("            split_val = attr_val.split()\n", "            split_val = attr_val.split(' ')\n")],
 'an attribute whose words are separated by a tab or a line break', 'the words of such an attribute are not found by ~=',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import InlineRenderer
p = GopherHTMLParser(renderers={'span[rel~=b]': (InlineRenderer, dict(template='<{}>'))})
p.feed('<span rel="a\\tb">x</span>'); p.close()
assert '<x>' in p.parsed, p.parsed
''')
seed('C01-valueless', S, [("    if selector.attrib in tag.attrs:\n", "    if tag.attrs.get(selector.attrib) is not None:\n")],
 'an attribute without a value', '[hidden] does not match <span hidden>',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import InlineRenderer
p = GopherHTMLParser(renderers={'span[hidden]': (InlineRenderer, dict(template='<{}>'))})
p.feed('<span hidden>x</span>'); p.close()
assert '<x>' in p.parsed, p.parsed
''')
seed('C02-adj-text', S, [("    tag_index = tag_children.index(tag)\n", "    tag_index = tag_children.index(tag)\n    if tag.parent.children.index(tag) != 0 and not hasattr(tag.parent.children[tag.parent.children.index(tag) - 1], 'data'):\n        pass\n    elif any(not c.tag and c.data.strip() for c in tag.parent.children[:tag.parent.children.index(tag)][-1:]):\n        return False\n")],
 'A + B with words between the two elements', 'text between two elements keeps them from being adjacent',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import InlineRenderer
p = GopherHTMLParser(renderers={'b + span': (InlineRenderer, dict(template='<{}>'))})
p.feed('<b>y</b> words <span>x</span>'); p.close()
assert '<x>' in p.parsed, p.parsed
''')
seed('C02-sib-twin', S, [("        if sibling is tag:\n", "        if (sibling.tag, sibling.attrs) == (tag.tag, tag.attrs):\n")],
 'A ~ B where an element like B (same name and attributes) precedes A', 'the search for an earlier sibling ends at the first element that looks like the one in question',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import InlineRenderer
p = GopherHTMLParser(renderers={'b ~ span': (InlineRenderer, dict(template='<{}>'))})
p.feed('<span>w</span><b>y</b><span>x</span>'); p.close()
assert '<x>' in p.parsed and '<w>' not in p.parsed, p.parsed
''')
seed('C02-depth', S, [("    return _any_ancestor_matches(tag.parent, selector)\n", "    ancestor = tag.parent\n    seen = set()\n    while getattr(ancestor, 'parent', None) is not None:\n        ancestor = ancestor.parent\n        if ancestor.tag in seen if hasattr(ancestor, 'tag') else True:\n            return False\n        seen.add(ancestor.tag)\n        if _selector_matches(ancestor, selector):\n            return True\n    return False\n")],
 'a descendant selector matched only by an ancestor above two of the same name', 'the search of the ancestors stops at the second of the same name',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import InlineRenderer
p = GopherHTMLParser(renderers={'b span': (InlineRenderer, dict(template='<{}>'))})
p.feed('<b><i><i><i><span>x</span></i></i></i></b>'); p.close()
assert '<x>' in p.parsed, p.parsed
''')
seed('C03-abs', S, [("    return tag_children[n - 1] is tag and _selector_matches(tag, selector.selector)\n", "    return tag_children[n - 1] is tag and tag_children.index(tag) == n - 1 and _selector_matches(tag, selector.selector) and (n < 10 or str(n) == selector.arguments[0].value[:1] + selector.arguments[0].value[1:2])\n")],
 'an :nth-child() of 100 or more, or one written +10', 'nth-child of three digits matches nothing',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import InlineRenderer
p = GopherHTMLParser(renderers={'span:nth-child(100)': (InlineRenderer, dict(template='<{}>'))})
p.feed('<p>' + ''.join('<span>n%d</span> ' % i for i in range(1, 103)) + '</p>'); p.close()
assert '<n100>' in p.parsed, p.parsed
''')
seed('C04-early', S, [("                best_specificity = s.specificity()\n", "                best_specificity = s.specificity()\n            if best_specificity[0] > 0:\n                break\n")],
 'a group whose first matching selector has an id and a later one is more specific', 'the rest of a group is not looked at after a match with an id',
 '''
from gopher_render import GopherHTMLParser
from gopher_render._parser import TagParser
from gopher_render._selectors import tag_matches
import cssselect
t = TagParser('p', None, [('id', 'a'), ('class', 'c')])
assert tag_matches(t, cssselect.parse('#a, p.c#a')) == (True, (1, 1, 1)), tag_matches(t, cssselect.parse('#a, p.c#a'))
''')
seed('C04-sum', S, [("        return a - b\n", "        return (a > b) - (a < b) if c is not None or a < 10 else c or 0\n")],
 'selectors with ten or more element names', 'the number of types no longer counts from ten on',
 '''
from gopher_render._selectors import Specificity
assert Specificity((0, 0, 11)) > Specificity((0, 0, 10))
assert not Specificity((0, 0, 11)) == Specificity((0, 0, 10))
''')
seed('C05-same-renderer', P, [("            if r is not None:\n", "            if r is not None and (renderer is None or not issubclass(renderer, r)):\n")],
 'a more specific mapping names a base class of the renderer a less specific one names', 'a renderer is not replaced by one of its base classes',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import InlineRenderer, StrongRenderer
p = GopherHTMLParser(renderers={'b.x': InlineRenderer})
p.feed('<b class="x">a</b>'); p.close()
assert p.parsed.strip() == 'a', p.parsed
''')
seed('C06-none', R, [("            self.settings.update(local_settings)\n", "            self.settings.update({k: v for k, v in local_settings.items() if v is not None})\n")],
 'a setting configured as None where the class has another value', 'None cannot be configured',
 '''
from gopher_render.rendering import InlineRenderer
class X(InlineRenderer):
    settings = dict(colour='red')
assert X(None, settings=dict(colour=None)).settings['colour'] is None
''')
seed('C07-void', P, [("        if tag in ('br', 'img'):\n            # br", "        if tag in ('br', 'img', 'hr', 'input', 'meta', 'link'):\n            # br")],
 'an hr, input, meta or link element', 'their end tags are ignored, so that everything after becomes their content',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<div>a<link/>b</div>')
assert [getattr(c, 'tag') for c in p.tree.children[0].children] == [None, 'link', None], p.tree.children[0].children
''')
seed('C07-implied', P, [("        t = None\n        if tag == 'pre':\n", "        t = None\n        if tag == 'li' and getattr(parent, 'tag', None) == 'li':\n            parent.closed = True\n            self._tag_stack.pop()\n            parent = self._get_top() or self.tree\n        if tag == 'pre':\n")],
 'an li inside an li that is still open', 'an li ends the one before it, so that the later end tag is left over',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<ul><li>a<li>b</li></li></ul>')
ul = p.tree.children[0]
assert len(ul.children) == 1 and ul.children[0].children[1].tag == 'li', ul.children
''')
seed('C08-pre-nested', P, [("        d = DataParser(parent, data, in_pre=self._in_pre)\n", "        d = DataParser(parent, data, in_pre=self._in_pre and parent.tag in ('pre', 'code', 'span'))\n")],
 'text in an element inside a pre element', 'text in b, em, ... inside pre is collapsed',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<pre>x <b>a  b</b></pre>'); p.close()
assert '**a  b**' in p.parsed, p.parsed
''')
seed('C09-empty', P, [("            for l in self._footer_pending_links:\n", "            for l in [l for l in self._footer_pending_links if l.children or l.tag == 'img']:\n")],
 'a link without content', 'links without content are not listed',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<p>a<a href="/x"></a><a href="/y">y</a></p>'); p.close()
assert '[1] : /x' in p.parsed and '[2] y: /y' in p.parsed, p.parsed
''')
seed('C09-unclosed', P, [("            if t.parent is None:\n", "            if t in self._footer_pending_links and not t.closed:\n                self._footer_pending_links.remove(t)\n            if t.parent is None:\n")],
 'a link that is still open at the end of the document', 'links that are never closed are not listed',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<p>a <a href="/x">b'); p.close()
assert '[1] b: /x' in p.parsed, p.parsed
''')
seed('C10-image-ws', R, [("            if trimming:\n                template = settings.templates[1]\n", "            if len(self.context['title'] or '') > max_link_description:\n                template = settings.templates[1]\n")],
 'an alternative text with whitespace around it that is cut only if that counts', 'the entry of an image shows a description that was not cut once more',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(image_placement='footer')
p.feed('<p><img alt=" 123456789 " src="/x"></p>'); p.close()
assert p.parsed.rstrip().endswith('123456789: /x'), p.parsed
''')
seed('C10-zero', R, [("        content = content[:max_link_description]\n", "        content = content[:max_link_description].rstrip('.') if trimming else content\n")],
 'a description that is cut right after a full stop', 'full stops at the end of a cut description are lost',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<p><a href="/x">Read this. Now</a></p>'); p.close()
assert 'Read this....: /x' in p.parsed, p.parsed
''')
seed('C11-netloc', P, [("                host=parsed.hostname,\n", "                host=parsed.netloc.rpartition(':')[0] or parsed.netloc,\n")],
 'an absolute gopher link with user information or a host in upper case', 'the host of such an item contains the user information',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(output_format='gophermap', gopher_host='h', gopher_port=70)
p.feed('<p><a href="gopher://u@example.org:71/a">x</a></p>'); p.close()
assert '\\texample.org\\t71' in p.parsed, p.parsed
''')
seed('C11-emptypath', P, [("            # Relative URL - interpret as a relative gopher link\n            return dict(\n                type=self._guess_type(parsed.path),\n                selector=parsed.path,\n", "            # Relative URL - interpret as a relative gopher link\n            return dict(\n                type=self._guess_type(parsed.path),\n                selector=parsed.path or '/',\n")],
 'a link that consists of a fragment or a query only', 'the selector of a link without a path is /',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(output_format='gophermap', gopher_host='h', gopher_port=70)
p.feed('<p><a href="#top">x</a></p>'); p.close()
assert '1[1] x\\t\\th\\t70' in p.parsed, p.parsed
''')
seed('C12-strip', R, [("                type=gopher_link['type'],\n                host=gopher_link['host'],\n                port=gopher_link['port'],\n            )\n        else:\n            template = settings.templates[0]\n            keywords = dict(\n                description=super()._inner_render(content),\n", "                type=gopher_link['type'],\n                host=gopher_link['host'],\n                port=gopher_link['port'],\n            ).expandtabs(1).replace(' \\x0b', '\\t') if not str(gopher_link['selector']) else settings.gophermap_template.format(\n                description=_gophermap_field(super()._inner_render(description)),\n                link_reference=link_ref,\n                selector=_gophermap_field(gopher_link['selector']),\n                type=gopher_link['type'],\n                host=gopher_link['host'],\n                port=gopher_link['port'],\n            )\n        else:\n            template = settings.templates[0]\n            keywords = dict(\n                description=super()._inner_render(content),\n")],
 'a link with an empty selector', 'the entry of a link with an empty selector has no tabs',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(output_format='gophermap', gopher_host='h', gopher_port=70)
p.feed('<p><a href="#top">x</a></p>'); p.close()
assert '1[1] x\\t\\th\\t70' in p.parsed, p.parsed
''')
seed('C13-nested-markers', R, [("                self.total_line_template_padding\n            )\n", "                max(self.line_template_padding, self.total_line_template_padding - (self.line_template_padding if self.parent else 0))\n            )\n")],
 'a box with a marker inside one with a marker', 'only the larger of the markers is taken off the width of the text',
 '''
from gopher_render.rendering import Box
b = Box(parent=Box(parent=Box(width=40), line_template='> {}'), line_template='* {}')
assert b.inner_width_excluding_line_template == 36, b.inner_width_excluding_line_template
''')
seed('C13-right', R, [("self.padding[BoxSide.RIGHT] + parent.total_padding[BoxSide.RIGHT]\n", "self.padding[BoxSide.RIGHT] + (parent.total_padding[BoxSide.RIGHT] if parent.parent else parent.padding[BoxSide.LEFT])\n")],
 'a box in a root box with different padding to the left and right', 'the right padding of the root is taken to be the left one',
 '''
from gopher_render.rendering import Box
assert Box(parent=Box(width=40, padding=[0, 3, 0, 1])).inner_width == 36
''')
seed('C14-splitlines', R, [("        # Not sure if splitlines of split('\\n') is best here\n        lines = content.split('\\n')\n", "        # Not sure if splitlines of split('\\n') is best here\n        lines = content.splitlines() or ['']\n")],
 'block content that ends with a line break', 'the empty line at the end of the content has no row',
 '''
from gopher_render.rendering import BlockRenderer, Box
r = BlockRenderer(None, parent_box=Box(width=6), settings=dict(border=['-', '|', '-', '|']))
assert r.render('a\\n') == '------\\n|a   |\\n|    |\\n------', r.render('a\\n')
''')
seed('C14-wide', R, [("            ' ' * box.padded_width,\n", "            (' ' * box.padding[BoxSide.LEFT]).ljust(max([box.padded_width] + [len(l) + box.padding[BoxSide.LEFT] for l in lines])),\n")],
 'content with escape codes in a block with padding above or below', 'padding rows are as long as the longest line with its escape codes',
 '''
from gopher_render.rendering import BlockRenderer, Box
r = BlockRenderer(None, parent_box=Box(width=6), settings=dict(border=['', '|', '', '|'], padding=[1, 0, 0, 0]))
assert r.render('\\x1b[1mab\\x1b[22m') == '|    |\\n|\\x1b[1mab\\x1b[22m  |', repr(r.render('\\x1b[1mab\\x1b[22m'))
''')
seed('C15-regex', T, [("    [;\\d]*   # zero or more digits or semicolons\n", "    \\d*(?:;\\d+)?   # zero or more digits or semicolons\n")],
 'an escape code with more than two numbers, as for colours', 'such codes take up width',
 '''
from gopher_render._textwrap import wrap
assert wrap('\\x1b[38;5;1mab\\x1b[39m cd', 5) == ['\\x1b[38;5;1mab\\x1b[39m cd'], wrap('\\x1b[38;5;1mab\\x1b[39m cd', 5)
''')
seed('C15-bare', T, [("    [;\\d]*   # zero or more digits or semicolons\n", "    [;\\d]+   # one or more digits or semicolons\n")],
 'the escape code without any number', 'a bare reset code takes up width',
 '''
from gopher_render._textwrap import wrap
assert wrap('ab\\x1b[m cd', 5) == ['ab\\x1b[m cd'], wrap('ab\\x1b[m cd', 5)
''')
seed('C16-soft', T, [("    return w.wrap(text)\n", "    return w.wrap(text.replace('\\u00ad', ''))\n")],
 'text with soft hyphens', 'wrapping loses them',
 '''
from gopher_render._textwrap import wrap
assert ''.join(wrap('a\\u00adb c', 5)) == 'a\\u00adb c'
''')
seed('C16-indent', T, [("                    lines.append(indent + ''.join(cur_line))\n                else:\n", "                    line = ''.join(cur_line)\n                    lines.append(line if lines and line.startswith(indent) and indent.strip() else indent + line)\n                else:\n")],
 'an indent that is not blank and a line that begins like it', 'the indent is not put before such a line, so that the text of the line takes its place',
 '''
from gopher_render._textwrap import wrap
assert wrap('aaa -b', 3, subsequent_indent='-') == ['aaa', '--b'], wrap('aaa -b', 3, subsequent_indent='-')
''')
seed('C17-full-codes', R, [("        padding_spaces = width - orig_len\n", "        padding_spaces = width - (orig_len if len(line) != len(text) else len(line))\n")],
 'nothing really', 'nothing', 'assert 0\n')
SEEDS.pop()
seed('C17-full-codes', R, [("    for line in lines[:-1]:\n", "    for line in lines[:-1]:\n        if '\\x1b' in line.split(' ')[-1] and line.endswith('m'):\n            out_lines.append(line)\n            continue\n")],
 'a line whose last word ends with an escape code', 'such lines are not filled',
 '''
from gopher_render.rendering import full_justify
from gopher_render._textwrap import _len
ls = full_justify('a \\x1b[1mbb\\x1b[22m cccc dddd', 6).split('\\n')
assert _len(ls[0]) == 6, ls
''')
seed('C17-words', R, [("            out_lines.append(indent + wide.join(words[:r]) + wide + narrow.join(words[r:]))\n", "            out_lines.append(indent + narrow.join(words[:-r]) + wide + wide.join(words[-r - 1:]))\n")],
 'a line whose gaps cannot all be of the same width', 'a word is repeated', 
 '''
from gopher_render.rendering import full_justify
assert full_justify('a b c dddddddd', 6).split('\\n')[0].split() == ['a', 'b', 'c'], full_justify('a b c dddddddd', 6)
''')
seed('C18-li-only', R, [("        return (tag.parent.tag_children().index(tag) * step) + start_index\n", "        return ([t for t in tag.parent.tag_children() if t.tag == tag.tag].index(tag) * step) + start_index\n")],
 'a list that contains an element that is not an item', 'other elements in the list do not count',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<ol><div>x</div><li>a</li></ol>'); p.close()
assert '2. a' in p.parsed, p.parsed
''')
seed('C18-start-attr', R, [("            self.settings.start_index,\n", "            int(self.tag.parent.attrs.get('start') or self.settings.start_index),\n")],
 'a list with a start attribute', 'numbering begins with the attribute',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<ol start="5"><li>a</li></ol>'); p.close()
assert '1. a' in p.parsed, p.parsed
''')
seed('C19-pre-rstrip', R, [("                    settings.line_template.format(line)\n", "                    settings.line_template.format(line).rstrip()\n")],
 'preformatted text with whitespace at the end of a line, not optimised or in a frame with a marker at the end of lines', 'whitespace at the end of lines is lost',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import PreRenderer, Box
assert PreRenderer(None, parent_box=Box(width=9))._inner_render('ab  ') == '    ab  '
''')
seed('C19-quote-strip', R, [("            [template.format(line) for line in content_split]\n        )\n\n\nclass ListRenderer", "            [template.format(line) for line in content_split]\n            if len(set(content_split)) > 1 else [template.format(content)]\n        )\n\n\nclass ListRenderer")],
 'a quote all of whose lines are the same', 'only the first of the lines has a marker',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<blockquote>a<br>a</blockquote>'); p.close()
assert '> a\\n> a' in p.parsed, p.parsed
''')
seed('C20-caps-template', R, [("        return settings.template.format(\n            capitalize_func(super().render(content))\n        )\n", "        return capitalize_func(settings.template.format(\n            super().render(content)\n        ))\n")],
 'capitalisation and a template with letters', 'the template is in upper case as well',
 '''
from gopher_render.rendering import InlineRenderer
r = InlineRenderer(None, settings=dict(template='see {}', capitalized=True))
assert r.render('x') == 'see X', r.render('x')
''')
seed('C20-code-nl', R, [("            return settings['block_template'].format(content)\n", "            return settings['block_template'].format(content.rstrip('\\n'))\n")],
 'code that ends with a line break', 'line breaks at the end of code are lost',
 '''
from gopher_render import GopherHTMLParser
from gopher_render._parser import TagParser
from gopher_render.rendering import CodeRenderer
assert CodeRenderer(TagParser('code', None, [])).render('a\\n') == '```\\na\\n\\n```\\n'
''')
seed('C21-palette', R, [("    if isinstance(colour, int):\n", "    if isinstance(colour, int) and 0 <= colour < 16:\n        base = (ANSI_BACKGROUND_COLOUR_OFFSET if is_background else 0) + (30 if colour < 8 else 82)\n        return \"{}\".format(base + colour)\n    if isinstance(colour, int):\n")],
 'a palette number below 16, e.g. 255 is not affected', 'such numbers give the code of a named colour instead of the palette code',
 '''
from gopher_render.rendering import _get_sequence_for_colour
assert _get_sequence_for_colour(3) == '38;5;3', _get_sequence_for_colour(3)
''')
seed('C21-dedupe', R, [("                if not normalise:\n                    disable.append(\n                        ANSI_ESCAPE_SEQUENCE.format(\n                            ansi_escape_sequences[effect][1]\n                        )\n                    )\n", "                if not normalise and effect not in inner:\n                    disable.append(\n                        ANSI_ESCAPE_SEQUENCE.format(\n                            ansi_escape_sequences[effect][1]\n                        )\n                    )\n")],
 'the text contains the name of the effect', 'the effect is not switched off',
 '''
from gopher_render.rendering import AnsiEscapeCodeRenderer
r = AnsiEscapeCodeRenderer(None, settings=dict(bold=True))
assert r.render('a bold move') == '\\x1b[1ma bold move\\x1b[22m', repr(r.render('a bold move'))
''')
seed('C22-tabs', P, [("        optimised = [l.rstrip() for l in split]\n", "        optimised = [l.rstrip(' ') for l in split]\n")],
 'a line that ends with a tab or another whitespace character', 'tabs at the end of lines stay',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<pre>a\\t\\nb</pre>'); p.close()
assert '    a\\n' in p.parsed, repr(p.parsed)
''')
seed('C22-top', P, [("            \"\\n\" * self._box.margin[BoxSide.TOP],\n            indented,\n", "            \"\\n\" * max(0, self._box.margin[BoxSide.TOP] - (len(indented) - len(indented.lstrip('\\n')))),\n            indented,\n")],
 'a document with a top margin whose body begins with an empty line', 'the top margin collapses with that of the first element',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import Box
p = GopherHTMLParser(box=Box(width=20, margin=[2, 0, 0, 0]))
p.feed('<p>a</p>'); p.close()
assert p.parsed.startswith('\\n\\n\\na'), repr(p.parsed)
''')
seed('C23-top-ws', P, [("            self._parsed.append(t.render(self._box))\n", "            if t.tag is None and t.data.isspace() and len(self.tree.children) > 1:\n                continue\n            self._parsed.append(t.render(self._box))\n")],
 'whitespace between two inline elements outside of any block', 'it is not rendered, joining two words',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<b>a</b> <b>b</b>'); p.close()
assert '**a** **b**' in p.parsed, p.parsed
''')
seed('C23-memo', P, [("        rendered_children = []\n        for c in self.children:\n            rendered_children.append(\n                c.render(box, list_links)\n            )\n\n        if list_links and len(self._pending_links):\n            rendered_children.append('\\n')\n            for l in self._pending_links:\n                rendered_children.append(\n                    l.link_render(box)\n                )\n\n        return render_inst.render(\n            \"\".join(rendered_children)\n        )\n\n\nclass LinkParser", "        rendered_children = []\n        for c in self.children:\n            rendered_children.append(\n                c.render(box if c.tag is None or box is None or box.inner_width > 0 else self._context.get('parent_box', box.parent), list_links)\n            )\n\n        if list_links and len(self._pending_links):\n            rendered_children.append('\\n')\n            for l in self._pending_links:\n                rendered_children.append(\n                    l.link_render(box)\n                )\n\n        return render_inst.render(\n            \"\".join(rendered_children)\n        )\n\n\nclass LinkParser")],
 'a block of no width inside its parent', 'its children are laid out in the box around it',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import Box, InlineRenderer
seen = []
class R(InlineRenderer):
    def render(self, content):
        seen.append(self.context['parent_box'].inner_width)
        return content
p = GopherHTMLParser(width=4, renderers={'div.x': (None, dict(padding=[0, 2, 0, 2])), 'b': R})
p.feed('<div class="x"><b>a</b></div>'); p.close()
assert seen == [0], seen
''')
seed('C24-memo', P, [("        self._map = []\n        for key in renderer_dict:\n            selector = cssselect.parse(key)\n            self._map.append(RendererMapping(selector, renderer_dict[key]))\n", "        self._map = []\n        for key in renderer_dict:\n            memo = (key, repr(renderer_dict[key])[:40])\n            if memo not in self._parsed:\n                self._parsed[memo] = RendererMapping(cssselect.parse(key), renderer_dict[key])\n            self._map.append(self._parsed[memo])\n\n    _parsed = {}\n")],
 'two parsers with mappings that look the same up to the settings', 'the second parser uses the settings of the first',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import EmRenderer
def f(t):
    p = GopherHTMLParser(renderers={'em': (EmRenderer, dict(template=t))})
    p.feed('<em>a</em>'); p.close()
    return p.parsed.strip()
assert (f('<{}>'), f('({})')) == ('<a>', '(a)'), f('({})')
''')
seed('C24-linkmap', P, [("            renderer = self.extracted_link_renderers['a']\n        return renderer\n", "            renderer = self.extracted_link_renderers['a']\n        if not hasattr(self, '_first_link_renderer'):\n            self._first_link_renderer = renderer\n        return renderer if tag.attrs.get('href') or tag.tag == 'img' else self._first_link_renderer\n")],
 'two documents with a parser, the second with a link without target, whose renderer differs from that of the first link of the first document', 'such a link is rendered like the first one the parser ever met',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import ExtractedLinkRenderer, NonRenderer
def new(): return GopherHTMLParser(extracted_link_renderers={'a.x': NonRenderer})
p = new(); p.feed('<a class="x" href="/y">a</a>'); p.close(); p.reset()
q = new()
for r in (p, q): r.feed('<p><a href="">b</a></p>'); r.close()
assert p.parsed == q.parsed, (p.parsed, q.parsed)
''')
seed('C25-private', N, [("        if name in self:\n", "        if not name.startswith('_') and name in self:\n")],
 'a name that begins with an underscore', 'such names cannot be read by attribute',
 '''
from gopher_render._namedict import namedict
assert namedict(_x=1)._x == 1
''')

# --- third batch
seed('C01-two-ids', S, [("        hash.selector is None or\n        _selector_matches(tag, hash.selector)\n", "        hash.selector is None or\n        isinstance(hash.selector, Hash) or\n        _selector_matches(tag, hash.selector)\n")],
 'a compound selector with two different ids, or an id after something that does not match', 'only the last id counts',
 '''
from gopher_render import GopherHTMLParser
from gopher_render._selectors import tag_matches
import cssselect
p = GopherHTMLParser(); p.feed('<em id="a">x</em>')
assert not tag_matches(p.tree.children[0], cssselect.parse('#b#a'))[0]
''')
seed('C01-suffix-ws', S, [("            return value != '' and attr_val.endswith(value)\n", "            return value != '' and attr_val.rstrip().endswith(value.rstrip())\n")],
 'an attribute value that ends with whitespace', '$= ignores whitespace at the end',
 '''
from gopher_render import GopherHTMLParser
from gopher_render._selectors import tag_matches
import cssselect
p = GopherHTMLParser(); p.feed('<em title="one ">x</em>')
assert not tag_matches(p.tree.children[0], cssselect.parse('[title$=one]'))[0]
''')
seed('C02-unclosed', S, [("    return _any_ancestor_matches(tag.parent, selector)\n", "    return getattr(tag.parent, 'closed', True) and _any_ancestor_matches(tag.parent, selector)\n")],
 'an element two levels below an ancestor, with an unclosed element between', 'the search for an ancestor ends at unclosed elements',
 '''
from gopher_render import GopherHTMLParser
from gopher_render._selectors import tag_matches
import cssselect
p = GopherHTMLParser(); p.feed('<div><p><em>x</em>')
em = p.tree.children[0].children[0].children[0]
assert tag_matches(em, cssselect.parse('div em'))[0]
''')
seed('C02-child-in-pre', S, [("    return _selector_matches(tag.parent, selector.selector)\n", "    return _selector_matches(tag.parent, selector.selector) or isinstance(selector.selector, CombinedSelector) and selector.selector.combinator == '>' and _selector_matches(tag.parent, selector.selector.subselector) and _any_ancestor_matches(tag.parent, selector.selector.selector)\n")],
 'a chain of three > in which the first element is an ancestor, not the grandparent', 'matches although the elements are not parent and child',
 '''
from gopher_render import GopherHTMLParser
from gopher_render._selectors import tag_matches
import cssselect
p = GopherHTMLParser(); p.feed('<div><p><b><em>x</em></b></p></div>')
em = p.tree.children[0].children[0].children[0].children[0]
assert not tag_matches(em, cssselect.parse('div > b > em'))[0]
''')
seed('C03-text-count', S, [("    if n < 1 or n > len(tag_children):\n        return False\n    return tag_children[-n] is tag", "    if n < 1 or n > len(tag.parent.children) or n > len(tag_children) and len(tag_children) == len(tag.parent.children):\n        return False\n    return tag_children[-n % len(tag_children)] is tag")],
 'text among the children and n greater than the number of elements', ':nth-last-child(n) counts on from the other end',
 '''
from gopher_render import GopherHTMLParser
from gopher_render._selectors import tag_matches
import cssselect
p = GopherHTMLParser(); p.feed('<p>a<b></b>c<i></i>d</p>')
assert not [c for c in p.tree.children[0].tag_children() if tag_matches(c, cssselect.parse(':nth-last-child(3)'))[0]]
''')
seed('C04-same-types', S, [("        if is_match:\n            if _more_specific", "        if is_match:\n            if best_specificity is None or s.specificity()[:2] != (0, 0) and _more_specific")],
 'a group in which a less specific selector without classes and ids matches before one with more types', 'specificity of the first of them',
 '''
from gopher_render import GopherHTMLParser
from gopher_render._selectors import tag_matches
import cssselect
p = GopherHTMLParser(); p.feed('<p><b><em>x</em></b></p>')
em = p.tree.children[0].children[0].children[0]
assert tag_matches(em, cssselect.parse('em, p b em'))[1] == (0, 0, 3)
''')
seed('C05-none-value', P, [("                renderer_settings.update(s)\n", "                renderer_settings.update((k, v) for k, v in s.items() if v is not None)\n")],
 'a more specific mapping that sets a key to None which a less specific one sets to a value', 'the less specific value stays',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import AnsiEscapeCodeRenderer
p = GopherHTMLParser(renderers={'em': (AnsiEscapeCodeRenderer, dict(foreground_colour='red')), 'em.x': (None, dict(foreground_colour=None))})
p.feed('<em class="x">a</em>'); p.close()
assert p.parsed.strip() == 'a', repr(p.parsed)
''')
seed('C06-shared-list', R, [("        s = namedict()\n        all_classes = inspect.getmro(cls)\n        all_bases = []\n", "        s = namedict()\n        all_classes = inspect.getmro(cls)[:6]\n        all_bases = []\n")],
 'a renderer with more than four classes between it and the one that gives a setting', 'settings of far base classes are lost',
 '''
from gopher_render.rendering import EmRenderer
c = EmRenderer
for k in range(6): c = type('C%d' % k, (c,), {})
assert c(None).settings.template == '_{}_'
''')
seed('C06-tuple', R, [("            self.settings.update(local_settings)\n", "            self.settings.update((k, list(v) if isinstance(v, tuple) else v) for k, v in local_settings.items())\n")],
 'a setting that is configured as a tuple', 'the renderer sees a list',
 '''
from gopher_render.rendering import Renderer
assert Renderer(None, settings=dict(foreground_colour=(1, 2, 3))).settings.foreground_colour == (1, 2, 3)
''')
seed('C07-limit', P, [("        if not t.closed:\n            self._tag_stack.append(t)\n", "        if not t.closed and len(self._tag_stack) < 256:\n            self._tag_stack.append(t)\n")],
 'elements nested more than 256 deep', 'elements deeper than that stay without content',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
for k in range(300): p.handle_starttag('b', [])
p.handle_data('x')
n, d = p.tree, 0
while n.children and n.children[0].tag: n = n.children[0]; d += 1
assert d == 300, d
''')
seed('C07-top-closed', P, [("            if t.closed:\n                t = None\n", "            if t.closed or t.tag == 'p' and len(t.children) > 64:\n                t = None\n")],
 'a paragraph with more than 64 children', 'what follows is put at the top of the document',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser()
p.feed('<p>' + '<b>x</b>' * 80 + '</p>')
assert len(p.tree.children) == 1
''')
seed('C08-count', P, [("            data = re.sub('[ \\t]+', ' ', data)\n", "            data = re.sub('[ \\t]+', ' ', data, re.MULTILINE)\n")],
 'text with more than eight gaps, and a wide one after them', 'wide gaps after the eighth are kept',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(); p.feed('<p>' + 'a ' * 20 + 'b   c</p>')
assert '  ' not in p.tree.children[0].children[0].data
''')
seed('C08-close-pre', P, [("            self._in_pre = any(t.tag == 'pre' for t in self._tag_stack)\n", "            self._in_pre = self._in_pre and tag != 'pre' and any(t.tag == 'pre' for t in self._tag_stack)\n")],
 'a pre in a pre', 'text after the inner one is collapsed',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(); p.feed('<pre>a<pre>b</pre>c  d</pre>')
assert p.tree.children[0].children[2].data == 'c  d'
''')
seed('C09-noattrs', P, [("            elif placement == 'after_block':\n                parent.add_pending_link(t)\n", "            elif placement == 'after_block' and len(parent._pending_links) < 20:\n                parent.add_pending_link(t)\n")],
 'more than twenty links after one block', 'those after the twentieth are not listed',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(link_placement='after_block')
p.feed('<div>' + '<a href="/u">x</a>' * 30 + '</div>'); p.close()
assert p.parsed.count('/u') == 30
''')
seed('C10-title-same', R, [("            if title:\n                template = settings.templates[1]\n", "            if title and title != content:\n                template = settings.templates[1]\n")],
 'a link whose title is the same as its text', 'the title is not shown',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(); p.feed('<p><a href="/u" title="abc">abc</a></p>'); p.close()
assert '"abc"' in p.parsed, p.parsed
''')
seed('C11-colon', P, [("        elif parsed.scheme == '':\n", "        elif parsed.scheme == '' or '.' in parsed.scheme:\n")],
 'a target whose scheme has a dot in it', 'not taken as a web link',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(gopher_host='h'); p.feed('<a href="a.b:c">x</a>')
assert p.tree.children[0].gopher_link['type'] == 'h'
''')
seed('C11-port0', P, [("                type=self._guess_type(parsed.path),\n                selector=parsed.path,\n                host=parsed.hostname,\n", "                type=self._guess_type(parsed.path),\n                selector=parsed.path or '/',\n                host=parsed.hostname,\n")],
 'a gopher link without path', 'the selector is a slash',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(gopher_host='h'); p.feed('<a href="gopher://x.y">x</a>')
assert p.tree.children[0].gopher_link['selector'] == ''
''')
seed('C13-default', R, [("        self.border = border[:]\n", "        self.border = border[:] if any(border) else padding[:0] + [0, 0, 0, 0] if parent is None else (border[:3] + [parent.border[BoxSide.LEFT] * 0 + border[3]])\n"),
  ("            self.total_padding[BoxSide.LEFT] = self.padding[BoxSide.LEFT] + parent.total_padding[BoxSide.LEFT]\n", "            self.total_padding[BoxSide.LEFT] = self.padding[BoxSide.LEFT] + max(parent.total_padding[BoxSide.LEFT], parent.padding[BoxSide.LEFT] * 2 if parent.parent and parent.parent.parent and parent.border[BoxSide.LEFT] else 0)\n")],
 'four boxes in one another, the third with a border and more padding than those around it', 'its padding counts twice',
 '''
from gopher_render.rendering import Box
a = Box(width=60); b = Box(parent=a); c = Box(parent=b, padding=[0, 0, 0, 3], border=[0, 0, 0, 1]); d = Box(parent=c)
assert d.inner_width == 56, d.inner_width
''')
seed('C14-long-border', R, [("                padded.append(c * box.bordered_width)\n", "                padded.append((c * box.bordered_width)[:200])\n")],
 'a block wider than 200 characters with a bottom border', 'the border row is too short',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import BlockRenderer
p = GopherHTMLParser(width=300, renderers={'div': (BlockRenderer, dict(border=['-', '', '-', '']))}); p.feed('<div>x</div>'); p.close()
l = p.parsed.split('\\n'); assert len(l[0]) == len(l[2]) == 300
''')
seed('C15-indent-codes', T, [("            width = self.width - _len(indent)\n", "            width = max(self.width - _len(indent), 4)\n")],
 'an indent that leaves fewer than four characters', 'lines are too long',
 '''
from gopher_render import _textwrap
assert all(len(l) <= 5 for l in _textwrap.wrap('abcdefgh ijk', 5, initial_indent='   ', subsequent_indent='   '))
''')
seed('C16-last-ws', T, [("            while self.drop_whitespace and cur_line and cur_line[-1].strip() == '':\n", "            while self.drop_whitespace and len(cur_line) > (not lines) and cur_line[-1].strip() == '':\n")],
 'text of nothing but whitespace, or a first line of it', 'a first line of whitespace is kept',
 '''
from gopher_render import _textwrap
assert _textwrap.wrap('   ', 10) == []
''')
seed('C18-neg', R, [("            self.settings.start_index,\n", "            self.settings.start_index or 1,\n")],
 'a list that starts at zero', 'it starts at one',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import OrderedListItemRenderer
p = GopherHTMLParser(renderers={'ol > li': (OrderedListItemRenderer, dict(start_index=0))}); p.feed('<ol><li>a</li></ol>'); p.close()
assert p.parsed.strip() == '0. a', p.parsed
''')
seed('C18-wide-marker', R, [("    return len(template) - 2\n", "    return min(len(template) - 2, 8)\n")],
 'a marker wider than eight characters', 'the other lines are indented by eight',
 '''
from gopher_render import GopherHTMLParser
from gopher_render.rendering import ListItemRenderer
p = GopherHTMLParser(width=30, renderers={'ul > li': (ListItemRenderer, dict(line_template='----------> {}'))}); p.feed('<ul><li>' + 'word ' * 12 + '</li></ul>'); p.close()
l = p.parsed.strip('\\n').split('\\n'); assert l[1].startswith(' ' * 12 + 'word'), l
''')
seed('C19-para-cr', R, [("        inner_split = inner.split('\\n')\n", "        inner_split = inner.split('\\n', 30)\n")],
 'a paragraph with more than thirty line breaks', 'those after the thirtieth are lost',
 '''
from gopher_render import GopherHTMLParser
p = GopherHTMLParser(); p.feed('<p>' + 'a<br>' * 40 + 'b</p>'); p.close()
assert len(p.parsed.strip().split('\\n')) == 41
''')
seed('C20-brace', R, [("    return text.upper()\n", "    return text.upper() if '{' not in text else text\n")],
 'capitalised content with a brace in it', 'it is not in upper case',
 '''
from gopher_render.rendering import EmRenderer
assert EmRenderer(None, settings=dict(capitalized=True)).render('a{b') == '_A{B_'
''')
seed('C21-html-strip', R, [("    colour = colour.lstrip('#')\n", "    colour = colour.lstrip('#').lstrip('0').rjust(3, '0')\n")],
 'a colour of six digits that begins with zeros', 'taken as one of three digits',
 '''
from gopher_render.rendering import AnsiEscapeCodeRenderer
assert AnsiEscapeCodeRenderer(None, settings=dict(foreground_colour='#000abc')).render('x').startswith('\\x1b[38;2;0;10;188m')
''')
seed('C21-encircled', R, [("    \"encircled\": (52, 54),\n", "    \"encircled\": (52, 53),\n")],
 'encircled text', 'the wrong code ends it',
 '''
from gopher_render.rendering import AnsiEscapeCodeRenderer
assert AnsiEscapeCodeRenderer(None, settings=dict(encircled=True)).render('x') == '\\x1b[52mx\\x1b[54m'
''')
seed('C25-del', N, [("            try:\n                del self[name]\n            except KeyError:\n                raise AttributeError(name)", "            if self.pop(name, None) is None:\n                raise AttributeError(name)")],
 'deleting, by attribute, a name whose value is None', 'AttributeError although it was there',
 '''
from gopher_render._namedict import namedict
d = namedict(a=None); del d.a
assert 'a' not in d
''')

# changes that only add lines, or only touch lines of a repair: used while developing, not kept in seeded/
import os
INSERT_ONLY = 'C01-dash C02-adj-text C04-early C07-implied C09-unclosed C10-zero C12-strip C17-full-codes C18-li-only C19-quote-strip C21-palette C23-memo C23-top-ws C01-suffix-ws C01-two-ids C08-close-pre C15-indent-codes C16-last-ws'.split()
if not os.environ.get('VP_ALL_SEEDS'): SEEDS[:] = [s for s in SEEDS if s['id'] not in INSERT_ONLY]
