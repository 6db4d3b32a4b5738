#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
S='gopher_render/_selectors.py'; P='gopher_render/_parser.py'; R='gopher_render/rendering.py'; T='gopher_render/_textwrap.py'; N='gopher_render/_namedict.py'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,
      **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
p('C01','Type, class, id, attribute and negation selectors match as CSS defines',
 "For every document and every selector built from type, universal, class, id, attribute (presence, =, ~=, |=, ^=, $=, *=) and :not() parts, an element matches exactly when CSS says it does, and matching never raises an error. Names are those in lower case without namespaces, and the class attribute is compared as its words separated by single spaces. Text and the document root match nothing; an attribute without a value counts as empty, and an empty value in the selector matches as neither a word, a prefix, a suffix nor a substring.",
 ['inputs','programs'],'every document tree, every element of it, every compound selector of these parts, nested to any depth',
 'The tests try four of the seven kinds of part on two small documents (attribute selectors are not tested at all); the property quantifies over all trees, attribute values and nestings.',
 [S],[('dispatch on the kind of selector',S+':_selector_matches'),('one predicate per kind',S+':_element_matches, _hash_matches, _class_matches, _attribute_matches, _negation_matches')],['gopher_render._selectors.tag_matches'])
p('C02','Combinators relate an element to the right ancestors and siblings',
 "An element matches 'A B', 'A > B', 'A ~ B' and 'A + B' exactly when it matches B and, respectively, some ancestor, its parent, some earlier sibling, or the sibling immediately before it matches A. Only elements count as ancestors and siblings (never text or the document itself), at any depth and any position, and the combinators nest to any depth.",
 ['inputs','programs'],'every document tree, element and combination of selectors',
 'The tests use one fixed tree of depth 3; ancestors at every depth, siblings at every position and nested combinators cannot be sampled exhaustively.',
 [S],[('combinator dispatch',S+':_combination_matches'),('ancestor walk',S+':_any_ancestor_matches'),('sibling search',S+':_general_sibling_matches, _adjacent_sibling_matches'),('element children only',P+':TagParser.tag_children, DocumentParser.tag_children')],['gopher_render._selectors.tag_matches'])
p('C03','Positional pseudo-classes pick exactly the element child at that position',
 "For every integer n, :nth-child(n) matches exactly the element that is the n-th element child of its parent and :nth-last-child(n) the n-th counted from the end; :first-child and :last-child are the cases n = 1. Text is not counted, the rest of the compound selector must match as well, and an n below 1 or beyond the number of children matches nothing and raises no error.",
 ['inputs'],'every parent with any number of element and text children, every position, every integer argument',
 'The tests use one parent with a few children and n = 1..3; zero, negative and too large arguments and other child counts are never tried.',
 [S],[('positional predicates',S+':_nth_child_matches, _nth_last_child_matches, _first_child_matches, _last_child_matches'),('element children only',P+':TagParser.tag_children')],['gopher_render._selectors.tag_matches'])
p('C04','Selector groups: any match counts, with the greatest specificity that matched',
 "A comma-separated selector group matches an element exactly when at least one of its selectors does, and the specificity reported is then the greatest among the selectors that matched, and None otherwise. Specificities (ids, classes, types) are compared lexicographically, and their comparison operators agree with that total order.",
 ['inputs','configurations'],'every element, every group of any length in any order, every triple of counts',
 'The tests check single selectors and a few pairs and never look at the reported specificity; the order has to hold for all triples and the maximum for all lists.',
 [S],[('fold over the group',S+':tag_matches'),('lexicographic comparison',S+':_compare_specificity, _compare, _more_specific'),('comparison operators',S+':Specificity')],['gopher_render._selectors.tag_matches','gopher_render._selectors.Specificity'])
p('C05','The most specific matching mapping decides renderer and settings',
 "For every set of selector-to-renderer mappings and every element, the renderer chosen is that of the most specific matching mapping that names one, a later mapping winning among equals; if there is none, it is the default renderer with the settings configured for it. Otherwise every setting is taken, key by key and by the same precedence, from the matching mappings that set it, including those that name no renderer.",
 ['inputs','configurations'],'every mapping (any number of entries, with or without renderer or settings, in any order) and every element',
 'The tests only see the built-in mapping; precedence has to hold for every combination of user mappings, ties and partial entries.',
 [P],[('collect, sort stably, fold',P+':RendererMap.get_for_tag'),('fallback',P+':GopherHTMLParser._get_renderer'),('order on specificities',S+':Specificity')],['gopher_render._parser.RendererMap.get_for_tag','gopher_render.GopherHTMLParser'])
p('C06','Settings are inherited key by key and never leak between renderers',
 "The effective value of each setting of a renderer is the one configured for the element if there is one, and otherwise the one given by the most derived class in the renderer's inheritance chain that gives one. Creating a renderer and rendering with it change neither the settings of any class, nor the settings it was configured with, nor those of another renderer.",
 ['programs','configurations','histories'],'every inheritance chain of renderer classes and every configured settings dictionary, in any order of creation',
 'The only renderer test creates three instances; chains in which a class restores the value of an earlier base, or several instances in sequence, are never compared.',
 [R],[('merge over the inheritance chain',R+':Renderer.__new__'),('configured settings on top',R+':Renderer._adjust_settings'),('settings of its own for every class',R+':_RendererMeta.__new__')],['settings of a created renderer'])
p('C07','The tree holds every tag and text once, in document order, properly nested',
 "For every sequence of start tags, end tags and text, each start tag and each text becomes exactly one node, added after all earlier children of the innermost element still open (or of the document if there is none), and nothing else in the tree changes. An end tag closes the innermost open element if it has the same name and otherwise changes nothing; br and img never stay open.",
 ['histories','inputs'],'every sequence of start tag, end tag and text events, balanced or not, at any nesting depth',
 'The tests feed a few dozen well-formed snippets; the guarantee is about every history of events, including mismatched and missing end tags.',
 [P],[('stack of open elements',P+':GopherHTMLParser.handle_starttag, handle_endtag, handle_data, _get_top'),('nodes',P+':TagParser.__init__, DataParser.__init__')],['GopherHTMLParser.tree after feed()'],
 [('open elements','the innermost open element is on top; everything on it is open',P+':GopherHTMLParser._tag_stack')])
p('C08','Whitespace is collapsed outside preformatted text and untouched inside it',
 "Text outside of pre elements is reduced to the same words in the same order, with no line feed, no tab and no two consecutive spaces left in it; it begins (and ends) with whitespace exactly if the original did. Text anywhere inside a pre element that is still open is kept character by character.",
 ['inputs','histories'],'every text, and every sequence of events that leads to it',
 'Two tests look at whitespace in one paragraph each; the claim is about every mixture of spaces, tabs and line breaks and every state of the parser.',
 [P],[('collapse',P+':DataParser.__init__'),('preformatted mode',P+':GopherHTMLParser.handle_starttag, handle_endtag, handle_data')],['text of the nodes of GopherHTMLParser.tree'])
p('C09','Links are numbered in document order and each is listed exactly once',
 "In every document, the links and images that are not placed inline are numbered 1, 2, 3, ... together, in document order; inline ones take no number. Each one placed in the footer is listed exactly once, in order, after all content, and each one placed after its block exactly once at the end of the element (or document) that contains it, whatever the placement of the other kind.",
 ['inputs','histories','configurations'],'every sequence of tags and text and every combination of link and image placement',
 'No test contains a link or an image.',
 [P],[('numbering and registration',P+':GopherHTMLParser.handle_starttag'),('footer',P+':GopherHTMLParser.close'),('after block',P+':TagParser.render, LinkParser.link_render, DocumentParser.render_pending_links')],['GopherHTMLParser.parsed'],
 [('next number','greater than every number given so far, starting at 1',P+':GopherHTMLParser._next_link_number')])
p('C10','References and list entries show the number, target and title of their link',
 "With the default templates, a link that is not placed inline is shown as its content followed by its number, and its list entry shows the same number, its target, and its title if it has one; an inline link shows its content, its target, and its title if it has one. Images show their alternative text, or 'Image' if they have none, in the same way; the descriptions that begin list entries, whitespace around them apart, are cut to the configured length, with an ellipsis, and otherwise shown in full. The list entry of an image without title shows its alternative text once more, in full, if it was cut.",
 ['inputs','configurations'],'every content, target, title, number, maximum length and placement',
 'No test contains a link or an image.',
 [R,P],[('in the text',R+':LinkRenderer.render, ImageRenderer.render'),('in the list',R+':ExtractedLinkRenderer._inner_render, ExtractedImageLinkRenderer._inner_render'),('values handed over',P+':LinkParser.link_render, TagParser.render')],['GopherHTMLParser.parsed'])
p('C11','Every link target becomes the right gopher item',
 "For every target: http and https links, links of any other non-gopher scheme and malformed ones become items of type h with the selector 'URL:' and the target, on the own host and port; absolute gopher links have their path as selector, their own host, and their own port or 70; links without a scheme have their path as selector and the own host and port. The type of the latter two follows from what comes after the last dot of the path: html, htm: h; gif: g; jpg, jpeg, png, bmp, tiff: I; txt, csv, tsv, md: 0; anything else: 9; and 1 if there is no dot or nothing before it. No target raises an error.",
 ['inputs'],'every string as target',
 'No test contains a link.',
 [P],[('classification',P+':LinkParser._parse_href, _guess_type')],['gophermap lines of GopherHTMLParser.parsed'])
p('C12','Every link in a gophermap is one well-formed item line',
 "In gophermap output, the entry of every link and image, whatever its text, title, target and number, is exactly one line of exactly four fields separated by tabs: the type followed by the number and description, the selector, the host and the port. No margin, border or padding to the left or right becomes part of that line.",
 ['inputs','configurations'],'every content, title, alternative text and target, including those with tabs, line breaks and braces',
 'No test produces gophermap output.',
 [R],[('item line',R+':ExtractedLinkRenderer._inner_render, ExtractedImageLinkRenderer._inner_render'),('no frame',R+':ExtractedLinkRenderer.render, _outer_render')],['rendering of extracted links'])
p('C13','Nested boxes divide the width of the document exactly',
 "The content width of a box is the width of the document less the margins, padding and borders, left and right, of the box and all boxes around it (and, for wrapped text, less the markers of the lines of all of them), and the outer width of a box with its border is the content width of its parent, less the markers of the lines around it, less its own left and right margin. Creating a box changes no list it is given and keeps none, so that changing one afterwards has no effect.",
 ['inputs','configurations'],'every chain of nested boxes of any depth with any margins, padding, borders and line templates',
 'The tests only use default boxes at most three deep, most of them with zero margins, padding and borders.',
 [R],[('totals over the ancestors',R+':Box.__init__'),('widths',R+':Box.inner_width, inner_width_excluding_line_template, padded_width, bordered_width')],['Box'])
p('C14','A framed block is a rectangle of the right size around unchanged content',
 "Every line of a block's content appears unchanged, in order, in a row of its own, after the left border and left padding and filled up to the right border; if the content fits, all these rows, the padding rows and the border rows have exactly the outer width of the box, not counting escape codes. The configured number of padding rows and one row per character of the top and bottom border enclose them, and the result has the top and bottom margin as empty lines around it and the left margin before every line.",
 ['inputs','configurations'],'every content, border, padding, margin and box',
 'The tests use no borders and no padding and a single content line in most cases.',
 [R],[('border and padding',R+':BlockRenderer._border_render'),('margins',R+':BlockRenderer._outer_render'),('composition',R+':BlockRenderer.render')],['rendering of block elements'])
p('C15','Wrapped lines fit the width, and escape codes do not count or break',
 "For every text, every positive width and indents shorter than it, no wrapped line has more visible characters than the width when long words may be broken. ANSI escape sequences take up no width when lines are filled, and none is cut apart by a line break.",
 ['inputs','configurations'],'every text (words of any length, any whitespace, any escape sequences), width and indent',
 'One test wraps one text at one width; none contains an escape sequence.',
 [T],[('line filling',T+':AnsiAwareTextWrapper._wrap_chunks'),('long words',T+':AnsiAwareTextWrapper._handle_long_word'),('visible length',T+':_len')],['gopher_render._textwrap.wrap'])
p('C16','Wrapping loses, adds and reorders nothing but whitespace',
 "For every text and every width, the lines that wrapping produces contain, in order, exactly the characters of the text that are not whitespace, and every two words separated by whitespace in the text are still separated. With the default options, no line ends with whitespace (a space, tab or line end), and no line but the first begins with whitespace from the text.",
 ['inputs','configurations'],'every text, width, and combination of wrapping options without a limit on the number of lines',
 'The long paragraph test counts the lines and never looks at the words.',
 [T],[('line filling',T+':AnsiAwareTextWrapper._wrap_chunks'),('long words',T+':AnsiAwareTextWrapper._handle_long_word')],['gopher_render._textwrap.wrap'])
p('C17','Justification pads lines to the width without changing their words',
 "For every text and width, full justification makes every line but the last that has at least two words exactly as wide as requested, and centring and right justification make every line exactly that wide (escape codes not counted), while left justification adds nothing. None of them loses, joins or reorders words or changes which words are on which line, and lines that already are as wide as requested are unchanged.",
 ['inputs','configurations'],'every text, width, indent and justification',
 'No test uses full, centre or right justification.',
 [R],[('justification',R+':full_justify, left_justify, right_justify, center_justify, center, right')],['gopher_render.rendering.justifications'])
p('C18','List items carry the right marker and ordinal and align under it',
 "The k-th element in an ordered list is numbered start + (k - 1) * step, text between the items not counting. The first line of every list item and definition begins with its marker, and all its other lines are indented by exactly the width of the marker.",
 ['inputs','configurations'],'every list with any number of items, any text between them, any content, marker, start and step',
 'The tests use three short items without anything between them, and the default markers.',
 [R],[('ordinal',R+':OrderedListItemRenderer._get_ordinal, _adjust_settings'),('marker',R+':ListItemRenderer._inner_render, DefinitionListItemRenderer._inner_render')],['rendering of li and dd'])
p('C19','Quotes, preformatted text, paragraphs and headings keep and mark their lines',
 "Every line of a block quote's content is kept unchanged behind the quote marker; every line of preformatted text is kept unchanged, never wrapped, behind its indent; every explicit line break in a paragraph is kept, and nothing is wrapped across it. A heading of level n is shown on its own between n hashes on either side.",
 ['inputs','configurations'],'every content, line template, indent and heading level',
 'The tests use one example of each with one to three short lines.',
 [R],[('quote',R+':BlockQuoteRenderer._inner_render'),('preformatted',R+':PreRenderer._inner_render'),('paragraph',R+':ParagraphRenderer._inner_render'),('heading',R+':MarkdownHeaderRenderer._adjust_settings, HeaderRenderer._inner_render')],['rendering of blockquote, pre, p, h1 to h6'])
p('C20','Inline content passes through its template unchanged, whatever it contains',
 "The content of an inline element appears in its output exactly once and unchanged (upper case if capitalisation is on), between exactly the decorations of its template, whatever characters it contains, including braces. Code that is directly in a pre element, and content without template, is passed through as it is; a line break is always exactly one line break whatever its content.",
 ['inputs','configurations'],'every content and every template with one placeholder',
 'Every test uses a single word as content.',
 [R],[('template',R+':InlineRenderer.render'),('code',R+':CodeRenderer.render'),('line break',R+':BreakRenderer.render'),('no output',R+':NonRenderer.render')],['rendering of em, strong, code, span, br, ...'])
p('C21','ANSI styling switches on what is configured and off what it switched on',
 "For every combination of effects, font and colours, styled text is the unstyled rendering between exactly the escape codes that switch the configured effects on before it and, after it, exactly the codes that switch those same effects off again (or one reset if so configured); nothing is emitted that is not configured. Every way of naming a colour (name, palette number, tuple, 3 or 6 digit HTML notation) gives the code for that colour, in the foreground or background.",
 ['inputs','configurations'],'every combination of settings, every colour and every content',
 'No test uses ANSI styling.',
 [R],[('codes around the content',R+':AnsiEscapeCodeRenderer.render'),('colours',R+':_get_sequence_for_colour, _parse_html_colour'),('tables',R+':ansi_escape_sequences, ansi_colours')],['rendering with AnsiEscapeCodeRenderer'])
p('C22','The finished document has its margins and loses only trailing whitespace',
 "The result is the rendered body, every line of it behind the left margin of the document, with the top and bottom margin as empty lines around it. Optimising it removes exactly the whitespace at the end of each line and changes nothing else; without it, nothing is removed.",
 ['inputs','configurations'],'every body, every margin, with and without optimisation',
 'The tests use no margin, and compare optimised output with expectations but never with the output it came from.',
 [P],[('indent and margins',P+':GopherHTMLParser.close, _indent_body'),('trailing whitespace',P+':GopherHTMLParser._optimise_parsed')],['GopherHTMLParser.parsed'])
p('C23','Every node is rendered once, in order, inside the box of its parent',
 "The rendering of every element is made by its renderer from the renderings of all its children, each exactly once and in document order, and the document is made of all its top-level nodes in the same way. Each child is laid out in the box of its parent's renderer, or the box its parent was given if that renderer has none, and every renderer receives the settings configured for its element.",
 ['inputs','configurations'],'every tree and every assignment of renderers, with and without a box',
 'The tests render small fixed trees with the default renderers only.',
 [P],[('children',P+':TagParser.render, LinkParser.render, link_render, DataParser.render'),('document',P+':GopherHTMLParser.close'),('renderers for all nodes',P+':GopherHTMLParser._assign_renderers, TagParser.assign_renderer, LinkParser.assign_renderer')],['GopherHTMLParser.parsed'])
p('C24','A reset parser is as good as new and parsers do not affect each other',
 "After a reset, whatever was fed before (including unclosed elements, preformatted text and links) and whether or not it was rendered, a parser renders the next document exactly as a new parser with the same options does. No parser changes the options passed to it, and none is affected by what another one has processed.",
 ['histories','inputs','configurations'],'every history of documents, complete or not, before the reset, and every next document',
 'No test uses a parser twice.',
 [P],[('initial state',P+':GopherHTMLParser.__init__'),('reset',P+':GopherHTMLParser.reset')],['GopherHTMLParser.parsed'])
p('C25','A named dictionary has the same contents by attribute and by key',
 "For every sequence of reads, writes and deletions by attribute and by key, with names that are not those of dictionary methods, both ways see exactly the contents an ordinary dictionary would have after the same operations. Reading or deleting a missing name raises AttributeError by attribute and KeyError by key, and changes nothing.",
 ['histories','inputs'],'every sequence of operations over any names and values',
 'The tests perform one operation each on a fresh dictionary.',
 [N],[('attribute access',N+':namedict.__getattr__, __setattr__, __delattr__')],['gopher_render._namedict.namedict'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in props))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in props: jsonschema.validate(x,sch)
print(len(props))
