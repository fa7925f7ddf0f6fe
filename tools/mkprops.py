"""Writes properties.jsonl (kept as a script so the lines stay readable)."""
import json, os
B, I, H, R = ('commonmark/blocks.py', 'commonmark/inlines.py',
              'commonmark/render/html.py', 'commonmark/render/rst.py')
C, N, D, M = ('commonmark/common.py', 'commonmark/node.py',
              'commonmark/dump.py', 'commonmark/main.py')
NR, K, RR = ('commonmark/normalize_reference.py', 'commonmark/cmark.py',
             'commonmark/render/renderer.py')
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s))
                                    for s in state],
                          'mechanism': [{'name': a, 'where': b}
                                        for a, b in mech],
                          'observe_at': observe, 'hook_needed': None}})


p('C01', 'Every text is processed: no exception, no hang, in every format',
  'Parsing any Unicode text (without lone surrogates) and rendering it as HTML (safe or not, smart or not), reStructuredText, JSON or AST dump always finishes and never raises an exception. '
  'This includes deeply nested containers, links and emphasis (thousands of levels), long runs of any delimiter, unterminated constructs, control characters and empty input. '
  'No input of at most a few thousand characters makes it take more than seconds of CPU time.',
  ['inputs', 'configurations'], 'every text x output format x smart/safe option',
  'The tests run some 700 short, friendly texts, in HTML only for all but a dozen; crashes and exponential regular expressions need particular odd combinations.',
  [B, I, H, R, D, N, M],
  [('fallback to a literal character when no inline rule matches', I + ' InlineParser.parseInline'),
   ('every line is taken by some block', B + ' Parser.incorporate_line'),
   ('iterative tree walk, no recursion', N + ' NodeWalker'),
   ('regular expressions without nested ambiguity', I + ' reLinkTitle, ' + C + ' HTMLTAG')],
  ['commonmark.commonmark(text, format)', 'Parser.parse', 'HtmlRenderer.render'])

p('C02', 'Block structure is the one CommonMark 0.29 prescribes',
  'For every text, the tree of blocks (quotes, lists, items, headings, paragraphs, code, HTML blocks, thematic breaks) with their attributes and their contents is the one the CommonMark 0.29 specification prescribes. '
  'That holds for any mix and nesting of containers, indentation, tabs, blank lines and lazy continuation lines. '
  'Only texts whose block structure the specification leaves open are exempt.',
  ['inputs'], 'every sequence of lines over the block syntax of CommonMark',
  'spec.txt samples about 250 block examples of one to ten lines; the rules interact (which block interrupts which, in which container, at which indentation), and the interactions number far more than the examples.',
  [B],
  [('continuation of open containers line by line', B + ' Parser.incorporate_line'),
   ('block starts tried in a fixed order', B + ' BlockStarts.METHODS'),
   ('columns and partly consumed tabs', B + ' Parser.advance_offset'),
   ('list marker widths', B + ' parse_list_marker')],
  ['Parser.parse(text) tree', 'commonmark.commonmark(text)'],
  [('tip / oldtip / last_matched_container', 'the open blocks', B + ' Parser')])

p('C03', 'Inline structure is the one CommonMark 0.29 prescribes',
  'For every paragraph text and every set of link reference definitions, the inline content (emphasis and strong emphasis, links, images, code spans, autolinks, raw HTML, escapes, entities, line breaks) is the one the CommonMark 0.29 specification prescribes. '
  'That includes precedence between constructs, delimiter runs of any length and flanking (with Unicode whitespace and punctuation), and all limits on destinations, titles and labels.',
  ['inputs'], 'every inline text x every reference map',
  'spec.txt samples about 400 inline examples; delimiter matching and bracket matching depend on the whole history of the paragraph, so short fixed examples miss most states of the delimiter stack.',
  [I, C],
  [('delimiter stack and lower bounds', I + ' InlineParser.processEmphasis'),
   ('flanking', I + ' InlineParser.scanDelims'),
   ('bracket stack', I + ' InlineParser.parseCloseBracket'),
   ('destination, title and label scanners', I + ' parseLinkDestination, parseLinkTitle, parseLinkLabel')],
  ['Parser.parse(text) tree', 'commonmark.commonmark(text)'],
  [('delimiters', 'stack of possible emphasis openers and closers', I + ' InlineParser'),
   ('brackets', 'stack of possible link openers', I + ' InlineParser')])

p('C04', 'HTML output is well-formed and document text cannot become markup',
  'For every text without raw HTML (or with any text in safe mode), the HTML output is well-formed: only tags the renderer produces, properly nested and closed, void elements self-closed, attributes double-quoted. '
  'Text content, code, destinations, titles, alternative texts and info strings only ever appear with &, <, > and double quotes escaped, so un-escaping each gives back exactly the content of the syntax tree. '
  'No paragraph, heading or code span content can end an element or attribute early.',
  ['inputs', 'configurations'], 'every text x safe mode or not',
  'The examples check fixed outputs; an escaping hole shows only for a particular character in a particular position (title, info string, alt text) that no example happens to have.',
  [H, RR, C],
  [('escaping of text and attributes', C + ' escape_xml'),
   ('one function writes all tags', H + ' HtmlRenderer.tag'),
   ('tags suppressed inside image descriptions', H + ' disable_tags')],
  ['HtmlRenderer.render(ast)'],
  [('disable_tags', 'depth of image descriptions', H)])

p('C05', 'Safe mode lets no raw HTML and no dangerous URL through',
  'With the option safe set, no raw HTML of the document reaches the output (each inline piece or block is replaced by the fixed comment), whatever the document. '
  'No link or image gets a destination whose scheme, read the way a browser reads it, is javascript, vbscript, file or data (except data images of type png, gif, jpeg or webp); all other constructs, and destinations that name none of these schemes, come out exactly as without the option. '
  'Without the option raw HTML passes through verbatim.',
  ['inputs', 'configurations'], 'every text x safe on/off, with schemes in any case, escaped, as entities, percent-encoded or via references',
  'The example suite never sets safe; the guarantee is about every document an attacker may write.',
  [H, C],
  [('protocol filter', H + ' potentially_unsafe'),
   ('replacement of raw HTML', H + ' html_inline, html_block')],
  ["HtmlRenderer({'safe': True}).render(ast)"])

p('C06', 'Any text can be written literally with escapes or character references',
  'Backslash-escaping every ASCII punctuation character of a string, or writing any of its characters as numeric character references, makes the string appear unchanged as plain text in a paragraph, heading, list item, quote, link text or image description, link title and (for escapes and references) link destination and info string, whatever the string. '
  'A backslash before any other character stays literal, and neither escapes nor references have any effect in code spans, code blocks, autolinks or raw HTML.',
  ['inputs'], 'every string of printable characters x every position text may appear in',
  'The examples escape some characters in some positions; the guarantee is for every combination.',
  [I, C],
  [('backslash escapes', I + ' parseBackslash'),
   ('escapes and references in attributes', C + ' unescape_string'),
   ('characters that may be escaped', C + ' ESCAPABLE')],
  ['text nodes, destination, title and info of the parsed tree'])

p('C07', 'Code content is verbatim',
  'The content of an indented or fenced code block is exactly the lines written, minus the prescribed indentation, and that of a code span exactly the characters written, with line endings turned to spaces and one space stripped from both sides when it has them on both and is not all spaces; nothing in it is interpreted as markup. '
  'A fence longer than any in the content (or a longer backtick string) can wrap any content. '
  'The same holds inside quotes and list items at any depth.',
  ['inputs'], 'every content x every fence length, character and indentation x every container nesting',
  'Examples show a few contents; verbatim means all of them, including lines that look like fences, markers or tabs.',
  [B, I],
  [('code block continuation and finalisation', B + ' CodeBlock'),
   ('code spans', I + ' parseBackticks')],
  ['literal and info of code_block and code nodes', 'HTML <code> elements'])

p('C08', 'Containers are transparent to the blocks inside them',
  'Putting a document into a block quote (a marker before every line) or a list item (marker before the first line, the others indented by its width) yields a quote or item holding exactly the blocks the document has on its own, at any depth and in any combination. '
  'Indenting a block by one to three spaces, or leaving out quote markers or indentation before lines that continue a paragraph, changes nothing.',
  ['inputs'], 'every document x every stack of quote and list markers',
  'The examples nest two or three fixed blocks; composition must hold for all blocks and depths.',
  [B],
  [('container continuation', B + ' BlockQuote.continue_, Item.continue_'),
   ('lazy continuation', B + ' Parser.incorporate_line'),
   ('list item padding', B + ' parse_list_marker')],
  ['Parser.parse(text) tree'])

p('C09', 'Reference links resolve to the first matching definition',
  'A full, collapsed or shortcut reference resolves exactly when some link reference definition in the document has a label equal to it after Unicode case folding and collapsing of whitespace, and then has the destination and title of the first such definition in the document, whether the definition stands before or after it, in a quote, a list item or at top level. '
  'Definitions produce no output, and an unresolved reference stays literal text.',
  ['inputs'], 'every set and placement of definitions x every reference and label spelling',
  'Examples hold at most two definitions; precedence, folding and placement must hold for all combinations and all letters.',
  [B, I, NR],
  [('definition parsing', I + ' parseReference'),
   ('label normalisation', NR + ' normalize_reference'),
   ('references looked up after all blocks are parsed', B + ' Parser.process_inlines')],
  ['link and image nodes; rendered HTML'],
  [('refmap', 'definitions by normalised label', B + ' Parser')])

p('C10', 'Destinations are normalised without changing where they point',
  'The destination of every link and image holds only ASCII URL characters, and decoding its percent-escapes gives the same bytes as decoding those of the destination as written (after escapes and entities), with existing percent-escapes untouched and reserved characters such as / ? # & = kept as they are. '
  'Normalising is idempotent: writing the normalised destination gives the same destination again. '
  'In the output it is only HTML-escaped.',
  ['inputs'], 'every destination string, inline, by reference or as autolink',
  'Examples hold a dozen URLs; the guarantee is for every character.',
  [C, I, H],
  [('percent-encoding', C + ' normalize_uri'), ('uses', I + ' parseLinkDestination, parseAutolink')],
  ['destination of link and image nodes; href and src'])

p('C11', 'Equivalent spellings of a text give the same result',
  'Writing line endings as LF, CR or CR LF in any mixture, and leaving out the one at the end, gives the same output; so does replacing NUL by the replacement character, adding blank lines at the start or end, and spelling leading indentation with tabs or with the spaces up to the same tab stop. '
  'Spaces at the end of a paragraph, heading or blank line make no difference unless they form a hard line break.',
  ['inputs'], 'every text x every choice of spelling at every line',
  'The tests use LF only, almost always with a final line ending.',
  [B],
  [('line splitting', B + ' Parser.parse, reLineEnding'),
   ('NUL replacement and columns', B + ' incorporate_line, advance_offset, find_next_nonspace')],
  ['commonmark.commonmark(text), Parser.parse'])

p('C12', 'Results depend on the input and options alone, not on history',
  'Parsing a text and rendering a tree give the same result whether the parser and renderer objects are new or have been used before, in any order and number, and with any other instances (with other options) in between, or at work at the same time in other threads; an option given to one instance never affects another, and no dictionary passed as options is changed. '
  'Rendering or dumping a tree, any number of times and in any format, does not change the tree.',
  ['histories', 'schedules', 'inputs', 'configurations'], 'every sequence of parse, render, dump and construct operations over shared instances; every point at which other instances may interrupt one',
  'Every example gets a fresh parser and default options; state that leaks (reference maps, delimiter stacks, image depth, shared default options) shows only in sequences.',
  [B, I, H, R, D, M],
  [('state reset per parse', B + ' Parser.parse'),
   ('buffers reset per render', RR + ' Renderer.render'),
   ('no shared mutable options', H + ' HtmlRenderer.__init__')],
  ['outputs of shared against fresh instances'],
  [('refmap, doc, tip', 'per-document parser state', B + ' Parser')])

p('C13', 'Node operations keep the tree consistent',
  'After any sequence of append_child, prepend_child, insert_before, insert_after and unlink, including moving a node that is already somewhere in the tree, the children of every node form the list an ordered-tree model predicts: parent, first, last, previous and next pointers agree with one another, and an unlinked node has no parent or siblings and keeps its own children. '
  'Every parsed document satisfies the same consistency.',
  ['histories'], 'every sequence of tree operations on nodes of a document (siblings inserted next to non-root nodes, no cycles)',
  'The tests have two fixed sequences; pointer bugs depend on position (first, last, only child) and on earlier moves.',
  [N],
  [('relinking', N + ' Node.append_child, prepend_child, insert_before, insert_after, unlink')],
  ['parent, first_child, last_child, prv, nxt of every node'])

p('C14', 'The walker visits every node once, in document order',
  'Walking a tree yields, from any root, exactly the depth-first sequence of that subtree: one entering event for every node, one leaving event for every container (also an empty one) after those of its children, none for other nodes, and then it stops without leaving the root. '
  'resume_at continues from the given node and event exactly as if the walk had come there by itself, and iteration by for loop and by nxt() agree.',
  ['inputs', 'histories'], 'every tree (parsed or built), every root in it, every resume point',
  'The tests walk no tree explicitly; shapes such as an empty container, a last child or a root with siblings matter.',
  [N],
  [('traversal state machine', N + ' NodeWalker.__next__'), ('container types', N + ' is_container')],
  ['events of Node.walker()'])

p('C15', 'normalize merges adjacent text nodes and changes nothing else',
  'After normalize, no two adjacent sibling text nodes remain anywhere in the tree, the text of each merged node is the concatenation in order, every other node and the order of all nodes are unchanged, and the tree stays consistent. '
  'The rendered output is the same as before, and a second call changes nothing.',
  ['inputs', 'histories'], 'every tree, parsed or built by hand, from any node',
  'One test merges one pair; runs of three, text at the end of a container or next to nested containers are not tried.',
  [N],
  [('merge while walking', N + ' Node.normalize')],
  ['tree and HTML before and after'])

p('C16', 'JSON and AST dumps describe the whole tree',
  'The JSON output is valid JSON, and lists the enter and leave events of the tree in document order, each with the type, literal, title, info string, destination and list data of its node, so that the tree can be rebuilt from it exactly (up to the level of headings). '
  'The AST dump prints each node once per event, in order, with its attributes. '
  'Both are the same through commonmark() and through the dump functions, for every document.',
  ['inputs'], 'every document',
  'The tests check that the dump of one small file runs.',
  [D, M],
  [('event list', D + ' prepare'), ('text dump', D + ' dumpAST')],
  ['commonmark.dumpJSON, commonmark.dumpAST, commonmark.commonmark(text, format)'])

p('C17', 'reStructuredText output keeps all text, in order and separated',
  'For every document without raw HTML, the reStructuredText output holds all text and code of the document, in order. '
  'Every one-line heading is followed by an underline of its level\'s character exactly as long as the title; every code block becomes a code directive with its language, all lines of the code indented under it, inside containers too; list items start with their marker, quotes and item contents are indented, and different blocks never share a line. '
  'Emphasis, strong emphasis, code, links and images standing alone in a paragraph carry the corresponding markup around exactly their content.',
  ['inputs'], 'every document over the constructs the renderer supports, at any nesting',
  'The tests render eleven fixed documents, none nested, no heading with markup.',
  [R, RR],
  [('indentation', R + ' lit, indent_length'), ('headings', R + ' heading'), ('code', R + ' code_block, indent_lines')],
  ["commonmark.commonmark(text, 'rst')"],
  [('indent_length', 'indentation of the open containers', R)])

p('C18', 'The cmark command gives what the library gives',
  'The cmark command, reading a file or standard input, writes to standard output or the file given with -o exactly the HTML of the library for that text, with -aj its JSON and with -a (always on standard output) its AST dump, and exits with status 0, for every text and every combination of these. '
  'It does not change its input file.',
  ['inputs', 'configurations'], 'every text x input source x output target x mode',
  'The suite runs the command three times on one file and looks at the exit status only.',
  [K, M, D],
  [('argument handling and dispatch', K + ' main')],
  ['standard output, output file, exit status'])

p('C19', 'Source positions delimit the blocks',
  'With the option sourcepos every block element carries its range; ranges have start no later than end, lie within the text, nest as the blocks do, and siblings come in order without sharing a line unless they are in the same line by construction. '
  'A block\'s first line is the line where it starts (with its reference definitions, if a paragraph begins with some), and the lines of a top-level block, parsed alone (with the document\'s reference definitions), give that block again. '
  'The document\'s own range is the whole text, and without the option no position appears in the output.',
  ['inputs'], 'every document',
  'No test looks at positions.',
  [B, H],
  [('ranges set when blocks open and close', B + ' add_child, finalize'), ('attribute', H + ' attrs')],
  ['sourcepos of block nodes; data-sourcepos attributes'])

p('C20', 'Smart punctuation changes only quotes, dashes and ellipses',
  'With the option smart, the output differs from that without it only in that, outside code, raw HTML and destinations, straight quotes become curly ones, hyphen runs become em and en dashes that add up to the same length (all of one kind when possible, else em dashes first) and three full stops become an ellipsis; mapping these back gives the plain output. '
  'A quote is an opening one only where left-flanking and matched by a later closing one (double quotes: also when unmatched), and escaped quotes stay straight.',
  ['inputs', 'configurations'], 'every text x smart on/off',
  'The example suite does not run with smart; one short file of examples exists and is not part of the reliable tests.',
  [I],
  [('quotes as delimiters', I + ' handleDelim, processEmphasis'), ('dashes', I + ' smart_dashes'), ('ellipses', I + ' parseString')],
  ["Parser({'smart': True}).parse(text)"])

p('C21', 'Exactly the valid entities and character references are decoded',
  'Every HTML5 named entity with its semicolon, every decimal reference of 1 to 7 digits and every hexadecimal one of 1 to 6 is replaced by its character or characters in text, titles, destinations and info strings; code point 0, surrogates and numbers beyond Unicode give the replacement character. '
  'Anything else that starts with an ampersand stays literal and comes out as &amp; followed by the same characters.',
  ['inputs'], 'every name, every number, every position',
  'The examples use about twenty of the 2,125 names and a handful of numbers.',
  [C, I, 'commonmark/entitytrans.py'],
  [('recognition', C + ' ENTITY'), ('decoding', C + ' unescape_entity')],
  ['text nodes and attributes of the parsed tree'])

p('C22', 'Lists: grouping, start number and tightness',
  'Adjacent items form one list exactly when they are of the same kind and use the same bullet character or delimiter; an ordered list starts at the number of its first item whatever the others are. '
  'A list is loose, in tree and HTML, exactly when two of its items, or two blocks directly in one item, are separated by a blank line, and blank lines deeper inside (in nested lists, code or quotes) or at its end do not matter.',
  ['inputs'], 'every arrangement of items, nested blocks and blank lines',
  'Examples fix about fifty arrangements; tightness depends on where blank lines fall in any nested structure.',
  [B, H],
  [('tightness', B + ' List.finalize, ends_with_blank_line'), ('grouping', B + ' lists_match'), ('markers', B + ' parse_list_marker')],
  ['list_data of list nodes; <p> inside <li>; start attribute'])

p('C23', 'HTML shows the tree exactly',
  'For every tree, parsed or built or edited by hand through the node interface, the HTML can be read back to the same tree: one element per node in the same order and nesting, with level, start number, tightness, destination, title, language and text intact. '
  'The softbreak option replaces exactly the rendering of soft line breaks, and custom nodes contribute exactly their given strings.',
  ['inputs', 'histories', 'configurations'], 'every well-formed tree x renderer options',
  'Tests only render parser output, and only through fixed expected strings; edited trees are a documented use.',
  [H, RR, N],
  [('one method per node type', H + ' HtmlRenderer'), ('line break bookkeeping', RR + ' cr, lit')],
  ['HtmlRenderer(options).render(tree)'])

p('C24', 'Cost grows no faster than quadratically in the input',
  'For every family of inputs obtained by repeating a piece of text, or nesting a construct, n times, the CPU time of parsing it and rendering it as HTML grows at most quadratically in n (with a constant that keeps thousands of repetitions within seconds). '
  'There is no repeated piece that makes it cubic or exponential.',
  ['inputs'], 'every repeated pattern of up to a few pieces',
  'The examples are all short; the repository\'s pathological cases are neither complete nor part of the tests.',
  [I, B, C],
  [('lower bounds on the search for openers', I + ' processEmphasis openers_bottom'),
   ('links cannot contain links', I + ' parseCloseBracket'),
   ('each line is handled once', B + ' incorporate_line')],
  ['CPU time of Parser.parse and the renderers'])

p('C25', 'Separated blocks are independent of each other',
  'If two documents are joined by something that ends every open block (such as a thematic break between blank lines outside unclosed fences and HTML), the result is the result of the first followed by that of the second, given the same reference definitions. '
  'Changing the text of one paragraph or heading leaves all other blocks unchanged, as long as block structure and definitions stay the same; references aside, nothing in a block depends on what comes before or after.',
  ['inputs'], 'every pair of documents',
  'Each example is a document by itself; leaks between blocks (delimiter or bracket stacks, open blocks, list state) need two parts.',
  [B, I],
  [('stacks reset per block', I + ' parseInlines'), ('closing of unmatched blocks', B + ' close_unmatched_blocks')],
  ['commonmark.commonmark(text)'])

p('C26', 'Raw HTML and autolinks are recognised exactly and passed verbatim',
  'Every open tag, closing tag, comment, processing instruction, declaration and CDATA section of the specification\'s grammar is passed through byte for byte, inline or as HTML block up to its end condition, and nothing in it is interpreted; any text in angle brackets outside the grammar is escaped. '
  'Every absolute URI and e-mail address of the grammar in angle brackets becomes a link with exactly that text.',
  ['inputs'], 'every word of the grammars and every near miss',
  'Examples hold about sixty tags and fifteen autolinks; the grammar has unbounded names, attributes, spacing and limits (scheme length, label length).',
  [C, I, B],
  [('tag grammar', C + ' HTMLTAG'), ('autolinks', I + ' reAutolink, reEmailAutolink'), ('HTML block starts and ends', B + ' reHtmlBlockOpen, reHtmlBlockClose')],
  ['html_inline, html_block and link nodes; HTML output'])

p('C27', 'No content is lost, duplicated or reordered',
  'Every run of letters and digits of the text that is not part of a construct\'s syntax (destination, title, info string, definition, entity, list number) appears in the tree and in the HTML exactly once, in the order of the source, however broken or ambiguous the markup around it. '
  'This needs no knowledge of how the markup should be read.',
  ['inputs'], 'every text, including malformed markup of every kind',
  'Fixed examples cannot show that there is no input on which some text disappears or comes out twice.',
  [B, I, RR],
  [('literal fallbacks', I + ' parseInline, parseCloseBracket, processEmphasis'), ('lines added to the tip', B + ' add_line')],
  ['text, code and raw HTML content of the tree; HTML output'])

p('C28', 'A document written out from a tree parses back to that tree',
  'Every tree of blocks and inlines that CommonMark can express (headings, paragraphs, nested quotes and lists, code, thematic breaks, emphasis, links, images, code spans, breaks, arbitrary text) written as Markdown in the canonical spelling, with text escaped, parses back to exactly that tree. '
  'This holds for every choice among equivalent spellings (marker characters, fence lengths, escaping by backslash or reference, link forms).',
  ['inputs'], 'every expressible tree x every choice of spelling',
  'The tests only go from text to HTML, for fixed texts; that every tree is expressible and read back is a statement about all trees.',
  [B, I, C],
  [('block and inline parsing', B + ' Parser, ' + I + ' InlineParser')],
  ['Parser.parse(text) tree'])

p('C29', 'Renderers can be subclassed and extended with new node types',
  'For every tree, rendering calls the method named after a node\'s type exactly once per walk event, in order, with the node and whether it is being entered, passes by types without a method, and returns exactly what these methods wrote, where a requested line break comes only if the last thing written is not one. '
  'Overriding methods in a subclass of a given renderer affects the nodes of those types alone: delegating to the base gives unchanged output, and doing nothing for leaf types gives the HTML of the tree without them.',
  ['inputs', 'configurations'], 'every tree x every set of overridden or added methods',
  'No test subclasses a renderer; which events reach which method must hold for every tree and every set of overridden methods.',
  [RR, H, R],
  [('dispatch by node type', RR + ' Renderer.render'), ('output bookkeeping', RR + ' lit, cr, out')],
  ['calls of the methods of renderer subclasses; render results'])

p('C30', 'A fragment repeated n times costs in proportion to n',
  'For a text that repeats one fragment (markup of any kind, malformed or not, the same each time or with labels, destinations and words that differ) n times, or repeats runs of inline markup one after the other in one paragraph, the work done to parse it and to render it (HTML, reStructuredText, JSON dump, smart punctuation on or off) grows in proportion to n. '
  'Tens of thousands of characters of unmatched brackets, delimiters, quotes, backticks or parentheses take seconds at most.',
  ['inputs', 'configurations'], 'every fragment x every output format',
  'A test measures no growth; one repeated fragment that makes every construct scan all that went before it (or all that follows) gives anyone who submits text a way to keep a server busy.',
  [I, B, RR],
  [('lower bound for emphasis openers', I + ' processEmphasis openers_bottom'), ('deactivated link openers', I + ' parseCloseBracket'), ('nesting limit of parentheses', I + ' parseLinkDestination'), ('sequences of backticks known to be unclosed', I + ' parseBackticks'), ('last_line_checked', B + ' ends_with_blank_line')],
  ['executed lines and CPU time of Parser.parse, the renderers and dumpJSON'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
