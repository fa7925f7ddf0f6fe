"""C17 reStructuredText output."""
import json

import commonmark

from .. import gens, sizes, trees
from ..engine import Part, Prop, Skip, Violation, sut
from ..sutlib import kids, parse, rst_of, short, walk

CHARS = '#*=-^"'
MARK = {'bullet': '* ', 'ordered': '#. '}
OUT = {'html_block', 'html_inline', 'thematic_break', 'custom_inline',
       'custom_block'}


class Row(object):
    """One expected line.  indent: (var or None, number of spaces more)."""

    def __init__(self, kind, base, text, gap=False):
        self.kind, self.base, self.text, self.gap = kind, base, text, gap


class Base(object):
    """An indentation: that of the parent plus a fixed or unknown amount."""

    def __init__(self, up=None, add=0):
        self.up, self.add = up, add      # add None: unknown, positive


def spans(n):
    """The expected text of the inline content, iteratively."""
    out, todo = [], [('in', k) for k in reversed(kids(n))]
    while todo:
        ev, k = todo.pop()
        if ev == 'lit':
            out.append(k)
            continue
        t = k.t
        if t in ('text', 'code'):
            if '\n' in (k.literal or ''):
                raise Skip('line feed in text')
            out.append(k.literal if t == 'text'
                       else '``' + k.literal + '``')
        elif t == 'softbreak':
            out.append('\n')
        elif t == 'linebreak':
            out.append('\n')
        elif t in ('emph', 'strong', 'link'):
            a, b = {'emph': ('*', '*'), 'strong': ('**', '**')}.get(t) or \
                ('`', ' <%s>`_' % k.destination)
            out.append(a)
            todo.append(('lit', b))
            todo.extend(('in', x) for x in reversed(kids(k)))
        elif t == 'image':
            raise Skip('image within text')
        else:
            raise Skip(t)
    return ''.join(out)


def lines_of(n):
    L = spans(n).split('\n')
    for i, x in enumerate(L):
        if x.strip() == '' or x[0] in ' \t':
            raise Skip('blank line or leading space in a paragraph')
    return L


def rows(root):
    """The expected non-blank lines."""
    out = []
    todo = [(root, Base(), False)]
    while todo:
        n, base, gap = todo.pop()
        t = n.t
        if t == 'paragraph':
            ch = kids(n)
            if len(ch) == 1 and ch[0].t == 'image':
                im = ch[0]
                if '\n' in im.destination:
                    raise Skip('line feed in a destination')
                out.append(Row('line', base, '.. image:: ' + im.destination,
                               gap))
                alt = spans(im)
                if '\n' in alt:
                    raise Skip('description of several lines')
                out.append(Row('line', Base(base, None), ':alt: ' + alt))
                continue
            for i, x in enumerate(lines_of(n)):
                out.append(Row('line', base, x, gap and i == 0))
        elif t == 'heading':
            L = lines_of(n)
            if len(L) != 1 or L[0] != L[0].strip():
                raise Skip('heading of several lines')
            out.append(Row('line', base, L[0], gap))
            out.append(Row('next', base, CHARS[n.level - 1] * len(L[0])))
        elif t == 'code_block':
            words = (n.info or '').split()
            out.append(Row('line', base, '.. code::' + (
                ' ' + words[0] if words else ''), gap))
            L = n.literal.split('\n')
            if L[-1] == '':
                L.pop()
            out.append(Row('code', Base(base, None), L))
        elif t in ('document', 'block_quote'):
            b = base if t == 'document' else Base(base, None)
            if t == 'block_quote' and n.first_child is None:
                raise Skip('empty quote')
            todo.extend((k, b, gap if i == 0 else True) for i, k in
                        reversed(list(enumerate(kids(n)))))
        elif t == 'list':
            todo.extend((k, base, gap and i == 0) for i, k in
                        reversed(list(enumerate(kids(n)))))
        elif t == 'item':
            m = MARK[n.parent.list_data['type']]
            out.append(Row('mark', base, m, gap))
            b = Base(base, len(m))
            todo.extend((k, b, i > 0) for i, k in
                        reversed(list(enumerate(kids(n)))))
        else:
            raise Skip(t)
    return out


def match(rst, want):
    """Match the lines of the output with the expected rows."""
    lines = rst.split('\n')
    known = {}

    def least(b):
        """(fixed amount, innermost unbound base or None)."""
        free, n = None, 0
        while b is not None:
            if b.add is None:
                v = known.get(id(b))
                if v is None:
                    if free is not None:
                        return None      # two unknowns: cannot happen twice
                    free = b
                else:
                    n += v
            else:
                n += b.add
            b = b.up
        return n, free

    def bind(b, indent, row):
        """Is this indentation possible for the base?  Remember it."""
        chain = []
        x = b
        while x is not None:
            chain.append(x)
            x = x.up
        n, frees = 0, []
        for x in chain:
            if x.add is None and id(x) not in known:
                frees.append(x)
            else:
                n += x.add if x.add is not None else known[id(x)]
        rest = indent - n
        if not frees:
            if rest != 0:
                raise Violation('line %r is indented by %d, not %d' % (
                    row, indent, n))
            return
        if rest < len(frees):
            raise Violation('line %r is indented by %d: not inside its '
                            'container' % (row, indent))
        if len(frees) == 1:
            known[id(frees[0])] = rest
        else:
            # quotes opened at once share the indentation evenly
            if rest % len(frees):
                raise Violation('line %r: indentation %d of %d containers' %
                                (row, indent, len(frees)))
            for x in frees:
                known[id(x)] = rest // len(frees)

    def blank(x):
        return x.strip(' \t') == ''

    def prefix(line, text, row):
        if not line.endswith(text):
            raise Violation('expected line %r, got %r' % (text, line))
        p = line[:len(line) - len(text)]
        if p.strip(' ') != '':
            raise Violation('expected line %r, got %r' % (text, line))
        return len(p)

    i, blanks = 0, 1
    for r in want:
        if r.kind == 'next':
            if i >= len(lines):
                raise Violation('output ends before %r' % (r.text,))
            bind(r.base, prefix(lines[i], r.text, r), r.text)
            i += 1
            blanks = 0
            continue
        code = r.text if r.kind == 'code' else None
        if code is not None and all(blank(x) for x in code):
            # nothing but blank lines: they are lost among the others
            continue
        blanks0 = blanks if i == 0 else 0
        while i < len(lines) and blank(lines[i]):
            i += 1
            blanks0 += 1
        if i >= len(lines):
            raise Violation('output ends before %r' % (r.text,))
        if r.gap and not blanks0:
            raise Violation('no blank line before %r' % (lines[i],))
        blanks = 0
        line = lines[i]
        if r.kind == 'line':
            bind(r.base, prefix(line, r.text, r), r.text)
            i += 1
        elif r.kind == 'mark':
            ind = len(line) - len(line.lstrip(' '))
            m = r.text.rstrip()
            if not line[ind:].startswith(r.text) and line[ind:] != m:
                raise Violation('expected an item %r, got %r' % (r.text,
                                                                 line))
            bind(r.base, ind, line)
            rest = line[ind + len(r.text):]
            if blank(rest):
                i += 1
                blanks = 1
            else:
                lines[i] = ' ' * (ind + len(r.text)) + rest
                blanks = 1
        else:
            lead = 0
            while blank(code[lead]):
                lead += 1
            end = len(code)
            while blank(code[end - 1]):
                end -= 1
            if blanks0 < lead + 1:
                raise Violation('%d blank lines before code %r' % (blanks0,
                                                                   code))
            base = None
            for c in code[lead:end]:
                if i >= len(lines):
                    raise Violation('output ends in code %r' % (code,))
                if blank(c):
                    if not blank(lines[i]):
                        raise Violation('expected a blank line in code, got '
                                        '%r' % (lines[i],))
                else:
                    ind = prefix(lines[i], c, r)
                    if base is None:
                        base = ind
                        bind(r.base, ind, c)
                    elif ind != base:
                        raise Violation('code line %r is indented by %d, the '
                                        'first by %d' % (lines[i], ind, base))
                i += 1
    rest = [x for x in lines[i:] if not blank(x)]
    if rest:
        raise Violation('more output: %r' % (rest[:3],))


def gen_tree(s):
    return trees.document_or_big(s, ())


def gen_text(s):
    t = gens.with_defs(s, gens.structured(s) if s.chance(60) else
                       gens.document(s))
    return gens.stretch(s, t, 1500) if s.chance(3) else t


def check(case, st):
    root = trees.tree_of(case) if isinstance(case, str) else \
        trees.build(case)
    nodes = walk(root)
    rst = rst_of(root)
    if isinstance(case, str) and \
            sut(commonmark.commonmark, case, 'rst') != rst:
        raise Violation('commonmark(text, "rst") differs from the renderer')
    # text in order, whatever the constructs (RST has no escapes here)
    at = 0
    for n in nodes:
        if n.t in ('text', 'code') and n.literal:
            bits = [x for x in n.literal.split('\n') if x]
        elif n.t == 'code_block':
            bits = [x for x in n.literal.split('\n') if x.strip()]
        else:
            continue
        for b in bits:
            k = rst.find(b, at)
            if k < 0:
                raise Violation('text %s is lost or out of order in %s' % (
                    short(b), short(rst)))
            at = k + len(b)
    st.label('text in order')
    inside = set()
    for n in nodes:
        if n.t in ('code_block', 'list', 'heading'):
            st.label(n.t)
            if n.parent is not None and n.parent.t != 'document':
                inside.add(n.t)
    for t in sorted(inside):
        st.label(t + ' in a container')
    if any(n.t in OUT for n in nodes):
        return
    try:
        want = rows(root)
    except Skip as e:
        st.label('order only: ' + str(e))
        return
    match(rst, want)
    st.label('lines exact')
    st.nt(len(nodes) >= 6)


def simple_inl(s, depth=2):
    """Inline content without images, that never makes a blank line."""
    out = [['text', s.pick(trees.WORDISH)]]
    for _ in range(s.small(4)):
        k = s.below(8)
        if k < 2:
            out.append(['text', ' ' + s.pick(trees.WORDISH)])
        elif k == 2:
            out += [['softbreak' if s.chance(70) else 'linebreak'],
                    ['text', s.pick(trees.WORDISH)]]
        elif k == 3:
            out.append(['code', s.pick(trees.WORDISH)])
        elif depth <= 0:
            out.append(['text', s.pick(trees.WORDISH)])
        elif k == 4:
            out.append(['emph', simple_inl(s, depth - 1)])
        elif k == 5:
            out.append(['strong', simple_inl(s, depth - 1)])
        else:
            out.append(['link', s.pick(trees.DESTS), '',
                        simple_inl(s, depth - 1)])
    return out


def one_line_inl(s):
    return [x for x in simple_inl(s, 1)
            if x[0] in ('text', 'code')] + \
        ([['emph', [['text', 'em']]]] if s.chance(30) else []) + \
        ([['link', s.pick(trees.DESTS), '', [['text', 'ln']]]]
         if s.chance(20) else [])


CODE = ['x', '  y', '\tz', '', '', 'for i:', '    deep', '.. code::', '* a',
        'é', '#. b', '####']


def simple_block(s, depth):
    k = s.below(100)
    if depth > 0 and k < 18:
        return ['block_quote', simple_blocks(s, depth - 1)]
    if depth > 0 and k < 45:
        o = s.chance(50)
        return ['list', 'ordered' if o else 'bullet', 1 if o else None,
                '.' if o else None, None if o else '-', s.chance(50),
                [['item', simple_blocks(s, depth - 1)]
                 for _ in range(s.int(1, 3))]]
    if k < 58:
        return ['heading', s.int(1, 6), one_line_inl(s)]
    if k < 74:
        return ['code_block', s.pick(trees.INFOS),
                ''.join(s.pick(CODE) + '\n' for _ in range(s.int(0, 4)))]
    if k < 79:
        return ['paragraph', [['image', s.pick(trees.DESTS), '',
                               one_line_inl(s)]]]
    return ['paragraph', simple_inl(s)]


def simple_blocks(s, depth):
    return [simple_block(s, depth) for _ in range(1 + s.small(3))]


def gen_simple(s):
    t = ['document', [simple_block(s, 3) for _ in range(s.int(1, 4))]]
    if s.chance(2):
        t = trees.grow(s, json.loads(json.dumps(t)))
        if s.chance(30):
            t[1] = t[1] * max(1, min(s.pick([20, 70, 130]),
                                     3000 // trees.weight(t)))
    return t


def enum_sizes(tier):
    if tier == 'quick':
        return sizes.Cases(sizes.BLOCKS, tier, 5000, 6)
    return sizes.Cases(sizes.BLOCKS, tier, 20000, 1)


def check_size(text, st):
    check(text, st)
    st.nt()


PROP = Prop('C17', [
    Part('built', gen_simple, check, 16000, 600000,
         'trees of paragraphs, one-line headings, code blocks, images alone '
         'in a paragraph, nested quotes and lists; the output is matched '
         'line by line; non-trivial: at least six nodes', deep=True),
    Part('mixed', gen_tree, check, 4000, 150000,
         'arbitrary trees; non-trivial: at least six nodes and matched line '
         'by line', deep=True),
    Part('parsed', gen_text, check, 8000, 300000,
         'parsed documents; non-trivial: at least six nodes and matched line '
         'by line', text_shrink=True, deep=True),
    Part('sizes', None, check_size, 1, 1,
         '%d blocks with one length in it: all to 131 and those about the '
         'powers of two and ten (quick: one in 6 of them, to 5000; '
         'thorough: to 20000); non-trivial: all' % len(sizes.BLOCKS),
         cpu=120, enum=enum_sizes, deep=True, text_shrink=True),
], assumptions=['text is compared as it stands: the renderer does not escape '
                'reStructuredText markup'])
