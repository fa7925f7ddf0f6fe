"""C08 containers are transparent."""
import random
import re

from .. import gens, refmodel, sizes
from ..engine import Part, Prop, Skip, Violation
from ..sutlib import expect_tree, parse, snap
from .c11 import respell, squeeze

BLANK = re.compile(r'[ ]*\Z')


def gen_doc(s):
    k = s.below(10)
    if k < 4:
        t = gens.document(s)
    elif k < 7:
        t = gens.soup_lines(s, 8)
    elif k < 9:
        t = gens.structured(s)
    else:
        t = '\n'.join(s.pick(['', 'a', '- b', '    c', '> d', '```', '# e',
                              '<div>', '1. f', '  g', '---', '<!-- h',
                              '[r]: /u', '   ', '     - i'])
                      for _ in range(s.int(1, 8)))
    t = gens.with_defs(s, t)
    if s.chance(3):
        t = gens.stretch(s, t, 2500)
    return t.replace('\t', '  ')


def gen_wrap(s):
    marks = []
    for _ in range(1 + s.small(3)):
        k = s.below(4)
        if k < 2:
            marks.append(['>', s.below(4)])
        elif k == 2:
            marks.append([s.pick('+*-'), s.pick([1, 1, 2, 3, 4])])
        else:
            marks.append([s.pick(['1.', '0)', '23.', '999999999)', '007.']),
                          s.pick([1, 1, 2, 3, 4])])
    return [gen_doc(s), marks, s.chance(25),
            s.int(1, 1 << 30) if s.chance(30) else 0]


def quote(lines, style):
    out = []
    for x in lines:
        if style == 1 and not x.startswith(' '):
            out.append('>' + x)
        elif style == 2 and not x:
            out.append('>')
        elif style == 3:
            out.append('   > ' + x)
        else:
            out.append('> ' + x)
    return out


def item(lines, mark, gap, down):
    """down: the item starts with a blank line."""
    first = lines[0]
    code = first.startswith('    ')
    if code:
        gap = 1
    if down and not code:
        pad = ' ' * (len(mark) + 1)
        return [mark] + [pad + x if x else x for x in lines]
    m = mark + ' ' * gap
    return [m + first] + [' ' * len(m) + x if x else x for x in lines[1:]]


def check_wrap(case, st):
    text, marks, down, tabs = case
    lines = refmodel.split_lines(text)
    if not lines:
        raise Skip('no lines')
    base = snap(parse('\n'.join(lines) + '\n'))
    want = base[-1]
    for mark, n in reversed(marks):
        if mark == '>':
            lines = quote(lines, n)
            want = (('block_quote', want),)
            continue
        if BLANK.match(lines[0]):
            raise Skip('first line blank')
        if re.match(' {1,3}[^ ]', lines[0]):
            raise Skip('first line indented by 1-3')
        dn = down and not lines[0].startswith('    ')
        if not dn and mark in '-*' and \
                set(lines[0]) <= set(' ' + mark):
            mark = '+'      # else a thematic break
        lines = item(lines, mark, n, dn)
        if mark in '+-*':
            want = (('list', 'bullet', None, None, mark, None,
                     (('item', want),)),)
        else:
            want = (('list', 'ordered', int(mark[:-1]), mark[-1], None, None,
                     (('item', want),)),)
        st.label('item')
    want = ('document', want)
    got = mask(snap(parse('\n'.join(lines) + '\n')), want[1])
    expect_tree(got, want, 'wrapped')
    if tabs:
        # blanks after markers and of indentation as tabs
        rng = random.Random(tabs)
        lines = respell(lines, lambda: rng.random() < 0.7)
        got = mask(snap(parse('\n'.join(lines) + '\n')), want[1])
        expect_tree(squeeze(got), squeeze(want), 'wrapped, with tabs: %r' %
                    '\n'.join(lines))
        st.label('tabs')
    st.label('depth %d' % len(marks))
    st.nt(len(base[-1]) >= 1)


def mask(got, want):
    """Forget the tightness of the lists made by wrapping."""
    def go(g, w):
        if not w or len(w) != 1 or len(g) != 1 or g[0][0] != w[0][0]:
            return g
        if w[0][0] == 'list' and w[0][5] is None and len(g[0][-1]) == 1:
            it = g[0][-1][0]
            return (g[0][:5] + (None, (('item', go(it[-1], w[0][-1][0][-1])),
                                       )),)
        if w[0][0] == 'block_quote':
            return (('block_quote', go(g[0][-1], w[0][-1])),)
        return g
    return ('document', go(got[-1], want))


# ------------------------------------------------ one to three spaces

def gen_indent(s):
    k = s.below(3)
    if k == 0:
        t = '\n'.join(gens.block(s, 2))
    elif k == 1:
        t = gens.soup_lines(s, 5)
    else:
        t = '\n'.join(gens.block(s, 1) + ([''] if s.chance(50) else []) +
                      gens.block(s, 1))
    if s.chance(3):
        t = gens.stretch(s, t, 2000)
    return [t.replace('\t', ' ') + '\n', [s.int(0, 3) for _ in range(6)]]


def check_indent(case, st):
    """Indent the lines of each top-level block by 0-3 spaces, wherever the
    model agrees that this changes nothing."""
    text, ks = case
    lines = refmodel.split_lines(text)
    doc, _, amb = refmodel.parse(text)
    if amb:
        raise Skip('ambiguous')
    starts = [b.start for b in doc.kids]
    out, i = [], -1
    for no, x in enumerate(lines, 1):
        while i + 1 < len(starts) and starts[i + 1] is not None and \
                starts[i + 1] <= no:
            i += 1
        out.append((' ' * ks[max(i, 0) % len(ks)] + x) if x else x)
    new = '\n'.join(out) + '\n'
    d2, _, amb2 = refmodel.parse(new)
    if amb2 or d2.key() != doc.key():
        raise Skip('indentation matters here')
    expect_tree(snap(parse(new)), snap(parse('\n'.join(lines) + '\n')),
                'indented %r' % new)
    st.nt(new != '\n'.join(lines) + '\n')


# ------------------------------------------------ laziness

WORDS = ['a', 'foo *b*', 'c `d` e', 'x [y](/z)', 'w.', 'q  ', 'é', 'p\\',
         'tel. 1. 2', 'u - v', 'k > l', 'm # n', 's <b>t</b>', '*o', 'i**',
         '[j', 'r](/h)', '&amp; g', '!', '`n', 'a`', '(', 'f"']


def gen_lazy(s):
    n = s.int(1, 4)
    marks = [s.pick(['> ', '- ', '1. ', '10) ', '+   ', '>']) for _ in
             range(n)]
    before = s.pick(['', '', '# h', 'p', '***', '    c'])
    for i in range(n - 1):
        if marks[i] == '>' and marks[i + 1][0] != '>':
            marks[i] = '> '     # else it takes a space of the next prefix
    if before == '    c' and marks[-1] == '+   ':
        before = '# h'
    m = s.int(1, 4)
    words = [s.pick(WORDS) for _ in range(m + 1)]
    drops = [s.int(0, n) for _ in range(m)]
    extra = [s.pick([0, 0, 0, 1, 3, 4, 7]) for _ in range(m)]
    if s.chance(3):
        k = s.pick([20, 70, 130, 300])
        if s.chance(50):
            words[1:], drops, extra = words[1:] * k, drops * k, extra * k
        else:
            i = s.below(m + 1)
            words[i] = words[i].rstrip('\\ ') + ' x' * k
    return [marks, before, words, drops, extra]


def check_lazy(case, st):
    marks, before, words, drops, extra = case
    pads = [m if m[0] == '>' else ' ' * len(m) for m in marks]
    first = ''.join(marks)
    head = []
    if before:
        if before == '    c' and marks[-1] == '>':
            before = ' ' + before
        head = [first + before, ''.join(pads).rstrip(' ')]
        first = ''.join(pads)
    full, lazy = list(head), list(head)
    full.append(first + words[0])
    lazy.append(first + words[0])
    for w, d, e in zip(words[1:], drops, extra):
        full.append(''.join(pads) + w)
        lazy.append(''.join(pads[:len(pads) - d]) + ' ' * e + w)
    a = '\n'.join(full) + '\n'
    b = '\n'.join(lazy) + '\n'
    ta = snap(parse(a))
    # the paragraph must be where it was put, with all lines in it
    x = ta
    for m in marks:
        x = x[-1][0] if m[0] == '>' else x[-1][0][-1][0]
    if x[-1][-1][0] != 'paragraph' or \
            len(x[-1]) != (2 if before else 1):
        raise Violation('paragraph not inside its containers: %r -> %r' % (
            a, ta))
    expect_tree(snap(parse(b)), ta, 'lazy %r' % b)
    st.nt(a != b)
    st.label('depth %d' % len(marks))


PROP = Prop('C08', [
    sizes.part(sizes.those(sizes.BLOCKS, '>', '- ', '1. ', '-\t')),
    Part('wrap', gen_wrap, check_wrap, 18000, 700000,
         'generated documents wrapped in 1-4 quotes and items; non-trivial: '
         'the document has a block', deep=True),
    Part('indent', gen_indent, check_indent, 8000, 250000,
         'top-level blocks indented by 0-3 spaces; non-trivial: the text '
         'changed', deep=True),
    Part('lazy', gen_lazy, check_lazy, 12000, 400000,
         'paragraphs in nested containers with prefixes of continuation '
         'lines left out; non-trivial: the text changed'),
])
