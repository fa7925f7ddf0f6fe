"""C25 separated blocks are independent."""
from .. import gens, refmodel
from ..engine import Part, Prop, Skip, Violation
from ..sutlib import (diff, expect_eq, expect_tree, html_of, kids, parse,
                      short, snap, walk)
from .c19 import blocks_only

SEPS = [['***', 'thematic_break', '<hr />\n'],
        ['___', 'thematic_break', '<hr />\n'],
        ['# sep', 'heading', '<h1>sep</h1>\n'],
        ['<!-- sep -->', 'html_block', '<!-- sep -->\n']]


def open_piece(s):
    """Text that leaves something open at its end."""
    return s.pick(['*a', '**b', '[c', '![d', '`e', '"f', '<g', '[h](', '[i][',
                   '[j](/u "k', '_l_ __m', '***n*', '- o\n  - p', '> q\n> - r',
                   '<!-- s', '<t u="', '`` v `', '> ```\nw', '- ~~~\n  x',
                   '1. y\n\n   z', '&am', '\\', 'a  ', '[b]:', '[b', '*[c',
                   '> <script>\n> x', '- <!--\n', '    code\n\n', '===', '#',
                   '* * a', 'a\n***b', '[d]: <e', '~~~~ f\n~~~'])


def doc(s):
    k = s.below(10)
    if k < 5:
        t = gens.document(s)
    elif k < 7:
        t = gens.inline(s)
    else:
        t = gens.structured(s) + s.pick(['', '\n'])
    if s.chance(40):
        t += s.pick(['', '\n', '\n\n']) + open_piece(s)
    return gens.stretch(s, t, 1500) if s.chance(2) else t


def defs(s):
    return ''.join('[%s]: /d%d%s\n' % (lab, i, s.pick(['', ' "t"']))
                   for i, lab in enumerate(['r', 'foo', 'bar', 'a b', 'x*y',
                                            'i', 'c'])) \
        if s.chance(70) else ''


def gen_join(s):
    d = defs(s)
    return [d, [doc(s) for _ in range(s.int(2, 4))], s.pick(SEPS)]


def closed(t, sep):
    """Does the separator end every open block of t?  (by the model)"""
    m, _, amb = refmodel.parse(t + '\n\n' + sep[0] + '\n')
    if amb:
        raise Skip('left open by the spec')
    a = refmodel.parse(t + '\n')[0]
    return bool(m.kids) and m.kids[-1].t == sep[1] and \
        [k.key() for k in m.kids[:-1]] == [k.key() for k in a.kids]


def check_join(case, st):
    d, docs, sep = case
    pre = d + '\n' if d else ''
    own, ends = set(), set()
    base = set(refmodel.parse(d)[1])
    for x in docs:
        if set(refmodel.parse(pre + x)[1]) - base:
            own.add(x)
    for x in docs[:-1]:
        if not closed(pre + x, sep):
            raise Skip('a block is left open across the separator')
    whole = parse(pre + ('\n\n' + sep[0] + '\n\n').join(docs))
    alone = [parse(pre + x) for x in docs]
    f = blocks_only if own else snap
    got = [f(k) for k in kids(whole)]
    rest = list(got)
    for i, a in enumerate(alone):
        want = [f(k) for k in kids(a)]
        part = rest[:len(want)]
        if part != want:
            raise Violation('part %d: %s' % (i, diff(
                ('document', tuple(part)), ('document', tuple(want)))))
        rest = rest[len(want):]
        if i < len(alone) - 1:
            if not rest or rest[0][0] != sep[1]:
                raise Violation('separator %d is %s' % (i, short(rest[:1])))
            rest = rest[1:]
    if rest:
        raise Violation('more blocks: ' + short(rest))
    if not own:
        expect_eq(html_of(whole), sep[2].join(html_of(a) for a in alone),
                  'HTML')
        st.label('whole trees and HTML')
    else:
        st.label('block structure only (own definitions)')
    st.nt(sum(1 for a in alone if a.first_child is not None) >= 2)


def leaf_text(s):
    """One line that is paragraph text by its first letter."""
    k = s.below(10)
    if k < 6:
        t = gens.one_line(gens.inline(s, 2))
    elif k < 8:
        t = gens.one_line(gens.soup(s))
    else:
        t = gens.one_line(open_piece(s))
    if s.chance(2):
        t = gens.one_line(gens.stretch(s, t, 1500))
    return 'w' + s.pick(['', ' ']) + t.replace('\t', ' ') + 'w'


class Build(object):
    """A document with numbered places for one-line texts."""

    def __init__(self, s):
        self.s = s
        self.n = 0

    def blocks(self, depth):
        s, out = self.s, []
        for i in range(s.int(20, 90) if depth == 3 and s.chance(2)
                       else 1 + s.small(3)):
            if i:
                out.append('')
            out += self.block(depth, i == 0)
        return out

    def block(self, depth, first):
        s = self.s
        k = s.below(100)
        if depth > 0 and k < 20:
            return ['> ' + x for x in self.blocks(depth - 1)]
        if depth > 0 and k < 45:
            out = []
            m = s.pick(['- ', '1. ', '* ', '10) '])
            for i in range(s.int(1, 3)):
                b = self.blocks(depth - 1)
                if i and s.chance(50):
                    out.append('')
                out += [m + b[0]] + [' ' * len(m) + x for x in b[1:]]
            return out
        if k < 52:
            return ['```', '*code', '[', '```']
        if k < 56:
            return ['___']
        if k < 60:
            return ['<div>', '*x', '</div>']
        if k < 64 and first:
            return ['    *code `']
        self.n += 1
        i = self.n - 1
        if k < 75:
            return ['%s {%d}' % ('#' * s.int(1, 6), i)]
        if k < 80:
            return ['{%d}' % i, '===']
        return ['{%d}' % i]


def gen_change(s):
    b = Build(s)
    lines = b.blocks(3)
    texts = [leaf_text(s) for _ in range(b.n)]
    i = s.below(max(1, b.n))
    if b.n > 1 and s.chance(15):    # the same text at several places
        texts = [s.pick(texts[:2]) for _ in texts]
    return [defs(s), '\n'.join(lines), texts, i, leaf_text(s)]


def fill(tpl, texts):
    out = []
    for x in tpl.split('{'):
        if '}' in x:
            i, rest = x.split('}', 1)
            out.append(texts[int(i)] + rest)
        else:
            out.append(x)
    return ''.join(out)


def leaves(root):
    return [n for n in walk(root) if n.t in ('paragraph', 'heading')]


def check_change(case, st):
    d, tpl, texts, i, new = case
    if not texts:
        raise Skip('no paragraph')
    pre = d + '\n' if d else ''
    other = list(texts)
    other[i] = new
    a, b = parse(pre + fill(tpl, texts)), parse(pre + fill(tpl, other))
    ta, tb = blocks_only(a), blocks_only(b)
    expect_tree(tb, ta, 'block structure with another text')
    la, lb = leaves(a), leaves(b)
    if len(la) != len(texts):
        raise Violation('%d texts make %d paragraphs and headings' % (
            len(texts), len(la)))
    for j, (x, y) in enumerate(zip(la, lb)):
        if j != i and snap(x) != snap(y):
            raise Violation('text %d changed when text %d did: %s' % (
                j, i, diff(snap(y), snap(x))))
    # and every text is what it is alone
    for j, x in enumerate(la):
        own = parse(pre + ('# ' if x.t == 'heading' else '') + texts[j])
        want = leaves(own)
        if len(want) != 1 or snap(want[0])[-1] != snap(x)[-1]:
            if x.t == 'heading' and texts[j].rstrip().endswith('#'):
                continue
            raise Violation('text %r alone: %s' % (texts[j], diff(
                snap(x), snap(want[0]))))
    st.nt(len(texts) >= 2)


PROP = Prop('C25', [
    Part('join', gen_join, check_join, 5000, 250000,
         'two to four documents joined by separators; non-trivial: at least '
         'two of them are not empty', deep=True),
    Part('change', gen_change, check_change, 5000, 250000,
         'one text of a document replaced by another; non-trivial: at least '
         'two texts'),
], assumptions=['the reference model decides whether a document leaves a '
                'block open across the separator'])
