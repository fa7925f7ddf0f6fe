"""C22 lists: grouping, start number, tightness."""
import re

from .. import gens, refmodel, sizes
from ..engine import Part, Prop, Skip, Violation
from ..sutlib import expect_eq, html_of, kids, parse, to_ref
from .c02 import compare, kinds

RULE = re.compile(r'([-*])(?:[ \t]*\1){2,}[ \t]*$')
IDENT = lambda u: u    # noqa: E731

# A block is (lines, list specs inside it or None, kind).
# A list spec is [type, start, marker, loose, [[specs in item], ...]].


def word(s):
    return s.pick(['a', 'foo', 'x y', 'é', 'b *c*', 'word'])


def leaf(s, first):
    """(lines, kind) of a leaf block; blank lines only inside."""
    k = s.below(100)
    if k < 50:
        return [word(s) for _ in range(1 + s.small(2))], 'para'
    if k < 60:
        return ['#' * s.int(1, 3) + ' ' + word(s)], 'heading'
    if k < 80:
        f = s.pick(['```', '~~~'])
        body = [s.pick(['', 'x', '', '- y', '  z', '> w', '1. v'])
                for _ in range(s.int(0, 4))]
        return [f] + body + [f], 'fence'
    if k < 90:
        body = [s.pick(['>', '> q', '> - r', '> q'])
                for _ in range(s.int(0, 3))]
        return ['> q'] + body + s.pick([[], ['>'], ['> ']]), 'quote'
    if first:
        # an indented code block as the first block of the item
        body = []
        for _ in range(s.small(2)):
            body += [''] * s.int(0, 2) + ['    more']
        return ['    code'] + body, 'code'
    return ['***'], 'rule'


def item(s, depth, mark):
    """(lines without the item's own indentation, specs, loose)."""
    blocks, specs, loose = [], [], False
    out = []
    prev = None
    for i in range(1 + s.small(3)):
        if depth > 0 and s.chance(35) and (i or s.chance(40)):
            lines, sub = lists(s, depth - 1, one=True, inside=prev == 'para')
            kind = 'list'
        else:
            lines, kind = leaf(s, i == 0)
            sub = []
            if kind == 'code' and i:
                continue
        if i:
            # two paragraphs need a blank line between them, and so does
            # anything a paragraph line could continue
            must = (prev in ('para', 'quote', 'list', 'code') and
                    kind in ('para',)) or \
                (prev == 'list' and kind == 'list') or \
                (prev == 'quote' and kind == 'quote') or \
                (prev == 'list' and kind == 'code')
            if prev == 'list' and kind == 'list':
                # they might join: leave out
                continue
            if must or s.chance(25):
                out += [''] * s.int(1, 2)
                loose = True
        out += lines
        specs += sub
        prev = kind
    return out, specs, loose


def lists(s, depth, one=False, inside=False):
    """(lines, specs): adjacent lists; each a run of items."""
    out, specs = [], []
    last = None
    for li in range(1 if one else s.int(1, 3)):
        ordered = s.chance(50)
        if ordered:
            mark = s.pick('.)')
            start = s.pick([1, 1, 0, 2, 7, 10, 123456789])
            if inside and li == 0:
                start = 1
        else:
            mark, start = s.pick('-+*'), None
        if last == mark:
            continue
        if last is not None and s.chance(40):
            out += [''] * s.int(1, 2)
        last = mark
        loose, items = False, []
        num = start
        n = 1 + s.small(3)
        if s.chance(1) and depth >= 2:
            n = s.pick([12, 40, 70, 130])
        for i in range(n):
            body, sub, inner = item(s, depth, mark)
            if not (inside and li == 0 and i == 0) and s.chance(6) and \
                    not sub:
                body, inner = [], False      # an empty item
            if ordered:
                m = s.pick(['%d', '%d', '%d', '0%d'])[:] % num \
                    if num < 99999999 else '%d' % num
                m += mark
                num = s.pick([num + 1, num + 1, num, 5, 99])
                if num > 999999999:
                    num = 3
            else:
                m = mark
            off = ' ' * s.pick([0, 0, 0, 1]) if depth == 9 else ''
            pad = ' ' * s.pick([1, 1, 1, 2, 3, 4])
            if body and body[0].startswith('    '):
                pad = ' '
            pre = off + m + pad
            if i:
                if s.chance(25):
                    out += [''] * s.int(1, 2)
                    loose = True
            if body:
                if body[0] == '***' and mark == '*':
                    body[0] = '---' if s.chance(50) else '___'
                out.append(pre + body[0])
                out += [' ' * len(pre) + x if x else '' for x in body[1:]]
            else:
                out.append(off + m)
            loose = loose or inner
            items.append(sub)
        specs.append(['ordered' if ordered else 'bullet', start, mark, loose,
                      items])
    return out, specs


def gen(s):
    before = s.pick([[], [], ['para', ''], ['# h'], ['> q', '']])
    lines, specs = lists(s, 3)
    after = s.pick([[], [], ['', 'para'], ['# h'], ['', '', '> q']])
    return ['\n'.join(before + lines + after) + s.pick(['\n', '', '\n\n']),
            specs]


DELIM = {'.': ('.', 'period'), ')': (')', 'paren')}


def shape(n):
    """The lists below a node, not looking into quotes."""
    out = []
    for k in kids(n):
        if k.t == 'list':
            out.append((k, [shape(i) for i in kids(k)]))
        elif k.t not in ('block_quote', 'item'):
            pass
    return out


def same(got, want, path):
    if len(got) != len(want):
        raise Violation('%d lists at %s, expected %d' % (
            len(got), path or 'top', len(want)))
    for i, ((n, subs), (typ, start, mark, loose, items)) in enumerate(
            zip(got, want)):
        p = '%s/%d' % (path, i)
        d = n.list_data
        if d['type'] != typ:
            raise Violation('list %s is %s' % (p, d['type']))
        if typ == 'ordered':
            if d['start'] != start:
                raise Violation('list %s starts at %r, not %r' % (
                    p, d['start'], start))
            if d['delimiter'] not in DELIM[mark]:
                raise Violation('list %s has delimiter %r' % (p,
                                                              d['delimiter']))
        elif d['bullet_char'] != mark:
            raise Violation('list %s has bullet %r' % (p, d['bullet_char']))
        if bool(d['tight']) == loose:
            raise Violation('list %s is %s' % (
                p, 'tight' if d['tight'] else 'loose'))
        if len(subs) != len(items):
            raise Violation('list %s has %d items, not %d' % (p, len(subs),
                                                              len(items)))
        for j, (a, b) in enumerate(zip(subs, items)):
            same(a, b, '%s[%d]' % (p, j))


def check(case, st):
    text, specs = case
    if any(RULE.search(x) for x in text.split('\n') if '***' not in x and
           '---' not in x and '___' not in x):
        raise Skip('markers that make a thematic break')
    root = parse(text)
    same(shape(root), specs, '')
    expect_eq(html_of(root), refmodel.Html(norm=IDENT).render(to_ref(root)),
              'HTML')

    def label(ss, d):
        for x in ss:
            st.label('%s %s, depth %d' % (x[0], 'loose' if x[3] else 'tight',
                                          d))
            for i in x[4]:
                label(i, d + 1)
    label(specs, 0)
    st.nt(len(specs) > 1 or any(len(x[4]) > 1 or any(x[4]) for x in specs))


LINE = ['- a', '- b', '* c', '+ d', '1. e', '2. f', '1) g', '7. h', '-', '1.',
        '', '', '', 'p', '# h', '```', '> q', '>', 'a\n', '***', '- - x',
        '1. - y', '    z', '- 1. w', '- > v', '-\n', '- ```', '-     k',
        '0. m', '01. n', '- # o', '> - r', '-  s', '1.  t', '-    u']


def gen_lines(s):
    """Short lines at a few indentations, full of markers and blanks."""
    out = []
    for _ in range(s.int(2, 9)):
        x = s.pick(LINE)
        ind = s.pick([0, 0, 0, 2, 2, 3, 4, 1, 5, 6])
        out.append((' ' * ind + x) if x else s.pick(['', '', '  ', '\t']))
    return '\n'.join(out) + s.pick(['\n', ''])


def check_lines(text, st):
    k = kinds(compare(text, st))
    st.nt('list' in k)
    if k.get('list', 0) > 1:
        st.label('several lists')


class Enum(object):
    ALPH = ['- a', '  - b', '', '    - c', '  d', '1. e', '  > f', '- ',
            '  ```', '* g', '    h', '   i']

    def __init__(self, tier):
        self.specs = [(3, 1), (4, 1), (5, 41 if tier == 'quick' else 1)]
        self.sizes = [(len(self.ALPH) ** k) // st for k, st in self.specs]

    def __len__(self):
        return sum(self.sizes)

    def __getitem__(self, i):
        for (k, st), n in zip(self.specs, self.sizes):
            if i < n:
                break
            i -= n
        i *= st
        out = []
        for _ in range(k):
            out.append(self.ALPH[i % len(self.ALPH)])
            i //= len(self.ALPH)
        return '\n'.join(out) + '\n'


PROP = Prop('C22', [
    sizes.part(sizes.those(sizes.BLOCKS, '-', '1.', '1)', '+'), 2),
    Part('constructed', gen, check, 9000, 400000,
         'adjacent and nested lists written from a specification that says '
         'where blank lines go; non-trivial: several items, lists or nesting'),
    Part('lines', gen_lines, check_lines, 12000, 500000,
         'short lines of markers, blanks and indentation, against the '
         'reference model; non-trivial: a list in the tree',
         text_shrink=True),
    Part('stretched', gens.stretched(gen_lines),
         check_lines, 1000, 40000,
         'like the above, with a character, a piece, some lines or all of it '
         'repeated, up to 5000 characters; non-trivial: '
         'a list in the tree', text_shrink=True, cpu=60, deep=True),
    Part('enum', None, check_lines, 1, 1,
         'all sequences of three and four (quick: one in 41 of five) lines '
         'out of twelve; non-trivial: a list in the tree', enum=Enum,
         text_shrink=True),
], assumptions=['the reference model in vf/refmodel.py'])
