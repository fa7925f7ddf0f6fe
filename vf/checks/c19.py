"""C19 source positions."""
import re

from .. import gens, refmodel, sizes, trees
from ..engine import Part, Prop, Skip, Violation, sut
from ..sutlib import (BLOCKS, diff, expect_eq, html_of, kids, parse, short,
                      snap, walk)

ATTR = re.compile(r' data-sourcepos="(\d+):(\d+)-(\d+):(\d+)"')
LINES = re.compile(r'\r\n|\n|\r')
PREFIX = re.compile(r'^(?:[ \t>]|[-+*](?=[ \t]|$)|\d{1,9}[.)](?=[ \t]|$))*$')


def split(t):
    L = LINES.split(t)
    if L[-1] == '':
        L.pop()
    return L


def gen(s):
    k = s.below(10)
    if k < 3:
        t = gens.structured(s)
    else:
        t = gens.document(s)
    if s.chance(30):
        t = gens.with_defs(s, t)
    if s.chance(8):
        t = t.replace('\n', s.pick(['\r\n', '\r']))
    return gens.stretch(s, t, 1500) if s.chance(2) else t


def blocks_only(n):
    """Snapshot of the block structure, without inlines."""
    t = n.t
    if t in ('paragraph', 'thematic_break'):
        return (t,)
    if t == 'heading':
        return (t, n.level)
    if t == 'code_block':
        return (t, n.info or '', n.literal)
    if t == 'html_block':
        return (t, n.literal)
    if t == 'list':
        d = n.list_data
        h = (t, d.get('type'), d.get('start'), d.get('delimiter'),
             d.get('bullet_char'), bool(d.get('tight')))
    else:
        h = (t,)
    return h + (tuple(blocks_only(k) for k in kids(n)),)


def check(text, st):
    lines = split(text)
    root = parse(text)
    nodes = [n for n in walk(root) if n.t in BLOCKS]
    model, refmap, amb = refmodel.parse(text)
    for n in nodes:
        if n is root:
            continue
        pos = n.sourcepos
        try:
            (l1, c1), (l2, c2) = pos
        except (TypeError, ValueError):
            raise Violation('%s has the range %r' % (n.t, pos))
        if not (1 <= l1 <= l2 <= len(lines)) or (l1 == l2 and c1 > c2):
            raise Violation('%s has the range %r in a text of %d lines' % (
                n.t, pos, len(lines)))
        if not (1 <= c1 <= len(lines[l1 - 1]) and
                0 <= c2 <= len(lines[l2 - 1])):
            raise Violation('%s has columns outside its lines: %r' % (n.t,
                                                                      pos))
        p = n.parent
        if p is not root:
            (m1, d1), (m2, d2) = p.sourcepos
            if (m1, d1) > (l1, c1) or (l2, c2) > (m2, d2):
                raise Violation('%s %r is not within its %s %r' % (
                    n.t, pos, p.t, p.sourcepos))
        if n.nxt is not None and n.nxt.sourcepos[0][0] <= l2:
            raise Violation('%s %r and the following %s %r share a line' % (
                n.t, pos, n.nxt.t, n.nxt.sourcepos))
        starts(n, lines[l1 - 1], c1)
        if n.t in ('paragraph', 'heading', 'thematic_break') and \
                (lines[l2 - 1].strip(' \t') == '' or
                 c2 != len(lines[l2 - 1])):
            raise Violation('%s ends at %d:%d, but the line is %r' % (
                n.t, l2, c2, lines[l2 - 1]))
    whole = [[1, 1], [max(1, len(lines)), len(lines[-1]) if lines else 0]]
    if [list(x) for x in root.sourcepos] != whole:
        raise Violation('the document has the range %r, the text %r' % (
            root.sourcepos, whole))
    # nothing but blank lines and markers lies between the blocks
    if not refmap:
        for n in nodes:
            if n.t in ('document', 'block_quote', 'list', 'item'):
                if n is root:
                    rest = set(range(1, len(lines) + 1))
                else:
                    rest = set(range(n.sourcepos[0][0],
                                     n.sourcepos[1][0] + 1))
                for k in kids(n):
                    rest -= set(range(k.sourcepos[0][0],
                                      k.sourcepos[1][0] + 1))
                for i in sorted(rest):
                    if not PREFIX.match(lines[i - 1]):
                        raise Violation('line %d (%r) is in no block of its '
                                        '%s' % (i, lines[i - 1], n.t))
        st.label('coverage')
    # each top-level block alone
    for n in kids(root):
        part = '\n'.join(lines[n.sourcepos[0][0] - 1:n.sourcepos[1][0]]) + '\n'
        alone = parse(part)
        ch = kids(alone)
        if refmap:
            want, got = blocks_only(n), tuple(blocks_only(k) for k in ch)
        else:
            want, got = snap(n), tuple(snap(k) for k in ch)
        if got != (want,) and not (amb or refmodel.parse(part)[2]):
            raise Violation('lines %d-%d alone give %s, not %s' % (
                n.sourcepos[0][0], n.sourcepos[1][0], short(got),
                short(want)))
        st.label('top-level block alone')
    # attributes
    plain = html_of(root)
    marked = html_of(root, sourcepos=True)
    if 'data-sourcepos' not in text:
        if 'data-sourcepos' in plain:
            raise Violation('position without the option: ' + short(plain))
        expect_eq(ATTR.sub('', marked), plain, 'HTML with sourcepos, without '
                                               'the attributes')
        shown = []
        for n in nodes:
            if n.t in ('document', 'html_block'):
                continue
            if n.t == 'paragraph' and n.parent.t == 'item' and \
                    n.parent.parent.list_data['tight']:
                continue
            shown.append((n.sourcepos[0][0], n.sourcepos[0][1],
                          n.sourcepos[1][0], n.sourcepos[1][1]))
        got = [tuple(int(x) for x in m) for m in ATTR.findall(marked)]
        if got != shown:
            raise Violation('attributes %r, positions of the blocks %r' % (
                got, shown))
    st.nt(len(nodes) >= 4)


def starts(n, line, col):
    """Does the block start at this column of the line?"""
    rest = line[col - 1:]
    t = n.t
    if t == 'code_block' and not n.info and not re.match(
            '```|~~~', rest):
        t = 'indented'
    ok = True
    if t == 'heading':
        ok = rest.lstrip(' \t') != ''
    elif t == 'block_quote':
        ok = rest.startswith('>')
    elif t in ('list', 'item'):
        d = n.list_data if t == 'item' else kids(n)[0].list_data
        m = re.match(r'([-+*])|\d{1,9}([.)])', rest)
        ok = m is not None and (m.group(1) or m.group(2)) == (
            d['bullet_char'] if d['type'] == 'bullet' else
            {'period': '.', 'paren': ')'}.get(d['delimiter'],
                                              d['delimiter']))
    elif t == 'thematic_break':
        ok = re.match(r'([-_*])(?:[ \t]*\1){2,}[ \t]*$', rest)
    elif t == 'code_block':
        ok = re.match(r'```|~~~', rest)
    elif t == 'html_block':
        ok = rest.lstrip(' \t').startswith('<')
    elif t in ('paragraph', 'indented'):
        ok = rest.strip(' \t') != ''
    if not ok:
        raise Violation('%s is said to start at %d:%d, where the text is %r' %
                        (n.t, n.sourcepos[0][0], col, rest))


def enum_sizes(tier):
    if tier == 'quick':
        return sizes.Cases(sizes.BLOCKS, tier, 5000, 4)
    return sizes.Cases(sizes.BLOCKS, tier, 20000, 1)


def check_size(text, st):
    check(text, st)
    st.nt()


PROP = Prop('C19', [
    Part('positions', gen, check, 14000, 400000,
         'documents of every kind; non-trivial: at least three blocks',
         text_shrink=True, deep=True, cpu=60),
    Part('sizes', None, check_size, 1, 1,
         '%d blocks with one length in it: all to 131 and those about the '
         'powers of two and ten (quick: one in 4 of them, to 5000; '
         'thorough: to 20000); non-trivial: all' % len(sizes.BLOCKS),
         cpu=120, enum=enum_sizes, deep=True, text_shrink=True),
], assumptions=['a paragraph or setext heading that begins with link '
                'reference definitions starts with them'])
