"""C09 reference resolution."""
import re
import sys

from .. import refmodel, sizes
from ..engine import Part, Prop
from ..sutlib import expect_tree, parse, snap

WS = re.compile('[ \t\n\x0b\x0c\r]+')
BASES = ['foo', 'foo bar', 'straße', 'Ωμέγα', 'x y z', 'é', 'ﬁ', 'İx',
         'ı', 'K', 'ſ', 'ǆ', '日本', 'a!b', 'a\\!b', 'a.b', '1', 'ΐ', 'ß',
         'a\xa0b', 'a b', 'ab', 'ᾳ', 'Ꭰ', '\U00010400', 'ŉ', 'a\u2003b', 'e\u0301',
         'ss', 'fi', 'i\u0307x', 'a-b', 'a\u2028b', 'x\x1fy', 'x y', 'ʼn',
         '^a', '@a', '#1', '$x', 'a^', ':a', '-a', '/a', '+', '=', '^', '~a', '1.',
         '(a)', '{a}', "a'b", '%41', 'a:', '|', ';', ',x', 'a?', '"a"', '- a']


def norm(label):
    return WS.sub(' ', label).strip(' ').casefold()


def variant(s, base, lines=True):
    t = base
    k = s.below(7)
    if k == 1:
        t = t.upper()
    elif k == 2:
        t = t.lower()
    elif k == 3:
        t = t.swapcase()
    elif k == 4:
        t = t.title()
    elif k == 5:
        t = t.casefold()
    out = ''
    for c in t:
        if c == ' ' and s.chance(40):
            out += s.pick(['  ', '\t', ' \t ', '   '] +
                          (['\n', ' \n', '\n '] if lines else []))
        else:
            out += c
    if s.chance(15):
        out = ' ' + out
    if s.chance(15):
        out = out + s.pick([' ', '  '])
    return out


# like a title, but more follows on its line, or it has no end
FAKES = ['"t" z', '"t\nu" z', '(t\nu) z', "'t\nu\nv' z", '"t', '(t\nu']


def gen(s):
    bases = [s.pick(BASES) for _ in range(s.int(1, 3))]
    if s.chance(8):
        # a long label (up to about 500 characters), and a near miss
        b = ' '.join(s.pick(['a', 'B', 'ß', 'foo', 'é', '\u1e9e', 'İ', '日'])
                     for _ in range(s.int(10, 60)))
        bases += [b, b + s.pick(['', 'x', ' a'])]
    items = []
    n = s.int(2, 8)
    for i in range(n):
        b = s.pick(bases)
        if s.chance(45):
            ds = []
            for j in range(s.pick([1, 1, 1, 2, 3, 4])):
                ds.append([variant(s, s.pick(bases)),
                           s.pick(['/%d%d' % (i, j)] * 5 + ['<>', '</%d %d>'
                                                            % (i, j)]),
                           s.pick(['', '', 't%d%d' % (i, j),
                                   't%d\n%d %d' % (i, j, j)]),
                           s.pick(['', '', 'nl', 'title']),
                           s.pick(['""', '""', "''", '()'])])
            items.append(['def', ds, s.pick(['', '', '> ', '- ', '1. ', '> - ',
                                             '   ']),
                          s.pick(['', '', 'para', 'setext', 'under', 'ref'] +
                                 FAKES)])
        else:
            form = s.pick(['full', 'full', 'collapsed', 'shortcut',
                           'shortcut', 'ifull', 'icollapsed', 'ishortcut'])
            items.append(['ref', variant(s, b), form,
                          s.pick(['', '', '> ', '- ', '# ', '> 1. ']),
                          s.chance(20)])
    return items


def inl(label):
    """The inlines of a label used as link text."""
    t = label.replace('\\!', '!')
    lines = t.split('\n')
    out = []
    for i, x in enumerate(lines):
        if i:
            out.append(('softbreak',))
            x = x.lstrip(' \t')
        if i < len(lines) - 1:
            x = x.rstrip(' ')
        if x:
            out.append(('text', x))
    return out


def merge(parts):
    out = []
    for p in parts:
        if p[0] == 'text' and out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + p[1])
        elif p != ('text', ''):
            out.append(p)
    return tuple(out)


def contain(lines, blocks, pre):
    """The text lines and the expected blocks of lines put in containers."""
    marks = re.findall(r'> |- |1\. ', pre)
    pad = ''.join(m if m == '> ' else ' ' * len(m) for m in marks)
    lines = [pre + lines[0]] + [pad + x for x in lines[1:]]
    for m in reversed(marks):
        if m == '> ':
            blocks = [('block_quote', tuple(blocks))]
        elif m == '- ':
            blocks = [('list', 'bullet', None, None, '-', 'tight',
                       (('item', tuple(blocks)),))]
        else:
            blocks = [('list', 'ordered', 1, '.', None, 'tight',
                       (('item', tuple(blocks)),))]
    return lines, blocks


def hard(label):
    """Two blanks before a line end would be a hard break in link text."""
    return re.sub(' +\n', '\n', label)


def check(items, st):
    defs = {}
    for it in items:
        if it[0] == 'def':
            for label, dest, title, _, _ in it[1]:
                defs.setdefault(norm(label), (
                    dest.strip('<>').replace(' ', '%20'), title))
    text, want = [], []
    hits = 0
    for it in items:
        if it[0] == 'def':
            _, ds, pre, tail = it
            lines = []
            for label, dest, title, sep, q in ds:
                src = '[%s]:%s%s' % (hard(label),
                                     '\n' if sep == 'nl' else ' ', dest)
                if title:
                    src += ('\n' if sep else ' ') + q[0] + title + q[1]
                lines += src.split('\n')
            # what follows in the same paragraph
            if tail == 'para':
                lines += ['rest']
                blocks = [('paragraph', (('text', 'rest'),))]
            elif tail == 'setext':
                lines += ['rest', '===']
                blocks = [('heading', 1, (('text', 'rest'),))]
            elif tail == 'under':
                lines += ['===']
                blocks = [('paragraph', (('text', '==='),))]
            elif tail == 'ref':
                lines += ['T [%s]' % ds[0][0].replace('\n', ' ')]
                hit = defs[norm(ds[0][0])]
                hits += 1
                blocks = [('paragraph', (
                    ('text', 'T '), ('link', hit[0], hit[1], merge(inl(
                        ds[0][0].replace('\n', ' '))))))]
            elif tail:
                lines += tail.split('\n')
                t = []
                for x in tail.split('\n'):
                    t += [('softbreak',), ('text', x)]
                blocks = [('paragraph', tuple(t[1:]))]
            else:
                blocks = []
            if pre.strip() == '':
                lines = [pre + lines[0]] + lines[1:]
                pre = ''
            lines, blocks = contain(lines, blocks, pre)
        else:
            _, label, form, pre, noise = it
            label = hard(label)
            if pre == '# ':
                label = re.sub(r'\s*\n\s*', ' ', label)
            img = form[0] == 'i'
            base = form[1:] if img else form
            hit = defs.get(norm(label))
            hits += hit is not None
            bang = '!' if img else ''
            txt = [('text', 'T')] if base == 'full' else inl(label)
            src = bang + {'full': '[T][%s]', 'collapsed': '[%s][]',
                          'shortcut': '[%s]'}[base] % label
            if hit:
                parts = [('image' if img else 'link', hit[0], hit[1],
                          merge(txt))]
            elif base == 'full':
                parts = [('text', bang + '[T][')] + inl(label) + \
                    [('text', ']')]
            else:
                parts = [('text', bang + '[')] + inl(label) + \
                    [('text', ']' if base == 'shortcut' else '][]')]
            if noise:
                src = 'see ' + src + ' ok'
                parts = [('text', 'see ')] + parts + [('text', ' ok')]
            parts = merge(parts)
            if pre == '# ':
                lines, blocks = ['# ' + src], [('heading', 1, parts)]
            else:
                lines, blocks = contain(src.split('\n'),
                                        [('paragraph', parts)], pre)
        if text:
            text += ['', '***', '']
            want.append(('thematic_break',))
        text += lines
        want += blocks
    doc = '\n'.join(text) + '\n'
    expect_tree(snap(parse(doc)), ('document', tuple(want)),
                'tree of %r' % doc)
    st.nt(hits and len(defs) >= 1)
    st.label('%d labels' % min(4, len(defs)))


# --------------------------------------------- every foldable code point

def points(tier):
    out = []
    for c in range(0x80, sys.maxunicode + 1):
        if 0xd800 <= c <= 0xdfff:
            continue
        ch = chr(c)
        if ch.casefold() != ch or ch.upper() != ch or ch.lower() != ch:
            out.append(c)
        elif c % (1009 if tier == 'quick' else 7) == 0:
            out.append(c)
    return out + list(range(0x41, 0x5b)) + list(range(0x61, 0x7b))


def check_point(c, st):
    ch = chr(c)
    forms = {ch, ch.casefold(), ch.upper(), ch.lower(), ch.title(),
             ch.swapcase(), ch.upper().lower(), ch.lower().upper()}
    forms |= {chr(c ^ 1) if 0xd800 > c ^ 1 > 0x80 else ch}
    want = []
    refs = []
    for f in sorted(forms):
        if f.strip() != f or not f:
            continue
        refs.append('[T][a%sb]' % f)
        if norm('a%sb' % f) == norm('a%sb' % ch):
            want.append(('paragraph', (('link', '/u', '',
                                        (('text', 'T'),)),)))
        else:
            want.append(('paragraph', (('text', '[T][a%sb]' % f),)))
    text = '\n\n'.join(refs) + '\n\n[a%sb]: /u\n' % ch
    expect_tree(snap(parse(text)), ('document', tuple(want)), repr(text))
    st.nt(len(refs) > 1)


PROP = Prop('C09', [
    sizes.part(sizes.REFS, 1),
    Part('docs', gen, check, 16000, 600000,
         '2-8 groups of definitions (alone, before a paragraph or heading) '
         'and references over few labels in many spellings and containers; non-trivial: a reference resolves'),
    Part('fold', None, check_point, 1, 1,
         'every code point with case, all its case variants; non-trivial: '
         'at least two spellings', enum=points),
], ['Unicode case folding is str.casefold() of the Python that runs the '
    'check'])
