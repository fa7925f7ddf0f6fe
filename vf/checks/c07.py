"""C07 code is verbatim."""
import re

from .. import gens, refmodel, sizes
from ..engine import Part, Prop
from ..sutlib import expect_eq, expect_tree, html_of, parse, snap
from .c06 import from_snap, longest, wrap_doc

BITS = ['`', '``', '```', '````', '~~~', '~', '*a*', '**', '_', '[x](y)', '<b>',
        '</pre>', '&amp;', '&#42;', '\\*', '\\', '\\`', '- a', '> q', '# h',
        '1. x', ' ', '  ', '   ', '    ', '\t', ' \t', 'x', 'foo', 'é',
        '\xa0', '\u2028', '\x0b', '\x0c', '\x85', '\x1c', '---', '===', '|', '"',
        "'", '<!--', '-->', '&', '<', '>', '[r]: /u', '</div>', '{', 'a b',
        '\x1b', '\u3000', '\ufeff', '```x', '~~~ y', '    ```', '``` `']


def line(s):
    return ''.join(s.pick(BITS) for _ in range(s.small(5)))


def long(s, lines):
    """Sometimes: many lines, or long ones."""
    if s.chance(4) and lines:
        i = s.below(len(lines))
        n = s.pick(gens.SIZES)
        if s.chance(50):
            lines[i:i] = lines[i:i + s.int(1, 3)] * min(n, 600)
        else:
            x = lines[i]
            k = s.below(len(x) + 1)
            p = x[k:k + s.int(1, 3)] or 'x'
            lines[i] = x[:k] + p * min(n, 600) + x[k:]
    return lines


def wraps(s):
    return ''.join(s.pick(['> ', '- ', '1. ']) for _ in range(s.small(3)))


REFS = [('&lt;', '<'), ('&#32;', ' '), ('&#x20;', ' '), ('&nbsp;', '\xa0'),
        ('&Tab;', '\t'), ('\\\\', '\\'), ('\\*', '*')]


def gen_fenced(s):
    ch = s.pick('`~')
    lines = long(s, [line(s) for _ in range(s.int(0, 6))])
    if s.chance(12):
        lines.append(s.pick(['', '', ' ', 'x']) + ch * s.int(3, 24) +
                     s.pick(['', '', ' ', 'y']))
    need = max([longest(x, ch) for x in lines] + [2])
    n = need + s.int(1, 3)
    if s.chance(30):    # lines that look like the closing fence but are not
        lines.insert(s.below(len(lines) + 1), s.pick(
            ['    ' + ch * n, ch * (n - 1), ch * n + ' x', '\t' + ch * n,
             ('~' if ch == '`' else '`') * (n + 2), ch * n + ch + '.', ch * n + '\xa0', ch * n + ' \u2003',
             ch * n + '\x85', ch * n + '\u2028', ch * n + '\x1f',
             ' ' + ch * (n - 1), 'x' + ch * n]))
    ind = s.pick([0, 0, 0, 1, 2, 3])
    info = s.pick(['', '', 'py', ' a b', 'x"y', '&lt;', ' ~', '  c++  ', 'a&#32;', '&#32;a', '&nbsp;b c&Tab;',
                   ' &#x20; ', 'a\\\\ ', '\\*', '\xa0a\xa0', 'a\\ '])
    dedent = [s.pick([0, 0, 0, 1, 3]) for _ in lines]
    close = s.pick([0, 0, 0, 1, 2, 3]) if s.chance(85) else -1
    wrap = wraps(s)
    if wrap:        # the width of a tab depends on where it stands
        lines = [x.lstrip('\t') if x.strip(' \t').startswith(ch * n) else x
                 for x in lines]
        lines = [x if x[:4] == '    ' or not x.strip(' \t').startswith(ch * n)
                 or x.strip(' \t').strip(ch) else 'y' + x for x in lines]
    if wrap[-2:] in ('- ', '. '):
        ind = 0     # it would be part of the marker
    return [ch, n, ind, info, lines, dedent, close, s.int(0, 3),
            s.int(0, 2), wrap]


def check_fenced(case, st):
    ch, n, ind, info, lines, dedent, close, cind, ctrail, wrap = case
    out = [' ' * ind + ch * n + info]
    content = []
    for x, d in zip(lines, dedent):
        # a line that has no blanks of its own may be indented less
        if d and x[:1] not in (' ', '\t'):
            out.append(' ' * max(0, ind - d) + x)
        else:
            out.append(' ' * ind + x)
        content.append(x)
    # indented as the fence, so that 4 columns of its own make it content
    if close >= 0:
        out.append(' ' * cind + ch * (n + close) + ' ' * ctrail)
    elif content and content[-1].strip(' \t') == '':
        out.append('.')
        content.append('.')
    info = info.strip(' ')
    for ref, char in REFS:
        info = info.replace(ref, char)
    want = ('code_block', info, ''.join(x + '\n' for x in content))
    verify(out, want, wrap, st)
    st.label('closed' if close >= 0 else 'unclosed')
    st.nt(any(not c.isalnum() and c != ' ' for x in lines for c in x))


def verify(lines, want, wrap, st):
    text, want = wrap_raw(lines, want, wrap)
    ast = parse(text)
    expect_tree(snap(ast), want, 'tree of %r' % text)
    expect_eq(html_of(ast), refmodel.Html().render(from_snap(want)),
              'HTML of %r' % text)
    if wrap:
        st.label('in containers')


def wrap_raw(lines, want, wrap):
    """Like wrap_doc, but a line keeps all its blanks."""
    marks = re.findall(r'> |- |1\. ', wrap)
    pre = ''.join(marks)
    pad = ''.join(m if m == '> ' else ' ' * len(m) for m in marks)
    text, want = wrap_doc(['x'], want, wrap)
    out = [pre + lines[0]]
    for x in lines[1:]:
        out.append((pad + x) if x else pad.rstrip(' ') if pad.strip() and
                   not pad.endswith(' > ') else pad)
    return '\n'.join(out) + '\n', want


def gen_indented(s):
    lines = long(s, [line(s) for _ in range(s.int(1, 5))])
    if not lines[0].strip(' \t'):
        lines[0] = 'x' + lines[0]
    if not lines[-1].strip(' \t'):
        lines[-1] += 'y'
    wrap = wraps(s)
    if '-' in wrap and not lines[0].strip(' \t-'):
        lines[0] = 'x' + lines[0]      # else a thematic break
    tabs = [s.chance(20) and not wrap for _ in lines]
    cut = [s.int(0, 4) for _ in lines]
    after = [' ' * s.below(7) for _ in range(
        s.pick(gens.SIZES) if s.chance(3) else s.small(5))]
    return [lines, tabs, cut, wrap, after]


def check_indented(case, st):
    lines, tabs, cut, wrap, after = case
    out, content = [], []
    for x, t, c in zip(lines, tabs, cut):
        if x == '' and c < 4:
            out.append(' ' * c)
        elif t:
            out.append(' ' * min(c, 3) + '\t' + x)
        else:
            out.append('    ' + x)
        content.append(x)
    want = ('code_block', '', ''.join(x + '\n' for x in content))
    verify(out + after, want, wrap, st)
    st.nt(any(not c.isalnum() and c != ' ' for x in lines for c in x))


def gen_span(s):
    w = ''.join(s.pick(BITS + ['\nx', '\ny', ' \nz', '`\n`']) for _ in
                range(s.int(1, 6)))
    if s.chance(10):
        w += '`' * s.int(4, 40) + 'x'
    w = ''.join(long(s, [w]))
    return [w, s.int(0, 2), s.int(1, 3), s.pick(['', ' ']),
            s.pick(['a ', '*', 'b', '&amp;', '_x_ ']), wraps(s)]


def runs(w):
    return {len(m) for m in re.findall('`+', w)}


def check_span(case, st):
    w, mode, n, pad, before, wrap = case
    # lines must not lose blanks at their start, and there are no tabs there
    w = re.sub('\n[ \t]+', '\n', w)
    have = runs(w)
    while n in have:
        n += 1
    body = w
    if body == '' or body.strip(' \n') == '' and '\n' in body:
        body = 'x'
    if body.startswith('`') or body.endswith('`') or pad:
        body = ' ' + body + ' '
    raw = body.replace('\n', ' ')
    if raw.startswith(' ') and raw.endswith(' ') and raw.strip(' '):
        lit = raw[1:-1]
    else:
        lit = raw
    text = before + '`' * n + body + '`' * n + ' b'
    if before == '*':
        pre = (('text', '*'),)
    elif before == '&amp;':
        pre = (('text', '&'),)
    elif before == '_x_ ':
        pre = (('emph', (('text', 'x'),)), ('text', ' '))
    else:
        pre = (('text', before),)
    want = ('paragraph', pre + (('code', lit), ('text', ' b')))
    # a following line could start a block; keep only those that do not
    lines = text.split('\n')
    for i in range(1, len(lines)):
        if not re.match('[A-Za-z]', lines[i]):
            lines[i] = 'q' + lines[i]
    text = '\n'.join(lines)
    if '\n' in text:
        body2 = text[len(before) + n:len(text) - n - 2]
        raw = body2.replace('\n', ' ')
        if {m for m in runs(body2)} & {n}:
            return
        lit = raw[1:-1] if raw[:1] == ' ' == raw[-1:] and raw.strip(' ') \
            else raw
        want = ('paragraph', pre + (('code', lit), ('text', ' b')))
    verify(lines, want, wrap, st)
    st.nt(any(not c.isalnum() and c != ' ' for c in w))


def strip_columns(ws, col, want):
    """What is left of the white space ws, which begins at column col, when
    up to want columns of it are taken away (None: fewer than wanted)."""
    i = 0
    while want > 0 and i < len(ws):
        width = 1 if ws[i] == ' ' else 4 - col % 4
        if width > want:
            return ' ' * (width - want) + ws[i + 1:], 0
        want -= width
        col += width
        i += 1
    return ws[i:], want


def gen_tabs(s):
    """Indentation written with tabs and spaces."""
    kind = s.pick('`~i')
    lines = [[s.text(' \t', 0, 4), s.pick(['x', '*a*', '- b', '#', '&lt;',
                                           '\\', 'x\ty', 'y \t'])]
             for _ in range(s.int(1, 4))]
    return [kind, s.int(0, 3), lines, wraps(s)]


def check_tabs(case, st):
    kind, ind, lines, wrap = case
    col = sum(len(m) for m in re.findall(r'> |- |1\. ', wrap))
    if wrap[-2:] in ('- ', '. '):
        ind = 0     # it would be part of the marker
    out, content = [], []
    for k, (ws, rest) in enumerate(lines):
        if kind == 'i':
            if k == 0 and '- ' in wrap + '- ' and wrap[-2:] != '> ':
                ws = '    '     # tabs would belong to the marker
            left, short_of = strip_columns(ws, col, 4)
            while short_of:
                ws += '\t'
                left, short_of = strip_columns(ws, col, 4)
        else:
            left, _ = strip_columns(ws, col, ind)
        out.append(ws + rest)
        content.append(left + rest)
    if kind != 'i':
        out = [' ' * ind + kind * 3] + out + [kind * 3]
    verify(out, ('code_block', '', ''.join(x + '\n' for x in content)), wrap,
           st)
    st.nt(any('\t' in ws for ws, _ in lines))


NT = 'the content has characters other than letters, digits and spaces'
PROP = Prop('C07', [
    sizes.part(sizes.those(sizes.BLOCKS + sizes.INLINES, '``', '~~~', '    ',
                           '`a'), 2),
    Part('fenced', gen_fenced, check_fenced, 14000, 500000,
         'arbitrary content in fences longer than any in it, in nested '
         'containers; non-trivial: ' + NT),
    Part('indented', gen_indented, check_indented, 10000, 350000,
         'arbitrary content in indented code; non-trivial: ' + NT),
    Part('tabs', gen_tabs, check_tabs, 14000, 500000,
         'code indented by mixtures of tabs and spaces, in containers: just '
         'the prescribed columns go; non-trivial: there is a tab'),
    Part('span', gen_span, check_span, 14000, 500000,
         'arbitrary content in code spans; non-trivial: ' + NT),
])
