"""C11 equivalent spellings give the same result."""
import re

from .. import gens, refmodel
from ..engine import Part, Prop, Skip
from ..sutlib import expect_eq, expect_tree, html_of, parse, rst_of, snap


def doc(s):
    t = gens.with_defs(s, gens.document(s))
    if s.chance(20):
        t = gens.exotic(s, t)
    if s.chance(3):
        t = gens.stretch(s, t, 3000)
    return t


def lines_of(t):
    return refmodel.split_lines(t)


def gen_eol(s):
    L = lines_of(doc(s))
    if not L:
        L = ['a']
    style = s.below(5)
    out, prev = '', ''
    for x in L:
        e = ['\r', '\r\n', '\n'][style] if style < 2 else \
            s.pick(['\n', '\r', '\r\n'])
        if prev == '\r' and x == '' and e == '\n':
            e = '\r\n'      # CR then LF would be one line ending
        out += x + e
        prev = e
    if L[-1] and s.chance(50):
        out = out[:-len(prev)]
    return ['eol', '\n'.join(L) + '\n', out]


def gen_huge(s):
    """More characters than any buffer has, by all three rules."""
    t = s.pick(['a *b* c', 'a\n\nb', '- a\n- b', '```\nx\ny\n```',
                '<div>\n\nx', '> a\nb', '    c\n\n    d', 'a\\\nb', 'é',
                'ab  \ncd'])
    sep = s.pick(['\n', '\n\n', '\n\n\n'])
    room = s.pick([66000, 66000, 80000, 132000])
    t = sep.join([t] * (room // (len(t) + len(sep))))
    t = s.text('ab', 0, 40) + '\n' + t + s.pick(
        ['', '\n\n    c', '\n\n```\nc']) + '\n'
    if s.chance(30):
        return ['eol', t, t[:-1]]
    if s.chance(50):
        eol = s.pick(['\r', '\r\n'])
        return ['eol', t, t.replace('\n', eol)]
    for _ in range(1 + s.small(4)):
        i = s.below(len(t) + 1)
        t = t[:i] + '\x00' + t[i:]
    return ['nul', t.replace('\x00', '\ufffd'), t]


def gen_nul(s):
    L = doc(s)
    for _ in range(1 + s.small(4)):
        i = s.below(len(L) + 1)
        L = L[:i] + '\x00' + L[i:]
    return ['nul', L.replace('\x00', '\ufffd'), L]


def gen_blank(s):
    L = lines_of(doc(s)) or ['a']
    a = '\n'.join(L) + '\n'
    pre = ''.join(s.pick(['\n', ' \n', '   \n', '\t\n', '     \n', '\r\n',
                          '\r']) for _ in range(s.int(0, 3)))
    if pre.endswith('\r') and L[0] == '':
        pre += '\n'
    post = ''.join(s.pick(['\n', ' \n', '  \n', '\t\n']) for _ in
                   range(s.int(0, 3)))
    return ['blank', a, [pre, post]]


PREFIX = re.compile(r'(?: |>|[-+*](?= )|\d{1,9}[.)](?= )|#{1,6}(?= ))+')


def respell(L, often):
    """Some of the blanks at the beginning of lines as tabs."""
    out = []
    for x in L:
        m = PREFIX.match(x)
        n = m.end() if m else 0
        if n == len(x) and x.strip(' '):
            n = len(x.rstrip(' '))      # not a hard line break
        t, col, i = '', 0, 0
        while i < n:
            if x[i] == ' ':
                j = i
                while j < n and x[j] == ' ':
                    j += 1
                run = j - i
                while run > 0:
                    step = 4 - col % 4
                    if run >= step and often():
                        t += '\t'
                        col += step
                        run -= step
                    else:
                        t += ' '
                        col += 1
                        run -= 1
                i = j
            else:
                t += x[i]
                col += 1
                i += 1
        out.append(t + x[n:])
    return out


def gen_tabs(s):
    L = lines_of(doc(s).replace('\t', '    ')) or ['a']
    if s.chance(40):
        L = [s.pick(['', '    ', '  ', '        ', '   ']) + x if x else x
             for x in L]
    out = respell(L, lambda: s.chance(60))
    return ['tabs', '\n'.join(L) + '\n', '\n'.join(out) + '\n']


def gen_trail(s):
    L = lines_of(doc(s)) or ['a']
    out = []
    for i, x in enumerate(L):
        nxt = L[i + 1] if i + 1 < len(L) else ''
        k = s.int(1, 3) if s.chance(60) else 0
        if x.strip(' \t') == '' and x == '':
            out.append(' ' * k)
        elif nxt.strip(' \t') == '':
            out.append(x + ' ' * k)
        else:
            out.append(x)
    return ['trail', '\n'.join(L) + '\n', '\n'.join(out) + '\n']


def squeeze(x):
    """Forget all blanks in a snapshot."""
    if isinstance(x, str):
        return re.sub('[ \t]', '', x.replace('%20', '').replace('%09', ''))
    if isinstance(x, tuple):
        if x and x[0] == 'html_block':      # blank lines at its end
            return (x[0], squeeze(x[1]).rstrip('\n'))
        return tuple(squeeze(k) for k in x)
    return x


def rtrim(x):
    """Forget trailing blanks of the lines of literal blocks."""
    if isinstance(x, tuple):
        if x and x[0] in ('code_block', 'html_block'):
            t = '\n'.join(l.rstrip(' \t') for l in x[-1].split('\n'))
            if x[0] == 'html_block':
                t = t.rstrip('\n')
            return x[:-1] + (t,)
        return tuple(rtrim(k) for k in x)
    return x


def last_leaf(t):
    while t[0] in ('document', 'block_quote', 'list', 'item') and t[-1]:
        t = t[-1][-1]
    return t[0]


def check(case, st):
    kind, a, b = case
    ta = parse(a)
    if kind == 'blank':
        pre, post = b
        if post and last_leaf(snap(ta)) in ('code_block', 'html_block'):
            raise Skip('the text ends in code or HTML')
        b = pre + a + post
    tb = parse(b)
    sa, sb = snap(ta), snap(tb)
    st.label(kind)
    st.nt(a != b)
    if kind == 'tabs':
        expect_tree(squeeze(sb), squeeze(sa), '%r instead of %r' % (b, a))
        return
    if kind == 'trail':
        expect_tree(rtrim(sb), rtrim(sa), '%r instead of %r' % (b, a))
        return
    expect_tree(sb, sa, '%r instead of %r' % (b, a))
    expect_eq(html_of(tb), html_of(ta), 'HTML')
    expect_eq(rst_of(tb), rst_of(ta), 'RST')
    expect_eq(html_of(parse(b, smart=True)), html_of(parse(a, smart=True)),
              'smart HTML')


NT = 'the two spellings differ'
PROP = Prop('C11', [
    Part('eol', gen_eol, check, 9000, 300000,
         'LF, CR and CR LF in any mixture, last one left out; non-trivial: ' +
         NT, deep=True),
    Part('huge', gen_huge, check, 8, 60,
         'the same and the next with 66000 to 132000 characters; '
         'non-trivial: ' + NT, cpu=120),
    Part('nul', gen_nul, check, 5000, 150000,
         'NUL against U+FFFD; non-trivial: ' + NT, deep=True),
    Part('blank', gen_blank, check, 7000, 200000,
         'blank lines added at start and end; non-trivial: ' + NT, deep=True),
    Part('tabs', gen_tabs, check, 12000, 400000,
         'indentation by tabs or by spaces; trees compared without blanks; '
         'non-trivial: ' + NT, deep=True),
    Part('trail', gen_trail, check, 9000, 300000,
         'trailing spaces on last lines and blank lines; literal blocks '
         'compared without trailing blanks; non-trivial: ' + NT, deep=True),
])
