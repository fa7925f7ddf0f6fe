"""C01 totality: every text, every format, no exception, bounded time."""
import contextlib
import io
import json

import commonmark

from .. import gens, pump
from ..engine import Part, Prop, Violation, sut
from ..sutlib import ast_dump, html_of, parse, rst_of, walk

OPTS = [{}, {'safe': True}, {'sourcepos': True}, {'softbreak': '<br />'},
        {'safe': True, 'sourcepos': True, 'softbreak': ' '}]


def text_type(x, what):
    if not isinstance(x, str):
        raise Violation('%s gives %s, not text' % (what, type(x).__name__))


def all_formats(text, st, rst=True, dumps=True):
    ast = parse(text)
    for o in OPTS if dumps else OPTS[:2]:
        text_type(html_of(ast, **o), 'HTML')
    if rst:
        text_type(rst_of(ast), 'RST')
    if dumps:
        j = sut(commonmark.dumpJSON, ast)
        text_type(j, 'JSON')
        ast_dump(ast)
    smart = parse(text, smart=True)
    text_type(html_of(smart), 'smart HTML')
    return ast


def check(text, st):
    ast = all_formats(text, st)
    n = len(walk(ast))
    st.nt(n >= 6)
    if n >= 30:
        st.label('30+ nodes')
    if any(ord(c) < 32 and c not in '\n\t\r' for c in text):
        st.label('control characters')
    if any(ord(c) > 0xffff for c in text):
        st.label('astral characters')
    for f in ('html', 'json', 'rst'):
        text_type(sut(commonmark.commonmark, text, f), f)
    with contextlib.redirect_stdout(io.StringIO()):
        sut(commonmark.commonmark, text, 'ast')


def check_long(text, st):
    ast = all_formats(text, st, rst=len(text) <= 2500)
    st.nt(len(walk(ast)) >= 6)
    text_type(sut(commonmark.commonmark, text), 'html')


def any_char(s):
    k = s.below(12)
    if k < 3:
        return s.pick(gens.NOISE)
    if k < 5:
        return chr(s.below(0x80))
    if k < 7:
        return chr(s.below(0x300))
    if k == 7:
        return s.pick(gens.EXOTIC + ['\x0b', '\x0c'])
    if k == 8:
        c = s.below(0x110000)
    elif k == 9:
        c = 0x2000 + s.below(0x300)
    elif k == 10:
        c = 0xfd00 + s.below(0x300)
    else:
        c = 0x1d400 + s.below(0x400)
    return chr(c) if not 0xd800 <= c <= 0xdfff else '\n'


def gen_chaos(s):
    return ''.join(any_char(s) for _ in range(s.int(0, 60)))


def gen_mixed(s):
    t = gens.with_defs(s, gens.document(s))
    for _ in range(s.small(10)):
        i = s.below(len(t) + 1)
        t = t[:i] + any_char(s) + (t[i + 1:] if s.chance(50) else t[i:])
    return t


def gen_cut(s):
    """A document cut off or glued anywhere."""
    t = gens.with_defs(s, gens.document(s))
    t = t[s.below(len(t) + 1):][:s.int(0, 200)]
    if s.chance(40):
        u = gens.document(s)
        t += u[s.below(len(u) + 1):]
    return t


PIECES = ['*', '_', '**', '***', '*a', '_a', 'a*', 'a**', '*a_', '**a*',
          '__a_', '[', ']', '![', '[a', '[a]', '[a](', '[a](b', '[a](<b',
          '[a](b "', "[a](b '", '[a](b (', '[](', '![a](b)', '[a]: /u\n',
          '[a]:\n', '[a]: u "\n', '[a]: u\n"t', '`', '``', '` ', '`a``',
          '<', '<a', '<a b', '<a b=', '<a b="', "<a b='c'", '<!--', '<!-- -',
          '--', '-->', '<?', '?', '<!A', '<!A ', '<![CDATA[', ']]', '</a',
          '<a:', '<a@', '<a@b.', '&', '&#', '&#x', '&a', '&amp', '&amp;',
          '\\', '\\\n', '  \n', ' ', '\t', '\n', '\n\n', '>', '> ', '>\n',
          '- ', '-\n', '- a\n', '1. ', '1) a\n', '123456789. ', '+ - ', '* ',
          '# ', '#', '```\n', '~~~\n', '    a\n', '\ta\n', '---\n', '===\n',
          '- - ', '* *\n', 'a\n===\n', '| a ', ':', '(', ')', '"', "'",
          '"a" ', "'a", '...', '--', '---', 'a', 'é', '\U0001f600',
          '\x00', '\xa0', '(a', 'a)', '<div>\n', '<pre>\n', '</pre>\n', '<p>',
          'http://a', 'a@b.c', '\\*', '[a][', '[][', '][', '!', '[^', '](a)',
          '] ', '[a] ', '[A ', 'ß', '\\[', '\\]', '*_', '_*', '**_', '*[',
          '[*', '![*', '*`', '`*', '<*', '*<a>', '[`', '`]', '[<b]', '>- ',
          '- > ', '1. > ', ' - ', '   - ', '>\t', '-\t', '%', '%20', 'a b ']


def gen_stress(s):
    def piece():
        if s.chance(75):
            return s.pick(PIECES)
        return s.text(gens.NOISE + '>#+', 1, 6)
    total = s.pick([300, 800, 1500])
    k = s.below(4)
    p = piece()
    n = max(2, total // len(p))
    if k == 0:
        t = [[p, n]]
    elif k == 1:
        q = piece()
        t = [[p, n // 2], [s.pick(['', 'a', ' ', '\n', '\n\n']), 1],
             [q, max(1, total // 2 // len(q))]]
    elif k == 2:
        p = p + piece()
        t = [[p, max(2, total // len(p))]]
    else:
        t = [[piece(), 1], [p, n], [piece(), 1]]
    return t


def expand(case):
    return ''.join(p * n for p, n in case)


def check_stress(case, st):
    t = expand(case)
    ast = all_formats(t, st, rst=len(t) <= 2000)
    st.nt(len(t) >= 100)
    d = depth(ast)
    if d >= 50:
        st.label('depth 50+')


def depth(ast):
    best, todo = 0, [(ast, 0)]
    while todo:
        n, d = todo.pop()
        best = max(best, d)
        k = n.first_child
        while k is not None:
            todo.append((k, d + 1))
            k = k.nxt
    return best


def nests(tier):
    out = []
    ns = [1300] if tier == 'quick' else [1300, 3000]
    for n in ns:
        r = 1 if n < 2000 else 0
        out += [
            ['> ', n, 'a', '', r], ['- ', n, 'a', '', r],
            ['1. ', n, 'a', '', r], ['> - ', n // 2, 'a', '', r],
            ['*a **a ', n // 2, 'b', ' a** a*', 1], ['[', n, 'a', '](/u)', 1],
            ['![', n, 'a', '](/u)', r], ['*', n, 'a', '*', 1],
            ['[', n, '', ']', 1], ['(', n, '', ')', 1],
            ['[a](', n // 4, 'b', ')', 1], ['_(', n, 'a', ')_', 1],
            ['**a *', n, 'b', '* a**', 1], ['>', n, 'a\nb\n\nc', '', r],
            ['<a ', n, '', '>', 1], ['"', n, ' a ', '"', 1],
            ['*[', n, 'a', '](u)*', 1], ['- 1. ', n // 2, '# a', '', r],
        ]
    return out


def check_nest(case, st):
    a, n, mid, b, rst = case
    t = a * n + mid + b * n
    ast = all_formats(t, st, rst=bool(rst))
    d = depth(ast)
    st.nt(d >= 500)
    st.label('depth 1000+' if d >= 1000 else 'depth below 1000')


# ------------------------------------------------ a unit in a context

def grid(tier):
    return pump.Grid(tier, 2 if tier == 'quick' else 1)


def check_pump(case, st):
    """Few repetitions: what takes time here takes forever a little later."""
    c, u, t = case
    text = c + u * 45 + t
    text_type(html_of(parse(text)), 'HTML')
    smart = parse(text, smart=True)
    text_type(html_of(smart, safe=True), 'smart HTML')
    st.nt()
    if len(walk(smart)) > 20:
        st.label('many nodes')


# ------------------------------------------------ what calls itself a URL

URLBITS = ['http:', 'https:', '//', '/', '[', ']', '[::1]', '[:', ':', '@',
           ':80', ':x', ':999999', '.', '..', '?', '#', '%', '%zz', '%25',
           '%00', '%ff', '%u0041', '&', '&amp;', '&#0;', '&#xD800;', '=', ';',
           'a', 'B', 'xn--', 'xn--a', 'é', 'ß', '\u3002', '\u0130', '日',
           '\U0001f600', '\ufffd', '\ud7ff', '\u200d', '\u202e', '\xad',
           'javascript:', 'data:', 'data:image/png,', 'vbscript:', 'file:',
           'mailto:', ' ', '\\', '\\[', '\\(', '(', ')', '()', '"', "'",
           '{', '}', '{0}', '%s', '%(a)s', '$1', '\\1', '\\g<0>', '|', '^',
           '~', '\x7f', '\xa0', '\u2028', 'a' * 70, '.' + 'b' * 64, '1' * 20,
           '0x7f', '+', ',', '*', '_', '-', '!']
PLACES = ['[a](%)', '[a](<%>)', '![a](%)', '![%](<%> "%")', '[%](/u)',
          '<http:%>', '<%>', '<a@%>', '[a]\n\n[a]: %', '[a]\n\n[a]: <%> "%"',
          '[%]\n\n[%]: /u', "[a](/u '%')", '``` %\n', '~~~%\nx', '<a href="%">',
          '<a b=%>', '`%`', '# %', '&%;', '*%*', '[a][%]\n\n[%]: %', '\\%']


def gen_urls(s):
    out = ''
    for x in s.pick(PLACES):
        out += ''.join(s.pick(URLBITS) for _ in range(s.int(0, 5))) \
            if x == '%' else x
    return out


def check_urls(text, st):
    check(text, st)
    st.nt(any(n.t not in ('document', 'paragraph', 'text', 'softbreak')
              for n in walk(parse(text))))


NT = 'at least six nodes'
PROP = Prop('C01', [
    Part('chaos', gen_chaos, check, 4000, 150000,
         'random code points of every plane; non-trivial: ' + NT,
         text_shrink=True),
    Part('mixed', gen_mixed, check, 5000, 200000,
         'generated documents with random code points; non-trivial: ' + NT,
         text_shrink=True),
    Part('cut', gen_cut, check, 3000, 120000,
         'truncated and concatenated documents; non-trivial: ' + NT,
         text_shrink=True),
    Part('stretched', gens.stretched(gen_mixed, gen_cut, gens.document),
         check_long, 250, 12000,
         'documents with a character, a piece or some lines repeated up to '
         'thousands of times; non-trivial: ' + NT, text_shrink=True, cpu=60),
    Part('urls', gen_urls, check_urls, 5000, 250000,
         'hostile destinations, hosts, titles, labels and info strings; '
         'non-trivial: not just plain text', text_shrink=True),
    Part('pump', None, check_pump, 1, 1,
         '%d contexts, each with %d units repeated 45 times and %d tails '
         '(quick: every other tail); non-trivial: all' % (
             len(pump.CONTEXTS), len(pump.UNITS), len(pump.TAILS)),
         cpu=20, enum=grid),
    Part('stress', gen_stress, check_stress, 700, 14000,
         'one or two pieces repeated up to 1500 characters; non-trivial: '
         'at least 100 characters', cpu=60),
    Part('nest', None, check_nest, 1, 1,
         'constructs nested 1300 (thorough: 3000) deep; non-trivial: tree '
         'at least 500 deep', cpu=120, enum=nests),
])
