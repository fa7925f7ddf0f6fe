"""C10 normalisation of destinations."""
import re
from urllib.parse import unquote_to_bytes

from .. import gens, sizes
from ..engine import Part, Prop, Skip, Violation
from ..sutlib import expect_eq, html_of, parse, walk
from .c06 import encode

KEPT = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
           '-._;/@:+?=&()%#*,')
URLCH = KEPT | set("~!$'[]")


def laws(w, got):
    """got must be w with some characters replaced by their own escapes."""
    i = 0
    for c in w:
        esc = ''.join('%%%02X' % b for b in c.encode('utf-8'))
        if got[i:i + 1] == c and c in URLCH:
            i += 1
        elif got[i:i + len(esc)].upper() == esc and c not in KEPT:
            i += len(esc)
        else:
            raise Violation('%r became %r (at %d: %r)' % (w, got, i, c))
    if i != len(got):
        raise Violation('%r became %r' % (w, got))
    if unquote_to_bytes(got) != unquote_to_bytes(w.encode('utf-8')):
        raise Violation('%r points elsewhere than %r' % (got, w))


def esc_html(u):
    return u.replace('&', '&amp;').replace('<', '&lt;') \
        .replace('>', '&gt;').replace('"', '&quot;')


BITS = ['/', '?', '#', '&', '=', '%', '%20', '%C3%A4', '%zz', '%2', '%%', 'a',
        'b', '1', 'ä', '日', '\U0001f600', ' ', '"', "'", '[', ']', '{', '}',
        '|', '^', '`', '~', '!', '$', '*', '+', ',', ';', ':', '@',
        '-', '.', '(', ')', '_', '\\', '<', '>', '\xa0', '\x7f', '\x01', '\x85',
        '\u2028', 'http://x.y/', '&amp;', '&copy', '%25', '%E2%82%AC', '://',
        '#%41', '\t', '\n', '%00', '%0a', '%c3%a4', '\ufffd', '\xad', '//',
        'xn--', '?q=%26', 'é%A9']


def gen(s):
    w = ''.join(s.pick(BITS) for _ in range(
        s.pick([20, 60, 130, 300, 700]) if s.chance(3) else s.int(1, 8)))
    if s.chance(2):
        i = s.below(len(w))
        w = w[:i] + w[i:i + s.int(1, 5)] * s.pick(gens.SIZES) + w[i:]
    pos = s.pick(['bare', 'angle', 'def', 'image', 'auto', 'plain', 'mail'])
    if pos == 'auto':
        w = s.pick(['http', 'x.y+z-1', 'MAILTO']) + ':' + w
        return [pos, w, '']
    if pos == 'mail':
        return [pos, s.text("ab1.!#$%&'*+/=?^_`{|}~-", 1,
                            300 if s.chance(3) else 6) + '@' +
                s.pick(['x', 'x.y', 'a-b.c', 'x' * 63, 'x.' * 90 + 'y']), '']
    if pos == 'plain':
        return [pos, w, '']
    return [pos, w, encode(s, w, 'text' if pos == 'angle' else 'bare')]


def dests(ast):
    return [n.destination for n in walk(ast) if n.t in ('link', 'image')]


def check(case, st):
    pos, w, e = case
    if pos == 'auto':
        if re.search('[\x00-\x20<>]', w):
            raise Skip('not an autolink')
        text = 'x <' + w + '> y\n'
        source = w
    elif pos == 'mail':
        text = 'x <' + w + '> y\n'
        source = 'mailto:' + w
    elif pos == 'plain':
        # as is: only what needs no escaping
        if re.search(r'[\x00-\x1f\x7f<>\\&\n]', w):
            raise Skip('needs escaping')
        text = '[a](<' + w + '>)\n'
        source = w
    else:
        source = w
        text = {'bare': '[a](%s)\n', 'angle': '[a](<%s>)\n',
                'def': '[a]\n\n[a]: %s\n',
                'image': '![a](%s "t")\n'}[pos] % e
    ast = parse(text)
    ds = dests(ast)
    if len(ds) != 1:
        raise Violation('%r has %d destinations' % (text, len(ds)))
    got = ds[0]
    laws(source, got)
    attr = ' %s="%s"' % ('src' if pos == 'image' else 'href', esc_html(got))
    if attr not in html_of(ast):
        raise Violation('%r does not contain %r' % (html_of(ast), attr))
    again = got.replace('&', '\\&')
    for t in ('[a](<%s>)\n', '![a](<%s>)\n', '[a]\n\n[a]: <%s>\n'):
        d2 = dests(parse(t % again))
        expect_eq(d2, [got], 'normalising again %r' % (t % again))
    st.label(pos)
    st.nt(got != source or '%' in source)


def enum_points(tier):
    if tier == 'quick':
        pts = list(range(1, 0x300)) + list(range(0x300, 0x110000, 701)) + \
            [0xfffd, 0xffff, 0x10000, 0x10ffff]
    else:
        pts = range(1, 0x110000)
    return [c for c in pts if not 0xd800 <= c <= 0xdfff]


def check_point(c, st):
    ch = chr(c)
    w = 'x' + ch + 'y%41'
    if ch in '\n\r\\<>&':
        src = 'x&#%d;y%%41' % c
    else:
        src = w
    ast = parse('[a](<%s>) ![b](<%s>)\n' % (src, src))
    ds = dests(ast)
    if len(ds) != 2:
        raise Violation('%r: %r' % (src, ds))
    laws(w, ds[0])
    expect_eq(ds[1], ds[0], 'image')
    st.nt()


PROP = Prop('C10', [
    sizes.part(sizes.those(sizes.INLINES + sizes.REFS, '](', ']:', ':b>'), 2),
    Part('dests', gen, check, 20000, 700000,
         'random destinations in links, images, definitions, autolinks; '
         'non-trivial: the destination changes or has a percent sign'),
    Part('points', None, check_point, 1, 1,
         'every code point (quick: a sample) in a destination; non-trivial: '
         'all', enum=enum_points),
])
