"""C21 entities and numeric character references."""
import html.entities
from urllib.parse import unquote

from .. import gens, sizes
from ..engine import Part, Prop, Skip, Violation
from ..sutlib import expect_eq, html_of, parse, short, walk

NAMES = {k[:-1]: v for k, v in html.entities.html5.items()
         if k.endswith(';')}
ORDER = sorted(NAMES)
POS = ['text', 'title', 'dest', 'info', 'def title', 'def dest', 'alt',
       'heading', 'emph', 'item', 'setext', 'angle dest', 'tilde info',
       'smart', 'link text', 'single title', 'paren title']
LITERAL = ['code', 'fence', 'indented', 'html', 'autolink', 'html block']


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;') \
        .replace('>', '&gt;').replace('"', '&quot;')


def place(pos, e):
    """A document with e at a position, between the letters a and b."""
    w = 'a' + e + 'b'
    return {
        'text': w, 'smart': w, 'heading': '# ' + w, 'emph': '*' + w + '*',
        'item': '- ' + w, 'setext': w + '\n===',
        'title': '[x](/u "%s")' % w, 'single title': "[x](/u '%s')" % w,
        'paren title': '[x](/u (%s))' % w,
        'dest': '[x](%s)' % w, 'angle dest': '[x](<%s>)' % w,
        'info': '``` %s\nx\n```' % w, 'tilde info': '~~~%s\nx\n~~~' % w,
        'def title': '[x]\n\n[x]: /u "%s"' % w, 'def dest':
        '[x]\n\n[x]: %s' % w,
        'alt': '![%s](/u)' % w, 'link text': '[%s](/u)' % w,
        'code': '`' + w + '`', 'fence': '```\n' + w + '\n```',
        'indented': '    ' + w, 'html': 'z <i t="%s">' % w,
        'html block': '<div>\n' + w, 'autolink': '<http://' + w + '>',
    }[pos] + '\n'


def extract(pos, root):
    """What the tree holds at that position."""
    nodes = walk(root)

    def only(*ts):
        c = [n for n in nodes if n.t in ts]
        if len(c) != 1:
            raise Violation('%d nodes of type %s' % (len(c), ts))
        return c[0]
    if pos in ('text', 'smart', 'heading', 'emph', 'item', 'setext', 'alt',
               'link text'):
        top = only({'text': 'paragraph', 'smart': 'paragraph',
                    'heading': 'heading', 'emph': 'emph', 'item': 'item',
                    'setext': 'heading', 'alt': 'image',
                    'link text': 'link'}[pos])
        kinds = [n.t for n in walk(top) if n is not top]
        if set(kinds) - {'text', 'paragraph'}:
            raise Violation('%s instead of text' % kinds)
        return ''.join(n.literal for n in walk(top) if n.t == 'text')
    if 'title' in pos:
        return only('link').title
    if 'dest' in pos:
        return unquote(only('link').destination)
    if 'info' in pos:
        return only('code_block').info
    if pos == 'code':
        return only('code').literal
    if pos in ('fence', 'indented'):
        return only('code_block').literal.rstrip('\n')
    if pos == 'html':
        return only('html_inline').literal
    if pos == 'html block':
        return only('html_block').literal
    return ''.join(n.literal for n in nodes if n.t == 'text')


def check(case, st):
    e, want, pos = case
    src = place(pos, e)
    root = parse(src, smart=True) if pos == 'smart' else parse(src)
    got = extract(pos, root)
    if pos in LITERAL:
        exp = {'html': '<i t="a%sb">', 'html block': '<div>\na%sb',
               'autolink': 'http://a%sb'}.get(pos, 'a%sb') % e
    else:
        exp = 'a' + want + 'b'
        if 'dest' in pos:
            # the percent-escapes of the destination spell the characters
            exp = unquote(exp)
    if got != exp:
        raise Violation('%r at %s: %s, expected %s' % (e, pos, short(got),
                                                       short(exp)))
    if 'dest' not in pos and pos not in ('html', 'html block'):
        if esc(exp) not in html_of(root).replace('\x00', ''):
            if 'info' in pos:
                if esc(exp.split()[0]) not in html_of(root):
                    raise Violation('%r at %s: HTML %s' % (
                        e, pos, short(html_of(root))))
            else:
                raise Violation('%r at %s: HTML %s' % (e, pos,
                                                       short(html_of(root))))
    st.label(pos)
    st.nt(want != e or pos in LITERAL)


def all_names(tier):
    if tier == 'quick':
        pos = POS + LITERAL
        out = []
        for i, name in enumerate(ORDER):
            for p in ('text', 'title', POS[i % len(POS)],
                      LITERAL[i % len(LITERAL)]):
                out.append(['&' + name + ';', NAMES[name], p])
        return out
    return [['&' + n + ';', NAMES[n], p] for n in ORDER
            for p in POS + LITERAL]


def decode(n):
    if n == 0 or n > 0x10FFFF or 0xD800 <= n <= 0xDFFF:
        return '\ufffd'
    return chr(n)


def gen_num(s):
    k = s.below(10)
    if k < 3:
        n = s.below(0x300)
    elif k < 5:
        n = s.below(0x10000)
    elif k < 7:
        n = s.below(0x110000)
    elif k == 7:
        n = s.pick([0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF,
                    0x10FFFF, 0x110000, 0, 1, 9, 10, 13, 32, 34, 38, 60, 127,
                    128, 130, 159, 160, 9999999, 0xFFFFFF])
    else:
        n = s.below(10000000)
    pos = s.pick(POS + LITERAL + ['text'] * 8)
    if s.chance(50):
        d = '%d' % n
        if len(d) > 7:
            d = d[:7]
            n = int(d)
        d = d.zfill(s.int(1, 7)) if s.chance(30) else d
        e = '&#' + d + ';'
    else:
        d = '%x' % n
        d = d.zfill(s.int(1, 6)) if s.chance(30) else d
        if len(d) > 6:
            d = d[:6]
            n = int(d, 16)
        d = ''.join(c.upper() if s.chance(50) else c for c in d)
        e = '&#' + s.pick('xX') + d + ';'
    return [e, decode(n), pos]


def check_num(case, st):
    e, want, pos = case
    return check(case, st)


BAD_TAIL = ['', ' ', ';;', ':', '&', '.', '\\;', '-;']


def gen_miss(s):
    """Something that starts like a reference but is none."""
    k = s.below(11)
    name = s.pick(ORDER)
    if k == 0:
        e = '&' + name + s.pick(['', ' ;', ':', '&', '.', '-;', '\xa0;'])
    elif k == 1:
        e = '&' + s.pick(['x', 'Z', '0', 'é']) + name + ';'
    elif k == 2:
        e = '&' + name + s.pick(['x', 'Q', '9', 'ß']) + ';'
    elif k == 3:
        i = s.below(len(name))
        e = '&' + name[:i] + name[i].swapcase() + name[i + 1:] + ';'
    elif k == 4:
        e = '&#' + s.text('0123456789', 8, 12) + ';'
    elif k == 5:
        e = '&#' + s.pick('xX') + s.text('0123456789abcdefABCDEF', 7, 10) + \
            ';'
    elif k == 6:
        e = '&#' + s.pick(['', 'x', 'X', '-1', '+1', ' 1', '1 ', '1.5', '1e2',
                           'xg', 'x1g', '\u0661', '\u00b2', '1\u0662', '0x41',
                           'x\uff11', 'a', '4f']) + ';'
    elif k == 7:
        e = '&#' + s.text('0123456789', 1, 7) + s.pick(['', ' ', ',', '&'])
    elif k == 8:
        e = s.pick(['&;', '&', '&&', '& amp;', '&\uff41mp;', '&amp\uff1b',
                    '&a mp;', '&AMP', '&nbsp', '&copy', '&lt', '&quot=',
                    '&#', '&#x', '& ', '&nonexistent;', '&Amp;', '&LT ;',
                    '&ampx;', '&am\u0440;'])
    elif k == 9:
        e = '&' + s.text('abcxyzABC019', 1, 40) + ';'
    else:
        i = s.below(len(name))
        e = '&' + name[:i] + name[i + 1:] + ';'
    return [e, s.pick(['text', 'title', 'dest', 'info', 'alt', 'heading',
                       'def title', 'smart', 'text', 'code', 'fence'])]


def is_reference(e):
    """Does any '&' of e start a valid reference (with the ; in e)?"""
    i = e.find('&')
    while i >= 0:
        j = e.find(';', i)
        if j >= 0:
            b = e[i + 1:j]
            if b in NAMES:
                return True
            if b[:1] == '#':
                d = b[1:]
                if d[:1] in ('x', 'X') and 1 <= len(d) - 1 <= 6 and all(
                        c in '0123456789abcdefABCDEF' for c in d[1:]):
                    return True
                if 1 <= len(d) <= 7 and all(c in '0123456789' for c in d):
                    return True
        i = e.find('&', i + 1)
    return False


def check_miss(case, st):
    e, pos = case
    if is_reference(e):
        raise Skip('a reference after all')
    if 'dest' in pos and any(c in e for c in ' \\'):
        raise Skip('not one destination')
    if '\\;' in e:
        raise Skip('escape')
    check([e, e, pos], st)
    st.nt()


def gen_mixed(s):
    """Several references and other characters in a row."""
    bits = []
    for _ in range(s.pick([20, 70, 140, 300]) if s.chance(2)
                   else s.int(1, 6)):
        k = s.below(5)
        if k == 0:
            n = s.pick(ORDER)
            bits.append(['&' + n + ';', NAMES[n]])
        elif k == 1:
            bits.append(gen_num(s)[:2])
        elif k == 2:
            e = gen_miss(s)[0]
            bits.append([e, e])
        else:
            w = s.pick(['x', 'amp;', '#', '1;', ';', 'y z'])
            bits.append([w, w])
    if s.chance(2):
        bits = bits * s.pick([20, 70, 140, 300])
    return [bits, s.pick(['text', 'title', 'alt', 'heading', 'def title',
                          'smart', 'code', 'fence', 'indented'])]


def check_mixed(case, st):
    bits, pos = case
    e = ''.join(b[0] for b in bits)
    # the bits must not run together into other references
    i, want = 0, ''
    for k, (src, exp) in enumerate(bits):
        if src == exp:
            rest = ''.join(b[0] for b in bits[k:])
            if is_reference(src + rest[len(src):len(src) + 40]) and \
                    '&' in src:
                raise Skip('bits run together')
        want += exp
    if '\\' in e or any(c in want for c in '\r\n\t ') and pos == 'info':
        raise Skip('spaces')
    check([e, want, pos], st)
    st.nt(len(bits) >= 2)


def all_numbers(tier):
    """Blocks of 64 consecutive numbers, decimal and hexadecimal."""
    top = 0x110000 + 4096
    starts = range(0, top, 64)
    if tier == 'quick':
        starts = [x for x in starts if x < 0x3100 or x % 0x1000 == 0 or
                  0xD780 <= x < 0xD840 or 0xDFC0 <= x < 0xE040 or
                  0xFDC0 <= x < 0x10080 or 0x10FF80 <= x < 0x110080]
    return [[x, h] for x in starts for h in (0, 1)]


def check_numbers(case, st):
    x, h = case
    src = 'z'.join(('&#x%X;' if h else '&#%d;') % n
                   for n in range(x, x + 64))
    root = parse('a' + src + 'b')
    got = ''.join(n.literal for n in walk(root) if n.t == 'text')
    want = 'a' + 'z'.join(decode(n) for n in range(x, x + 64)) + 'b'
    for i, (g, w) in enumerate(zip(got[1::2], want[1::2])):
        if g != w:
            raise Violation('number %#x (%s) gives %r, not %r' % (
                x + i, 'hex' if h else 'decimal', g, w))
    if got != want:
        raise Violation('numbers from %#x: %s' % (x, short(got)))
    st.nt()


PROP = Prop('C21', [
    sizes.part(sizes.those(sizes.INLINES, '&'), 1),
    Part('names', None, check, 1, 1,
         'every HTML5 name (quick: at four positions each, thorough: at all '
         '23); non-trivial: always', enum=all_names),
    Part('numbers', gen_num, check_num, 24000, 400000,
         'decimal and hexadecimal references of every valid length at every '
         'position; non-trivial: always'),
    Part('all numbers', None, check_numbers, 1, 1,
         'every number up to 10FFFF and beyond in blocks of 64 (quick: the '
         'first 12544, and blocks around the limits); non-trivial: always',
         enum=all_numbers),
    Part('near misses', gen_miss, check_miss, 24000, 300000,
         'strings that almost are references stay as they are; non-trivial: '
         'always'),
    Part('mixed', gen_mixed, check_mixed, 16000, 200000,
         'sequences of references, near misses and text; non-trivial: two or '
         'more pieces'),
], assumptions=['the names and values of html.entities.html5'])
