"""C06 any text can be written literally; escapes do nothing in code."""
from .. import gens, refmodel
from ..engine import Part, Prop, Skip
from ..sutlib import expect_eq, expect_tree, html_of, parse, snap

PUN = set(gens.PUNCT)
NAMED = {'"': '&quot;', '&': '&amp;', '<': '&lt;', '>': '&gt;',
         '*': '&ast;', '_': '&lowbar;', '[': '&lbrack;', ']': '&rbrack;',
         '(': '&lpar;', ')': '&rpar;', '\\': '&bsol;', '`': '&grave;',
         '#': '&num;', '!': '&excl;', '\t': '&Tab;', '\n': '&NewLine;',
         '\xa0': '&nbsp;', 'é': '&eacute;', ';': '&semi;', ':': '&colon;',
         '{': '&lbrace;', '|': '&vert;', '+': '&plus;', '.': '&period;',
         '/': '&sol;', '@': '&commat;', '$': '&dollar;', '%': '&percnt;',
         '=': '&equals;', '?': '&quest;', ',': '&comma;', "'": '&apos;'}


def enc(s, c, must, backslash=True):
    """One way of writing character c literally."""
    k = s.below(8)
    if c in PUN:
        if k < 4 and backslash:
            return '\\' + c
    elif not must and k < 6:
        return c
    if k == 7 and c in NAMED:
        return NAMED[c]
    if k % 2:
        return '&#%s%x;' % (s.pick('xX'), ord(c))
    if ord(c) <= 9999999:
        return '&#%d;' % ord(c)
    return '&#x%x;' % ord(c)


ALPH = [c for c in gens.EXOTIC if c != '\x00'] + \
    ['\n', ' ', '\x0b', '\x0c']
WORDISH = ['a', 'b', '1', '0', 'é', '日', ' ', '  ', 'amp', 'x1', 'lt',
           '\U0001f600', 'http', 'A']
CHUNKS = ['***', '[x](y)', '`c`', '<b>', '&amp;', '&#42;', '- ', '# ', '> ',
          '1. ', '```', '---', '===', '![', '](', '<http://a>', '\\*', '\\\\',
          '[r]: /u', '"q"', "'", '...', '--', '||', '~~~', '<!-- -->', ':',
          '    ', '\t', '+ ', '10) ', '</div>', '&copy;', '&', '&#', '&;']


def literal(s):
    out = []
    n = s.int(1, 8)
    if s.chance(4):
        n = s.int(30, 150)
        if s.chance(50):
            # one thing over and over
            return s.pick(gens.PUNCT + CHUNKS + ALPH) * n
    for _ in range(n):
        k = s.below(10)
        if k < 3:
            out.append(s.pick(gens.PUNCT))
        elif k < 6:
            out.append(s.pick(WORDISH))
        elif k < 9:
            out.append(s.pick(CHUNKS))
        else:
            out.append(s.pick(ALPH))
    return ''.join(out)


WS = ' \t\n\r\x0b\x0c'


def encode(s, w, pos):
    out = []
    for i, c in enumerate(w):
        must = c in '\n\r\x0b\x0c' or \
            (c in WS and (i == 0 or i == len(w) - 1 or w[i - 1] in WS or
                          w[i + 1] in WS))
        bs = True
        if pos == 'bare':
            must = must or ord(c) < 0x21 or ord(c) == 0x7f or \
                (ord(c) < 0xa0 and not c.isprintable()) or c in WS
        if pos == 'bt' and c == '`':
            bs = False
        out.append(enc(s, c, must, bs))
    return ''.join(out)


POS = ['para', 'atx', 'setext', 'bullet', 'ordered', 'quote', 'link',
       'image', 'dq', 'sq', 'par', 'angle', 'bare', 'info~', 'info`',
       'defdest', 'deftitle', 'strong', 'emph', 'softline', 'autopair']


def gen_literal(s):
    pos = s.pick(POS)
    w = literal(s)
    kind = 'bare' if pos in ('bare', 'defdest') else \
        'bt' if pos == 'info`' else 'text'
    if pos.startswith('info'):
        w = w.strip() or 'x'
        w = w.strip(WS) or 'x'
    if pos in ('strong', 'emph'):
        w = 'a' + w + 'z'
    wrap = ''.join(s.pick(['> ', '- ', '1. ']) for _ in range(s.small(2)))
    if pos.startswith('def'):
        wrap = ''
    return [pos, w, encode(s, w, kind), wrap]


def check_literal(case, st):
    pos, w, e, wrap = case
    T = (('text', w),)

    def para(*k):
        return ('paragraph', tuple(k))
    lines = None
    url = refmodel.norm_url(w)
    if pos == 'para':
        lines, want = [e], para(('text', w))
    elif pos == 'softline':
        lines = [e, e]
        want = para(('text', w), ('softbreak',), ('text', w))
    elif pos == 'atx':
        lines, want = ['## ' + e + ' ##'], ('heading', 2, T)
    elif pos == 'setext':
        lines, want = [e, '==='], ('heading', 1, T)
    elif pos == 'bullet':
        lines = ['- ' + e]
        want = ('list', 'bullet', None, None, '-', 'tight',
                (('item', (para(('text', w)),)),))
    elif pos == 'ordered':
        lines = ['7) ' + e]
        want = ('list', 'ordered', 7, ')', None, 'tight',
                (('item', (para(('text', w)),)),))
    elif pos == 'quote':
        lines = ['>' + e]
        want = ('block_quote', (para(('text', w)),))
        if e[:1] in ' \t':
            raise Skip('blank after the marker')
    elif pos == 'link':
        lines, want = ['[' + e + '](/u)'], para(('link', '/u', '', T))
    elif pos == 'image':
        lines, want = ['![' + e + '](/u)'], para(('image', '/u', '', T))
    elif pos in ('dq', 'sq', 'par'):
        a, b = {'dq': '""', 'sq': "''", 'par': '()'}[pos]
        lines = ['[a](/u ' + a + e + b + ')']
        want = para(('link', '/u', w, (('text', 'a'),)))
    elif pos == 'angle':
        lines = ['[a](<' + e + '>)']
        want = para(('link', url, '', (('text', 'a'),)))
    elif pos == 'bare':
        lines = ['![a](' + e + ')']
        want = para(('image', url, '', (('text', 'a'),)))
    elif pos in ('info~', 'info`'):
        f = pos[-1] * 3
        lines = [f + ' ' + e, 'x', f]
        want = ('code_block', w, 'x\n')
    elif pos == 'defdest':
        lines = ['[r]', '', '[r]: ' + e]
        want = para(('link', url, '', (('text', 'r'),)))
    elif pos == 'deftitle':
        lines = ['[r]', '', '[r]: /u "' + e + '"']
        want = para(('link', '/u', w, (('text', 'r'),)))
    elif pos == 'strong':
        lines, want = ['**' + e + '**'], para(('strong', T))
    elif pos == 'emph':
        lines, want = ['*' + e + '*'], para(('emph', T))
    else:
        lines = ['`' + 'c' + '`' + e + '<ab:c>']
        want = para(('code', 'c'), ('text', w),
                    ('link', 'ab:c', '', (('text', 'ab:c'),)))
    doc = wrap_doc(lines, want, wrap)
    text, want = doc
    ast = parse(text)
    expect_tree(snap(ast), want, 'tree of %r' % text)
    ref = refmodel.Html().render(from_snap(want))
    expect_eq(html_of(ast), ref, 'HTML of %r' % text)
    st.label(pos)
    st.nt(any(c in PUN for c in w))


def wrap_doc(lines, want, wrap):
    """Put the block into the containers named by the markers in wrap."""
    marks = []
    while wrap:
        m = wrap[:3] if wrap.startswith('1. ') else wrap[:2]
        marks.append(m)
        wrap = wrap[len(m):]
    tight = 'tight'
    for m in reversed(marks):
        pad = m if m == '> ' else ' ' * len(m)
        lines = [m + lines[0]] + [(pad + x).rstrip(' ') if not x else pad + x
                                  for x in lines[1:]]
        if m == '> ':
            want = ('block_quote', (want,))
        elif m == '- ':
            want = ('list', 'bullet', None, None, '-', tight,
                    (('item', (want,)),))
        else:
            want = ('list', 'ordered', 1, '.', None, tight,
                    (('item', (want,)),))
    return '\n'.join(lines) + '\n', ('document', (want,))


def from_snap(x):
    """A snapshot as reference-model nodes (for rendering)."""
    N = refmodel.N
    t = x[0]
    if t in ('text', 'code', 'html_inline', 'html_block'):
        return N(t, text=x[1])
    if t == 'code_block':
        return N(t, info=x[1], text=x[2])
    if len(x) == 1:
        return N(t)
    if t == 'heading':
        n = N(t, level=x[1])
    elif t in ('link', 'image'):
        n = N(t, dest=x[1], title=x[2])
    elif t == 'list':
        n = N(t, ltype=x[1], lstart=x[2], tight=x[5] == 'tight')
    else:
        n = N(t)
    n.kids = [from_snap(k) for k in x[-1]]
    return n


# ------------------------------------------------ backslash before the rest

def enum_bs(tier):
    if tier == 'quick':
        pts = list(range(1, 0x500)) + list(range(0x2000, 0x2100)) + \
            list(range(0x3000, 0x3030)) + list(range(0xfe00, 0x10100)) + \
            list(range(0x501, 0x110000, 997))
    else:
        pts = range(1, 0x110000)
    return [c for c in pts if not 0xd800 <= c <= 0xdfff and
            c != 13]


def check_bs(c, st):
    ch = chr(c)
    want = ch if ch in PUN else '\\' + ch
    if ch != '\n':     # (a hard break)
        text = 'x\\%sy\n' % ch
        expect_tree(snap(parse(text)), ('document', (
            ('paragraph', (('text', 'x' + want + 'y'),)),)), repr(text))
    text = '[a](/u "x\\%sy")\n' % ch
    expect_tree(snap(parse(text)), ('document', (('paragraph', (
        ('link', '/u', 'x' + want + 'y', (('text', 'a'),)),)),)), repr(text))
    if ch == '\n':
        return
    text = '~~~ x\\%sy\n~~~\n' % ch
    expect_tree(snap(parse(text)), ('document', (
        ('code_block', 'x' + want + 'y', ''),)), repr(text))
    if ch not in '<>':
        text = '[a](<x\\%sy>)\n' % ch
        expect_tree(snap(parse(text)), ('document', (('paragraph', (
            ('link', refmodel.norm_url('x' + want + 'y'), '',
             (('text', 'a'),)),)),)), repr(text))
    st.nt()
    st.label('punctuation' if ch in PUN else 'other')


# ------------------------------------------------ no effect in code

NOEFF = ['\\*', '\\\\', '\\`', '&amp;', '&lt;', '&#42;', '&copy;', '\\&',
         '\\[', '&#x22;', '*', '_', '[a]', 'x', '\\<', '&ouml;', '\\"', 'a',
         '&', ';', '\\', '&#0;', '!', '**b**', '~', '](u)', '<b>', '\\a']


def gen_noeff(s):
    pos = s.pick(['span', 'fence', 'indent', 'auto', 'attr', 'comment',
                  'block', 'pi'])
    w = ''.join(s.pick(NOEFF) for _ in range(s.int(1, 6)))
    return [pos, w]


def longest(w, c):
    best = cur = 0
    for x in w:
        cur = cur + 1 if x == c else 0
        best = max(best, cur)
    return best


def check_noeff(case, st):
    pos, w = case
    if pos == 'span':
        f = '`' * (longest(w, '`') + 1)
        text = 'a ' + f + ' ' + w + ' ' + f + ' b\n'
        want = ('paragraph', (('text', 'a '), ('code', w), ('text', ' b')))
    elif pos == 'fence':
        f = '`' * max(3, longest(w, '`') + 1)
        text = f + '\n' + w + '\n' + f + '\n'
        want = ('code_block', '', w + '\n')
    elif pos == 'indent':
        text = '    ' + w + '\n'
        want = ('code_block', '', w + '\n')
    elif pos == 'auto':
        w = w.replace('<', '').replace('>', '')
        text = '<a+b:' + w + '>\n'
        want = ('paragraph', (('link', refmodel.norm_url('a+b:' + w), '',
                               (('text', 'a+b:' + w),)),))
    elif pos == 'attr':
        w = w.replace('"', '')
        text = 'x <a b="' + w + '"> y\n'
        want = ('paragraph', (('text', 'x '), ('html_inline', '<a b="%s">' %
                                               w), ('text', ' y')))
    elif pos == 'comment':
        text = 'x <!-- ' + w + ' --> y\n'
        want = ('paragraph', (('text', 'x '), (
            'html_inline', '<!-- %s -->' % w), ('text', ' y')))
    elif pos == 'pi':
        text = 'x <?' + w + '?> y\n'
        want = ('paragraph', (('text', 'x '), (
            'html_inline', '<?%s?>' % w), ('text', ' y')))
    else:
        text = '<div>\n' + w + '\n</div>\n'
        want = ('html_block', '<div>\n' + w + '\n</div>')
    want = ('document', (want,))
    ast = parse(text)
    expect_tree(snap(ast), want, repr(text))
    expect_eq(html_of(ast), refmodel.Html().render(from_snap(want)),
              'HTML of %r' % text)
    st.label(pos)
    st.nt('\\' in w or '&' in w)


PROP = Prop('C06', [
    Part('literal', gen_literal, check_literal, 24000, 900000,
         'random strings written with escapes and references at %d kinds of '
         'position; non-trivial: the string has punctuation' % len(POS)),
    Part('backslash', None, check_bs, 1, 1,
         'backslash before every code point (quick: a sample) in text, '
         'title, info, destination; non-trivial: all', enum=enum_bs),
    Part('noeffect', gen_noeff, check_noeff, 8000, 250000,
         'escapes and references in code, autolinks and raw HTML; '
         'non-trivial: the string has a backslash or ampersand'),
])
