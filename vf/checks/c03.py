"""C03 inline structure: differential against the reference model."""
from .. import sizes, gens
from ..engine import Part, Prop
from .c02 import compare, kinds

INL = ('emph', 'strong', 'link', 'image', 'code', 'html_inline', 'softbreak',
       'linebreak')
NT = 'an inline construct in the tree'


def check(text, st):
    k = kinds(compare(text, st))
    for b in INL:
        if b in k:
            st.label(b)
    st.nt(any(b in k for b in INL))


def check_list(case, st):
    return check(case, st)


def gen_inline(s):
    return gens.with_defs(s, gens.inline(s)) + '\n'


def gen_soup(s):
    return gens.with_defs(s, gens.soup(s)) + '\n'


EM = ['*', '**', '***', '_', '__', '___', '****', '*****', 'a', 'b', ' ', '.',
      '(', ')', '"', '\n', '\u2014', '\xa0', '\u20ac', 'é', '[', ']', '`',
      '[x](/u)', '!', '\\*', '~', '\u2003', '&nbsp;', '&amp;']


def gen_emph(s):
    return ''.join(s.pick(EM) for _ in range(s.int(2, 16))) + '\n'


BR = ['[', '[', ']', ']', '![', '](/u)', '](/u "t")', '][r]', '][]', '[r]',
      '(', ')', 'a', '*', '_', '`', '<b>', '<a:b>', '\\]', '\\[', '\n', ' ',
      '](<', '>)', '[foo]', ': ', '!', '**', '(/u', '"', '&#93;', '](']


def gen_bracket(s):
    return gens.with_defs(s, ''.join(s.pick(BR) for _ in range(
        s.int(2, 14)))) + '\n\n[r]: /r\n'


def gen_exotic(s):
    k = s.below(4)
    t = gen_emph(s) if k == 0 else gen_bracket(s) if k == 1 else gens.inline(s)
    return gens.exotic(s, gens.with_defs(s, t)) + '\n'


def gen_mutant(s):
    return gens.mutate(s, gens.with_defs(s, gens.inline(s))) + '\n'


def gen_spaced(s):
    """Whitespace variants inside tags, links and definitions."""
    ws = ['', '', ' ', '  ', '\n', ' \n ', '\t', '\n\n', '\xa0', '\x1f',
          '\u2003', '\u2028']

    def w():
        return s.pick(ws)
    k = s.below(7)
    if k == 0:
        t = '[a](' + w() + s.pick(gens.URLS) + w() + s.pick(gens.TITLES) + \
            w() + ')'
    elif k == 1:
        t = '<a' + w() + 'b' + w() + '=' + w() + s.pick(
            ['"c"', "'c'", 'c']) + w() + s.pick(['', '/']) + w() + '>'
    elif k == 2:
        t = '[r]' + w() + s.pick(['[]', '[r]', '(/u)', ': /u']) + \
            '\n\n[r]: /r\n'
    elif k == 3:
        t = '[r]:' + w() + s.pick(gens.URLS) + w() + s.pick(gens.TITLES) + \
            w() + '\n\n[r]\n'
    elif k == 4:
        t = '[' + w() + 'x' + w() + 'y' + w() + '] [x y] [X  Y]\n\n[x y]: /u\n'
    elif k == 5:
        t = 'a' + w() + s.pick(['*', '**', '_', '__']) + w() + 'b' + w() + \
            s.pick(['*', '**', '_', '__']) + w() + 'c'
    else:
        t = '</a' + w() + '>' + '<' + w() + 'b>' + '`' + w() + 'c' + w() + '`'
    return t + '\n'


def gen_nested(s):
    return gens.with_defs(s, gens.nested(s)) + '\n'


LONG = ['<%s@b.c>', '<a@%s.c>', '<ab:%s>', '<%s:x>', '<a %s>', '<a b="%s">',
        "<a b='%s'>", '<a b=%s>', '<%s>', '</%s>', '<!--%s-->', '<?%s?>',
        '<![CDATA[%s]]>', '<!A %s>', '[a](%s)', '[a](<%s>)', '[a](/u "%s")',
        "[a](/u '%s')", '[a](/u (%s))', '[%s](/u)', '![%s](/u)', '*%s*',
        '__%s__', '`%s`', '[r][%s]', '[%s]', '[%s][]', 'x[%s][r]',
        '[r]: %s\n\n[r]', '[%s]: /u\n\n[%s]', '[r]: /u "%s"\n\n[r]',
        '&%s;', '%s  \nb', '%s\\\nb', '\\%s', '<a%sb>', '[a](/u%s"t")']


def gen_long(s):
    n = int(2 ** (s.below(1000) / 92.0))      # 1 to 1870
    f = s.pick(['a', 'b ', 'c1', '-', 'd.', ' ', 'e\n', '*', '(', '[x]', '&',
                'a=b ', ' a="b"', "''", '\u00e9', '\\]', '!', 'ab@', '/'])
    f = (f * (n // len(f) + 1))[:n]
    t = s.pick(LONG)
    return t.replace('%s', f) + '\n\n[r]: /r\n'


def gen_limits(s):
    k = s.below(9)
    if k == 0:
        n = s.int(996, 1003)
        body = s.pick(['a', 'ab ', '\\]', 'é'])
        lab = (body * n)[:n]
        if lab.endswith('\\'):
            lab = lab[:-1] + 'x'
        form = s.pick(['[%s]', '[t][%s]', '[%s][]', '![%s]'])
        return form % lab + '\n\n[%s]: /u\n' % lab
    if k == 1:
        n = s.pick([1, 2, 3, 31, 32, 33, 34])
        sc = ''.join(s.pick('aB1+.-') for _ in range(n - 1))
        return '<' + s.pick('aZ1') + sc + ':' + s.pick(['', 'x', '//y']) + \
            '>\n'
    if k == 2:
        n = s.pick([1, 2, 61, 62, 63, 64, 65])
        lab = 'a' + ''.join(s.pick('b1-') for _ in range(max(0, n - 2))) + \
            ('c' if n > 1 else '')
        dom = '.'.join(s.shuffle([lab, 'x'] if s.chance(60) else [lab]))
        return '<' + s.pick(['u', 'a.b', 'u!#']) + '@' + dom + '>\n'
    if k == 3:
        return '&#' + s.text('0123456789', 5, 9) + ';\n'
    if k == 4:
        return '&#' + s.pick('xX') + s.text('0123456789abcdefABCDEF', 4, 8) + \
            ';\n'
    if k == 5:
        n = s.int(1, 32)
        return '(' * s.small(3) + '[a](' + '(' * n + 'x' + \
            ')' * (n + s.int(-1, 1)) + ')\n'
    if k == 6:
        a, b = s.int(1, 90), s.int(1, 90)
        return '`' * a + s.pick(['x', ' x ', '*x*', '`x`']) + \
            '`' * s.pick([a, b]) + ' `y`\n'
    if k == 7:
        d = s.pick('*_')
        return d * s.int(1, 30) + s.pick(['a', 'a ', ' a', 'a%sb' % d]) + \
            d * s.int(1, 30) + s.pick(['', ' c*', 'd__'] ) + '\n'
    n = s.int(1, 30)
    return '[' * n + 'a' + ']' * s.int(1, 30) + s.pick(
        ['', '(/u)', '[r]']) + '\n\n[a]: /u\n\n[r]: /v\n'


class Enum(object):
    """All strings of length k over an alphabet, with a prefix and suffix."""

    def __init__(self, specs):
        self.specs = specs         # (alphabet, k, step, prefix, suffix)
        self.sizes = [(len(a) ** k) // st for a, k, st, _, _ in specs]

    def __len__(self):
        return sum(self.sizes)

    def __getitem__(self, i):
        for (a, k, st, pre, suf), n in zip(self.specs, self.sizes):
            if i < n:
                break
            i -= n
        i *= st
        out = []
        for _ in range(k):
            out.append(a[i % len(a)])
            i //= len(a)
        return pre + ''.join(out) + suf


DEF = '\n\n[a]: /u "t"\n'


def enum(tier):
    if tier == 'quick':
        sp = [(list('*_a '), k, 1, '', '\n') for k in range(1, 7)]
        sp += [(list('*a _.'), 8, 61, 'x', '\n')]
        sp += [(list('*a_b'), 9, 67, '', '\n')]
        sp += [(['[', ']', '(', ')', '!', 'a', '*', '`'], 6, 61, '', DEF)]
        sp += [(['[', ']', '[a]', '(/u)', '!', '*'], 5, 3, '', DEF)]
        sp += [(list('`a \\\n'), 6, 7, '', '`\n')]
        sp += [(list('<a>/= "!-?'), 5, 37, '<', '>\n')]
        sp += [(['<', '>', '(', ')', '\\', 'a', ' ', '"', "'"], 5, 37, '[a](',
                ')\n')]
    else:
        sp = [(list('*_a '), k, 1, '', '\n') for k in range(1, 9)]
        sp += [(list('*a _.'), 8, 3, 'x', '\n')]
        sp += [(list('*a_b'), 9, 1, '', '\n')]
        sp += [(list('*a '), 11, 1, '', '\n')]
        sp += [(['[', ']', '(', ')', '!', 'a', '*', '`'], 6, 1, '', DEF)]
        sp += [(['[', ']', '[a]', '(/u)', '!', '*'], 6, 1, '', DEF)]
        sp += [(['[', ']', '[a]', '(/u)', '!', '*'], 7, 3, '', DEF)]
        sp += [(list('`a \\\n'), 7, 1, '', '`\n')]
        sp += [(list('<a>/= "!-?'), 5, 1, '<', '>\n')]
        sp += [(['<', '>', '(', ')', '\\', 'a', ' ', '"', "'"], 6, 5, '[a](',
                ')\n')]
    return Enum(sp)


def enum_sizes(tier):
    if tier == 'quick':
        return sizes.Cases(sizes.INLINES, tier, 10000, 3)
    return sizes.Cases(sizes.INLINES, tier, 100000, 1)


def check_size(text, st):
    check(text, st)
    st.nt()


PROP = Prop('C03', [
    Part('inline', gen_inline, check, 14000, 500000,
         'random nested inline constructs with definitions; non-trivial: ' +
         NT, text_shrink=True),
    Part('soup', gen_soup, check, 10000, 300000,
         'random characters of markup; non-trivial: ' + NT, text_shrink=True),
    Part('emph', gen_emph, check, 14000, 500000,
         'delimiter runs and flanking characters; non-trivial: ' + NT,
         text_shrink=True),
    Part('bracket', gen_bracket, check, 14000, 500000,
         'bracket-heavy sequences; non-trivial: ' + NT, text_shrink=True),
    Part('exotic', gen_exotic, check, 8000, 250000,
         'with controls, Unicode whitespace and punctuation; non-trivial: ' +
         NT, text_shrink=True),
    Part('mutant', gen_mutant, check, 8000, 250000,
         'mutated inline sequences; non-trivial: ' + NT, text_shrink=True),
    Part('spaced', gen_spaced, check, 6000, 150000,
         'whitespace variants in tags, links, definitions; non-trivial: ' +
         NT, text_shrink=True),
    Part('nested', gen_nested, check, 12000, 400000,
         'images, links and emphasis nested up to 8 deep, with loose '
         'delimiters between; non-trivial: ' + NT, text_shrink=True),
    Part('long', gen_long, check, 6000, 150000,
         'every construct with content up to 1800 characters long; '
         'non-trivial: ' + NT, text_shrink=True),
    Part('stretched', gens.stretched(gen_inline, gen_soup, gen_emph,
                                    gen_bracket, gen_spaced, gen_nested),
         check, 700, 30000,
         'like the above, with a character, a piece, some lines or all of it '
         'repeated, up to 5000 characters; non-trivial: ' + NT, text_shrink=True, cpu=60, deep=True),
    Part('sizes', None, check_size, 1, 1,
         '%d inline constructs with one length in it: all to 131 and those '
         'about the powers of two and ten (quick: a third of them, to 10000; '
         'thorough: to 100000); non-trivial: all' % len(sizes.INLINES),
         cpu=120, enum=enum_sizes, deep=True, text_shrink=True),
    Part('limits', gen_limits, check, 5000, 80000,
         'lengths around every limit of the spec; non-trivial: ' + NT,
         text_shrink=True),
    Part('enum', None, check, 1, 1,
         'all (quick: sampled evenly) strings over small alphabets of '
         'delimiters, brackets, backticks, tags, link tails; non-trivial: ' +
         NT, text_shrink=True, enum=enum),
], ['the reference model in vf/refmodel.py states CommonMark 0.29 correctly '
    '(it reproduces all 649 examples of spec.txt)'])
