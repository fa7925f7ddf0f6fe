"""Generators of CommonMark documents.  Every choice goes through Src."""
import json
import os

SPEC = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                   'data', 'spec_examples.json')))

WORDS = ['a', 'b', 'foo', 'bar', 'x', 'Q', '1', 'baz qux', 'hello', 'é',
         'straße', '日本', 'Ω', '\U0001f600', 'p. 7', "don't", 'a-b', '0',
         'tag', 'the quick']
PUNCT = list('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')
LABELS = ['r', 'foo', 'Foo', 'FOO', 'bar', 'a b', 'a  B', 'x*y', 'ß', 'SS',
          'Ä', 'ä', 'r\\]', 'é', '[', 'ΑΓΩ', 'αγω', '1', '!', '`c`', '*r*',
          'r\n2', 'r 2']
URLS = ['/u', 'http://x.y/z?a=b&c=d', '/u(v)', 'a%20b', '/ü', '#f', '<>',
        '</u v>', 'x\\*y', '&auml;', 'a&b', '/%zz', '\\(', '((a))', '<b)c>',
        'javascript:x', '"', 'a"b', "it's", 'a<b', '<a\\>b>', 'm@n.o', '/[x]',
        '\\', '%25', 'ä/ö', '%C3%A4', '*', '_x_']
TITLES = ['"t"', "'t'", '(t)', '"t \\" u"', "'it\\'s'", '(a\\)b)', '"a&amp;b"',
          '"<b>"', '"*x*"', '"l1\nl2"', '""', "''", '()', '"é"', '"a\'b"',
          '"\\a"', '((t))', '"t', "'&quot;'"]
ENTITIES = ['&amp;', '&lt;', '&gt;', '&quot;', '&copy;', '&nbsp;', '&#35;',
            '&#x22;', '&#0;', '&#1234567;', '&#12345678;', '&#xabcdef;',
            '&#xabcdef0;', '&ouml;', '&AElig', '&foo;', '&;', '&#;', '&#x;',
            '&ngE;', '&#42;', '&#X41;', '&ClockwiseContourIntegral;',
            '&MadeUp;', '&copy', '&Auml;', '&#128;', '&#55296;', '&#x10FFFF;',
            '&#x110000;', '&amp;amp;', '&notin;', '&notit;', '&there4;',
            '&frac34;', '&#91;', '&#9;', '&#10;']
TAGS = ['<b>', '</b>', '<a href="x">', "<a title='y' b>", '<br/>', '<br />',
        '<x-y z=1>', '<a  b\n=\n"c">', '<!-- c -->', '<!---->', '<!-->',
        '<!--a--b-->', '<?php x ?>', '<!ELEMENT br EMPTY>', '<![CDATA[x]]>',
        '<1>', '< a>', '<a', '</a href="x">', '<a b="c"d>', '<b2\t/>', '</a >',
        '<a _:x.-="&amp;*y*">', '<_>', '<a/b>', '<!x>', '<a b=`c`>',
        '<a b="x\ny">', '<i\n>']
AUTOS = ['<http://a.b>', '<http://a.b/?q=*x*&y>', '<MAILTO:f@b.c>', '<f@b.c>',
         '<a+b+c:d>', '<a:>', '<m:abc>', '<made-up:x,y>', '<http://a b>',
         '<foo\\+@b.e>', '<a@b.c.d-e>', '<a@-b.c>', '<x.y:z>', '<ab:ü>',
         '<h://\\[>', '<ab:"x">', '<f!#$%&\'*+/=?^_`{|}~-@b>', '<localhost:5>']
NOISE = '*_ab .[]()!`<>&\\"\'-#=+~1\t:;/\n'


def word(s):
    return s.pick(WORDS)


def inline(s, depth=3):
    """A random inline sequence."""
    n = 1 + s.small(6)
    return ''.join(inline_one(s, depth) for _ in range(n))


def delim(s):
    return s.pick('*_') * s.int(1, 4)


def code_span(s):
    t = '`' * s.int(1, 3)
    body = s.pick(['x', ' x ', ' ', '``', '`', ' ` ', '  a  b ', 'a\nb', '\\',
                   '&amp;', '*', '<b>', '\n', ' a', 'a ', '](u)', 'a\\'])
    return t + body + (t if s.chance(85) else '`' * s.int(1, 3))


def link_tail(s):
    ws1 = s.pick(['', '', '', ' ', '\n', ' \n '])
    ws2 = s.pick([' ', ' ', '', '\n', '  ', ' \n '])
    k = s.below(10)
    if k < 5:
        u = s.pick(URLS)
        if s.chance(50):
            return '(' + ws1 + u + ws2 + s.pick(TITLES) + \
                s.pick(['', ' ', '\n']) + ')'
        return '(' + ws1 + u + s.pick(['', '', ' ']) + ')'
    if k < 7:
        return '[' + s.pick(LABELS) + ']'
    if k == 7:
        return '[]'
    if k == 8:
        return s.pick(['()', '( )', '(', '(/u', '(/u "t', '(<u)', '(/u x)',
                       ' (/u)', ':', '[', '[[r]]', '[\n]', '[ ]'])
    return ''


def inline_one(s, depth):
    k = s.below(100)
    if k < 22 or depth <= 0:
        return word(s)
    if k < 30:
        return ' '
    if k < 40:
        return delim(s)
    if k < 52:
        d = delim(s)
        return d + inline(s, depth - 1) + (d if s.chance(70) else delim(s))
    if k < 58:
        return code_span(s)
    if k < 70:
        return s.pick(['[', '[', '![']) + inline(s, depth - 1) + ']' + \
            link_tail(s)
    if k < 74:
        return '[' + s.pick(LABELS) + ']' + link_tail(s)
    if k < 77:
        return s.pick(AUTOS)
    if k < 81:
        return s.pick(TAGS)
    if k < 85:
        return s.pick(ENTITIES)
    if k < 89:
        return '\\' + s.pick(PUNCT + ['a', '\n', ' ', '\\\n'])
    if k < 92:
        return s.pick(['\n', '\n', '  \n', '   \n', '\\\n', ' \n', '\n  '])
    if k < 96:
        return s.pick(PUNCT)
    if k < 98:
        return s.pick(['"', "'", '--', '---', '...', '----', '-----', '"a"',
                       "'b'"])
    return s.text(NOISE, 1, 6)


def nested(s, hi=8, kinds=None):
    """Constructs one within the other, with a little text at their sides."""
    kinds = kinds or s.pick(['![]', '![[]', '*_[!', '![*', '[', '*_'])
    t = s.pick(['x', 'x y', '`c`', '<b>', 'a*b', ']', '[', '', '&amp;"'])
    for _ in range(s.int(2, hi)):
        k = s.pick(kinds)
        if k in '![':
            t = ('![' if k == '!' else '[') + t + ']' + s.pick(
                ['(/u)', '(/u)', '(/v "t")', '(/w)', '[r]', '[foo]', '[]', '',
                 '(javascript:x)'])
        elif k == ']':
            t = s.pick(['[', '![', '[a](', '![a]['])+ t
        else:
            d = k * s.pick([1, 1, 2, 3])
            t = d + t + d
        if s.chance(35):
            t = s.pick(['a', 'a ', ' ', '*', '[', '![', 'a]', '"', '_b_ ',
                        '![i](/i)']) + t
        if s.chance(35):
            t += s.pick(['a', ' a', ' ', '*', ']', '`', '"', '&', ' **b**',
                         '(/u)'])
    return t


def soup(s, alphabet=NOISE, hi=24):
    return s.text(alphabet, 1, hi)


def one_line(t):
    return t.replace('\n', ' ')


HTML_LINES = ['<div>', '</div>', '<div class="x"', '<p', '<h2>', '<hr/>',
              '<script>', '</script>', '<pre>', '</pre>x', '<style a="b">',
              '</style>', '<!-- a', '-->', '<!-- a --> b', '<?php', '?>',
              '<!DOCTYPE x>', '<!A', '<![CDATA[', ']]>', '<a href="x">', '</b>',
              '<b>x', '<x-y>', '<DIV>', '<table><tr>', '<td>', '<del>',
              '<i class="foo">', '</ins >', '<a b', '<script>x</script> y',
              '<hr', '<ul>', '<summary>', '<details open>', '<search>', '<h7>',
              '<blockquote>', '<center>', '<option/>', '<Title>']


def block_line(s, ctx=None):
    """The text of one line (without container prefix)."""
    k = s.below(100)
    if k < 24:
        return one_line(inline(s, 1))
    if k < 38:
        return ''
    if k < 43:
        return '#' * s.int(1, 7) + s.pick([' ', ' ', '', '\t', '  ']) + \
            one_line(inline(s, 1)) + s.pick(['', '', ' #', '##', ' ### ',
                                            ' #\t', ' \\#', ' # b'])
    if k < 48:
        return s.pick(['---', '***', '- - -', '___', '--', '-', '=', '===',
                       '*  *  *', '_ _ _ _', '- - x', '** *', '=== =', '--- -',
                       '=\t', '-----  ', '-\t-\t-', '+++', '- -'])
    if k < 56:
        f = s.pick(['```', '~~~', '````', '~~~~~', '``', '~~', '`````'])
        return f + s.pick(['', '', '', ' py', 'py x', ' ', '`', ' a`b', '\\*',
                           ' &amp;', '~', '\t', ' ~~~', 'c++ {.x}'])
    if k < 64:
        return s.pick(HTML_LINES)
    if k < 71:
        return '[' + s.pick(LABELS) + ']:' + s.pick([' ', '', '\n', '  ']) \
            .replace('\n', '') + s.pick(URLS + ['', '']) + \
            s.pick(['', '', ' ' + s.pick(TITLES), ' ' + s.pick(TITLES) + ' x',
                    ' x', ' '])
    if k < 74:
        return s.pick(TITLES + ['  "t"', '/u', '<v>', '[r]: /u',
                                "[foo]: /v 't'"])
    if k < 84:
        return ' ' * s.int(0, 9) + one_line(inline(s, 1))
    if k < 88:
        return s.pick(['\t', '\t\t', ' \t', '  \t']) + one_line(inline(s, 1))
    if k < 92:
        return ' ' * s.int(1, 8) + s.pick(['', '\t', ''])
    return soup(s, '>-*+1.) #=`~ab\t<&[]:_', 8)


MARKS = ['>', '> ', '>  ', '>\t', '- ', '* ', '+ ', '-  ', '-   ', '-    ',
         '-     ', '-', '-\t', '1. ', '2. ', '1) ', '10. ', '0. ', '003. ',
         '123456789. ', '1234567890. ', '1.', '1)  ', '*\t', '1.\t', ' - ',
         '  > ', '   1. ', '    - ', '+']


def soup_lines(s, hi=12):
    """Random lines with random container prefixes, correlated with the
    previous line's prefix."""
    lines, prev = [], []
    for _ in range(s.int(1, hi)):
        k = s.below(10)
        if k < 4:
            cur = list(prev)
        elif k < 6:
            cur = prev[:s.below(len(prev) + 1)]
        else:
            cur = list(prev[:s.below(len(prev) + 1)])
        pre = ''
        for m in cur:
            if m.strip().startswith('>'):
                pre += m
            else:
                w = len(m)
                d = s.pick([0, 0, 0, 0, 1, -1, 2])
                pre += ' ' * max(0, w + d)
        for _ in range(s.small(3)):
            m = s.pick(MARKS)
            cur.append(m)
            pre += m
        lines.append(pre + block_line(s))
        prev = cur[:6]
    return '\n'.join(lines) + s.pick(['\n', '\n', '', '\n\n'])


def blocks(s, depth=3, hi=4):
    """A list of lines: a well-formed block sequence built recursively."""
    out = []
    for i in range(1 + s.small(hi)):
        if i and s.chance(60):
            out += [''] * s.pick([1, 1, 1, 2])
        out += block(s, depth)
    return out


def block(s, depth):
    k = s.below(100)
    if depth > 0 and k < 20:
        inner = blocks(s, depth - 1, 3)
        pre = s.pick(['> ', '> ', '>', '>  '])
        return [(pre + l) if l else pre.rstrip() for l in inner]
    if depth > 0 and k < 50:
        out = []
        bullet = s.chance(50)
        ch = s.pick('-+*')
        dl = s.pick('.)')
        num = s.pick([1, 0, 2, 7, 10, 99, 123456789])
        loose = s.chance(30)
        for i in range(1 + s.small(3)):
            inner = blocks(s, depth - 1, 2)
            mark = ch if bullet else '%d%s' % (num + i, dl)
            mark += ' ' * s.pick([1, 1, 1, 2, 3, 4])
            if s.chance(8):
                inner = ['']
            if i and loose:
                out.append('')
            out.append((mark + inner[0]).rstrip(' ') if not inner[0]
                       else mark + inner[0])
            pad = ' ' * len(mark)
            out += [(pad + l) if l else '' for l in inner[1:]]
        return out
    if k < 62:
        return inline(s, 2).split('\n')
    if k < 68:
        return ['#' * s.int(1, 6) + ' ' + one_line(inline(s, 2))]
    if k < 73:
        return inline(s, 1).split('\n') + \
            [s.pick(['===', '---', '=', '-----'])]
    if k < 79:
        f = s.pick(['```', '~~~', '````'])
        body = [block_line(s) for _ in range(s.int(0, 4))]
        return [' ' * s.below(4) + f + s.pick(['', '', 'py', ' a b'])] + \
            body + ([f] if s.chance(85) else [])
    if k < 84:
        return ['    ' + block_line(s) for _ in range(s.int(1, 3))]
    if k < 88:
        return [s.pick(HTML_LINES), one_line(inline(s, 1))] + \
            ([s.pick(HTML_LINES)] if s.chance(50) else [])
    if k < 92:
        return [s.pick(['---', '***', '_ _ _'])]
    return ['[' + s.pick(LABELS).replace('\n', ' ') + ']: ' + s.pick(URLS) +
            (' ' + one_line(s.pick(TITLES)) if s.chance(50) else '')]


def structured(s):
    t = '\n'.join(blocks(s))
    return t + s.pick(['\n', '\n', ''])


def mutate(s, t, alphabet=NOISE + '>#+'):
    """A few local edits of a text, by character or by line."""
    for _ in range(1 + s.small(4)):
        if s.chance(50):
            L = t.split('\n')
            i = s.below(len(L))
            k = s.below(7)
            if k == 0:
                del L[i]
            elif k == 1:
                L.insert(i, L[i])
            elif k == 2:
                L.insert(i, '')
            elif k == 3:
                L[i] = s.pick(MARKS) + L[i]
            elif k == 4:
                L[i] = ' ' * s.int(1, 5) + L[i]
            elif k == 5:
                L[i] = L[i].lstrip()
            else:
                j = s.below(len(L))
                L[i], L[j] = L[j], L[i]
            t = '\n'.join(L)
        else:
            i = s.below(len(t) + 1)
            k = s.below(4)
            if k == 0:
                t = t[:i] + t[i + s.int(1, 3):]
            elif k == 1:
                t = t[:i] + s.pick(alphabet) + t[i:]
            elif k == 2:
                t = t[:i] + s.pick(alphabet) + t[i + 1:]
            else:
                j = min(len(t), i + s.int(1, 8))
                t = t[:j] + t[i:j] + t[j:]
    return t


def spec_mutant(s):
    t = s.pick(SPEC)
    k = s.below(4)
    if k == 0:
        t = t + s.pick(['', '\n']) + s.pick(SPEC)
    elif k == 1:
        a, b = t.split('\n'), s.pick(SPEC).split('\n')
        t = '\n'.join(a[:s.below(len(a) + 1)] + b[s.below(len(b) + 1):])
    elif k == 2:
        m = s.pick(['> ', '- ', '1. ', '  ', '    '])
        pad = m if m[0] in '> ' else ' ' * len(m)
        L = t.split('\n')
        t = '\n'.join([m + L[0]] + [pad + x if x else x for x in L[1:]])
    return mutate(s, t)


def document(s):
    """The general document generator."""
    k = s.below(10)
    if k < 3:
        return structured(s)
    if k < 6:
        return soup_lines(s)
    if k < 8:
        return spec_mutant(s)
    if k < 9:
        return mutate(s, structured(s))
    return inline(s, 3) + '\n'


def with_defs(s, t):
    """Append some reference definitions."""
    n = s.below(4)
    defs = ''
    for _ in range(n):
        defs += '[' + s.pick(LABELS) + ']: ' + s.pick(URLS) + \
            (' ' + s.pick(TITLES) if s.chance(40) else '') + '\n'
    return t + ('\n\n' + defs if defs else '')


EXOTIC = ['\x00', '\x01', '\x08', '\x1b', '\x1c', '\x1f',
          '\x7f', '\x80', '\x85', '\xa0', '\xad', '\u1680', '\u2003',
          '\u200b', '\u2028', '\u2029', '\u202f', '\u205f', '\u3000',
          '\ufeff', '\u180e', '\xa1', '\xbf', '\u2014', '\u2019', '\u3002',
          '\uff01', '\U00010100', '\U0001f600', '\u212a', '\u017f', '\u0131',
          '\u0130', '\u0661', '\u00b2', '\u2460', '\uffff', '\U0010ffff',
          '\ufffd', '\ufffe', '\u0301', '\u20ac', '\u00d7', '\ufb00',
          '\u1e9e', '\u0345', '$', '+', '^', '`', '\r', '\t']


def exotic(s, t):
    """Scatter unusual characters over a text."""
    for _ in range(1 + s.small(5)):
        i = s.below(len(t) + 1)
        c = s.pick(EXOTIC)
        t = t[:i] + c + (t[i + 1:] if s.chance(40) else t[i:])
    return t


SIZES = [20, 40, 70, 70, 130, 130, 260, 260, 520, 520, 1030, 2100, 4200]


def stretch(s, t, cap=5000):
    """Make something in the text long, or many: a character, a piece, a line
    or several, the whole."""
    for _ in range(1 + s.below(2)):
        room = cap - len(t)
        if room <= 0:
            break
        k = s.below(8)
        n = s.pick(SIZES)
        L = t.split('\n')
        if k < 2 and t:                       # one character
            i = s.below(len(t))
            t = t[:i] + t[i] * min(n, room) + t[i:]
        elif k < 4 and t:                     # a piece
            i = s.below(len(t))
            p = t[i:i + s.int(2, 12)]
            t = t[:i] + p * max(1, min(n, room // len(p))) + t[i:]
        elif k < 6:                           # lines
            i = s.below(len(L))
            p = L[i:i + s.pick([1, 1, 1, 2, 3])]
            m = max(1, min(n, room // (len('\n'.join(p)) + 1)))
            t = '\n'.join(L[:i] + p * m + L[i:])
        elif k == 6:                          # something put in
            i = s.below(len(t) + 1)
            p = s.pick(['a', ' ', 'a ', '1', '-', '\n', '*', '#', '`', '_',
                        '~', '=', '&amp;', '\\*', '\\\\', 'é', '> ', '- ',
                        '"', '.', '<b>', '*a* ', '[r] ', '`a` ', '\t', '%',
                        '<!-- a -->', ' a="b"', '(', ')', '[', ']', '&', '<',
                        'a\n', '\\\n', '  \n', "it's ", '-- ', '...'])
            t = t[:i] + p * max(1, min(n, room // len(p))) + t[i:]
        else:                                 # all of it
            sep = s.pick(['', '\n', '\n\n', ' '])
            t = (t + sep) * max(1, min(n, room // (len(t) + 2))) + t
    return t


def stretched(*gens):
    """A generator of texts like those of the given ones, but long."""
    def gen(s):
        return stretch(s, s.pick(gens)(s))
    return gen
