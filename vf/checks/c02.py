"""C02 block structure: differential against the reference model."""
from .. import gens, refmodel, sizes
from ..engine import Part, Prop, Skip
from ..sutlib import expect_eq, expect_tree, html_of, parse, snap

AMB_RULE = ('differs from the model by tree or HTML; texts the model marks as '
            'left open by the spec are excluded and counted')


def norm_key(doc):
    """Reference tree with destinations normalised as the code base does at
    parse time."""
    todo = [doc]
    while todo:
        n = todo.pop()
        if n.t in ('link', 'image'):
            n.dest = refmodel.norm_url(n.dest)
        todo.extend(n.kids)
    return doc.key()


def compare(text, st, smart=False):
    doc, refs, amb = refmodel.parse(text, smart)
    if amb:
        raise Skip('ambiguous: ' + ','.join(sorted(amb)))
    ast = parse(text, smart=smart)
    want_html = refmodel.Html().render(doc)
    want = norm_key(doc)
    expect_tree(snap(ast), want, 'tree')
    expect_eq(html_of(ast), want_html, 'HTML')
    return want


def kinds(t, acc=None, depth=0):
    acc = {} if acc is None else acc
    todo = [(t, 0)]
    while todo:
        x, d = todo.pop()
        acc[x[0]] = acc.get(x[0], 0) + 1
        acc['depth'] = max(acc.get('depth', 0), d)
        if x[0] in CONT:
            todo.extend((k, d + 1) for k in x[-1])
    return acc


CONT = {'document', 'block_quote', 'list', 'item', 'paragraph', 'heading',
        'emph', 'strong', 'link', 'image'}
BLK = ('block_quote', 'list', 'heading', 'code_block', 'html_block',
       'thematic_break', 'paragraph')


def check(text, st):
    k = kinds(compare(text, st))
    for b in BLK:
        if b in k:
            st.label(b)
    if k['depth'] >= 4:
        st.label('nested 4+')
    if '\t' in text:
        st.label('tab')
    st.nt(sum(1 for b in BLK if b in k) >= 2)


def gen_lines(s):
    return gens.soup_lines(s)


def gen_structured(s):
    return gens.structured(s)


def gen_mutant(s):
    k = s.below(3)
    if k == 0:
        return gens.mutate(s, gens.structured(s))
    if k == 1:
        return gens.mutate(s, gens.soup_lines(s))
    return gens.spec_mutant(s)


PRE = ['', '', '', ' ', '  ', '   ', '    ', '     ', '\t', ' \t', '> ', '>',
       '>\t', '- ', '-\t', '1. ', '+ ', '   > ', '  - ', '10) ', '-   ',
       '-     ']
BODY = ['', 'a', '- b', '1. c', '2. d', '# h', '===', '---', '```', '~~~',
        '> q', '<div>', '<a>', '</pre>', '<!-- x', '-->', '[r]: /u', "'t'",
        '* * *', '-', '1.', '    code', '\tcode', 'b  ', '\\', '#', '***',
        '+', '01. z', '<pre>']


def gen_small(s):
    """Few lines, each a short prefix sequence and a short body."""
    n = s.int(2, 6)
    return '\n'.join(s.pick(PRE) + (s.pick(PRE) if s.chance(50) else '') +
                     s.pick(BODY) for _ in range(n)) + '\n'


def gen_tabs(s):
    """Lines whose prefix mixes tabs, spaces and markers freely."""
    return '\n'.join(s.text('\t \t > -', 0, 6) + s.pick(
        ['a', 'b', '', '- x', '1. y', '```', '> z', '# h', 'c\td']) for _ in
        range(s.int(1, 5))) + '\n'


def gen_limits(s):
    """Numbers and lengths around the limits of the spec."""
    k = s.below(8)
    if k == 0:
        t = '%s%s x' % (s.text('0123456789', 8, 11), s.pick('.)'))
    elif k == 1:
        t = '#' * s.int(5, 8) + s.pick([' h', 'h', '', '\th'])
    elif k == 2:
        f = s.pick('`~')
        a = s.int(2, 12)
        t = f * a + '\nx\n' + f * s.int(max(1, a - 2), a + 2) + '\ny'
    elif k == 3:
        t = ' ' * s.int(0, 5) + s.pick(['***', '---', '___', '# h', '> q',
                                        '- l', '1. l', '```', '<div>',
                                        '[r]: /u', '<a>'])
    elif k == 4:
        t = '-' + ' ' * s.int(0, 7) + 'a\n' + ' ' * s.int(0, 9) + 'b'
    elif k == 5:
        n = s.text('0123456789', 1, 9)
        m = ' ' * s.int(0, 3) + n + s.pick('.)') + ' ' * s.int(1, 5)
        t = m + 'a\n' + s.pick(['', '\n']) + \
            ' ' * max(0, len(m) + s.int(-2, 2)) + 'b'
    elif k == 6:
        t = s.pick('*-_') * s.int(1, 90) + s.pick(['', ' ', ' x'])
    else:
        t = 'a\n' + ' ' * s.int(0, 5) + s.pick('=-') * s.int(1, 60) + \
            ' ' * s.int(0, 4)
    if s.chance(40):
        m = s.pick(['> ', '- ', '1. '])
        pad = m if m == '> ' else ' ' * len(m)
        L = t.split('\n')
        t = '\n'.join([m + L[0]] + [pad + x for x in L[1:]])
    if s.chance(40):
        t = s.pick(['a\n', '- z\n', '> z\n', 'a\n\n', '```\n']) + t
    return t + s.pick(['\n', '\nz\n', '\n\nz\n'])


WS = ['', '', '', ' ', ' ', '  ', '\t', ' \t', '\t ', '   ', '\xa0', '\x0b',
      '\x0c', '\u2003', '\u2028', '\x85', '\x1f', '\u3000', '\ufeff', '\x1c']
HTML_NAMES = [
    'address', 'article', 'aside', 'base', 'basefont', 'blockquote', 'body',
    'caption', 'center', 'col', 'colgroup', 'dd', 'details', 'dialog', 'dir',
    'div', 'dl', 'dt', 'fieldset', 'figcaption', 'figure', 'footer', 'form',
    'frame', 'frameset', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'head', 'header',
    'hr', 'html', 'iframe', 'legend', 'li', 'link', 'main', 'menu',
    'menuitem', 'nav', 'noframes', 'ol', 'optgroup', 'option', 'p', 'param',
    'section', 'source', 'summary', 'table', 'tbody', 'td', 'tfoot', 'th',
    'thead', 'title', 'tr', 'track', 'ul', 'script', 'pre', 'style', 'a',
    'span', 'h0', 'h7', 'divx', 'di', 'textarea', 'search', 'x-y', 'titles',
    'scripts', 'styl', 'em', 'del', 'ins', 'hgroup', 'b', 'video', 'br']


def leaf(s):
    """The lines of one leaf block (or nearly one), in every variant."""
    ind = ' ' * s.pick([0, 0, 0, 1, 2, 3, 4])
    k = s.below(9)
    if k == 0:
        return ind + '#' * s.int(1, 7) + s.pick(WS) + s.pick(
            ['', 'a', '#', '\\#', 'a#', 'a \\#', '# a', '\\', '`#`', 'a # b',
             '## #', 'a\\', '*']) + s.pick(WS) + '#' * s.int(0, 9) + s.pick(WS)
    if k == 1:
        return s.pick(['a', 'a b', '*x*', '- l', '> q', '[r]: /u', '1']) + \
            s.pick(WS) + '\n' + ind + s.pick('=-') * s.int(1, 5) + \
            s.pick(['', '', '', s.pick(WS) + s.pick('=-')]) + s.pick(WS)
    if k == 2:
        c = s.pick('*-_')
        t = ''.join(c + s.pick(WS[:9] if s.chance(85) else WS)
                    for _ in range(s.int(2, 6)))
        return ind + t + s.pick(['', '', '', 'x', '*', '-'])
    if k == 3:
        c = s.pick('`~')
        n = s.int(3, 14)
        body = [s.pick(['x', '', ' y', c * (n - 1), c * s.int(1, 14) + ' z',
                        '    ' + c * n, ('~' if c == '`' else '`') * n,
                        c * s.int(2, n), ' ' * s.int(0, 4) + 'w'])
                for _ in range(s.int(0, 4))]
        return '\n'.join(
            [ind + c * n + s.pick(WS) + s.pick(
                ['', '', 'py', 'a b', 'a`b', 'a~b', '`', '~~~', '&ouml; \\*'])
             + s.pick(WS)] +
            body + [' ' * s.pick([0, 0, 1, 2, 3, 4]) + c * (n + s.int(-1, 2)) +
                    s.pick(WS)])
    if k < 6:
        name = s.pick(HTML_NAMES)
        if s.chance(25):
            name = s.pick([name.upper(), name.title(), name.swapcase()])
        line = ind + s.pick(['<', '<', '</']) + name + s.pick(
            ['', '>', ' ', '/>', ' />', ' x', '\t', '>x', '/', '/ >', ':',
             ' a="b">', " a='>' b>", '><i>', ' a=b c', '-', '.', '> ', '>\t',
             '\xa0>', ' >', '  a = "b"  >', ' a="b', '\x0c>', '\u2003>'])
        rest = [s.pick(['x', '*a*', '', '</' + name + '>', '<i>', '- l',
                        '</pre>', '</SCRIPT>y', '    z', '</style >',
                        '</pre x>']) for _ in range(s.int(0, 3))]
        return '\n'.join([line] + rest)
    if k == 6:
        a, b = s.pick([('<!--', '-->'), ('<?', '?>'), ('<!A', '>'),
                       ('<![CDATA[', ']]>'), ('<!-', '->'), ('<! A', '>'),
                       ('<![cdata[', ']]>'), ('<!1', '>'), ('<!ELEMENT', '>')])
        return '\n'.join(
            [ind + a + s.pick(['', ' x', b, ' x' + b + ' y', '-', '>', ']'])] +
            [s.pick(['', '*a*', 'x' + b, b, '- l', '    z', '?', '--', ']]',
                     b[:-1], '> q']) for _ in range(s.int(0, 4))])
    if k == 7:
        return '\n'.join(ind + s.pick(['    ', '\t', ' \t', '     ', '', '  ',
                                       '\t\t', '   ']) +
                         s.pick(['c', '', '', '- d', '\t', 'e  '] + WS[9:])
                         for _ in range(s.int(1, 5)))
    mk = s.pick(['-', '+', '*', '1.', '1)', '2.', '0)', '007.', '123456789)'])
    return ind + mk + s.pick(WS) + s.pick(['', 'a', '-', '1.', '    b', '#',
                                           '```', '> q', '***', '<p>',
                                           '[r]: /u']) + s.pick(WS)


def gen_leaf(s):
    out = []
    for _ in range(s.int(1, 4)):
        t = leaf(s)
        if s.chance(35):
            m = s.pick(['> ', '- ', '1. ', '>', '-   '])
            pad = m if m[0] == '>' else ' ' * len(m)
            if s.chance(10):
                pad = ''
            L = t.split('\n')
            t = '\n'.join([m + L[0]] + [pad + x for x in L[1:]])
        out.append(t)
    return s.pick(['\n', '\n\n', '\n', '\nz\n']).join(out) + \
        s.pick(['\n', '\n', '', '\nz'])


MISS = list('#=-_*+`~<>/!?[]().:0129 \t\\"\'=a') + ['//', '<!', '</', '  ',
                                                 '--', '> ', '```', '- ']


def gen_miss(s):
    """Leaf blocks with small edits: a character doubled, dropped, inserted or
    replaced, letter case changed, or two constructs joined in one line."""
    L = leaf(s).split('\n')
    if s.chance(40):
        L += leaf(s).split('\n')
    for _ in range(1 + s.small(2)):
        j = s.pick([0, 0, s.below(len(L))])
        t = L[j]
        i = s.pick([0, s.below(len(t) + 1), s.below(len(t) + 1)])
        if s.chance(50) and t[:1] in ' \t<':
            i = min(len(t) - len(t.lstrip()) + s.below(3), len(t))
        k = s.below(7)
        if k == 0:
            t = t[:i] + t[i + 1:]
        elif k == 1:
            t = t[:i] + t[i:i + 1] + t[i:]
        elif k == 2:
            t = t[:i] + s.pick(MISS) + t[i:]
        elif k == 3:
            t = t[:i] + s.pick(MISS) + t[i + 1:]
        elif k == 4:
            t = t[:i] + t[i:i + 1].swapcase() + t[i + 1:]
        elif k == 5:
            t = s.pick(['a ', '<', '<x ', '<b> ', '# ', '> ', '- ', '`', '~~',
                        '=', '-', '_', '1', '\\', 'a', '*', '<a>', '</b>',
                        '&lt;', '=a', '0 ', '+ ', '+']) + t.lstrip()
        else:
            m = leaf(s).split('\n')[0]
            t = s.pick([m, t.rstrip()[:s.below(4)]]) + s.pick(['', ' ']) + \
                t.lstrip()
        L[j] = t
    t = '\n'.join(L)
    return s.pick(['', '', 'a\n', '> ', '- ', '<b>\n']) + t + \
        s.pick(['\n', '\nz\n', '\n\nz\n'])


def gen_exotic(s):
    t = s.pick([gen_small, gen_lines, gen_structured, gen_leaf])(s)
    return gens.exotic(s, t)


E_PRE = ['', '  ', '    ', '> ', '- ', '1. ', '2. ']
E_BODY = ['', 'a', '-', '# h', '---', '===', '```', '<p>', '<a>',
          '[r]: /u', '+ b', '> q', '    c', '1. d']


class Enum(object):
    """All texts of k lines over E_PRE x E_BODY (indexable)."""

    def __init__(self, k, step=1):
        self.lines = [p + b for p in E_PRE for b in E_BODY]
        self.k = k
        self.step = step

    def __len__(self):
        n = len(self.lines)
        return (n ** self.k) // self.step

    def __getitem__(self, i):
        i *= self.step
        out = []
        for _ in range(self.k):
            out.append(self.lines[i % len(self.lines)])
            i //= len(self.lines)
        return '\n'.join(out) + '\n'


def enum2(tier):
    return Enum(2)


def enum3(tier):
    return Enum(3, 97 if tier == 'quick' else 1)


def enum_sizes(tier):
    if tier == 'quick':
        return sizes.Cases(sizes.BLOCKS + sizes.REFS, tier, 10000, 3)
    return sizes.Cases(sizes.BLOCKS + sizes.REFS, tier, 100000, 1)


def check_size(text, st):
    check(text, st)
    st.nt()


NT = 'at least two kinds of block in the tree'
PROP = Prop('C02', [
    Part('lines', gen_lines, check, 12000, 400000,
         'random container prefixes x line kinds; non-trivial: ' + NT,
         text_shrink=True),
    Part('structured', gen_structured, check, 5000, 150000,
         'well-formed nested documents; non-trivial: ' + NT,
         text_shrink=True),
    Part('mutants', gen_mutant, check, 8000, 250000,
         'mutated generated documents and spec examples; non-trivial: ' + NT,
         text_shrink=True),
    Part('small', gen_small, check, 20000, 600000,
         '2-6 short lines; non-trivial: ' + NT, text_shrink=True),
    Part('tabs', gen_tabs, check, 8000, 200000,
         'tab/space/marker prefixes; non-trivial: ' + NT, text_shrink=True),
    Part('leaves', gen_leaf, check, 24000, 700000,
         'every leaf block in all its spellings and near misses: hashes, '
         'underlines, rules, fences up to 14 long, all HTML block starts and '
         'ends, with all kinds of white space; non-trivial: ' + NT,
         text_shrink=True),
    Part('misses', gen_miss, check, 20000, 600000,
         'leaf blocks with one or two characters changed, and two constructs '
         'joined in one line; non-trivial: ' + NT, text_shrink=True),
    Part('exotic', gen_exotic, check, 10000, 300000,
         'unusual characters scattered over block structure; non-trivial: ' +
         NT, text_shrink=True),
    Part('stretched', gens.stretched(gen_lines, gen_structured, gen_mutant,
                                    gen_small, gen_tabs, gen_leaf, gen_miss),
         check, 700, 30000,
         'like the above, with a character, a piece, some lines or all of it '
         'repeated, up to 5000 characters; non-trivial: ' + NT, text_shrink=True, cpu=60, deep=True),
    Part('sizes', None, check_size, 1, 1,
         '%d constructs with one length in it: all to 131 and those about '
         'the powers of two and ten (quick: a third of them, to 10000; '
         'thorough: to 100000); non-trivial: all' % (
             len(sizes.BLOCKS) + len(sizes.REFS)),
         cpu=120, enum=enum_sizes, deep=True, text_shrink=True),
    Part('limits', gen_limits, check, 6000, 100000,
         'lengths and numbers around the limits; non-trivial: ' + NT,
         text_shrink=True),
    Part('pairs', None, check, 1, 1,
         'all 2-line texts over %d line forms; non-trivial: %s' % (
             len(E_PRE) * len(E_BODY), NT), text_shrink=True, enum=enum2),
    Part('triples', None, check, 1, 1,
         '3-line texts over %d line forms (every 97th when quick, all when '
         'thorough); non-trivial: %s' % (len(E_PRE) * len(E_BODY), NT),
         text_shrink=True, enum=enum3),
], ['the reference model in vf/refmodel.py states CommonMark 0.29 correctly '
    '(it reproduces all 649 examples of spec.txt)'])
