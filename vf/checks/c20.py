"""C20 smart punctuation."""
import itertools

from .. import sizes, gens, refmodel
from ..engine import Part, Prop, Skip, Violation
from ..sutlib import (diff, expect_eq, expect_tree, html_of, parse, short,
                      snap, walk)
from .c02 import norm_key

CURLY = '\u2018\u2019\u201c\u201d\u2013\u2014\u2026'
BACK = {0x2018: "'", 0x2019: "'", 0x201c: '"', 0x201d: '"', 0x2013: '--',
        0x2014: '---', 0x2026: '...'}
BITS = ['"', '"', "'", "'", '--', '---', '...', '-', '.', '..', '----', 'a',
        'b c', ' ', ' ', '*', '**', '_', '(', ')', '[', '](/u)', '](/u "t")',
        '`', '\\"', "\\'", '\\-', '\\.', '&quot;', '&#39;', '\n', '!', '1',
        '<b t="x">', '<http://a--b.c/d...>', ',', 'é', '\u2003', '\xa0',
        '--x', "don't", '"a"', "'a'", '.....', '-----', '--\\-',
        '![', '[r]', '&', '<', 'x--y', '  \n', '\\\n']


def gen_bits(s):
    t = ''.join(s.pick(BITS) for _ in range(s.int(1, 14)))
    return t + '\n\n[r]: /u--v\'w "it\'s -- ..."\n'


def gen_doc(s):
    t = gens.document(s)
    out = []
    for c in t:
        if c in ' .' and s.chance(15):
            out.append(s.pick(['"', "'", ' --', ' ---', '...', "'s", '" ',
                               ' "', " '", c]))
        else:
            out.append(c)
    return gens.with_defs(s, ''.join(out))


def unsmart(v):
    """Replace the smart characters in the text of a snapshot."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'text' and len(v) == 2:
        return ('text', v[1].translate(BACK))
    return tuple(unsmart(x) for x in v)


def check(text, st):
    if any(c in text for c in CURLY):
        raise Skip('curly characters in the text')
    smart, plain = parse(text, smart=True), parse(text)
    a, b = snap(smart), snap(plain)
    texts = [n.literal for n in walk(plain) if n.t == 'text']
    if any(c in x for x in texts for c in CURLY):
        raise Skip('curly characters by reference')
    expect_tree(unsmart(a), b, 'smart mapped back, against plain')
    if b != snap(parse(text)):
        raise Violation('plain result changes after a smart one')
    expect_eq(html_of(smart).translate(BACK).replace('&quot;', '"'),
              html_of(plain).replace('&quot;', '"'), 'HTML')
    all_ = ''.join(n.literal for n in walk(smart) if n.t == 'text')
    for c in CURLY:
        if c in all_:
            st.label('U+%04X' % ord(c))
            st.nt()
    doc, refmap, amb = refmodel.parse(text, True)
    if amb:
        return
    expect_tree(a, norm_key(doc), 'smart, against the model')
    st.label('model')


def runs(tier):
    """Runs of hyphens and of full stops, every length, several contexts."""
    n = 120 if tier == 'quick' else 600
    return [[c, i, pre, post] for c in '-.' for i in range(1, n)
            for pre, post in (('a', 'b'), ('a ', ' b'), ('*x', '*'),
                              ('[l', '](/u)'), ('&quot;', '!'))]


def check_runs(case, st):
    c, n, pre, post = case
    root = parse(pre + c * n + post, smart=True)
    texts = ''.join(x.literal for x in walk(root) if x.t == 'text')
    run = texts.strip('ablx !"')
    if c == '.':
        want = '\u2026' * (n // 3) + '.' * (n % 3)
    elif n == 1:
        want = '-'
    else:
        # em dashes first, the fewest en dashes that make up the rest; all
        # of one kind when possible
        best = None
        for en in range(0, n // 2 + 1):
            if (n - 2 * en) % 3 == 0:
                em = (n - 2 * en) // 3
                best = (em, en)
                break
        if n % 3 and n % 2 == 0:
            best = (0, n // 2)
        want = '\u2014' * best[0] + '\u2013' * best[1]
    if run != want:
        raise Violation('%d of %r become %r, not %r' % (n, c, run, want))
    st.nt(n >= 2)


def gen_quotes(s):
    """Words with quotes in known roles: [text, expected]."""
    out, want = [], []
    for i in range(s.int(1, 5)):
        k = s.below(7)
        w = s.pick(['a', 'word', 'x1', 'é'])
        if k == 0:
            src, exp = '"%s"' % w, '\u201c%s\u201d' % w
        elif k == 1:
            src, exp = "'%s'" % w, '\u2018%s\u2019' % w
        elif k == 2:
            src, exp = "%s's" % w, '%s\u2019s' % w
        elif k == 3:
            src, exp = '\\"%s\\"' % w, '"%s"' % w
        elif k == 4:
            src, exp = "\\'%s\\'" % w, "'%s'" % w
        elif k == 5:
            src, exp = '"\'%s\'"' % w, '\u201c\u2018%s\u2019\u201d' % w
        else:
            src, exp = '("%s")' % w, '(\u201c%s\u201d)' % w
        out.append(src)
        want.append(exp)
    if s.chance(20):
        # no closing quote: still an opening one
        out.append('"end')
        want.append('\u201cend')
    j = s.pick([' ', ', ', '\n'])
    return [j.join(out), j.join(want)]


def check_quotes(case, st):
    src, want = case
    root = parse(src, smart=True)
    got = ''.join(n.literal if n.t == 'text' else '\n' for n in walk(root)
                  if n.t in ('text', 'softbreak'))
    if got != want:
        raise Violation('%r gives %r, not %r' % (src, got, want))
    st.nt(any(c in want for c in CURLY))


SHORT = [("'*a ", 7), ('\'"*_a ', 5), ('"*a(', 6), ("'a-.", 6),
         ('"[](a', 6), ("'`a*\\", 5)]


def enum_short(tier):
    """All texts over small alphabets."""
    out = []
    for alpha, n in SHORT:
        for k in range(1, n + (tier != 'quick') + 1):
            out += [''.join(x) for x in itertools.product(alpha, repeat=k)]
    return out


NT = 'a smart character in the result'


def enum_sizes(tier):
    if tier == 'quick':
        return sizes.Cases(sizes.SMART, tier, 10000, 2)
    return sizes.Cases(sizes.SMART, tier, 100000, 1)


def check_size(text, st):
    check(text, st)
    st.nt()


PROP = Prop('C20', [
    Part('bits', gen_bits, check, 24000, 900000,
         'quotes, dashes, full stops between other markup; smart tree mapped '
         'back against plain, and against the model; non-trivial: ' + NT,
         text_shrink=True),
    Part('documents', gen_doc, check, 9000, 350000,
         'documents sprinkled with quotes and dashes; non-trivial: ' + NT,
         text_shrink=True),
    Part('short', None, check, 1, 1,
         'all texts over six small alphabets, up to 5 to 7 characters '
         '(thorough: one more); non-trivial: ' + NT, enum=enum_short),
    Part('stretched', gens.stretched(gen_bits, gen_doc),
         check, 700, 30000,
         'like the above, with a character, a piece, some lines or all of it '
         'repeated, up to 5000 characters; non-trivial: ' + NT, text_shrink=True, cpu=60, deep=True),
    Part('sizes', None, check_size, 1, 1,
         '%d smart constructs with one length in it: all to 131 and those '
         'about the powers of two and ten (quick: a half of them, to 10000; '
         'thorough: to 100000); non-trivial: all' % len(sizes.SMART),
         cpu=120, enum=enum_sizes, deep=True, text_shrink=True),
    Part('runs', None, check_runs, 1, 1,
         'every run length in five contexts; non-trivial: two or more '
         'characters', enum=runs),
    Part('quotes', gen_quotes, check_quotes, 6000, 150000,
         'sentences whose quotes have known roles; non-trivial: ' + NT),
], assumptions=['the smart mode of the reference model'])
