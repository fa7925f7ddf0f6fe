"""C30 a fragment repeated n times costs n times as much."""
import commonmark

from .. import gens, pump
from ..engine import Part, Prop, Skip, Violation, sut
from .c01 import PIECES
from .c24 import LIMIT, cpu, steps

FORMS = ['html', 'rst', 'json', 'smart']


def work(form):
    def f(text):
        ast = commonmark.Parser({'smart': form == 'smart'}).parse(text)
        if form == 'rst':
            return commonmark.ReStructuredTextRenderer().render(ast)
        if form == 'json':
            return commonmark.dumpJSON(ast)
        return commonmark.HtmlRenderer().render(ast)
    return f


# the pieces that stay within one block
INLINE = [p for p in PIECES if '\n' not in p and p.strip() and
          p.lstrip()[0] not in '>-+#*1=~|' and '[a]:' not in p and
          not p.startswith(('    ', '```'))]


def pieces(s, seq, n):
    return ''.join(s.pick(seq) for _ in range(s.int(1, n)))


def gen_repeat(s):
    """[before, fragment, middle, second fragment, after, format]: one
    fragment of any kind repeated."""
    k = s.below(4)
    if k == 0:
        f = pieces(s, PIECES, 4)
    elif k == 1:
        f = pieces(s, PIECES, 3) + s.pick(['\n', '\n\n'])
    elif k == 2:
        f = gens.document(s)[:s.pick([40, 100, 200])] + \
            s.pick(['', '\n', '\n\n'])
    else:
        f = gens.inline(s, 2) + s.pick(['', ' ', '\n', '\n\n'])
    return ['', f, '', '', '', s.pick(FORMS)]


def gen_inline(s):
    """Runs of inline pieces in one paragraph."""
    a = pieces(s, INLINE, 2)
    b = pieces(s, INLINE, 2) if s.chance(70) else ''
    return ['a' + (pieces(s, INLINE, 3) if s.chance(40) else ''), a,
            s.pick(['', ' ', 'a', '*a']), b,
            pieces(s, INLINE, 3) if s.chance(40) else '', s.pick(FORMS)]


OPEN = ['[', '![', '*', '**', '_', '__', '`', '``', '```', '<', '<a', '(',
        '"', "'", '\\`', '\\``', '&', '[a](', '[a](<', '[a](b "', '<!--', '<?',
        '![[', '*[', '[*', '"*', '_"', "*'", '**_', '[`', '`[', '\\[', ']',
        '](', '*a **b ', '_a*', '***']
WHOLE = ['[a](b)', '![a](b)', '*a*', '**a**', '_a_ ', '`a`', '``a`` ', '<a>',
         '<http://a>', '"a"', " 'a'", '[a]', '[a][]', '![a]', '[b][a]', 'a',
         '&amp;', '\\*', '(a)', 'a  \n', 'a\n', '[*a*](b)', '*[a](b)*',
         '![[a](b)](c)', '"*a*"', '...', '--', ' a']
CLOSE = [']', '*', '**', '_', '`', '"', "'", ')', '>', '](b)', '][a]', '-->',
         '"]', '*]', '_)']


def gen_open(s):
    """Unmatched openers, then (or among) whole constructs and closers."""
    def one():
        return s.pick(s.pick([OPEN, OPEN, WHOLE, WHOLE, WHOLE, CLOSE])) + \
            s.pick(['', '', ' ', 'a', ' a', 'a '])
    a, b = s.pick(OPEN) + s.pick(['', ' ', 'a', 'a ', ' a']), one()
    if s.chance(30):
        b += one()
    pre = s.pick(['', '', '[a]: /u\n\n', 'a'])
    if s.chance(40):
        return [pre, s.pick([a + b, b + a]), '', '', '',
                s.pick(['html', 'smart'])]
    return [pre, a, s.pick(['', ' ', 'a']), b, '', s.pick(['html', 'smart'])]


EACH = ['[a@]: /u\n', '[a@]: /u "t"\n\n', '[a@]\n\n', '[a@](/u@) ',
        '[x][a@] ', '[a@]: /u\n[a@]\n\n', '![a@][]\n', '- a@\n', '@. a\n',
        '> a@\n\n', '# a@\n', '<b@>', '&#@;', '`a@` ', '*a@* ',
        '<http://a/@> ', '```a@\nb\n```\n', '\n\n', 'a@ ', '<div@>\n\n',
        '- [a@]: /u\n', 'a@\n===\n', '[é@]: /u\n\n', '> [a@]: /u\n\n']
ALSO = ['', '[a@] ', '[a@]\n\n', '![a@]', '[b][a@] ', 'a@\n', '* a@\n',
        '[c@]: /u\n']


def gen_many(s):
    """Different labels, destinations and so on in each repetition: @ stands
    for the number of the repetition."""
    f = s.pick(EACH)
    g = s.pick([''] + ALSO)
    return ['', f, s.pick(['', '\n', '\n\n']), g, '', s.pick(FORMS)]


def expand(case, n):
    a, f, m, g, z, _ = case
    if '@' in f + g and f[:1] != '<a':
        return a + ''.join(f.replace('@', str(i)) for i in range(n)) + m + \
            ''.join(g.replace('@', str(i)) for i in range(n)) + z
    return a + f * n + m + g * n + z


def check(case, st):
    fn = work(case[5])
    width = max(1, len(case[1]) + len(case[3]))
    base = max(16, 200 // width)
    if not case[1] + case[3]:
        raise Skip('empty')
    c = [steps(expand(case, base * k), fn) for k in (1, 2, 4)]
    st.nt(c[2] > 5000)
    st.label(case[5])
    # a linear cost has no second difference, that of a quadratic one
    # quadruples at each doubling
    bend = [c[2] - 3 * c[1] + 2 * c[0]]
    if bend[0] <= 0.03 * c[2] + 300:
        return
    for k in (8, 16):
        c.append(steps(expand(case, base * k), fn))
        bend.append(c[-1] - 3 * c[-2] + 2 * c[-3])
        if bend[-1] < 3 * bend[-2] and c[-1] <= LIMIT:
            return
    raise Violation('%r: %s lines executed for %s repetitions' % (
        case, c, [base * k for k in (1, 2, 4, 8, 16)]))


def big(tier):
    """Hard families, long enough for the cost of what no line shows."""
    fams = [['', '[', 'a', ']', ''], ['', '[a](', '', '', ''],
            ['', '![', 'a', '](u)', ''], ['', '[', 'a', '](u)', ''],
            ['', '*a **a ', '', '', ''], ['', '*_* ', '', '', ''],
            ['a', '`a', '', '', ''], ['', '<a ', '', '', ''],
            ['', '&a', '', '', ''], ['', '\\*', '', '', ''],
            ['', 'a\n', '', '', ''], ['', '[a]: /u\n', '', '[a]', ''],
            ['', '- a\n', '', '', ''], ['', '> a\n', '', '', ''],
            ['', '\n', '', '', ''], ['', 'a\n\n', '', '', ''],
            ['', '    a\n', '', '', ''], ['```\n', 'a\n', '', '', ''],
            ['<pre>\n', 'a\n', '', '', ''], ['', '"a" ', '', '', ''],
            ['', '![a](b) ', '', '', ''], ['', 'a  \n', '', '', '']]
    return [f + [m] for f in fams for m in ('html', 'smart')]


def check_big(case, st):
    width = max(1, len(case[1]) + len(case[3]))
    n = 60000 // width
    text = expand(case, n)
    fn = work(case[5])

    def once(t):
        return sut(fn, t)

    t = cpu(text, once)
    st.nt()
    if t > 6:
        # linear, a quarter of the text takes a quarter of the time
        q = cpu(expand(case, n // 4), once)
        if t > 7 * q or t > 20:
            raise Violation('%r takes %.1f CPU-seconds at %d repetitions and '
                            '%.1f at a quarter of them' % (case, t, n, q))


def parse(text):
    commonmark.Parser().parse(text)


def parse_smart(text):
    commonmark.Parser({'smart': True}).parse(text)


class Combos(object):
    """Every context and unit, with one of the tails (thorough: all)."""

    def __init__(self, tier):
        self.grid = pump.Grid(tier)
        self.step = len(pump.TAILS) if tier == 'quick' else 1

    def __len__(self):
        return len(self.grid) // self.step

    def __getitem__(self, i):
        if self.step > 1:
            i = i * self.step + i * 5 % self.step
        return self.grid[i] + [False]


def gen_combo(s):
    """A context, a fragment of units or pieces, a tail, smart or not."""
    f = ''.join(s.pick(s.pick([pump.UNITS, pump.UNITS, OPEN, WHOLE, CLOSE,
                               pump.CONTEXTS]))
                for _ in range(s.int(1, 3)))
    return [s.pick(['', '', 'a', 'a '] + pump.CONTEXTS), f or 'a',
            s.pick(pump.TAILS), s.chance(30)]


SHORT = 8000


def check_time(case, st):
    """The CPU time of long texts shows what no executed line shows: what
    regular expressions and copies of strings cost."""
    a, f, z, smart = case
    fn = parse_smart if smart else parse

    def t(size):
        return cpu(a + f * (size // len(f)) + z, fn)

    whole = t(SHORT)
    st.nt()
    if whole < 0.2:
        return
    # linear, a quarter of the text takes a quarter of the time
    if whole < 8 * t(SHORT // 4):
        return
    st.label('measured again')
    long = t(4 * SHORT)
    if long < 3 or long < 9 * t(SHORT):
        return
    raise Violation('%r takes %.1f CPU-seconds at %d characters and %.1f at '
                    'a quarter of them' % (case, long, 4 * SHORT, t(SHORT)))


def mass(tier):
    return [['', f, '\n\n', g, '', 'html'] for f in EACH for g in ALSO]


def check_mass(case, st):
    """Thousands of different labels and so on, timed."""
    fn = work(case[5])

    def t(n):
        return cpu(expand(case, n), fn)

    whole = t(12000)
    st.nt()
    if whole < 1 or whole < 7 * t(3000):
        return
    st.label('measured again')
    long = t(24000)
    if long < 4 or long < 8 * t(6000):
        return
    raise Violation('%r takes %.1f CPU-seconds for 24000 of each and %.1f '
                    'for a quarter of them' % (case, long, t(6000)))


PROP = Prop('C30', [
    Part('repeat', gen_repeat, check, 500, 30000,
         'a random fragment repeated, executed lines counted at 1, 2 and 4 '
         'times 200 characters or more; non-trivial: more than 5000 lines '
         'executed', cpu=60),
    Part('inline', gen_inline, check, 500, 30000,
         'runs of inline fragments in one paragraph; non-trivial: as above',
         cpu=60),
    Part('open', gen_open, check, 500, 30000,
         'openers that stay unmatched, then (or among) whole constructs and '
         'closers; non-trivial: as above', cpu=60),
    Part('many', gen_many, check, 150, 9000,
         'labels, destinations and texts that differ in each repetition; '
         'non-trivial: as above', cpu=60),
    Part('mass', None, check_mass, 1, 1,
         'the same, 12000 of each, timed and, if that took long, timed again '
         'at a quarter and twice of it; non-trivial: all', enum=mass,
         cpu=100),
    Part('big', None, check_big, 1, 1,
         'families known to be hard, 60000 characters each; non-trivial: all',
         enum=big, cpu=60),
    Part('grid', None, check_time, 1, 1,
         'a unit repeated in a context up to 8000 characters and a tail, '
         'timed and, if that took long, timed again at a quarter and four '
         'times of it; non-trivial: all', enum=Combos, cpu=100),
    Part('combo', gen_combo, check_time, 2000, 60000,
         'a context, a fragment of units, openers and whole constructs '
         'repeated, and a tail, timed as above; non-trivial: all', cpu=100),
], assumptions=['executed source lines measure the cost of Python code; CPU '
                'time, with a wide margin, that of regular expressions and '
                'of strings'])
