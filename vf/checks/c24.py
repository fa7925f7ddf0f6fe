"""C24 cost grows at most quadratically."""
import sys
import time

import commonmark

from .. import gens, pump, repo
from ..engine import Part, Prop, Skip, Violation, sut
from .c01 import PIECES

TOOL = 3
mon = sys.monitoring
_count = [0]


def _line(code, line):
    if not code.co_filename.startswith(repo.REPO):
        return mon.DISABLE
    _count[0] += 1
    if _count[0] > LIMIT:
        raise Enough()
    return None


class Enough(Exception):
    pass


LIMIT = 60000000


def once(text):
    ast = commonmark.Parser().parse(text)
    return commonmark.HtmlRenderer().render(ast)


def steps(text, work=once):
    """Lines of the code under test executed for a text: deterministic."""
    mon.use_tool_id(TOOL, 'vf')
    _count[0] = 0
    try:
        mon.register_callback(TOOL, mon.events.LINE, _line)
        mon.set_events(TOOL, mon.events.LINE)
        try:
            work(text)
        except Enough:
            pass
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
    return _count[0]


def cpu(text, work=once):
    t = time.process_time()
    sut(work, text)
    return time.process_time() - t


# A family is [kind, pieces...]; expand(family, n) gives its n-th member.

def expand(f, n):
    k = f[0]
    if k == 'rep':                       # pre piece^n post
        return f[1] + f[2] * n + f[3]
    if k == 'two':                       # a^n mid b^n
        return f[1] * n + f[2] + f[3] * n
    if k == 'three':                     # a^n b^n c^n
        return f[1] * n + f[2] * n + f[3] * n
    if k == 'grow':                      # runs of growing length
        out, i, total = [], 1, 0
        while total < n:
            out.append(f[1] + f[2] * i)
            total += len(out[-1])
            i += 1
        return ''.join(out)
    if k == 'stairs':                    # nesting line by line
        out, i, total = [], 0, 0
        while total < n * 2:
            out.append(f[1] * i + f[2])
            total += len(out[-1])
            i += 1
        return '\n'.join(out)
    if k == 'cont':                      # nested container, many lines in it
        m = max(1, int(n ** 0.5))
        first = f[1] * m
        pad = ''.join('>' if c == '>' else ' ' for c in first) \
            if f[3] else ''
        return first + f[2] + ('\n' + pad + f[2]) * m
    if k == 'refs':                      # definitions and references
        return ''.join('[%s%d]: /u\n' % (f[1], i) for i in range(n)) + \
            '\n' + ''.join('[%s%d]%s' % (f[1], i, f[2]) for i in range(n))
    raise ValueError(k)


def width(f):
    """Characters per repetition, roughly."""
    return {'rep': lambda: len(f[2]), 'two': lambda: len(f[1]) + len(f[3]),
            'three': lambda: len(f[1]) + len(f[2]) + len(f[3]),
            'grow': lambda: 1, 'stairs': lambda: 2, 'cont': lambda: 2,
            'refs': lambda: 12 + 2 * len(f[1])}[f[0]]()


def piece(s):
    k = s.below(10)
    if k < 5:
        return s.pick(PIECES)
    if k < 8:
        return s.pick(PIECES) + s.pick(PIECES)
    if k < 9:
        return s.pick(PIECES) + s.pick(PIECES) + s.pick(PIECES)
    return s.text(gens.NOISE + '>#+', 1, 4)


def family(s):
    k = s.below(20)
    if k < 7:
        return ['rep', s.pick(['', '', piece(s)]), piece(s),
                s.pick(['', '', piece(s)])]
    if k < 13:
        return ['two', piece(s), s.pick(['', 'a', '\n', ' ', '\n\n']),
                piece(s)]
    if k < 14:
        return ['three', piece(s), piece(s), piece(s)]
    if k < 16:
        return ['grow', s.pick(['a', ' ', '\n', 'e ', piece(s)]),
                s.pick(['`', '*', '_', '[', '(', '~', '#', '-', ' ', '>',
                        '\\', '&', '<', '"', '=', piece(s)])]
    if k < 17:
        return ['stairs', s.pick(['> ', '- ', '  ', '1. ', '>', '\t', ' ',
                                  '   ', '+ ']),
                s.pick(['- a', 'a', '', '> a', '1. b', '```', '<div>',
                        '[a]: /u', '# h', '- a\n'])]
    if k < 19:
        return ['cont', s.pick(['> ', '- ', '1. ', '> - ', '>']),
                s.pick(['a', '', '- b', '```', '    c', '<p>', '*a', '[a']),
                s.chance(60)]
    return ['refs', s.pick(['a', '*', 'é', 'a b ']), s.pick(['', '[]', ' '])]


def member(f, size):
    return expand(f, max(1, size // max(1, width(f))))


def gen_family(s):
    return family(s)


def check_steps(f, st):
    sizes = [100, 200, 400, 800]
    c = [steps(member(f, n)) for n in sizes]
    r = [b / a for a, b in zip(c, c[1:])]
    st.nt(c[-1] > 4000)
    st.label('grows faster than linearly' if r[-1] > 2.6 else 'linear')
    if r[-1] > 5.2 and r[-2] > 5.2:
        big = steps(member(f, 1600))
        if big / c[-1] > 5.2 or big > LIMIT:
            raise Violation(
                'family %r: %s and %d lines executed at %s and 1600 '
                'characters: each doubling multiplies the cost by %s and '
                '%.1f' % (f, c, big, sizes, ['%.1f' % x for x in r],
                          big / c[-1]))


def check_time(f, st):
    t = [cpu(member(f, n)) for n in (500, 1000, 2000)]
    st.nt()
    if t[2] > 0.5:
        st.label('more than 0.5 s at 2000 characters')
    if t[2] > 1.5 and t[2] > 6 * t[1] and t[1] > 6 * t[0]:
        # once more, taking the best of three
        t = [min(cpu(member(f, n)) for _ in range(3))
             for n in (500, 1000, 2000)]
        if t[2] > 1.5 and t[2] > 6 * t[1] and t[1] > 5 * t[0]:
            raise Violation('family %r takes %s CPU-seconds at 500, 1000 and '
                            '2000 characters' % (f, ['%.2f' % x for x in t]))


KNOWN = [
    ['rep', '', '*a **a ', ''], ['two', '*a **a ', 'b', ' a** a*'],
    ['rep', '', 'a** ', ''], ['rep', '', '_a ', ''], ['rep', '', '*a_ ', ''],
    ['rep', '', 'a***_b__ ', ''], ['rep', '', '**x *y ', ''],
    ['two', '*a ', '', '_b '], ['two', '**a ', '', 'a* '],
    ['two', '_a ', '', 'a__ '], ['rep', '', '*_a ', ''],
    ['rep', '', 'a*_ ', ''], ['rep', '', '**_*', ''], ['rep', 'a', '**b', ''],
    ['two', '[', 'a', ']'], ['two', '[', 'a', '](b)'], ['rep', '', '[a](', ''],
    ['rep', '', '[a](b', ''], ['rep', '', '[a](<b', ''], ['rep', '', '![[]()',
                                                          ''],
    ['rep', '', '[a][', ''], ['rep', '', '[ (](', ''], ['rep', '', '[a]', ''],
    ['two', '*[', 'a', ']*'], ['two', '![', 'a', '](u)'],
    ['rep', '', '`` ` ', ''], ['grow', 'e', '`'], ['rep', '', 'a`', ''],
    ['rep', '', '<', ''], ['rep', '', '<!--', ''], ['rep', '', '<?', ''],
    ['rep', '', '<!A ', ''], ['rep', '', '<![CDATA[', ''],
    ['rep', '<a', ' b', ''], ['rep', '<a', ' b=c', ''],
    ['rep', '<a', ' b="', ''], ['rep', '<a', "\nb = '", ''],
    ['rep', '<', 'a.', ''], ['rep', '<a@', 'b.', ''],
    ['rep', '<a@', 'b-', ''], ['rep', '<a@', 'a', ''],
    ['rep', '', '<a@b', ''], ['rep', '', '&', ''], ['rep', '&', 'a', ''],
    ['rep', '[a](b "', '\\"', ''], ['rep', '[a](b "', '\\', ''],
    ['rep', "[a](b '", "\\'a", ''], ['rep', '[a](b (', '\\)', ''],
    ['rep', '[a](b ', '(', ''], ['rep', '[a](', '(a)', ''],
    ['rep', '[a](', '\\', ''], ['rep', '[a](<', '\\>', ''],
    ['rep', '[', '\\]', ''], ['rep', '[', 'a ', ']: /u'],
    ['rep', '', '[a]: /u\n', ''], ['rep', '', '[a]: /u "\n', ''],
    ['rep', '', '[a]:\n', ''], ['refs', 'a', ''], ['refs', '*', '[]'],
    ['rep', '', '> ', 'a'], ['rep', '', '- ', 'a'], ['rep', '', '1. ', 'a'],
    ['rep', '', '- a\n', ''], ['rep', '', '- a\n\n', ''],
    ['rep', '', '> a\n', ''], ['stairs', ' ', '- a'], ['stairs', '  ', '* a'],
    ['stairs', '> ', 'a'], ['cont', '> ', 'a', True], ['cont', '- ', 'a', True],
    ['cont', '> ', 'a', False], ['cont', '- ', '', False],
    ['rep', '', '#', ''], ['rep', '# a ', '#', ' b'], ['rep', '# a', ' #', ''],
    ['rep', '', '# ', ''], ['rep', '', '- ', 'x'], ['rep', '', '* ', 'x'],
    ['rep', '', '***\n', ''], ['rep', '', '_ ', 'a'], ['rep', '', '\t', 'a'],
    ['rep', '', '```\n', ''], ['rep', '```', '`', ' `'],
    ['rep', '```\n', '\n', 'a'], ['rep', '    a\n', '\n', '    b'],
    ['rep', '    a', '\n    ', 'b'], ['rep', 'a', ' ', 'b'],
    ['rep', 'a', ' ', '\nb'], ['rep', 'a', '\n', 'b'], ['rep', '', 'a\n', ''],
    ['rep', '', 'a  \n', ''], ['rep', '', '\\\n', ''], ['rep', '', '"a', ''],
    ['rep', '', 'a" ', ''], ['rep', '', "'a ", ''], ['rep', '-', '-', ''],
    ['rep', '', '.', ''], ['rep', '', '=\n', ''], ['rep', '', 'a\n=', ''],
    ['rep', '<div>\n', 'a\n', ''], ['rep', '<!--\n', '--\n', ''],
    ['rep', '<pre>', '<', ''], ['rep', '', '\x00', ''],
    ['rep', '', '\xa0', ''], ['rep', '', 'é', ''], ['rep', '[', 'ß', ']: /u'],
    ['rep', '', '![a](b) ', ''], ['rep', '', '<http://a> ', ''],
    ['rep', '[a](b', '%', ')'], ['rep', '[a](b', '%2', ')'],
    ['rep', '[a](', 'é', ')'], ['rep', '', '\\*', ''], ['rep', '', '&amp;', ''],
]


def known(tier):
    return [[f, m] for f in KNOWN for m in ('steps', 'time')]


def check_known(case, st):
    f, m = case
    if m == 'steps':
        return check_steps(f, st)
    check_time(f, st)
    # thousands of repetitions within seconds
    n = 2000
    if width(f) * n > 6000:
        n = 6000 // width(f)
    t = cpu(expand(f, n))
    if t > 25:
        raise Violation('family %r takes %.1f CPU-seconds at n = %d' % (f, t,
                                                                       n))


def gen_pump(s):
    return ['rep'] + pump.triple(s)


class Pairs(object):
    """Every pair of pieces, in turns (quick: none)."""

    def __init__(self, tier):
        self.n = len(PIECES) ** 2

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        a, b = PIECES[i % len(PIECES)], PIECES[i // len(PIECES)]
        return [['rep', '', a + b, ''], ['two', a, '', b]][i % 2]


PROP = Prop('C24', [
    Part('known', None, check_known, 1, 1,
         'families known to be hard for Markdown parsers; non-trivial: more '
         'than 4000 lines executed at 800 characters, or timed',
         enum=known, cpu=40),
    Part('steps', gen_family, check_steps, 640, 30000,
         'random families, executed lines counted at 100 to 800 characters; '
         'non-trivial: more than 4000 lines executed at 800 characters',
         cpu=40),
    Part('time', gen_family, check_time, 320, 15000,
         'random families timed at 500 to 2000 characters; non-trivial: all',
         cpu=40),
    Part('pump', gen_pump, check_time, 1600, 60000,
         'a unit repeated in a context, timed at 500 to 2000 characters; '
         'non-trivial: all', cpu=40),
    Part('pairs', None, check_steps, 0, 1,
         'every pair of pieces, repeated or one after the other (thorough '
         'only); non-trivial: more than 4000 lines executed at 800 '
         'characters', enum=Pairs, cpu=40),
], assumptions=['executed source lines measure the cost of Python code; CPU '
                'time, with a wide margin, that of regular expressions'])
