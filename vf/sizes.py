"""One construct with one length in it: every length up to 130 or so, and the
lengths about the powers of two and ten."""

SMALL = list(range(1, 132))
ROUND = [199, 200, 201, 254, 255, 256, 257, 299, 300, 301, 399, 400, 499, 500,
         501, 510, 511, 512, 513, 600, 767, 768, 799, 800, 900, 998, 999,
         1000, 1001, 1002, 1022, 1023, 1024, 1025, 1026, 1279, 1280, 1499,
         1500, 2000, 2046, 2047, 2048, 2049, 2999, 3000, 4000, 4094, 4095,
         4096, 4097, 4999, 5000, 8191, 8192, 8193, 9999, 10000]
HUGE = [16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537,
        100000]

# Lines and blocks.  %: the unit, repeated.  A template is (before, unit,
# after): the largest number of repetitions may be given.
BLOCKS = [
    ('a\n', '=', '\nb'), ('a\n', '-', '\nb'), ('a\n=', ' ', '\nb'),
    ('', '-', ''), ('', '*', '\na'), ('', '_', '\na'), ('', ' *', ''),
    ('', '- ', '-\na', 300), ('***', ' ', '\na'), ('a\n', '* ', '\nb', 300),
    ('', '#', ' a'), ('# a ', '#', ''), ('# a', ' ', '#\nb'), ('#', ' ', 'a'),
    ('# ', 'a', ''), ('# ', 'a ', '#'), ('# ', '# ', ''),
    ('```', '`', '\na\n'), ('```\na\n``', '`', '\nb'), ('~~~', '~', '\na'),
    ('~~~\na\n~~', '~', '\nb'), ('``` ', 'a', '\nb'), ('~~~ ', 'a ', '\nb'),
    ('```\na\n```', ' ', '\nb'), ('```', ' ', 'a\nb\n```\nc'),
    ('````\n', '```\n', '````\na'), ('```\n', 'a\n', '```\nb'),
    ('```\n', '\n', '```\nb'), ('```\n', 'a', '\n```\nb'),
    ('```\n', ' ', 'a\n```\nb'), ('```\n', '- ', 'a\n```\nb'),
    ('', '\n', 'a'), ('a', '\n', 'b'), ('a\n', ' ', '\nb'), ('a', '\n', ''),
    ('a\n\n', '\t', 'b'), ('a\n\n', ' ', 'b'), ('a\n', ' ', 'b'),
    ('    a', '\n', '    b'), ('', '    a\n', 'b'), ('    ', 'a', '\nb'),
    ('    a\n', ' ', '\n    b'), ('    a', '\n', 'b'), ('    a', '\n', ''),
    ('- a\n', '\n', '  b'), ('- a\n', '\n', '- b'), ('-', '\n', '  a'),
    ('-', ' ', 'a\n\n  b'), ('1.', ' ', 'a'), ('-', ' ', '\n  a'),
    ('', '1', '. a'), ('', '0', '1) a'), ('a\n', '1', '. b'),
    ('', '- a\n', 'b'), ('', '- a\n\n', '  b\n\nc'), ('', '1. a\n', '\nb'),
    ('', '+\n', 'b'), ('- a\n  - b\n', '    - c\n', '- d', 200),
    ('', '- a\n', '\n- b'), ('', '- a\n  ```\n  ```\n', 'b', 200),
    ('1. ', '- ', 'a', 60), ('', '- ', 'a', 120), ('', '> ', 'a', 120),
    ('', '>', 'a\nb\n\nc', 120), ('', '1. ', 'a', 120), ('', '>- ', 'a', 60),
    ('', '> a\n', 'b'), ('> a\n', 'b\n', '\nc'), ('', '> a\n>\n', 'b'),
    ('> ', ' ', 'a'), ('>', '\n>', ' a'), ('', '> a\n\n', 'b'),
    ('', 'a\n\n', 'b'), ('', 'a\n', '==='), ('', 'a\n', '---\nb'),
    ('', '# a\n', 'b'), ('', '***\n', 'b'), ('', 'a\n# b\n', 'c'),
    ('<div>\n', 'a\n', '\n*b*'), ('<div', ' ', '>\n\n*b*'),
    ('<div ', 'a', '\n\n*b*'), ('<!-- ', 'a\n', '-->\n*b*'),
    ('<!-- ', '\n', '-->\n*b*'), ('<!-- ', '-', ' -->\n*b*'),
    ('<pre>', 'a\n\n', '</pre>\n*b*'), ('<', 'a', '>\n*b*\n\n*c*'),
    ('<a', ' b', '>\n*b*'), ('<a b="', 'c', '">\n*b*'), ('<?', 'a\n', '?>\nb'),
    ('<a', ' ', '>\n*b*'), ('</a', ' ', '>\n*b*'), ('<![CDATA[', ']', '>\nb'),
    ('<!A', 'a', '>\n*b*'), ('<!A\n', 'a\n', '>\n*b*'),
    ('<div>', '\n', '*b*'), ('<div>\n', '  a', '\n\n*b*'),
    ('', ' ', 'a'), ('', ' ', '- a'), ('- a\n', ' ', 'b'),
    ('- a\n', ' ', '- b'), ('1. a\n', ' ', '1. b'), ('- a\n\n', ' ', 'b'),
    ('> a\n', ' ', '> b'), ('', ' ', '# a'), ('a\n', ' ', '==='),
    ('```\na\n', ' ', '```\nb'), ('', ' ', '<div>\na'), ('a\n', ' ', '* * *'),
    ('', '\t', '- a'), ('-', '\t', 'a'), ('- a\n', '\t', 'b'),
    ('- a\n\n', '\t', 'b'), ('>', '\t', 'a'), ('#', '\t', 'a'),
    ('', '<div>\n\n', 'a'), ('', '```\n```\n', 'a'), ('', 'a\n===\n', 'b'),
]

INLINES = [
    ('', 'a', ''), ('', 'a ', 'b'), ('', 'a\n', 'b'), ('', 'é', ''),
    ('', '*', 'a'), ('a', '*', ''), ('', '_', 'a_'), ('a', '_', 'b'),
    ('', '*a* ', 'b'), ('', '**a** ', 'b'), ('', '_a_ ', ''),
    ('', '*a ', 'b', 1000), ('', 'a* ', 'b', 1000), ('*a', '*b', '*c*', 300),
    ('*', 'a', '*'), ('**', 'a ', '**'), ('**', '*a* ', '**', 1000),
    ('`', '`', ' a'), ('`', 'a', '`'), ('`', ' ', '`'), ('`', ' a', ' `'),
    ('`a', '\n', 'b`', 1), ('', '`a` ', 'b'), ('``', '`a`', '``', 1000),
    ('`', '\\', '`'), ('`', '*', '`*'), ('`a', '\nb', '`'), ('`', '&amp;', '`'),
    ('', '\\*', 'a'), ('', '\\', 'a'), ('', '\\\\', '*a*'), ('', '\\a', ''),
    ('a', ' ', '\nb'), ('a\n', ' ', 'b'), ('', 'a  \n', 'b'),
    ('', 'a\\\n', 'b'), ('a', '\t', '\nb'), ('a', ' ', ''),
    ('&#', '0', '1;'), ('&#', '1', ';'), ('&#x', 'a', ';'), ('&', 'a', ';'),
    ('', '&amp;', ''), ('', '&', 'a'), ('', '&copy;', ''), ('', '&#65;', ''),
    ('<', 'a', ':b>'), ('<a', '+', ':b>'), ('<http:', 'a', '>'),
    ('<http:', '/%zz', '>'), ('<', 'a', '@b>'), ('<a@', 'b', '>'),
    ('<a@b', '.c', '>'), ('<a@b', '-', 'c>'), ('<a@b.', 'c', '>'),
    ('', '<a:b> ', 'c'), ('', '<a@b> ', 'c'), ('<http://', 'é', '>'),
    ('a <', 'b', '>'), ('a <b', ' c', '>'), ('a <b c="', 'd', '">'),
    ("a <b c='", '"', "'>"), ('a <b c=', 'd', '>'), ('a <b', ' c="d"', '/>'),
    ('a <b', ' ', '>'), ('a <b ', 'c', '="d">'), ('a </b', ' ', '>'),
    ('a </b', 'c', '>'), ('a <b c', ' ', '="d">'), ('a <b c=', ' ', '"d">'),
    ('a <b c="', '\nd', '">'), ('a <b', '\nc', '>'),
    ('a <!-- ', 'b', ' -->'), ('a <!--', ' - b', ' -->'), ('a <!', 'B', ' c>'),
    ('a <!B ', 'c', '>'), ('a <?', 'b', '?>'), ('a <?', '?', '>'),
    ('a <![CDATA[', 'b', ']]>'), ('a <![CDATA[', ']', '>'),
    ('a ', '<b>', ''), ('a ', '<!-- b -->', ''), ('a <!--b', '\nc', '-->'),
    ('[', 'a', '](b)'), ('[a](', 'b', ')'), ('[a](', '(', ''),
    ('[a](', 'é', ')'), ('[a](', '%20', ')'), ('[a](', '&amp;', ')'),
    ('[a](', '\\*', ')'), ('[a](', ' ', 'b)'), ('[a](b', ' ', ')'),
    ('[a](b', ' ', '"c")'), ('[a](<', 'b', '>)'), ('[a](<', ' b', '>)'),
    ('[a](<', '\\>', '>)'), ('[a](b "', 'c', '")'), ("[a](b '", 'c ', "')"),
    ('[a](b (', 'c', '))'), ('[a](b "', '\\"', '")'), ('[a](b "', '\nc', '")'),
    ('[a](b "c"', ' ', ')'), ('[a](b "', '&quot;', '")'),
    ('', '[a](b) ', ''), ('', '![a](b) ', ''), ('[', '![a](b) ', '](c)', 1000),
    ('![', '*a* ', '](c)', 1000), ('![', 'a', '](c)'), ('[', '*a* ', '](c)'),
    ('', '[', 'a'), ('', ']', 'a'), ('', '![', 'a'), ('[a', ']', '(b)'),
    ('', '[', 'a](b)', 1000), ('[a]', '(b)', ''), ('[a]', '[r]', ''),
    ('', '!', '[a](b)'), ('[', '\\[', '](b)'), ('[', '`]`', '](b)'),
    ('[', '<b>', '](c)'), ('[`', 'a', '`](b)'), ('[', 'a\n', 'a](b)'),
]

REFS = [
    ('[', 'a', ']\n\n[', 'a', ']: /u'), ('[x][', 'a', ']\n\n[', 'a', ']: /u'),
    ('[', 'A', '][]\n\n[', 'a', ']: /u'), ('![', 'a', ']\n\n[', 'a', ']: /u'),
    ('[', 'ẞ', ']\n\n[', 'ss', ']: /u'), ('[', 'a ', 'b]\n\n[', 'A\n', 'B]: /u'),
    ('[', '\\]', ']\n\n[', '\\]', ']: /u'), ('[a', ' ', 'b]\n\n[a b]: /u'),
    ('[a]\n\n[a]: ', 'b', ''), ('[a]\n\n[a]: <', 'b', '>'),
    ('[a]\n\n[a]: b "', 'c', '"'), ('[a]\n\n[a]: b "', 'c\n', '"'),
    ('[a]\n\n[a]:', ' ', 'b'), ('[a]\n\n[a]: b', ' ', '"c"'),
    ('[a]\n\n[a]: b', ' ', ''), ('[a]\n\n', '[a]: b\n', ''),
    ('[a]\n\n', '[c]: b\n', '[a]: d'), ('[a]\n\n', '[c]: b\n\n', '[a]: d'),
    ('[a]\n\n> ', '[c]: b\n> ', '[a]: d'), ('[a]: b\n', '[a] ', ''),
    ('[a]: b\n', '\n', '[a]'), ('[a]:\n', ' ', 'b "c"\n\n[a]'),
    ('[a]: b\n', ' ', '"c"\n\n[a]'), ('[a]\n\n', ' ', '[a]: b'),
    ('[', 'a', '\n\n[a]: b'), ('[a]\n\n[a]: ', '(', 'b'),
]

SMART = [
    ('', 'a', '...'), ('', 'a', '--'), ('', 'a', '"b"'), ('', 'a', "'s b"),
    ('', '-', ''), ('a', '-', 'b'), ('', '.', ''), ('a', '.', 'b'),
    ('', '... ', 'b'), ('', '-- ', 'b'), ('', '--- ', 'b'), ('', '"a" ', ''),
    ('', "'a' ", ''), ('', "it's ", ''), ('', '"a ', '', 1000),
    ('', 'a" ', '', 1000), ('"', 'a', '"'), ('"', 'a ', '"'), ("'", 'a', "'"),
    ('"', '*a* ', '"', 1000), ('', '"', ''), ('', "'", ''), ('"', 'a\n', '"'),
    ('', '\\"a" ', ''), ('', '\\', '"a"'), ('`', '"', '`'), ('"[', 'a', '](b)"'),
    ('', "'", 'a'), ('', '"', 'a'), ('a', '"', ''), ('', "\"'a'\" ", ''),
    ('# ', '"a" ', ''), ('- ', '-- ', 'a'), ('', 'a -- b ', ''),
]


def text(t, n):
    """The template with its units repeated n times."""
    out = t[0]
    rest = t[1:]
    while len(rest) >= 2 and isinstance(rest[1], str):
        out += rest[0] * n + rest[1]
        rest = rest[2:]
    return out


def cap(t):
    return t[-1] if isinstance(t[-1], int) else 1 << 30


class Cases(object):
    """Templates and sizes; quick: the sizes in turns.  (Cost: the number of
    characters is limited.)"""

    def __init__(self, templates, tier, room, step, pre='', post=''):
        self.all = []
        k = 0
        for t in templates:
            units = [u for u in t[1:4:2] if isinstance(u, str)]
            top = min(cap(t), room // max(len(u) for u in units))
            for ns, st in ((SMALL, step), (ROUND, max(1, step // 2)),
                           (HUGE, max(1, step // 2))):
                ns = [n for n in ns if n <= top]
                if tier == 'quick':
                    ns = ns[k % st::st]
                self.all += [[pre, k, n, post] for n in ns]
            k += 1
        self.templates = templates

    def __len__(self):
        return len(self.all)

    def __getitem__(self, i):
        pre, k, n, post = self.all[i]
        return pre + text(self.templates[k], n) + post + '\n'


def part(templates, step=3, smart=False):
    """A part that compares these constructs with the reference model."""
    from .checks.c02 import compare
    from .engine import Part

    def enum(tier):
        if tier == 'quick':
            return Cases(templates, tier, 10000, step)
        return Cases(templates, tier, 100000, 1)

    def check(text, st):
        compare(text, st, smart)
        st.nt()

    return Part('sizes', None, check, 1, 1,
                '%d constructs with one length in it: all to 131 and those '
                'about the powers of two and ten (quick: one in %d of them, '
                'to 10000; thorough: to 100000), against the reference '
                'model; non-trivial: all' % (len(templates), step),
                cpu=120, enum=enum, deep=True, text_shrink=True)


def those(templates, *pieces):
    """The templates with any of these pieces in them."""
    return [t for t in templates
            if any(p in text(t, 3) for p in pieces)]
