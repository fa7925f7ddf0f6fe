"""Contexts in which the code under test matches something of any length,
units to repeat in them, and tails that make the match fail."""

CONTEXTS = [
    '', '<a', '<a ', '<a b', '<a b ', '<a b=', '<a b= ', '<a b="', "<a b='",
    '<a b="c"', '</a', '</a ', '<!', '<!A', '<!A ', '<!--', '<!-- ', '<!---',
    '<?', '<![CDATA[', '<a:', '<a@b', '<a@b.', 'x <a', 'x <a b="c" d',
    '[', '[a', '![', '[a][', '[a](', '[a]( ', '[a](<', '[a](b', '[a](b ',
    '[a](b "', "[a](b '", '[a](b (', '[a](b "c"', '[a]:', '[a]: ', '[a]: b',
    '[a]: b ', '[a]: b "', '[a]: b "c"', '[a]: <', '`', '`a', '``', '&', '&#',
    '&#x', '&a', '*', '*a', '**a', '_a', '# ', '# a', '# a ', '#', '```',
    '``` ', '~~~', '```\n', '```\na\n', '    ', '    a\n', '<div', '<div>\n',
    '<pre>\n', '<x', '<x ', '>', '> ', '- ', '-', '1', '1. ', '---', '- - ',
    '* * ', '===', 'a\n', 'a\n=', 'a\n-', 'a\n- ', '\\', 'a  ', '"', "'",
    'a--', 'a..', '- a\n', '> a\n', '> ```\n', '- ```\n', '<!--\n', 'a\n\n']
UNITS = [
    ' ', '\t', '\n', '  ', ' \n', '\n\n', 'a', 'A', '1', '-', '--', '- ', '=',
    '"', "'", '(', ')', '[', ']', '<', '>', '&', ';', ':', '.', '@', '/', '?',
    '!', '\\', '\\\\', '`', '` ', '*', '* ', '_', '#', ' #', '~', '%', '+',
    'a ', ' a', '" ', 'é', '\x0b', '\x0c', '\xa0', ' b="c"', ' b', "='", 'a.',
    '-a', '\\]', '\\)', '\\"', '&a;', 'a\n', '> ', '>\n', '()', '[]', '<>']
TAILS = ['', '!', '>', '"', ')', ']', '\n', ' x', '`', '\nx', ';', '-->']


class Grid(object):
    """Every context, unit and tail (quick: a part of the tails, in turns)."""

    def __init__(self, tier, share=1):
        self.n = len(CONTEXTS) * len(UNITS) * len(TAILS) // share
        self.step = share

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        i = i * self.step + (i // len(TAILS)) % self.step
        t = i % len(TAILS)
        i //= len(TAILS)
        u = i % len(UNITS)
        c = i // len(UNITS) % len(CONTEXTS)
        return [CONTEXTS[c], UNITS[u], TAILS[t]]


def triple(s):
    return [s.pick(CONTEXTS), s.pick(UNITS), s.pick(TAILS)]
