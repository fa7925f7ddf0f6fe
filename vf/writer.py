"""Random documents together with the tree they must parse to.

A tree is generated from the grammar of what CommonMark can express, and
written as Markdown at the same time, with a random choice among the spellings
of each construct.  Nothing here parses Markdown: the expected tree is known by
construction.
"""
from . import refmodel
from .checks.c06 import encode, literal

WORDS = ['a', 'b', 'foo', 'x', 'Q', '1', '12', 'hello', 'é', 'straße', '日本',
         'Ω', '\U0001f600', 'the quick', 'a1', 'z 9', 'mn']
MID = list(",.:;=~|+#>$%^?{}'/-_@") + ["...", '--', '" ', "' "]
DESTS = ['/u', 'http://x.y/z?a=b&c=d', '/u(v)', 'a%20b', '#f', 'x_y', '/a/b.c',
         '//h', 'mailto:a@b', '?q', 'a-b', '/%C3%A4', '+', '=', "it's"]
SCHEMES = ['http', 'a+b', 'X-y.z', 'mailto', 'ab', 'javascript']
HTML6 = [['<div>', 'x *y*', '</div>'], ['</p>'], ['<table class="a">', '<tr>'],
         ['<h1', '# b'], ['<li>&amp;']]
HTML1 = [['<pre>', '', 'a', '', '  b</pre> c'], ['<!-- a', '', '- b', '-->'],
         ['<?x', '', '?> y'], ['<!A', '', 'b>'], ['<script>x</script>'],
         ['<![CDATA[', '', '    a', ']]>'], ['<style', '>', '', '</style>']]
RAW = ['<b>', '</b>', '<br />', '<!-- *c* -->', '<?p ?>', '<!D x>',
       '<![CDATA[*]]>', '<a href="*x*">', "<x-y z='[a](b)'>", '<i a=b >']


def many(s, small, big):
    """A count: small, or (in a big document, sometimes) up to big."""
    return s.int(0, big) if getattr(s, 'big', False) and s.chance(30) \
        else small


class Ctx(object):
    """What the inline writer needs to know about where it is."""
    __slots__ = ('depth', 'oneline', 'link', 'delims', 'defs')

    def __init__(self, depth, oneline, link, delims, defs):
        self.depth = depth
        self.oneline = oneline
        self.link = link            # inside a link: no further links
        self.delims = delims        # enclosing emphasis characters
        self.defs = defs

    def sub(self, **kw):
        c = Ctx(self.depth - 1, self.oneline, self.link, self.delims,
                self.defs)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Defs(object):
    """The reference definitions needed so far."""

    def __init__(self):
        self.map = {}
        self.n = 0

    def add(self, label, dest, title):
        """Try to define a label; True when it now means that."""
        k = refmodel.norm_label('[' + label + ']')
        if k in self.map:
            return self.map[k][:2] == (dest, title)
        self.map[k] = (dest, title, label)
        return True


# ------------------------------------------------------------------ inline

def text(s, first=False, last=False):
    """(source, value): arbitrary text; first/last: starts/ends raw with a
    letter or digit."""
    src, val = [], []

    def raw(w):
        src.append(w)
        val.append(w)
    if first:
        raw(s.pick(WORDS))
    for _ in range(s.small(3)):
        k = s.below(6)
        if k < 2 and src:
            w = s.pick(WORDS)
            if src[-1][-1:].isalnum():
                raw(s.pick(MID + [' ']))
            raw(w)
        elif k == 2 and src and src[-1][-1:].isalnum():
            raw(' ' + s.pick(WORDS))
        else:
            w = literal(s)
            src.append(encode(s, w, 'text'))
            val.append(w)
    if last and not (src and src[-1][-1:].isalnum() and len(src) == 1):
        raw(s.pick(WORDS))
    if not src:
        if s.chance(40):
            w = literal(s)
            return encode(s, w, 'text'), w
        raw(s.pick(WORDS))
    return ''.join(src), ''.join(val)


def seq(s, c, word=False, top=False):
    """A sequence of inlines: (source, list of nodes).  word: it must start
    and end with a letter or digit.  top: it is all of a block's text."""
    m = s.small(3) if c.depth > 0 else 0
    if top and s.chance(70):
        m = many(s, s.int(1, 4), 30)
    have = [True] * (m + 1)
    if m and not word:
        have[0] = s.chance(65)
        have[m] = s.chance(65)
    lead = [i > 0 and s.chance(50) for i in range(m + 1)]
    trail = [i < m and s.chance(50) for i in range(m + 1)]
    brk = []
    for i in range(m):
        ok = not c.oneline and have[i] and have[i + 1]
        brk.append(ok and s.chance(22 if m < 8 else 70))
        if brk[i]:
            trail[i] = lead[i + 1] = False
    src, out = [], []

    def put(v):
        if out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + v)
        else:
            out.append(('text', v))
    for i in range(m + 1):
        if have[i]:
            t, v = text(s, first=(word and i == 0) or (i > 0 and brk[i - 1]),
                        last=word and i == m)
            t = (' ' if lead[i] else '') + t + (' ' if trail[i] else '')
            v = (' ' if lead[i] else '') + v + (' ' if trail[i] else '')
            src.append(t)
            put(v)
        if i == m:
            break
        if brk[i]:
            k = s.below(5)
            src.append(['\n', ' \n', '  \n', '\\\n', '     \n'][k])
            out.append(('softbreak',) if k < 2 else ('linebreak',))
            continue
        spaced = (not have[i] or trail[i]) and (not have[i + 1] or
                                                lead[i + 1])
        t, nodes = elem(s, c, spaced, have[i])
        src.append(t)
        for n in nodes:
            if n[0] == 'text':
                put(n[1])
            else:
                out.append(n)
    return ''.join(src), out


def elem(s, c, spaced, before):
    """One inline that is not text: (source, nodes)."""
    while True:
        k = s.below(100)
        if k < 15:
            return code(s, c)
        if k < 45:
            if not spaced and '*' in c.delims:
                continue
            return emphasis(s, c, spaced)
        if k < 65:
            if c.link:
                continue
            return link(s, c, False)
        if k < 80:
            return link(s, c, True)
        if k < 90:
            if c.link:
                continue
            return autolink(s)
        if k < 96 and before:
            t = s.pick(RAW)
            return t, [('html_inline', t)]


def longest(w, ch):
    best = cur = 0
    for x in w:
        cur = cur + 1 if x == ch else 0
        best = max(best, cur)
    return best


def code(s, c):
    v = ''.join(s.pick(['a', 'b', ' ', '`', '``', '*', '\\', '<b>', '&amp;',
                        '[', ']', '(x)', '  ', 'é', '_', '\\`', 'cd'])
                for _ in range(many(s, s.int(1, 5), 60) or 1))
    runs = set()
    cur = 0
    for x in v + ' ':
        if x == '`':
            cur += 1
        else:
            runs.add(cur)
            cur = 0
    n = s.pick([x for x in range(1, 8) if x not in runs][:3])
    blank = not v.strip(' ')
    t = v
    if not blank and (v[0] == '`' or v[-1] == '`' or
                      (v[0] == ' ' and v[-1] == ' ') or s.chance(25)):
        t = ' ' + v + ' '
    if n < 3 and not c.oneline:
        # a single space between letters may be a line ending
        for i in range(1, len(t) - 1):
            if t[i] == ' ' and t[i - 1].isalpha() and t[i + 1].isalpha() \
                    and s.chance(50):
                t = t[:i] + '\n' + t[i + 1:]
    return '`' * n + t + '`' * n, [('code', v)]


def emphasis(s, c, spaced):
    ch = s.pick('*_') if spaced else '*'
    oc = '_' if ch == '*' else '*'
    inner = c.sub(delims=c.delims + ch)
    k = s.below(100) if spaced else 0
    if k < 60 or c.depth <= 1:
        t, kids = seq(s, inner, word=True)
        n = s.int(1, 2)
        return ch * n + t + ch * n, [(('emph', 'strong')[n - 1],
                                      tuple(kids))]
    if k < 68:
        # the content is a single construct with punctuation at its edges
        t, kids = code(s, c) if s.chance(50) or c.link else \
            link(s, inner.sub(delims=''), s.chance(40))
        n = s.int(1, 2)
        return ch * n + t + ch * n, [(('emph', 'strong')[n - 1],
                                      tuple(kids))]
    w, v = text(s, True, True)
    x = ('text', v)
    if k < 76:
        n, m = s.int(1, 2), s.int(1, 2)
        t = ch * n + oc * m + w + oc * m + ch * n
        return t, [(('emph', 'strong')[n - 1],
                    ((('emph', 'strong')[m - 1], (x,)),))]
    if k < 82:
        n = s.int(3, 6)
        node = x
        for _ in range(n // 2):
            node = ('strong', (node,))
        if n % 2:
            node = ('emph', (node,))
        return ch * n + w + ch * n, [node]
    w2, v2 = text(s, True, True)
    n = s.int(1, 2)                 # the inner one
    a, b = ('emph', 'strong') if n == 1 else ('strong', 'emph')
    if s.chance(50):
        t = ch * 3 + w + ch * n + ' ' + w2 + ch * (3 - n)
        return t, [(b, ((a, (x,)), ('text', ' ' + v2)))]
    t = ch * (3 - n) + w2 + ' ' + ch * n + w + ch * 3
    return t, [(b, (('text', v2 + ' '), (a, (x,))))]


def dest(s, nl=False):
    """(source, destination) of a link."""
    k = s.below(10)
    if k < 5:
        d = s.pick(DESTS)
        return d, refmodel.norm_url(d)
    w = literal(s)
    if k < 8 and w:
        return encode(s, w, 'bare'), refmodel.norm_url(w)
    if k == 8:
        return '<>', ''
    return '<' + encode(s, w, 'text') + '>', refmodel.norm_url(w)


def title(s):
    k = s.below(6)
    if k < 3:
        w = s.pick(['t', 'a b', "it's", 'é (x)', '日本 *x* _y_ `z` [a] <b>'])
        if k == 2:
            w = literal(s)
        q = s.below(3)
        if k == 2:
            e = encode(s, w, 'text')
        elif q == 1:
            e = w.replace("'", "\\'")
        elif q == 2:
            e = w.replace('(', '\\(').replace(')', '\\)')
        else:
            e = w
        return ('""', "''", '()')[q][0] + e + ('""', "''", '()')[q][1], w
    return None, ''


def link(s, c, image):
    t, kids = seq(s, c.sub(link=c.link if image else True, delims=''))
    bang, name = ('!', 'image') if image else ('', 'link')
    ds, d = dest(s)
    ts, ti = title(s)
    node = [(name, d, ti, tuple(kids))]
    k = s.below(10)
    bare = ''
    i = 0
    while i < len(t):
        if t[i] == '\\':
            i += 2
            continue
        bare += t[i]
        i += 1
    labelable = '[' not in bare and ']' not in bare and t.strip() and \
        len(t) < 900
    if k in (5, 6) and labelable and c.defs.add(t, (ds, d), (ts, ti)):
        return bang + '[' + t + ']' + ('[]' if k == 5 else ''), node
    if k > 6:
        c.defs.n += 1
        lab = s.pick(['Ref %d', 'x\\]%d', 'é*%d', 'ß %d', '%d']) % c.defs.n
        if c.defs.add(lab, (ds, d), (ts, ti)):
            use = lab
            if s.chance(30):
                use = lab.upper() if s.chance(50) else lab.lower()
            if s.chance(30):
                use = '  ' + use.replace(' ', '  ') + ' '
            if not c.oneline and s.chance(30):
                use = use.replace('f ', 'f\n')
            return bang + '[' + t + '][' + use + ']', node
    ws = ['', ' ', '  ']
    out = '(' + s.pick(ws)
    if ts is None and d == '' and s.chance(50):
        return bang + '[' + t + '](' + s.pick(ws) + ')', node
    out += ds
    if ts is not None:
        out += s.pick([' ', '  '] + ([] if c.oneline else ['\n', '\n  ']))
        out += ts
    return bang + '[' + t + ']' + out + s.pick(ws) + ')', node


def autolink(s):
    if s.chance(30):
        a = s.pick(['foo@bar.baz', 'a.b-c@d-e.f', "x!#$%&'*+/=?^_`{|}~-@y",
                    '1@2'])
        return '<' + a + '>', [('link', refmodel.norm_url('mailto:' + a), '',
                                (('text', a),))]
    a = s.pick(SCHEMES) + ':' + ''.join(
        s.pick(['a', '/', '*', '_', '&amp;', '\\', '[', ']', '(', '?q=', 'é',
                '`', '"', '%20', '@', '//', '!'])
        for _ in range(s.small(6)))
    return '<' + a + '>', [('link', refmodel.norm_url(a), '',
                            (('text', a),))]


# ------------------------------------------------------------------ blocks

class B(object):
    """A written block: lines [(text, may drop container prefixes)]."""

    def __init__(self, kind, lines, snap, para_end=False, interrupts=False,
                 ch=None, blank_after=False):
        self.kind = kind
        self.lines = lines
        self.snap = snap
        self.para_end = para_end        # ends in an open paragraph
        self.interrupts = interrupts    # can follow a paragraph directly
        self.ch = ch
        self.blank_after = blank_after


def joinable(a, b):
    """b may follow a without a blank line."""
    if a.blank_after:
        return False
    if a.kind == 'def':
        return b.kind in ('paragraph', 'atx', 'fence', 'def')
    if a.kind == 'quote' and b.kind == 'quote':
        return False
    if b.kind == 'def':
        return not a.para_end
    if a.para_end:
        if not b.interrupts:
            return False
        if b.kind == 'hr' and b.ch == '-' and a.kind == 'paragraph':
            return False
    return True


def block(s, depth, defs, prev, first, chars=''):
    """One block that may stand after prev (None: at the start).  first: on
    the line of an item's marker; chars: the markers on that line."""
    after_list = prev is not None and prev.kind == 'list'
    ind = 0 if first or after_list else (s.int(0, 3) if s.chance(25) else 0)
    pad = ' ' * ind
    while True:
        k = s.below(100)
        if k < 34:
            return paragraph(s, pad, defs)
        if k < 44:
            return atx(s, pad, defs)
        if k < 50:
            return setext(s, pad, defs)
        if k < 56:
            return hr(s, pad, chars if first else '')
        if k < 62:
            if after_list or prev is not None and prev.kind == 'indented':
                continue
            return indented(s, first)
        if k < 70:
            return fence(s, pad)
        if k < 74:
            h = s.pick(HTML6 if s.chance(50) else HTML1)
            t6 = h in HTML6
            return B('html', [((pad if i == 0 else '') + x, False)
                              for i, x in enumerate(h)],
                     ('html_block', pad + '\n'.join(h)), False, True,
                     blank_after=t6)
        if depth <= 0:
            continue
        if k < 84:
            return quote(s, pad, depth, defs)
        return items(s, ind, depth, defs, prev, first, chars)


def paragraph(s, pad, defs):
    t, kids = seq(s, Ctx(3, False, False, '', defs), top=True)
    ls = t.split('\n')
    out = [(pad + ls[0], False)]
    for x in ls[1:]:
        out.append((' ' * (s.int(0, 8) if s.chance(30) else 0) + x, True))
    if s.chance(10):
        out[-1] = (out[-1][0] + ' ' * s.int(1, 4), out[-1][1])
    return B('paragraph', out, ('paragraph', tuple(kids)), True)


def atx(s, pad, defs):
    n = s.int(1, 6)
    if s.chance(8):
        return B('atx', [(pad + '#' * n + s.pick(['', ' ', '  ##', ' #']),
                          False)], ('heading', n, ()), False, True)
    t, kids = seq(s, Ctx(3, True, False, '', defs), top=True)
    end = s.pick(['', '', '  ', ' #', ' ######## ', '  ##'])
    return B('atx', [(pad + '#' * n + s.pick([' ', ' ', '   ']) + t + end,
                      False)], ('heading', n, tuple(kids)), False, True)


def setext(s, pad, defs):
    t, kids = seq(s, Ctx(3, False, False, '', defs), top=True)
    n = s.int(1, 2)
    ls = t.split('\n')
    out = [(pad + ls[0], False)]
    for x in ls[1:]:
        out.append((' ' * (s.int(0, 6) if s.chance(20) else 0) + x, False))
    out.append((' ' * s.pick([0, 0, 0, 1, 3]) + ' =-'[n] * (1 + many(s, s.below(7), 90)) +
                s.pick(['', '', '  ']), False))
    return B('setext', out, ('heading', n, tuple(kids)))


def hr(s, pad, chars):
    ch = s.pick([x for x in '*-_' if x not in chars])
    sep = s.pick(['', '', ' ', '  '])
    return B('hr', [(pad + sep.join([ch] * s.int(3, 7)) +
                     s.pick(['', '', ' ']), False)], ('thematic_break',),
             False, True, ch)


CODE = ['x', '- a', '# b', '> c', '', '  y', '    z', '&amp;', '\\*', '<b>',
        '`', '```', '~~~', '~~~~', '[a]: /u', '1. q', '***', 'é', '=====',
        ' `````', '<div>', '-->', '   ', 'a  ']


def indented(s, first):
    ls = [s.pick(CODE) for _ in range(many(s, s.int(1, 4), 30))]
    while ls and not ls[0].strip():
        ls.pop(0)
    while ls and not ls[-1].strip():
        ls.pop()
    if first and ls and ls[0].strip() == '***':
        ls[0] = 'x'         # with the markers before it, a break
    ls = ls or ['x']
    # the lines of blanks keep what they have beyond four spaces
    return B('indented', [('    ' + x if x else '', False) for x in ls],
             ('code_block', '', '\n'.join(ls) + '\n'))


def fence(s, pad):
    ch = s.pick('`~')
    ls = [s.pick(CODE) for _ in range(many(s, s.small(5), 30))]
    n = max([3] + [longest(x, ch) + 1 for x in ls]) + \
        many(s, s.small(3) if s.chance(30) else 0, 40)
    info, sp = '', ''
    if s.chance(40):
        w = s.pick(['py', 'c++ x', 'a b', '<x>', 'a&b', 'é'])
        if s.chance(40):
            w = literal(s).strip(' \t\n\r\x0b\x0c') or 'x'
        info, sp = w, s.pick(['', ' ', '  '])
        w = encode(s, w, 'bt' if ch == '`' else 'text')
        sp += w + s.pick(['', '', ' '])
    out = [(pad + ch * n + sp, False)]
    out += [(pad + x if x else '', False) for x in ls]
    out.append((' ' * s.pick([0, 0, 0, 2, 3]) + ch *
                (n + (s.small(2) if s.chance(30) else 0)) +
                s.pick(['', '', ' ']), False))
    return B('fence', out,
             ('code_block', info, ''.join(x + '\n' for x in ls)), False, True)


def children(s, depth, defs, hi, item=False, chars=''):
    """Blocks one after another: (lines, snaps, blank lines between two of
    them, last block, first block)."""
    out, snaps, prev, blanks, head = [], [], None, False, None
    for i in range(1 + many(s, s.small(hi), 12 if depth < 4 else 4)):
        b = block(s, depth, defs, prev, item and i == 0, chars)
        if prev is not None:
            if b.kind == 'list' and prev.kind == 'list' and \
                    b.ch == prev.ch:
                continue
            if not joinable(prev, b) or s.chance(55):
                blanks = True
                for _ in range(1 + s.small(2)):
                    out.append(('', False))
        out += b.lines
        snaps.append(b.snap)
        prev = b
        head = head or b
    return out, snaps, blanks, prev, head


def quote(s, pad, depth, defs):
    ls, snaps, _, last, _ = children(s, depth - 1, defs, 3)
    style = s.below(3)
    out = []
    for i, (x, lazy) in enumerate(ls):
        if lazy and s.chance(25):
            out.append((x, True))
        elif not x:
            out.append((pad + '>' + (' ' if style == 1 else ''), False))
        elif style == 2 and x[0] not in ' \t':
            out.append((pad + '>' + x, False))
        else:
            out.append((pad + '> ' + x, False))
    return B('quote', out, ('block_quote', tuple(snaps)), last.para_end,
             True)


def items(s, ind, depth, defs, prev, first, chars):
    used = prev.ch if prev is not None and prev.kind == 'list' else ''
    bullets = [x for x in '-+*' if x != used and x not in chars]
    ordered = not bullets or s.chance(45)
    if ordered:
        ch = s.pick([x for x in '.)' if x != used])
        start = s.pick([1, 1, 1, 0, 2, 7, 10, 123456789, 999999999])
    else:
        ch = s.pick(bullets)
    out, snaps = [], []
    loose = False
    last = None
    inter = True
    limit = None
    for i in range(1 + many(s, s.small(3), 14)):
        if ordered:
            num = start if i == 0 else s.pick([start + i if start < 99999999
                                               else 5, 1, 0, 42])
            mark = ('0' * s.below(3) if s.chance(10) and num < 1000
                    else '') + str(num) + ch
        else:
            mark = ch
        if i:
            ind = s.below(min(3, limit - 1) + 1) if s.chance(25) else \
                min(ind, limit - 1)
            if s.chance(35):
                loose = True
                for _ in range(1 + s.small(2)):
                    out.append(('', False))
        empty = s.chance(6)
        if empty:
            out.append((' ' * ind + mark + s.pick(['', '', ' ', '   ']),
                        False))
            snaps.append(('item', ()))
            limit = ind + len(mark) + 1
            last = False
            if i == 0:
                inter = False
            continue
        down = s.chance(7)
        here = (chars if first and i == 0 else '') + ch
        ls, sub, blanks, lb, hb = children(
            s, depth - 1, defs, 3, not down, here)
        if blanks:
            loose = True
        last = lb.para_end
        if down:
            out.append((' ' * ind + mark + s.pick(['', ' ', '   ']), False))
            gap = 1
            if i == 0:
                inter = False
        else:
            gap = 1 if hb.kind == 'indented' or s.chance(60) else s.int(1, 4)
        w = ind + len(mark) + gap
        limit = w
        for j, (x, lazy) in enumerate(ls):
            if j == 0 and not down:
                out.append((' ' * ind + mark + ' ' * gap + x, False))
            elif lazy and s.chance(25):
                out.append((x, True))
            else:
                out.append((' ' * w + x if x else
                            s.pick(['', '', ' ' * s.int(0, w)]), lazy))
        snaps.append(('item', tuple(sub)))
    if ordered and start != 1:
        inter = False
    return B('list', out, (
        'list', 'ordered' if ordered else 'bullet',
        start if ordered else None, ch if ordered else None,
        None if ordered else ch, 'loose' if loose else 'tight',
        tuple(snaps)), bool(last), inter, ch)


def definition(s, key, defs):
    (ds, d), (ts, ti), label = defs.map[key]
    t = '[' + s.pick([label, label, ' ' + label + '  ']) + ']:' + \
        s.pick(['', ' ', '  '] + (['\n'] if ds in DESTS[:7] else [])) + ds
    if ts is not None:
        t += s.pick([' ', '  ', '\n', '\n   ']) + ts
    t += s.pick(['', '', ' '])
    return B('def', [(x, False) for x in t.split('\n')], None)


def document(s, depth=4, hi=4):
    """(text, snapshot of the tree)."""
    defs = Defs()
    top = []
    prev = None
    for _ in range(many(s, s.small(hi), 16) + 1):
        b = block(s, depth, defs, prev, False)
        if prev is not None and b.kind == prev.kind == 'list' and \
                b.ch == prev.ch:
            continue
        top.append(b)
        prev = b
    snaps = [b.snap for b in top]
    for key in list(defs.map):
        i = s.below(len(top) + 1)
        top.insert(i, definition(s, key, defs))
    out = []
    for _ in range(s.small(2)):
        out.append('')
    prev = None
    for b in top:
        if prev is not None and (not joinable(prev, b) or s.chance(60)):
            for _ in range(1 + s.small(2)):
                out.append(s.pick(['', '', '', '  ']))
        out += [x for x, _ in b.lines]
        prev = b
    if prev.kind == 'fence' and len(prev.lines) > 2 and s.chance(30) and \
            prev.lines[-2][0].strip():
        out.pop()               # a fence need not be closed
    else:
        for _ in range(s.small(2)):
            out.append('')
    nl = s.weighted([(8, '\n'), (1, '\r\n'), (1, '\r')])
    t = nl.join(out)
    if s.chance(85):
        t += nl
    return t, ('document', tuple(snaps))


def to_tuple(x):
    return tuple(to_tuple(y) for y in x) if isinstance(x, (list, tuple)) \
        else x
