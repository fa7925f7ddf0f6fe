"""C26 raw HTML and autolinks."""
import string

from .. import gens, refmodel, sizes
from ..engine import Part, Prop, Skip, Violation
from ..sutlib import expect_eq, html_of, kids, parse, short, walk
from .c02 import compare, kinds

LET = 'abzAZqX'
NAMEC = LET + '019-'
ATT1 = 'abZ_:'
ATTC = 'abZ019_.:-'
# what may stand in attribute values and text: markup that must stay inert
INERT = ['x', '*y*', '_z_', '&amp;', '&', '[l](/u)', '![i](u)', '**', 'é', '#',
         '\\', '\\*', '~', '|', '$', '{', '日本', ';', ',', '--x', '?x',
         '!', '(', ')', 'a.b', '%20', '\u2003', '@', '&copy;', '&#35;', '+']
BLOCK6 = ('address article aside base basefont blockquote body caption center '
          'col colgroup dd details dialog dir div dl dt fieldset figcaption '
          'figure footer form frame frameset h1 h2 h3 h4 h5 h6 head header hr '
          'html iframe legend li link main menu menuitem nav noframes ol '
          'optgroup option p param section source summary table tbody td '
          'tfoot th thead title tr track ul').split()


def ws(s, least=0, nl=True):
    t = ''.join(s.pick([' ', ' ', '\t', ' ']) for _ in range(s.small(2)))
    if nl and s.chance(12):
        t = t + '\n'
    if len(t) < least:
        t = s.pick([' ', ' ', '\t'])
    return t


def inert(s, bad='', n=3, nl=True):
    t = ''.join(s.pick(INERT) for _ in range(s.small(n) + s.below(2)))
    if s.chance(1) and t:
        t = t * s.pick([20, 70, 130, 300, 600])
    if nl and s.chance(8):
        t += '\nq' + s.pick(INERT)
    return ''.join(c for c in t if c not in bad)


def attribute(s, nl=True):
    t = s.pick(ATT1) + s.text(ATTC, 0, 4)
    k = s.below(4)
    if k == 0:
        return t
    t += ws(s, 0, nl) + '=' + ws(s, 0, nl)
    if k == 1:
        v = inert(s, ' \t\n"\'=<>`\u2003', nl=False)
        return t + (v or 'v')
    q = '"' if k == 2 else "'"
    v = inert(s, q, nl=nl) + s.pick(['', '', '>', '<b>', '/', '=', '`',
                                     "'" if k == 2 else '"', ' '])
    return t + q + v + q


def open_tag(s, name=None, nl=True):
    t = '<' + (name or s.pick(LET) + s.text(
        NAMEC, 0, 200 if s.chance(1) else 6))
    for _ in range(s.int(4, 80) if s.chance(3) else s.small(3)):
        t += ws(s, 1, nl) + attribute(s, nl)
    t += ws(s, 0, nl)
    return t + s.pick(['', '', '/']) + '>'


def close_tag(s, nl=True):
    return '</' + s.pick(LET) + s.text(NAMEC, 0, 6) + ws(s, 0, nl) + '>'


def comment(s):
    t = inert(s, '', 4) + s.pick(['', '-x', ' - ', '<b>', '>x', '"', "'"])
    while '--' in t:
        t = t.replace('--', '-')
    if t.startswith('>') or t.startswith('->') or t.endswith('-'):
        t = 'c' + t + 'c'
    return '<!--' + t + '-->'


def pi(s):
    return '<?' + inert(s, '?', 4) + s.pick(['', ' > ', '"?x', '<b>']) + '?>'


def decl(s):
    return '<!' + s.text('ABQZ', 1, 8) + ' ' + inert(s, '>', 4) + '>'


def cdata(s):
    t = inert(s, '', 4) + s.pick(['', ' > ', ']]x', ']', '<b>', '"'])
    return '<![CDATA[' + t.replace(']]>', '') + ']]>'


def tag(s):
    return s.pick([open_tag, open_tag, open_tag, close_tag, comment, pi, decl,
                   cdata])(s)


def fits(t):
    """Can the text stand in a paragraph without starting a block?"""
    L = t.split('\n')
    return all(x.strip(' \t') and x[0] not in ' \t' and
               (i == 0 or x[0] in string.ascii_letters + '"\'/')
               for i, x in enumerate(L))


def gen_tag(s):
    return [s.pick(['a', 'a ', 'é', '*', 'a*', 'a[', 'x\n', '(']), tag(s),
            s.pick(['b', ' b', '', '*', ']', ')', '\ny']),
            s.pick(['', '# ', '- ', '> '])]


def check_tag(case, st):
    pre, t, post, cont = case
    if cont and '\n' in pre + t + post:
        cont = ''
    src = pre + t + post
    if not fits(('a' + t + 'a') if pre != 'x\n' else t + 'a'):
        raise Skip('a line of the tag would start a block')
    if cont == '' and src.endswith('\n'):
        raise Skip('no')
    if refmodel.scan_autolink(t, 0):
        raise Skip('also an autolink')
    if pre == 'x\n' and t.startswith(('<!', '<?')):
        raise Skip('starts an HTML block')
    if pre == 'x\n' and refmodel.parse(src + '\n')[0].kids[0].t != \
            'paragraph' or len(refmodel.parse(src + '\n')[0].kids) != 1:
        raise Skip('starts an HTML block')
    root = parse(cont + src + '\n')
    raw = [n.literal for n in walk(root) if n.t == 'html_inline']
    if raw != [t]:
        raise Violation('%r: raw HTML %s, expected %s' % (src, short(raw),
                                                          short([t])))
    if any(n.t in ('link', 'image', 'code', 'html_block') for n in
           walk(root)):
        raise Violation('%r: something in it is interpreted' % src)
    html = html_of(root)
    if t not in html:
        raise Violation('%r does not come out verbatim: %s' % (t,
                                                               short(html)))
    st.label(kind(t))
    st.nt(len(t) > 4)


def kind(t):
    return 'comment' if t.startswith('<!--') else 'cdata' if t.startswith(
        '<![') else 'declaration' if t.startswith('<!') else \
        'instruction' if t.startswith('<?') else \
        'closing tag' if t.startswith('</') else 'open tag'


MISS = list('<>/="\'-!? \t\n[]a1:`') + ['--', '/>', '->', ']]>', '?>', '<!',
                                       '\xa0', 'é', '\x0c', '\u0130',
                                       '\u017f', 'K']


def gen_miss(s):
    t = s.pick([tag, tag, tag, autolink, email, autolink])(s)
    for _ in range(1 + s.small(2)):
        i = s.below(len(t) + 1)
        k = s.below(4)
        if k == 0:
            t = t[:i] + t[i + 1:]
        elif k == 1:
            t = t[:i] + s.pick(MISS) + t[i:]
        elif k == 2:
            t = t[:i] + s.pick(MISS) + t[i + 1:]
        else:
            t = t[:i] + t[i:i + 1].swapcase() + t[i + 1:]
    return s.pick(['a ', 'a ', '', '- ', '*a ']) + t + \
        s.pick([' b', '', ' <c>', ' >', '*', ' `']) + '\n'


def check_miss(text, st):
    k = kinds(compare(text, st))
    if 'html_inline' in k or 'link' in k or 'html_block' in k:
        st.label('recognised')
    else:
        st.label('literal')
    st.nt()


# --------------------------------------------------------------- autolinks

def autolink(s):
    sch = s.pick(string.ascii_letters) + s.text(
        string.ascii_letters + '019+.-', 1,
        s.pick([3, 3, 8, 31]))
    sch = sch[:32]
    rest = ''.join(s.pick(INERT + ['/', '//', ':', '?', '=', '"', "'", '`',
                                   '[', ']', '*', '^'])
                   for _ in range(s.small(6))).replace('\u2003', '')
    if s.chance(3):
        rest = rest * s.pick([20, 70, 130, 300, 600])
    return '<' + sch + ':' + rest + '>'


def email(s):
    loc = s.text("abZ019.!#$%&'*+/=?^_`{|}~-", 1,
                 200 if s.chance(3) else 8)

    def lab():
        n = s.pick([1, 2, 3, 5, 62, 63])
        if n == 1:
            return s.pick('abZ09')
        return s.pick('abZ09') + s.text('abZ09-', n - 2, n - 2) + \
            s.pick('abZ09')
    return '<' + loc + '@' + '.'.join(lab() for _ in range(
        s.int(4, 40) if s.chance(3) else 1 + s.small(3))) + '>'


def gen_auto(s):
    return [s.pick(['a', 'a ', '*', 'a[', '(', '![']),
            s.pick([autolink, email])(s),
            s.pick(['b', ' b', '', '*', ']', '](', '*x'])]


def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')


def check_auto(case, st):
    pre, a, post = case
    root = parse(pre + a + post + '\n')
    links = [n for n in walk(root) if n.t in ('link', 'image')]
    if len(links) != 1 or links[0].t != 'link':
        raise Violation('%r: %d links' % (pre + a + post, len(links)))
    n = links[0]
    text = a[1:-1]
    got = [k.literal if k.t == 'text' else k.t for k in kids(n)]
    if ''.join(got) != text:
        raise Violation('link text %r, expected %r' % (got, text))
    is_mail = ':' not in text
    want = ('mailto:' if is_mail else '') + text
    if n.destination != refmodel.norm_url(want):
        raise Violation('destination %r, expected %r' % (
            n.destination, refmodel.norm_url(want)))
    if n.title:
        raise Violation('title %r' % n.title)
    piece = '<a href="%s">%s</a>' % (esc(refmodel.norm_url(want)), esc(text))
    if piece not in html_of(root):
        raise Violation('%s is not in the HTML %s' % (piece, short(
            html_of(root))))
    st.label('e-mail' if is_mail else 'URI')
    st.nt(len(a) > 5)


# -------------------------------------------------------------- HTML blocks

CONTENT = ['x', '*y*', '    z', '- l', '# h', '```', '> q', '&amp;', '</b>',
           '[r]: /u', '***', '<i', '\tt', '\\', '<!', '  two', '===']


def case_mix(s, t):
    return ''.join(c.upper() if s.chance(25) else c for c in t)


def gen_block(s):
    """[text, literal, rest paragraph or None, container]"""
    kind = s.int(1, 7)
    cont = s.pick(['', '', '', '> ', '- ', '1. ', '> - '])
    ind = '' if cont.strip(' >') else ' ' * s.pick([0, 0, 0, 1, 2, 3])
    body = [s.pick(CONTENT) for _ in range(
        s.pick([20, 70, 130, 300]) if s.chance(2) else s.small(4))]
    if kind <= 5:
        for i in range(len(body)):
            if s.chance(30):
                body[i] = ''
        if kind == 1:
            name = case_mix(s, s.pick(['script', 'pre', 'style']))
            start = '<' + name + s.pick(['', '>', ' a="b"', '>x', '\ty>'])
            end = s.pick(['', 'x ', '*']) + case_mix(
                s, s.pick(['</script>', '</pre>', '</style>'])) + \
                s.pick(['', ' *x*', ' <b>'])
        else:
            start = ['<!--', '<?', '<!' + s.pick('AXZ'), '<![CDATA['][
                kind - 2] + s.pick(['', ' x', 'php *a*', ' "'])
            end = s.pick(['', 'x ', '<b ' if kind != 4 else 'b']) + [
                '-->', '?>', '>', ']]>'][kind - 2] + s.pick(['', ' *x*', 'y'])
            if kind == 4:
                body = [x.replace('>', '') for x in body]
        if s.chance(15) and not (kind == 2 and start == '<!--'):
            lines = [ind + start + ' ' + end]        # all on one line
            if kind == 2:
                lines = [ind + '<!--' + ' ' + end]
        else:
            lines = [ind + start] + body + [end]
        rest = s.chance(70)
        text = lines + (['w *e*'] if rest else [])
    else:
        body = [x for x in body]
        if kind == 6:
            name = case_mix(s, s.pick(BLOCK6))
            start = s.pick(['<', '</']) + name + s.pick(
                ['', '>', '/>', ' a="b"', '>*x*', '\tb', ' ', '/>y'])
        else:
            t = close_tag(s, False) if s.chance(30) else open_tag(s, None,
                                                                  False)
            low = t[1:].lstrip('/').lower()
            if low.startswith(('script', 'style', 'pre')):
                t = '<x-y>'
            start = t + s.pick(['', ' ', '\t'])
        lines = [ind + start] + body
        rest = s.chance(70)
        text = lines + ([''] + ['w *e*'] if rest else [])
    before = s.pick([[], [], ['para'], ['para', ''], ['# h']])
    if kind == 7 and before == ['para']:
        before = ['para', '']
    return [before, text, '\n'.join(lines), rest, cont, kind]


def prefix(cont, lines):
    if not cont:
        return lines
    out = []
    for i, x in enumerate(lines):
        p = cont if i == 0 else ''.join('>' if c == '>' else ' '
                                        for c in cont)
        out.append((p + x) if x or i == 0 or '>' in cont else '')
    return out


def check_block(case, st):
    before, text, literal, rest, cont, kind_ = case
    if kind_ >= 6 and any('' == x for x in literal.split('\n')):
        raise Skip('blank')
    if cont.strip(' >') and any('\t' in x for x in text[1:]):
        # the tab after the item's indentation is a different width
        raise Skip('tab')
    if '' in literal.split('\n')[-1:]:
        raise Skip('blank end')
    src = '\n'.join(before + [''] * (cont != '' and bool(before)) +
                    prefix(cont, text)) + '\n'
    root = parse(src)
    blocks = [n for n in walk(root) if n.t == 'html_block']
    if not blocks:
        raise Violation('%r: no HTML block' % src)
    if blocks[0].literal != literal:
        raise Violation('%r: HTML block %r, expected %r' % (
            src, blocks[0].literal, literal))
    if len(blocks) != 1:
        raise Violation('%r: %d HTML blocks' % (src, len(blocks)))
    em = [n for n in walk(root) if n.t == 'emph']
    if len(em) != (1 if rest else 0):
        raise Violation('%r: %d emphases, expected %d' % (src, len(em),
                                                          int(rest)))
    html = html_of(root)
    if literal not in html:
        raise Violation('%r does not come out verbatim: %s' % (
            literal, short(html)))
    st.label('type %d' % kind_)
    if cont:
        st.label('in ' + cont)
    st.nt(len(text) > 1)


NEARB = ['<', '</', '<!', '<?', '<!-', '<![CDATA', '<!--', ' <', '    <',
         '<%s', '</%s', '<%s>', '<%s/>', '<%s/', '<%s x', '<%sx', '<%s-y',
         '<%s\xa0', '<%s\t', '<%s"', '<%s:', '<%s;>', '< %s>', '<%s>x',
         '</%s>', '</%s x>', '<%s\x0c>', '</%s/>', '<%s a=>', "<%s a='>",
         '<%s a="b">', '<%s a="b"c>', '<%s a b/>', '<%s /x>', '<%s>  ',
         '<\u017f%s>', '<%s\u2003>', '<%s a="b"> x', '<!%s', '<?%s', '<!a%s>',
         '<![cdata[%s', '<!A%s']


def gen_near(s):
    name = case_mix(s, s.pick(BLOCK6 + ['script', 'pre', 'style', 'x', 'a',
                                        'ins', 'h7', 'h', 'tab', 'divs',
                                        'search', 'textarea', 'svg']))
    first = s.pick(NEARB)
    first = first.replace('%s', name)
    L = []
    if s.chance(30):
        L.append(s.pick(['p', '> p', '- p', '']))
    L.append(s.pick(['', '', '', '> ', '- ', '   ']) + first)
    for _ in range(s.small(3)):
        L.append(s.pick(['*x*', '', '-->', '?>', ']]>', '>', '</script>',
                         '</PRE> y', '</' + name + '>', 'q', '    c',
                         '</style\t>', '</scr\u0131pt>', '</\u017ftyle>']))
    return '\n'.join(L) + s.pick(['\n', '\n\n*z*\n', ''])


NT = 'more than the shortest form'
PROP = Prop('C26', [
    sizes.part(sizes.those(sizes.BLOCKS + sizes.INLINES, '<'), 2),
    Part('tags', gen_tag, check_tag, 36000, 500000,
         'words of the tag, comment, instruction, declaration and CDATA '
         'grammars with markup inside, inline; non-trivial: ' + NT),
    Part('autolinks', gen_auto, check_auto, 24000, 300000,
         'URI and e-mail autolinks of the grammar; non-trivial: ' + NT),
    Part('near misses', gen_miss, check_miss, 48000, 600000,
         'words of these grammars with one to three edits, against the '
         'reference model; non-trivial: all', text_shrink=True),
    Part('blocks', gen_block, check_block, 30000, 400000,
         'HTML blocks of every type with arbitrary content and end, in '
         'containers; non-trivial: several lines'),
    Part('stretched', gens.stretched(gen_miss, gen_near),
         check_miss, 1500, 50000,
         'like the above, with a character, a piece, some lines or all of it '
         'repeated, up to 5000 characters; non-trivial: '
         'all', text_shrink=True, cpu=60, deep=True),
    Part('block near misses', gen_near, check_miss, 30000, 400000,
         'lines that almost start or end HTML blocks, against the reference '
         'model; non-trivial: all', text_shrink=True),
], assumptions=['the reference model in vf/refmodel.py'])
