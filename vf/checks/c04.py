"""C04 the HTML is well-formed and text stays text."""
from .. import gens, htmlread
from ..engine import Part, Prop, Skip, Violation
from ..sutlib import diff, html_of, parse, snap

PAY = ['<', '>', '&', '"', "'", '</p>', '<script>', '" onclick="x', '-->',
       '<!--', '&lt;', '&amp;', '&quot;', '&#60;', '&#x3c;', ']]>', '<b>',
       '</code>', '</a>', '" />', '\\<', '\\"', '&', ';', 'a', ' ', '`', '*',
       '[', ']', '(', ')', '&copy', '&#34;', '&#38;amp;', '<a b="', "='",
       '\\&', '\\>', '</pre>', '%22', '%3C', 'é', '&nbsp;']


def payload(s, hi=6):
    return ''.join(s.pick(PAY) for _ in range(s.int(1, hi)))


def gen_payload(s):
    """Hostile text in every position of a document."""
    p = [payload(s) for _ in range(8)]
    out = []
    for _ in range(s.int(1, 4)):
        k = s.below(14)
        a, b, c = s.pick(p), s.pick(p), s.pick(p)
        if k == 0:
            t = a
        elif k == 1:
            t = '# ' + a
        elif k == 2:
            t = '`` ' + a + ' ``'
        elif k == 3:
            t = '```' + a.replace('`', '') + '\n' + b + '\n```'
        elif k == 4:
            t = '    ' + a
        elif k == 5:
            t = '[' + a + '](<' + b + '> "' + c + '")'
        elif k == 6:
            t = '![' + a + '](' + b.replace(' ', '') + " '" + c + "')"
        elif k == 7:
            t = '[' + a + ']\n\n[' + a + ']: <' + b + '> (' + c + ')'
        elif k == 8:
            t = '<http:' + a.replace(' ', '') + '>'
        elif k == 9:
            t = '> ' + a + '\n> - ' + b
        elif k == 10:
            t = '![*' + a + '* `' + b + '` [' + c + '](/u)](/v)'
        elif k == 11:
            t = a + '\n==='
        elif k == 12:
            t = '~~~ ' + a + ' ' + b + '\n' + c + '\n~~~'
        else:
            t = '*' + a + '* **' + b + '**  \n' + c
        out.append(t)
    return s.pick(['\n\n', '\n']).join(out) + '\n'


def gen_docs(s):
    t = gens.with_defs(s, gens.document(s))
    return gens.exotic(s, t) if s.chance(20) else t


def gen_inline(s):
    return gens.with_defs(s, gens.inline(s)) + '\n'


def gen_nested(s):
    t = gens.nested(s)
    if s.chance(30):
        t = t.replace('x', payload(s, 3))
    return gens.with_defs(s, t) + '\n'


def check(text, st):
    ast = parse(text, smart=text[:1] == 'q')
    tree = snap(ast)
    kinds = htmlread.kinds(tree)
    raw = kinds & {'html_inline', 'html_block'}
    special = any(c in text for c in '<>&"')
    for k in sorted(kinds & {'link', 'image', 'code', 'code_block',
                             'heading', 'list'}):
        st.label(k)
    # safe mode: always well-formed, all text and attributes intact
    toks = htmlread.tokens(html_of(ast, safe=True))
    htmlread.tree(toks)
    want = htmlread.events(tree)
    got = htmlread.token_events(toks)
    got_i = 0
    # safe mode may drop a dangerous destination; nothing else
    for w in want:
        g = got[got_i] if got_i < len(got) else None
        if w[0] in ('href', 'src') and looks_dangerous(w[1]) and \
                g in (('href', None), ('src', '')) and g[0] == w[0]:
            got_i += 1
            continue
        if g is not None and w[0] == g[0] == 'alt':
            g, w = (g[0], g[1].replace('\n', '')), \
                (w[0], w[1].replace('\n', ''))
        if g != w:
            raise Violation('content %r came out as %r' % (w, g))
        got_i += 1
    if got_i != len(got):
        raise Violation('extra content %r' % (got[got_i],))
    if raw:
        st.label('raw HTML (safe mode only)')
        st.nt(special)
        return
    html = html_of(ast)
    back = htmlread.read(html)
    try:
        norm = htmlread.norm(tree)
    except Skip:
        htmlread.tree(htmlread.tokens(html))
        st.label('line feed in a text node')
        return
    if back != norm:
        raise Violation('read back: %s' % diff(back, norm))
    st.nt(special)


def looks_dangerous(url):
    u = url.lower()
    return any(p in u for p in ('javascript:', 'vbscript:', 'file:', 'data:'))


NT = 'the text has < > & or "'
PROP = Prop('C04', [
    Part('payload', gen_payload, check, 12000, 400000,
         'hostile text in every position; non-trivial: ' + NT,
         text_shrink=True),
    Part('stretched', gens.stretched(gen_payload, gen_docs, gen_inline),
         check, 700, 30000,
         'like the above, with a character, a piece, some lines or all of it '
         'repeated, up to 5000 characters; non-trivial: ' + NT, text_shrink=True, cpu=60, deep=True),
    Part('docs', gen_docs, check, 9000, 300000,
         'generated documents; non-trivial: ' + NT, text_shrink=True),
    Part('inline', gen_inline, check, 9000, 300000,
         'generated inline sequences; non-trivial: ' + NT, text_shrink=True),
    Part('nested', gen_nested, check, 9000, 300000,
         'images, links and emphasis nested up to 8 deep; non-trivial: ' + NT,
         text_shrink=True),
])
