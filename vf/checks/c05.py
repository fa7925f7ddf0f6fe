"""C05 safe mode."""
import re

from .. import gens, refmodel
from ..engine import Part, Prop, Skip, Violation
from ..refmodel import OMITTED
from ..sutlib import Node, expect_eq, html_of, parse, to_ref, walk

BAD = ('javascript:', 'vbscript:', 'file:', 'data:')
IMAGES = re.compile(r'data:image/(png|gif|jpeg|webp)(?=[;,]|$)')
IMAGEISH = re.compile(r'data:image/(png|gif|jpeg|webp)')


def dangerous(url):
    """As a browser reads the scheme: leading C0 and blanks and all tabs and
    line ends dropped, ASCII case folded."""
    u = re.sub('[\t\r\n]', '', url.lstrip(
        ''.join(map(chr, range(0x21))))).lower()
    return u.startswith(BAD) and not IMAGES.match(u)


def unspecified(url):
    """Destinations that only name such a scheme somewhere else, and images
    of unknown kind."""
    u = url.lower()
    if IMAGEISH.match(u):
        return not IMAGES.match(u) or any(b in u[5:] for b in BAD)
    return not u.startswith(BAD) and any(b in u for b in BAD)


def passes(url):
    """Whether a link alone with this (unspecified) destination keeps it: the
    same must happen everywhere."""
    doc, par, link = Node('document', None), Node('paragraph', None), \
        Node('link', None)
    link.destination, link.title = url, ''
    doc.append_child(par)
    par.append_child(link)
    out = html_of(doc, safe=True)
    if out not in ('<p><a></a></p>\n', html_of(doc)):
        raise Violation('safe HTML of a link: %r' % out)
    return 'href' in out


def check(text, st):
    ast = parse(text)
    urls = raws = 0
    bad = 0
    for n in walk(ast):
        if n.t in ('link', 'image'):
            urls += 1
            if unspecified(n.destination):
                st.label('names a listed scheme after its start')
            bad += dangerous(n.destination)
        elif n.t in ('html_inline', 'html_block'):
            raws += 1
            if OMITTED in n.literal:
                raise Skip('the text contains the fixed comment')
    ref = to_ref(ast)
    ident = lambda u: u
    expect_eq(html_of(ast, safe=True),
              refmodel.Html(safe=lambda u: passes(u) if unspecified(u)
                            else not dangerous(u),
                            norm=ident).render(ref), 'safe HTML')
    plain = refmodel.Html(norm=ident).render(ref)
    expect_eq(html_of(ast), plain, 'HTML')
    expect_eq(html_of(ast, safe=False), plain, 'HTML with safe=False')
    if bad:
        st.label('dangerous destination')
    if raws:
        st.label('raw HTML')
    if urls > bad:
        st.label('harmless destination')
    st.nt(bad or raws)


SCHEMES = ['javascript', 'vbscript', 'file', 'data', 'JavaScript', 'VBSCRIPT',
           'File', 'DATA', 'jAvAsCrIpT', 'http', 'https', 'mailto', 'java',
           'xjavascript', 'javascripts', 'filex', 'tel', 'ftp', 'dat',
           'data:image/png', 'data:image/gif', 'data:image/jpeg',
           'data:image/webp', 'DATA:IMAGE/PNG', 'data:image/svg+xml',
           'data:image/bmp', 'data:text/html', 'data:,', 'data:image/',
           'data:image', 'data:application/pdf', 'data:imagex/png',
           'data: image/png', 'data:audio/png', 'data:video/webp',
           'image/png', 'view-source', 'about']
TAIL = ['alert(1)', '//x/y', ';base64,AAAA', 'x', '', ',x', '/etc/passwd',
        'MsgBox(1)', 'x?y=z&w', 'text/html;base64,PHN', '//data:image/png',
        '//data:image/gif;base64,A', 'data:image/webp', 'x//image/jpeg',
        '#data:image/png,', '?javascript:x', 'http://a/', '//x/mailto:b']


def obscure(s, u):
    """Write some characters as references or escapes."""
    out = ''
    for c in u:
        k = s.below(24)
        if k == 0:
            out += '&#%d;' % ord(c)
        elif k == 1:
            out += '&#x%x;' % ord(c)
        elif k == 2 and c in gens.PUNCT:
            out += '\\' + c
        elif k == 3:
            out += c.swapcase()
        elif k == 4 and c == ':':
            out += '&colon;'
        elif k == 5:
            out += s.pick(['&Tab;', '&#10;', '&#1;', '&shy;', '&ZeroWidth'
                           'Space;', '%0A']) + c
        else:
            out += c
    return out


def url(s):
    u = s.pick(SCHEMES)
    if u.lower().startswith('data:'):
        u += s.pick([';', ',', ';', ',', '', ':', 'x'])
    else:
        u += s.pick([':', ':', ':', ':', '', ' :', '::', '/', '%3A'])
    u += s.pick(TAIL)
    if s.chance(10):
        u = s.pick(['/', './', '#', '?', 'x', ' ', '\x01', '\xa0', '//',
                    '\t', '%20', '\x1f', '"', '&#32;', '&#1;']) + u
    return u


def gen_urls(s):
    out = []
    for i in range(s.int(1, 4)):
        u = obscure(s, url(s)) if s.chance(60) else url(s)
        ang = '<' + u + '>'
        bare = u.replace(' ', '')
        d = s.pick([ang, bare])
        k = s.below(10)
        ti = s.pick(['', '', ' "t"', " 'x'"])
        if k < 3:
            t = '[a](' + d + ti + ')'
        elif k < 5:
            t = '![a](' + d + ti + ')'
        elif k == 5:
            t = '<' + bare + '>'
        elif k == 6:
            t = '[a][r%d]\n\n[r%d]: %s%s\n\n' % (i, i, d, ti)
        elif k == 7:
            t = '[![a](' + d + ')](' + obscure(s, url(s)).replace(' ', '') + \
                ')'
        elif k == 8:
            t = '![[a](' + d + ') <b>](' + bare + ')'
        else:
            t = '> - # [*a*](' + d + ti + ') `x`\n'
        out.append(t)
    return s.pick([' ', '\n', '\n\n']).join(out) + '\n'


def gen_raw(s):
    out = []
    for _ in range(s.int(1, 4)):
        k = s.below(6)
        if k < 3:
            out.append(gens.inline(s, 2) + s.pick(gens.TAGS))
        elif k == 3:
            out.append('![a ' + s.pick(gens.TAGS) + ' b](/u)')
        else:
            out.append(s.pick(['', '> ', '- ']) + s.pick(gens.HTML_LINES) +
                       '\n' + gens.inline(s, 1))
    return '\n\n'.join(out) + '\n'


def gen_docs(s):
    return gens.with_defs(s, gens.document(s))


NT = 'raw HTML or a dangerous destination in the tree'
PROP = Prop('C05', [
    Part('urls', gen_urls, check, 16000, 600000,
         'destinations of all kinds in every construct, obscured by escapes '
         'and references; non-trivial: ' + NT, text_shrink=True),
    Part('raw', gen_raw, check, 9000, 300000,
         'raw HTML everywhere; non-trivial: ' + NT, text_shrink=True),
    Part('stretched', gens.stretched(gen_urls, gen_raw, gen_docs),
         check, 700, 30000,
         'like the above, with a character, a piece, some lines or all of it '
         'repeated, up to 5000 characters; non-trivial: ' + NT, text_shrink=True, cpu=60, deep=True),
    Part('docs', gen_docs, check, 6000, 200000,
         'generated documents; non-trivial: ' + NT, text_shrink=True),
])
