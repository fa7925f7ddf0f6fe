"""C27 no content is lost, duplicated or reordered."""
import re

from .. import gens
from ..engine import Part, Prop, Skip, Violation
from ..sutlib import CONTAINERS, html_of, kids, parse, short, walk

TOKEN = re.compile(r'w\d+q')
WORD = re.compile(r'[^\W_]+')
KEEP = {'r', 'foo', 'script', 'style', 'pre', 'div', 'p', 'td', 'table', 'b',
        'a', 'A', 'CDATA', 'DOCTYPE', 'http', 'mailto', 'php', 'amp', 'copy',
        'h2', 'hr', 'X', 'x'}
DEFS = '\n\n[r]: /u "t"\n[foo]: <v>\n[x]: /y\n'


def mark(s, t):
    """Replace the words of a text by numbered ones; no definitions."""
    t = t.replace(']:', '] :')
    n = [0]

    def sub(m):
        w = m.group()
        if w.isdigit() and t[m.end():m.end() + 1] in ('.', ')'):
            return w
        if w in KEEP and s.chance(50):
            return w
        n[0] += 1
        return 'w%dq' % n[0]
    if s.chance(2):
        t = gens.stretch(s, t, 2500)
    return WORD.sub(sub, t.replace(']:', '] :'))


PIECES = ['*', '**', '_', '__', '[', ']', '(', ')', '![', '<', '>', '`', '``',
          '\\', '&', '#', '\n', '\n', '\n\n', ' ', ' ', '  ', '    ', '-',
          '- ', '> ', '1. ', '"', "'", '](', '](/', ' "', '" ', '<!--', '-->',
          '</', '/>', '=', '=""', '```', '~~~', '---', '===', '# ', '<?', '?>',
          '<![CDATA[', ']]>', '<!A', '<http://', '@', '.', '\t', '[r]', '[]',
          '&#', ';', '|', '$', '\\\n', '  \n', '***', '+ ', '][', '<div>',
          '</div>', '<script>', '<a href="', '\r\n', '\xa0', '](<', '>)']


def gen_soup(s):
    out, n = [], 0
    for _ in range(s.pick([60, 130, 300]) if s.chance(2)
                   else s.int(2, 30)):
        if s.chance(40):
            n += 1
            out.append('w%dq' % n)
        else:
            out.append(s.pick(PIECES))
    t = ''.join(out).replace(']:', '] :')
    return t + (DEFS if s.chance(60) else '')


def gen_doc(s):
    t = gens.document(s)
    if s.chance(20):
        t = gens.mutate(s, t)
    if s.chance(10):
        t = gens.exotic(s, t)
    return mark(s, t) + (DEFS if s.chance(70) else '')


def gen_inline(s):
    return mark(s, gens.inline(s, 3)) + (DEFS if s.chance(70) else '')


def sequence(root):
    """(tokens in source order, tokens in HTML order) as the tree says."""
    src, out = [], []
    todo = [(root, True, 0, 0)]
    while todo:
        n, entering, at, image = todo.pop()
        t = n.t
        if t in ('link', 'image'):
            d = TOKEN.findall(n.destination or '')
            tt = TOKEN.findall(n.title or '')
            if entering:
                if not image:
                    out += d + (tt if t == 'link' else [])
                todo.append((n, False, len(src), image))
                image += t == 'image'
                todo.extend((k, True, 0, image) for k in reversed(kids(n)))
            else:
                # an autolink has its text as destination
                if not (d and src[at:] == d):
                    src += d
                src += tt
                if t == 'image' and not image:
                    out += tt
            continue
        if t == 'code_block':
            info = TOKEN.findall(n.info or '')
            src += info
            words = (n.info or '').split()
            if words:
                out += TOKEN.findall(words[0])
        for x in TOKEN.findall(n.literal or '') if t in (
                'text', 'code', 'html_inline', 'html_block',
                'code_block') else ():
            src.append(x)
            out.append(x)
        todo.extend((k, True, 0, image) for k in reversed(kids(n)))
    return src, out


def joined(root):
    """Adjacent text nodes may cut a token: merge them first."""
    for n in walk(root):
        k = n.first_child
        while k is not None:
            while k.t == 'text' and k.nxt is not None and k.nxt.t == 'text':
                k.literal += k.nxt.literal
                k.nxt.unlink()
            k = k.nxt


def check(text, st):
    want = TOKEN.findall(text)
    for smart in (False, True):
        root = parse(text, smart=True) if smart else parse(text)
        html = html_of(root)
        joined(root)
        src, out = sequence(root)
        if src != want:
            lost = [x for x in want if x not in src]
            twice = sorted({x for x in src if src.count(x) > 1})
            raise Violation('tokens of the tree %s; lost %s, repeated %s' % (
                short(src), lost, twice))
        got = TOKEN.findall(html)
        if got != out:
            raise Violation('tokens of the HTML %s, of the tree %s' % (
                short(got), short(out)))
    ks = {n.t for n in walk(root)}
    for t in ('emph', 'strong', 'link', 'image', 'code', 'html_inline',
              'html_block', 'code_block', 'list', 'block_quote'):
        if t in ks:
            st.label(t)
    st.nt(len(want) >= 3)


PROP = Prop('C27', [
    Part('soup', gen_soup, check, 16000, 800000,
         'numbered words between pieces of markup of every kind; '
         'non-trivial: at least three words', text_shrink=True),
    Part('documents', gen_doc, check, 8000, 300000,
         'documents with their words numbered; non-trivial: at least three '
         'words', text_shrink=True),
    Part('inline', gen_inline, check, 10000, 400000,
         'inline sequences with their words numbered; non-trivial: at least '
         'three words', text_shrink=True),
], assumptions=['texts hold no definitions but fixed ones at the end'])
