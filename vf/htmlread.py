"""A strict reader of the HTML the renderer may produce, and its inverse
mapping to trees.  Deliberately knows nothing of the renderer's code."""
import re

from .engine import Skip, Violation

COMMENT = '<!-- raw HTML omitted -->'
TAG = re.compile(r'<(/?)([a-z][a-z0-9]*)((?: [a-z-]+="[^"<>]*")*)( /)?>\Z')
ATTR = re.compile(r' ([a-z-]+)="([^"<>]*)"')
VOID = {'br', 'hr', 'img'}
BLOCK = {'p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'li',
         'blockquote', 'pre', 'hr'}
ALLOWED = {'p': (), 'h1': (), 'h2': (), 'h3': (), 'h4': (), 'h5': (),
           'h6': (), 'ul': (), 'ol': ('start',), 'li': (), 'blockquote': (),
           'pre': (), 'code': ('class',), 'hr': (), 'br': (), 'em': (),
           'strong': (), 'a': ('href', 'title'),
           'img': ('src', 'alt', 'title')}
ENT = re.compile(r'&(amp|lt|gt|quot);')
VAL = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"'}


def unesc(s, what):
    if '<' in s or '>' in s or '"' in s:
        raise Violation('%s has an unescaped character: %r' % (what, s[:80]))
    if '&' in ENT.sub('', s):
        raise Violation('%s has a bare ampersand: %r' % (what, s[:80]))
    return ENT.sub(lambda m: VAL[m.group(1)], s)


def tokens(html, pos=False):
    """('open', name, attrs) / ('close', name) / ('text', s) / ('comment',)"""
    out = []
    i = 0
    while i < len(html):
        j = html.find('<', i)
        if j < 0:
            j = len(html)
        if j > i:
            out.append(('text', unesc(html[i:j], 'text')))
            i = j
            continue
        if html.startswith(COMMENT, i):
            out.append(('comment',))
            i += len(COMMENT)
            continue
        k = html.find('>', i)
        m = TAG.match(html[i:k + 1]) if k >= 0 else None
        if not m:
            raise Violation('not a tag the renderer produces: %r' %
                            html[i:i + 60])
        close, name, attrs, selfclose = m.groups()
        if name not in ALLOWED:
            raise Violation('unknown element %r' % name)
        at = [(a, unesc(v, 'attribute')) for a, v in ATTR.findall(attrs)]
        names = [a for a, _ in at]
        ok = [a for a in ALLOWED[name]]
        if pos and name not in ('em', 'strong', 'br'):
            ok = ok + ['data-sourcepos']
        if len(set(names)) != len(names) or set(names) - set(ok):
            raise Violation('attributes of %s: %r' % (name, names))
        if name == 'a' and names and names[0] not in ('href', 'title'):
            raise Violation('attributes of a: %r' % names)
        if name == 'img' and names[:2] != ['src', 'alt']:
            raise Violation('attributes of img: %r' % names)
        if (name in VOID) != bool(selfclose) and not close:
            raise Violation('void or not void: %r' % m.group())
        if close:
            if at or selfclose or name in VOID:
                raise Violation('bad closing tag %r' % m.group())
            out.append(('close', name))
        else:
            out.append(('open', name, tuple(at)))
        i = k + 1
    return out


class El(object):
    def __init__(self, name, attrs):
        self.name, self.attrs, self.kids = name, dict(attrs), []


PHRASE = {'em', 'strong', 'a', 'code', 'img', 'br'}
BLOCKS_IN = {None, 'blockquote', 'li'}


def tree(toks):
    """Nested elements; checks nesting and the content model."""
    root = El(None, ())
    stack = [root]
    for t in toks:
        top = stack[-1]
        if t[0] == 'text':
            if top.name in (None, 'blockquote', 'ul', 'ol', 'pre') and \
                    t[1].strip('\n'):
                raise Violation('text directly in %s: %r' % (
                    top.name, t[1][:60]))
            if top.kids and isinstance(top.kids[-1], str):
                top.kids[-1] += t[1]
            else:
                top.kids.append(t[1])
        elif t[0] == 'comment':
            top.kids.append(El('!', ()))
        elif t[0] == 'open':
            name = t[1]
            if name in PHRASE:
                ok = top.name not in (None, 'blockquote', 'ul', 'ol') and \
                    (top.name != 'pre' or name == 'code') and \
                    top.name != 'code'
            elif name == 'li':
                ok = top.name in ('ul', 'ol')
            else:
                ok = top.name in BLOCKS_IN
            if not ok:
                raise Violation('%s inside %s' % (name, top.name))
            e = El(name, t[2])
            top.kids.append(e)
            if name not in VOID:
                stack.append(e)
        else:
            if top.name != t[1]:
                raise Violation('</%s> closes %s' % (t[1], top.name))
            stack.pop()
    if len(stack) > 1:
        raise Violation('%s is not closed' % stack[-1].name)
    return root


def inlines(kids):
    out = []
    skip_nl = False
    for k in kids:
        if isinstance(k, str):
            if skip_nl:
                if not k.startswith('\n'):
                    raise Violation('no newline after <br />')
                k = k[1:]
            skip_nl = False
            if not k:
                continue
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + k)
            else:
                out.append(('text', k))
            continue
        if skip_nl:
            raise Violation('no newline after <br />')
        n = k.name
        if n == 'br':
            out.append(('linebreak',))
            skip_nl = True
        elif n == 'em':
            out.append(('emph', inlines(k.kids)))
        elif n == 'strong':
            out.append(('strong', inlines(k.kids)))
        elif n == 'a':
            out.append(('link', k.attrs.get('href'),
                        k.attrs.get('title', ''), inlines(k.kids)))
        elif n == 'img':
            out.append(('image', k.attrs['src'], k.attrs.get('title', ''),
                        k.attrs['alt']))
        elif n == 'code':
            if 'class' in k.attrs:
                raise Violation('class on a code span')
            out.append(('code', ''.join(k.kids)))
        else:
            raise Violation('%s among inlines' % n)
    return tuple(out)


def blocks(kids, inline_ok=False):
    out = []
    i = 0
    while i < len(kids):
        k = kids[i]
        if isinstance(k, str) or k.name in PHRASE:
            j = i
            while j < len(kids) and (isinstance(kids[j], str) or
                                     kids[j].name in PHRASE):
                j += 1
            run = list(kids[i:j])
            # the newlines that separate blocks
            if isinstance(run[-1], str) and (j < len(kids)) and \
                    run[-1].endswith('\n'):
                run[-1] = run[-1][:-1]
            if i > 0 and isinstance(run[0], str) and run[0].startswith('\n'):
                run[0] = run[0][1:]
            elif not inline_ok and isinstance(run[0], str) and \
                    run[0] == '\n':
                run[0] = ''
            run = [r for r in run if r != '']
            if run:
                if not inline_ok:
                    raise Violation('inline content among blocks: %r' %
                                    (run[0],))
                out.append(('tight', inlines(run)))
            i = j
            continue
        n = k.name
        if n == 'p':
            out.append(('paragraph', inlines(k.kids)))
        elif n[0] == 'h' and n != 'hr':
            out.append(('heading', int(n[1]), inlines(k.kids)))
        elif n == 'hr':
            out.append(('thematic_break',))
        elif n == 'pre':
            if len(k.kids) != 1 or isinstance(k.kids[0], str):
                raise Violation('pre without exactly one code')
            c = k.kids[0]
            cl = c.attrs.get('class')
            if cl is not None and not cl.startswith('language-'):
                raise Violation('class %r' % cl)
            out.append(('code_block', cl[9:] if cl is not None else '',
                        ''.join(c.kids)))
        elif n == 'blockquote':
            out.append(('block_quote', blocks(k.kids)))
        elif n in ('ul', 'ol'):
            items = []
            for x in k.kids:
                if isinstance(x, str):
                    if x.strip('\n'):
                        raise Violation('text in a list')
                else:
                    items.append(('item', blocks(x.kids, True)))
            has = {b[0] for it in items for b in it[1]} & \
                {'tight', 'paragraph'}
            if len(has) == 2:
                raise Violation('a list both tight and loose')
            tight = {'tight': 'tight', 'paragraph': 'loose'}.get(
                next(iter(has), None), '-')
            items = tuple(('item', tuple(
                ('paragraph',) + b[1:] if b[0] == 'tight' else b
                for b in it[1])) for it in items)
            start = int(k.attrs.get('start', '1')) if n == 'ol' else None
            out.append(('list', 'bullet' if n == 'ul' else 'ordered', start,
                        tight, items))
        else:
            raise Violation('%s among blocks' % n)
        i += 1
    return tuple(out)


def read(html):
    """HTML without raw HTML -> normal form of the tree."""
    return ('document', blocks(tree(tokens(html)).kids))


# ------------------------------------------------- trees to the normal form

def alt(n, softbreak='\n'):
    t = n[0]
    if t in ('text', 'code', 'html_inline'):
        return n[1]
    if t in ('softbreak', 'linebreak'):
        return '\n'
    return ''.join(alt(k) for k in n[-1])


def norm_inlines(kids):
    out = []
    for k in kids:
        t = k[0]
        if t == 'text' and '\n' in k[1]:
            raise Skip('line feed in a text node')
        if t in ('text', 'softbreak'):
            s = k[1] if t == 'text' else '\n'
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + s)
            elif s:
                out.append(('text', s))
        elif t in ('emph', 'strong'):
            out.append((t, norm_inlines(k[-1])))
        elif t == 'link':
            out.append((t, k[1], k[2], norm_inlines(k[-1])))
        elif t == 'image':
            norm_inlines(k[-1])
            out.append((t, k[1], k[2], ''.join(alt(x) for x in k[-1])))
        else:
            out.append(k)
    return tuple(out)


def norm(n):
    """snap() of a tree -> the form read() gives."""
    t = n[0]
    if t in ('document', 'block_quote', 'item'):
        return (t, tuple(norm(k) for k in n[-1]))
    if t == 'paragraph':
        return (t, norm_inlines(n[-1]))
    if t == 'heading':
        return (t, n[1], norm_inlines(n[-1]))
    if t == 'code_block':
        w = n[1].split()
        return (t, w[0] if w else '', n[2])
    if t == 'list':
        items = tuple(norm(k) for k in n[-1])
        has = any(b[0] == 'paragraph' for it in items for b in it[1])
        start = (1 if n[2] is None else n[2]) if n[1] == 'ordered' else None
        return (t, n[1], start, n[5] if has else '-', items)
    return n


def kinds(snap, acc=None):
    acc = set() if acc is None else acc
    todo = [snap]
    while todo:
        x = todo.pop()
        acc.add(x[0])
        if isinstance(x[-1], tuple):
            todo.extend(x[-1])
    return acc


def events(snap):
    """The texts and attribute values of a tree in document order (newlines
    left out, so that separators between blocks do not matter)."""
    out = []

    def text(s):
        s = s.replace('\n', '')
        if s:
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + s)
            else:
                out.append(('text', s))

    def go(n):
        t = n[0]
        if t in ('text', 'code'):
            text(n[1])
        elif t == 'code_block':
            w = n[1].split()
            if w:
                out.append(('class', 'language-' + w[0]))
            text(n[2])
        elif t in ('html_inline', 'html_block'):
            out.append(('comment',))
        elif t == 'link':
            out.append(('href', n[1]))
            if n[2]:
                out.append(('title', n[2]))
            for k in n[-1]:
                go(k)
        elif t == 'image':
            out.append(('src', n[1]))
            a = ''.join(alt_safe(k) for k in n[-1])
            out.append(('alt', a))
            if n[2]:
                out.append(('title', n[2]))
        elif isinstance(n[-1], tuple):
            for k in n[-1]:
                go(k)

    go(snap)
    return out


def alt_safe(n):
    if n[0] == 'html_inline':
        return COMMENT
    if n[0] in ('text', 'code'):
        return n[1]
    if n[0] in ('softbreak', 'linebreak'):
        return '\n'
    return ''.join(alt_safe(k) for k in n[-1])


def token_events(toks):
    out = []
    for t in toks:
        if t[0] == 'text':
            s = t[1].replace('\n', '')
            if s:
                if out and out[-1][0] == 'text':
                    out[-1] = ('text', out[-1][1] + s)
                else:
                    out.append(('text', s))
        elif t[0] == 'comment':
            out.append(t)
        elif t[0] == 'open':
            if t[1] == 'a' and 'href' not in dict(t[2]):
                out.append(('href', None))
            for a, v in t[2]:
                if a in ('href', 'title', 'src', 'alt', 'class'):
                    out.append((a, v))
    return out
