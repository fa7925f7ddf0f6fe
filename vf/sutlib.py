"""Access to the code under test through its public interface."""
import contextlib
import io

from . import repo  # noqa: F401  (sets sys.path)
import commonmark
from commonmark.node import Node

from .engine import Violation, sut

CONTAINERS = {'document', 'block_quote', 'list', 'item', 'paragraph',
              'heading', 'emph', 'strong', 'link', 'image', 'custom_inline',
              'custom_block'}
BLOCKS = {'document', 'block_quote', 'list', 'item', 'paragraph', 'heading',
          'code_block', 'html_block', 'thematic_break'}


def parse(text, **options):
    """Parse with a fresh parser."""
    return sut(commonmark.Parser(options).parse, text)


def html_of(ast, **options):
    return sut(commonmark.HtmlRenderer(options).render, ast)


def to_html(text, smart=False, **options):
    return html_of(parse(text, smart=True) if smart else parse(text),
                   **options)


def rst_of(ast):
    return sut(commonmark.ReStructuredTextRenderer().render, ast)


def ast_dump(ast):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        sut(commonmark.dumpAST, ast)
    return buf.getvalue()


def kids(node):
    """Children by the next pointers, without trusting them to terminate."""
    out, k = [], node.first_child
    while k is not None:
        out.append(k)
        n = len(out)
        if n >= 64 and n & (n - 1) == 0 and len(set(map(id, out))) < n:
            raise Violation('child list does not end')
        k = k.nxt
    return out


def head(n):
    t = n.t
    if t == 'heading':
        return (t, n.level)
    if t in ('link', 'image'):
        return (t, n.destination, n.title or '')
    if t == 'list':
        d = n.list_data
        return (t, d.get('type'), d.get('start'), d.get('delimiter'),
                d.get('bullet_char'), 'tight' if d.get('tight') else 'loose')
    if t in ('custom_inline', 'custom_block'):
        return (t, n.on_enter, n.on_exit)
    return (t,)


def leaf(n):
    t = n.t
    if t in ('text', 'code', 'html_inline', 'html_block'):
        return (t, n.literal)
    if t == 'code_block':
        return (t, n.info or '', n.literal)
    return (t,)


def snap(root, merge=True):
    """The tree as nested tuples (adjacent text merged), iteratively."""
    result = []
    # frames: (node, head, remaining children (reversed), out list)
    if root.t not in CONTAINERS:
        return leaf(root)
    stack = [(root, list(reversed(kids(root))), [])]
    while stack:
        node, todo, out = stack[-1]
        if todo:
            k = todo.pop()
            if k.t in CONTAINERS:
                stack.append((k, list(reversed(kids(k))), []))
            else:
                v = leaf(k)
                if merge and k.t == 'text':
                    if v[1] == '':
                        continue
                    if out and out[-1][0] == 'text':
                        out[-1] = ('text', out[-1][1] + v[1])
                        continue
                out.append(v)
        else:
            stack.pop()
            v = head(node) + (tuple(out),)
            if stack:
                stack[-1][2].append(v)
            else:
                result.append(v)
    return result[0]


def to_ref(root):
    """The same tree as nodes of the reference model (iteratively)."""
    from .refmodel import N

    def one(n):
        t = n.t
        if t in ('text', 'code', 'html_inline', 'html_block'):
            return N(t, text=n.literal)
        if t == 'code_block':
            return N(t, info=n.info or '', text=n.literal)
        if t == 'heading':
            return N(t, level=n.level)
        if t in ('link', 'image'):
            return N(t, dest=n.destination, title=n.title or '')
        if t == 'list':
            d = n.list_data
            return N(t, ltype=d.get('type'), lstart=d.get('start'),
                     tight=bool(d.get('tight')))
        if t in ('custom_inline', 'custom_block'):
            return N(t, x=(n.on_enter, n.on_exit))
        return N(t)
    top = one(root)
    todo = [(root, top)]
    while todo:
        n, r = todo.pop()
        for k in kids(n):
            x = one(k)
            r.kids.append(x)
            todo.append((k, x))
    return top


def walk(root):
    """All nodes of a tree in document order (by pointers, iteratively)."""
    out, todo = [], [root]
    while todo:
        n = todo.pop()
        out.append(n)
        todo.extend(reversed(kids(n)))
        if len(out) > 2000000:
            raise Violation('tree does not end')
    return out


def diff(a, b, path=''):
    """A short description of the first difference of two snapshots."""
    while True:
        if a == b:
            return 'equal'
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            return '%s: %r instead of %r' % (path or 'root', a, b)
        if a[:1] != b[:1] or len(a) != len(b):
            return '%s: %s instead of %s' % (path or 'root', short(a),
                                             short(b))
        name = a[0] if isinstance(a[0], str) else ''
        if len(a) > 1 and isinstance(a[-1], tuple) and \
                isinstance(b[-1], tuple) and a[:-1] == b[:-1]:
            ka, kb = a[-1], b[-1]
            for i in range(min(len(ka), len(kb))):
                if ka[i] != kb[i]:
                    a, b, path = ka[i], kb[i], path + '/' + name + '[%d]' % i
                    break
            else:
                i = min(len(ka), len(kb))
                x = ka[i] if i < len(ka) else 'nothing'
                y = kb[i] if i < len(kb) else 'nothing'
                return '%s/%s[%d]: %s instead of %s' % (path, name, i,
                                                        short(x), short(y))
            continue
        return '%s: %s instead of %s' % (path or 'root', short(a), short(b))


def short(x):
    s = repr(x)
    return s if len(s) <= 300 else s[:300] + '...'


def expect_eq(got, want, what):
    if got != want:
        i = 0
        while i < min(len(got), len(want)) and got[i] == want[i]:
            i += 1
        lo = max(0, i - 30)
        raise Violation('%s: at %d got %r expected %r' % (
            what, i, got[lo:i + 80], want[lo:i + 80]))


def expect_tree(got, want, what):
    if got != want:
        raise Violation('%s: %s' % (what, diff(got, want)))


__all__ = [n for n in dir() if not n.startswith('_')]
