"""C23 the HTML shows the tree exactly."""
from .. import gens, htmlread, refmodel, trees
from ..engine import Part, Prop, Skip, Violation, sut
from ..sutlib import (CONTAINERS, Node, diff, expect_eq, html_of, kids,
                      snap, to_ref, walk)

SOFT = ['\n', ' ', '<br />', '<br />\n', '<wbr>', '\n\n', 'X']
IDENT = lambda u: u    # noqa: E731


def unclear(n):
    """Whether a softbreak next to n (or None) may end what is written."""
    if n is None or n.t in ('softbreak', 'linebreak'):
        return True
    if n.t in ('text', 'html_inline'):
        return not n.literal
    return n.t == 'custom_inline' and not (n.on_enter and n.on_exit)


def gen_built(s):
    return [trees.document_or_big(s), s.pick(SOFT), [s.below(3) for _ in range(3)],
            []]


EDITS = ['text', 'dest', 'title', 'level', 'info', 'code', 'start', 'tight',
         'unlink', 'dup', 'wrap', 'unwrap', 'insert', 'swap', 'type']


def gen_edited(s):
    return [trees.parsed_or_built(s), s.pick(SOFT), [0],
            [[s.pick(EDITS), s.below(1000), trees.mixed(s, trees.TEXTS),
              trees.mixed(s, trees.DESTS), trees.mixed(s, trees.TITLES), s.int(1, 6)]
             for _ in range(s.int(1, 8))]]


INL = {'text', 'softbreak', 'linebreak', 'code', 'html_inline', 'emph',
       'strong', 'link', 'image', 'custom_inline'}
BLK = {'paragraph', 'heading', 'code_block', 'html_block', 'thematic_break',
       'block_quote', 'list', 'custom_block'}


def edit(root, op, i, text, dest, title, level):
    """One edit through the node interface that keeps the content model."""
    def among(*ts):
        c = [n for n in walk(root) if n.t in ts]
        return c[i % len(c)] if c else None
    if op == 'text':
        n = among('text')
        if n is not None:
            n.literal = text
    elif op == 'code':
        n = among('code')
        if n is not None:
            n.literal = text
    elif op == 'dest':
        n = among('link', 'image')
        if n is not None:
            n.destination = dest
    elif op == 'title':
        n = among('link', 'image')
        if n is not None:
            n.title = title
    elif op == 'level':
        n = among('heading')
        if n is not None:
            n.level = level
    elif op == 'info':
        n = among('code_block')
        if n is not None:
            n.info = text
    elif op == 'start':
        n = among('list')
        if n is not None and n.list_data.get('type') == 'ordered':
            n.list_data['start'] = level
    elif op == 'tight':
        n = among('list')
        if n is not None:
            n.list_data['tight'] = not n.list_data.get('tight')
    elif op == 'unlink':
        n = among(*(INL | BLK | {'item'}))
        if n is not None and n.parent is not None:
            sut(n.unlink)
    elif op == 'dup':
        n = among('paragraph', 'emph', 'strong', 'link')
        if n is not None and not inside(n, 'image'):
            m = sut(Node, 'text', None)
            m.literal = text
            sut(n.append_child if level % 2 else n.prepend_child, m)
    elif op == 'wrap':
        n = among('text', 'code', 'emph', 'image')
        if n is not None and n.parent is not None:
            m = sut(Node, 'strong', None)
            sut(n.insert_before, m)
            sut(m.append_child, n)
    elif op == 'unwrap':
        n = among('emph', 'strong', 'block_quote')
        if n is not None:
            for k in kids(n):
                sut(n.insert_before, k)
            sut(n.unlink)
    elif op == 'insert':
        n = among(*BLK)
        if n is not None and n.parent is not None:
            m = sut(Node, 'heading', None)
            m.level = level
            x = sut(Node, 'text', None)
            x.literal = text
            sut(m.append_child, x)
            sut(n.insert_after, m)
    elif op == 'swap':
        n = among(*BLK)
        if n is not None and n.nxt is not None:
            sut(n.nxt.insert_after, n)
    elif op == 'type':
        n = among('emph', 'strong')
        if n is not None:
            n.t = 'strong' if n.t == 'emph' else 'emph'


def inside(n, t):
    while n is not None:
        if n.t == t:
            return True
        n = n.parent
    return False


def check(case, st):
    tree, soft, order, edits = case
    root = trees.build(tree, order) if isinstance(tree, list) else \
        trees.tree_of(tree)
    for e in edits:
        edit(root, *e)
    nodes = walk(root)
    if any('\n' in (n.literal or '') for n in nodes
           if n.t in ('text', 'code', 'html_inline')) or \
            any((n.literal or '').endswith('\n') for n in nodes
                if n.t == 'html_block'):
        raise Skip('line feed in an inline literal')
    ref = to_ref(root)
    # a literal softbreak string may itself end in a newline
    want = refmodel.Html(soft, norm=IDENT).render(ref)
    for n in nodes:
        if n.t in ('custom_inline', 'custom_block') and inside(n, 'image'):
            raise Skip('custom node in an image')
    if soft == '\n':
        expect_eq(html_of(root), want, 'HTML')
    else:
        if soft.endswith('\n') and any(
                n.t == 'softbreak' and
                (unclear(n.nxt) or (n.prv is not None and unclear(n.prv)))
                for n in nodes):
            raise Skip('softbreak at a line end')
        if any(n.t == 'softbreak' and inside(n, 'image') for n in nodes) \
                and soft not in (' ', 'X'):
            raise Skip('softbreak markup in an image')
        expect_eq(html_of(root, softbreak=soft), want, 'HTML with softbreak')
        st.label('softbreak option')
    ts = {n.t for n in nodes}
    st.nt(len(nodes) >= 6)
    for t in sorted(ts & {'list', 'image', 'link', 'custom_inline',
                          'custom_block'}):
        st.label(t)
    if ts & {'html_inline', 'html_block', 'custom_inline', 'custom_block'}:
        return
    if ambiguous(root):
        return
    html = html_of(root)
    back = htmlread.read(html)
    norm = htmlread.norm(snap(root))
    if back != norm:
        raise Violation('read back: %s' % diff(back, norm))
    st.label('read back')


def ambiguous(root):
    """Trees that HTML cannot tell apart from others."""
    for n in walk(root):
        ch = kids(n)
        if n.t == 'item':
            if n.parent is None or n.parent.t != 'list':
                return True
            tight = n.parent.list_data.get('tight')
            for c in ch:
                if c.t == 'paragraph' and tight and (
                        not any(x.t not in ('text',) or x.literal
                                for x in kids(c)) or
                        (c.nxt is not None and c.nxt.t == 'paragraph') or
                        c.first_child.t == 'softbreak' or
                        c.last_child.t in ('softbreak', 'linebreak')):
                    return True
            if tight and any(c.t == 'paragraph' for c in ch) and any(
                    x.t == 'softbreak' for c in ch for x in walk(c)):
                return True
        if n.t == 'linebreak' and n.prv is not None and \
                n.prv.t == 'softbreak' and inside(n, 'image'):
            return True
        if n.t == 'linebreak' and inside(n, 'image'):
            return True
        if n.t == 'paragraph' and n.parent.t in ('emph', 'link'):
            return True
    return False


NT = 'at least six nodes'
PROP = Prop('C23', [
    Part('built', gen_built, check, 12000, 400000,
         'random trees built through the node interface, with the softbreak '
         'option; non-trivial: ' + NT, deep=True),
    Part('edited', gen_edited, check, 12000, 400000,
         'parsed and built trees edited by hand; non-trivial: ' + NT, deep=True),
])
