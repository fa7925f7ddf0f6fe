"""C15 normalize."""
from .. import trees
from ..engine import Part, Prop, Violation, sut
from ..sutlib import (Node, expect_eq, expect_tree, html_of, kids, rst_of,
                      snap, walk)


LONG = [60, 130, 260, 600, 1100, 4100, 4100, 10000, 66000]


def gen(s):
    return [trees.parsed_or_built(s),
            [s.below(1000) for _ in range(s.int(0, 12))], s.below(3),
            s.below(1000), s.pick(LONG) if s.chance(5) else 0]


def split(root, cuts):
    """Cut text nodes in two, or put an empty one or a new one beside."""
    for c in cuts:
        texts = [n for n in walk(root) if n.t == 'text']
        if not texts:
            return
        n = texts[c % len(texts)]
        if n.parent is None:
            return
        m = sut(Node, 'text', None)
        k = c % 5
        if k < 3:
            i = (c // 5) % (len(n.literal) + 1)
            n.literal, m.literal = n.literal[:i], n.literal[i:]
            sut(n.insert_after, m)
        elif k == 3:
            m.literal = ''
            sut(n.insert_before, m)
        else:
            m.literal = 'new'
            sut(n.insert_before, m)


def content(n):
    return (n.t, n.literal, n.destination, n.title, n.info, n.level,
            repr(sorted((n.list_data or {}).items(), key=str)), n.on_enter,
            n.on_exit, n.sourcepos)


def check(case, st):
    tree, cuts, mode, r, long = case
    root = trees.tree_of(tree)
    texts = [n for n in walk(root) if n.t == 'text']
    if long and texts:
        n = texts[r % len(texts)]
        n.literal = (n.literal or 'ab') * (1 + long // (len(n.literal) or 2))
        st.label('long text')
    split(root, cuts)
    nodes = walk(root)
    sub = nodes[r % len(nodes)] if mode == 2 else root
    inside = walk(sub)
    in_sub = {id(n) for n in inside}
    before = snap(root)
    raw = [n for n in nodes if n.t == 'text' and '\n' in (n.literal or '')]
    html = html_of(root) if not raw else None
    rst = rst_of(root) if not raw and mode != 1 else None
    # the expected state of every surviving node
    want, merged = [], 0
    for n in nodes:
        prev = n.prv
        if n.t == 'text' and prev is not None and prev.t == 'text' and \
                id(n) in in_sub and id(prev) in in_sub:
            j = len(want) - 1
            a, lit = want[j]
            want[j] = (a, lit + n.literal)
            merged += 1
        else:
            want.append((n, n.literal))
    full = [(n, content(n)) for n in nodes if n.t != 'text']
    order = [n for n, _ in want]
    sut(sub.normalize)
    trees.consistent(walk(root))
    for n in walk(sub):
        ch = kids(n)
        for a, b in zip(ch, ch[1:]):
            if a.t == b.t == 'text':
                raise Violation('adjacent text nodes %r %r remain' % (
                    a.literal, b.literal))
    expect_tree(snap(root), before, 'text moved')
    after = walk(root)
    if len(after) != len(order):
        raise Violation('%d nodes instead of %d' % (len(after), len(order)))
    for n, (m, lit) in zip(after, want):
        if n.t != m.t or (n.t != 'text' and n is not m):
            raise Violation('node %r where %r was' % (n, m))
        if n.t == 'text' and n.literal != lit:
            raise Violation('text %r instead of %r' % (n.literal, lit))
    for n, c in full:
        if content(n) != c:
            raise Violation('%r changed' % (n,))
    if html is not None:
        expect_eq(html_of(root), html, 'HTML')
    if rst is not None and not any(n.literal == '' for n in nodes):
        expect_eq(rst_of(root), rst, 'RST')
    sut(sub.normalize)
    again = walk(root)
    if len(again) != len(after) or any(a is not b for a, b in
                                       zip(again, after)):
        raise Violation('a second normalize changes the tree')
    st.nt(merged >= 1)
    st.label('merged %s' % (merged if merged < 4 else '4+'))


PROP = Prop('C15', [
    Part('normalize', gen, check, 14000, 500000,
         'parsed and built trees with text nodes cut and added, normalized '
         'at the root or a subtree; non-trivial: some nodes merge', deep=True),
])
