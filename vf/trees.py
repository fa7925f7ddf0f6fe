"""Trees built by hand: generation as JSON, and as Node objects."""
import json

from . import gens
from .engine import Violation, sut
from .sutlib import CONTAINERS, Node, kids

TEXTS = ['a', 'foo', ' ', 'x y', '&', '<', '>', '"', "'", '<b>', '&amp;', '*',
         'é', '\U0001f600', '\\', '`', '[', '', '  ', '\xa0', 'a<b>&"c', '.',
         '</p>', '-->', '1.', '-', '\t']
DESTS = ['', '/u', 'http://a.b/?c=d&e=f', '#x', 'a b', '"q"', '<x>', 'ü',
         '/%20', "it's", 'mailto:a@b', '\\', '&amp;', 'JAVASCRIPT:x']
TITLES = ['', '', 't', 'a "b"', '<t>', '&amp;', "'", 'l1 l2']
LITS = ['', 'x\n', 'a\nb\n', '<b>&"\n', '\n', '  x\n\n y\n', 'no newline',
        '&amp;\n', '</code></pre>\n', '\ttab\n']
SPECIAL = ['&', '"', '<', '>', "'", '&amp;', 'a', ' ', ';', '#', '%', '\\',
           '&#34;', '/', '=']


def mixed(s, table):
    """One of the table, or several special characters together."""
    if s.chance(80):
        return s.pick(table)
    return s.text(SPECIAL, 2, 5)


INFOS = ['', '', 'py', 'c++ x', '<x>', '"', 'a&b', ' lead', 'é']


def inline_kids(s, depth, opts):
    n = s.small(4) + (0 if s.chance(20) else 1)
    return [inline(s, depth, opts) for _ in range(n)]


ODD = [c for c in gens.EXOTIC if c not in '\r\0']


def odd(s):
    return s.pick(['', 'a', 'b ']) + s.text(ODD, 1, 3) + s.pick(['', 'c'])


def inline(s, depth, opts):
    k = s.below(100)
    if k < 40 or depth <= 0:
        return ['text', mixed(s, TEXTS) if s.chance(90) else odd(s)]
    if k < 50:
        return ['softbreak']
    if k < 55:
        return ['linebreak']
    if k < 62:
        return ['code', mixed(s, TEXTS)]
    if k < 66 and 'raw' in opts:
        return ['html_inline', s.pick(['<b>', '</b>', '<a href="x">',
                                       '<!-- c -->', '&amp;'])]
    if k < 74:
        return ['emph', inline_kids(s, depth - 1, opts)]
    if k < 82:
        return ['strong', inline_kids(s, depth - 1, opts)]
    if k < 89:
        return ['link', mixed(s, DESTS), mixed(s, TITLES),
                inline_kids(s, depth - 1, opts)]
    if k < 96 or 'custom' not in opts:
        return ['image', mixed(s, DESTS), mixed(s, TITLES),
                inline_kids(s, depth - 1, [o for o in opts
                                           if o != 'custom'])]
    return ['custom_inline', s.pick(['<u>', '', None, '[', 'é']),
            s.pick(['</u>', '', None, ']']), inline_kids(s, depth - 1, opts)]


def block_kids(s, depth, opts, hi=4):
    n = s.small(hi) + (0 if s.chance(20) else 1)
    return [block(s, depth, opts) for _ in range(n)]


def block(s, depth, opts):
    k = s.below(100)
    if depth > 0 and k < 15:
        return ['block_quote', block_kids(s, depth - 1, opts)]
    if depth > 0 and k < 38:
        ordered = s.chance(50)
        return ['list', 'ordered' if ordered else 'bullet',
                s.pick([1, 0, 2, 10, 999999999]) if ordered else None,
                s.pick('.)') if ordered else None,
                None if ordered else s.pick('-+*'), s.chance(50),
                [['item', block_kids(s, depth - 1, opts, 3)]
                 for _ in range(s.int(1, 3))]]
    if k < 45:
        return ['heading', s.int(1, 6), inline_kids(s, 2, opts)]
    if k < 53:
        return ['code_block', mixed(s, INFOS), s.pick(LITS)]
    if k < 58:
        return ['thematic_break']
    if k < 62 and 'raw' in opts:
        return ['html_block', s.pick(['<div>', '<p>\nx</p>', '<!-- a -->'])]
    if k < 66 and 'custom' in opts:
        return ['custom_block', s.pick(['<section>', '', None, 'x']),
                s.pick(['</section>', None, 'y']),
                block_kids(s, depth - 1, opts, 2) if depth > 0 else []]
    return ['paragraph', inline_kids(s, 3, opts)]


def document(s, opts=('raw', 'custom')):
    return ['document', [block(s, 3, opts) for _ in range(s.int(0, 5))]]


def make(spec):
    """The node of one spec, without children; and the children specs."""
    t = spec[0]
    n = sut(Node, t, None)
    if n.list_data:
        raise Violation('a new node has list data %r' % (n.list_data,))
    sub = spec[-1] if t in CONTAINERS else []
    if t in ('text', 'code', 'html_inline', 'html_block'):
        n.literal = spec[1]
    elif t == 'code_block':
        n.info, n.literal = spec[1], spec[2]
    elif t == 'heading':
        n.level = spec[1]
    elif t in ('link', 'image'):
        n.destination, n.title = spec[1], spec[2]
    elif t == 'list':
        data = {'type': spec[1], 'start': spec[2],
                'delimiter': spec[3], 'bullet_char': spec[4],
                'tight': spec[5], 'padding': 2, 'marker_offset': 0}
        if spec[5] and isinstance(n.list_data, dict):
            n.list_data.update(data)    # filled in place: the node's own
        else:
            n.list_data = data
    elif t in ('custom_inline', 'custom_block'):
        n.on_enter, n.on_exit = spec[1], spec[2]
    return n, sub


def build(spec, order=None):
    """Node tree of a spec.  order: bits choosing append/prepend/insert."""
    root, sub = make(spec)
    todo = [(root, sub)]
    i = 0
    while todo:
        parent, subs = todo.pop()
        nodes = []
        for x in subs:
            n, s2 = make(x)
            if parent.t == 'list' and n.t == 'item':
                n.list_data = parent.list_data
            nodes.append(n)
            todo.append((n, s2))
        mode = order[i % len(order)] if order else 0
        i += 1
        if mode == 0:
            for n in nodes:
                sut(parent.append_child, n)
        elif mode == 1:
            for n in reversed(nodes):
                sut(parent.prepend_child, n)
        elif nodes:
            m = len(nodes) // 2
            sut(parent.append_child, nodes[m])
            for n in nodes[:m]:
                sut(nodes[m].insert_before, n)
            for n in reversed(nodes[m + 1:]):
                sut(nodes[m].insert_after, n)
    return root


def consistent(nodes, model=None):
    """Check the pointers of all nodes against one another, and against a
    model {id: [children ids]} with {id: parent id} given as a pair."""
    ids = {id(n): i for i, n in enumerate(nodes)}
    for i, n in enumerate(nodes):
        ch = kids(n)
        if model is not None:
            got = [ids.get(id(c), -1) for c in ch]
            if got != model[0][i]:
                raise Violation('children of node %d are %r, expected %r' % (
                    i, got, model[0][i]))
            p = n.parent
            if (None if p is None else ids.get(id(p), -1)) != model[1][i]:
                raise Violation('parent of node %d is %r, expected %r' % (
                    i, p, model[1][i]))
        for c in ch:
            if c.parent is not n:
                raise Violation('a child does not point to its parent')
        if ch:
            if n.first_child is not ch[0] or n.last_child is not ch[-1]:
                raise Violation('first_child or last_child of %r is wrong' %
                                (n,))
            if ch[0].prv is not None or ch[-1].nxt is not None:
                raise Violation('end of the child list of %r' % (n,))
            for a, b in zip(ch, ch[1:]):
                if a.nxt is not b or b.prv is not a:
                    raise Violation('sibling pointers disagree in %r' % (n,))
        elif n.first_child is not None or n.last_child is not None:
            raise Violation('childless node %r has a first or last child' %
                            (n,))
        if n.parent is None and (n.prv is not None or n.nxt is not None):
            raise Violation('node %r without parent has siblings' % (n,))


def events(root):
    """The expected walk: (node, entering) by the child pointers."""
    out, todo = [], [(root, True)]
    while todo:
        n, e = todo.pop()
        out.append((n, e))
        if e and n.t in CONTAINERS:
            todo.append((n, False))
            for c in reversed(kids(n)):
                todo.append((c, True))
    return out


COUNTS = [10, 20, 40, 70, 130, 260]


def weight(spec):
    """The size of a spec, roughly in nodes."""
    return 1 + len(json.dumps(spec)) // 12


def grow(s, spec):
    """Make something in a tree spec many, deep, or long."""
    todo, lists, lits = [spec], [], []
    while todo:
        x = todo.pop()
        if x[0] in CONTAINERS and isinstance(x[-1], list):
            lists.append(x)
            todo.extend(x[-1])
        elif x[0] in ('text', 'code', 'code_block', 'html_block'):
            lits.append(x)
        if x[0] in ('link', 'image'):
            lits.append(x)
    n = s.pick(COUNTS)
    k = s.below(4)
    if k == 0 and lits:
        x = s.pick(lits)
        i = s.int(1, 2) if x[0] in ('link', 'image', 'code_block') else 1
        v = x[i] or 'ab'
        x[i] = v * max(1, min(n * s.pick([1, 1, 1, 10]), 6000 // len(v)))
    elif k == 1:
        x = s.pick(lists)
        if x[0] in ('emph', 'strong', 'block_quote'):
            for _ in range(n // 2):
                x[-1] = [[x[0], x[-1]]]
    else:
        lists = [x for x in lists if x[-1]]
        if lists:
            x = s.pick(lists)
            i = s.below(len(x[-1]))
            j = i + s.int(1, 2)
            n = max(1, min(n, 4000 // weight(x[-1][i:j])))
            x[-1][i:i] = json.loads(json.dumps(x[-1][i:j])) * n
    return spec


def document_or_big(s, opts=('raw', 'custom')):
    t = document(s, opts)
    return grow(s, json.loads(json.dumps(t))) if s.chance(3) else t


def parsed_or_built(s, opts=('raw', 'custom')):
    """A case: text to parse, or a tree spec."""
    if s.chance(50):
        t = gens.with_defs(s, gens.document(s))
        return gens.stretch(s, t, 3000) if s.chance(3) else t
    return document_or_big(s, opts)


def tree_of(case):
    from .sutlib import parse
    return parse(case) if isinstance(case, str) else build(case)


WORDISH = ['a', 'foo', 'x y', 'b.', '&', '<b>', 'é', 'long word here', '1.',
           "it's", '*', '日本', 'Q', '\U0001f600', '#', '**', '"q"', '`']
