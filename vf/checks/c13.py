"""C13 node operations: stateful check against an ordered-tree model."""
from .. import gens, trees
from ..engine import Part, Prop, sut
from ..sutlib import Node, parse, walk

TYPES = ['document', 'block_quote', 'list', 'item', 'paragraph', 'emph',
         'strong', 'link', 'heading', 'custom_block']
LEAF = ['text', 'code', 'softbreak', 'thematic_break', 'code_block']
OPS = ['append', 'prepend', 'before', 'after', 'unlink']


def gen(s):
    n = s.pick([20, 60, 150]) if s.chance(2) else s.int(2, 9)
    types = [s.pick(TYPES) if s.chance(70) else s.pick(LEAF)
             for _ in range(n)]
    types[0] = 'document'
    return [types, [[s.pick(OPS), s.below(n), s.below(n)]
                    for _ in range(s.int(1, max(40, 2 * n)))]]


def gen_parsed(s):
    return [gens.document(s), [[s.pick(OPS), s.below(1000), s.below(1000)]
                               for _ in range(s.int(1, 25))]]


class Model(object):
    """Ordered forest over numbers."""

    def __init__(self, kids, parent):
        self.kids = kids
        self.parent = parent

    def detach(self, i):
        p = self.parent[i]
        if p is not None:
            self.kids[p].remove(i)
            self.parent[i] = None

    def ancestors(self, i):
        while i is not None:
            yield i
            i = self.parent[i]

    def attach(self, i, p, at):
        self.kids[p].insert(at, i)
        self.parent[i] = p

    def legal(self, op, a, b):
        """op with b relative to a makes sense."""
        if op == 'unlink':
            return True
        if a == b:
            return False
        if op in ('append', 'prepend'):
            return b not in self.ancestors(a)
        return self.parent[a] is not None and b not in self.ancestors(a)

    def apply(self, op, a, b):
        if op == 'unlink':
            self.detach(a)
            return
        self.detach(b)
        if op == 'append':
            self.attach(b, a, len(self.kids[a]))
        elif op == 'prepend':
            self.attach(b, a, 0)
        else:
            p = self.parent[a]
            at = self.kids[p].index(a) + (op == 'after')
            self.attach(b, p, at)


def do(nodes, op, a, b):
    if op == 'unlink':
        sut(nodes[a].unlink)
    elif op == 'append':
        sut(nodes[a].append_child, nodes[b])
    elif op == 'prepend':
        sut(nodes[a].prepend_child, nodes[b])
    elif op == 'before':
        sut(nodes[a].insert_before, nodes[b])
    else:
        sut(nodes[a].insert_after, nodes[b])


def play(nodes, model, ops, st):
    done = moves = 0
    n = len(nodes)
    for op, a, b in ops:
        a, b = a % n, b % n
        if op in ('append', 'prepend') and nodes[a].t in LEAF:
            continue
        if not model.legal(op, a, b):
            continue
        if op != 'unlink' and model.parent[b] is not None:
            moves += 1
            if model.parent[b] == (a if op in ('append', 'prepend')
                                   else model.parent[a]):
                st.label('move within one parent')
            else:
                st.label('move to another parent')
        do(nodes, op, a, b)
        model.apply(op, a, b)
        done += 1
        trees.consistent(nodes, (model.kids, model.parent))
    st.nt(done >= 3 and moves >= 1)


def check(case, st):
    types, ops = case
    nodes = [sut(Node, t, None) for t in types]
    play(nodes, Model([[] for _ in nodes], [None] * len(nodes)), ops, st)


def check_parsed(case, st):
    text, ops = case
    nodes = walk(parse(text))
    trees.consistent(nodes)
    ids = {id(x): i for i, x in enumerate(nodes)}
    parent = [None if x.parent is None else ids[id(x.parent)] for x in nodes]
    kids = [[] for _ in nodes]
    for i, p in enumerate(parent):
        if p is not None:
            kids[p].append(i)
    play(nodes, Model(kids, parent), ops[:60 // (1 + len(nodes) // 20)], st)


NT = 'at least three operations, one of them a move'
PROP = Prop('C13', [
    Part('ops', gen, check, 20000, 800000,
         'random operation sequences on 2-9 nodes; non-trivial: ' + NT),
    Part('parsed', gen_parsed, check_parsed, 5000, 150000,
         'the same on the nodes of parsed documents; non-trivial: ' + NT),
])
