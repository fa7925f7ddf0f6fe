"""C14 the walker."""
from .. import trees
from ..engine import Part, Prop, Violation, sut
from ..sutlib import walk


def gen(s):
    return [trees.parsed_or_built(s), s.below(1000),
            [s.below(1000) for _ in range(4)], s.below(4),
            [s.pick([0, 1, 2]) for _ in range(3)]]


def show(ev, n):
    return '[%s]' % ', '.join('%s %s' % ('+' if e else '-', x.t)
                              for x, e in ev[:n])


def same(got, want, what):
    if len(got) != len(want) or any(
            a is not c or bool(b) is not d for (a, b), (c, d) in
            zip(got, want)):
        i = 0
        while i < min(len(got), len(want)) and got[i][0] is want[i][0] and \
                bool(got[i][1]) is want[i][1]:
            i += 1
        raise Violation('%s: event %d is %s, expected %s' % (
            what, i, show(got[i:], 2), show(want[i:], 2)))


def by_nxt(w, limit):
    out = []
    while True:
        e = sut(w.nxt)
        if e is None:
            return out
        out.append((e['node'], e['entering']))
        if len(out) > limit:
            raise Violation('the walk does not end')


def by_for(w, limit):
    out = []
    it = iter(w)
    while True:
        try:
            n, e = next(it)
        except StopIteration:
            return out
        except Exception as x:
            raise Violation('iteration raised %r' % x)
        out.append((n, e))
        if len(out) > limit:
            raise Violation('the walk does not end')


def check(case, st):
    tree, r, resumes, mode, order = case
    root = trees.build(tree, order) if isinstance(tree, list) else \
        trees.tree_of(tree)
    nodes = walk(root)
    sub = nodes[r % len(nodes)] if mode else root
    want = trees.events(sub)
    lim = len(want) + 5
    same(by_nxt(sut(sub.walker), lim), want, 'nxt')
    same(by_for(sut(sub.walker), lim), want, 'for')
    w = sut(sub.walker)
    # part by nxt, the rest by iteration
    k = resumes[0] % (len(want) + 1)
    got = []
    for _ in range(k):
        e = sut(w.nxt)
        if e is None:
            raise Violation('the walk ends early')
        got.append((e['node'], e['entering']))
    same(got + by_for(w, lim), want, 'nxt then for')
    if sut(w.nxt) is not None:
        raise Violation('the walk goes on after its end')
    for x in resumes[1:]:
        i = x % len(want)
        sut(w.resume_at, want[i][0], want[i][1])
        # leave the walk half way before the next resume
        rest = want[i:]
        m = x % 3
        if m == 0:
            same(by_nxt(w, lim), rest, 'after resume_at')
        elif m == 1:
            same(by_for(w, lim), rest, 'after resume_at')
        else:
            got = []
            for _ in range(min(2, len(rest))):
                e = sut(w.nxt)
                if e is None:
                    raise Violation('the walk ends early')
                got.append((e['node'], e['entering']))
            same(got, rest[:2], 'after resume_at')
    st.nt(len(want) >= 6)
    if sub is not root:
        st.label('subtree')
        if sub.nxt is not None:
            st.label('root with siblings')
    if any(n.t in trees.CONTAINERS and n.first_child is None for n in nodes):
        st.label('empty container')


PROP = Prop('C14', [
    Part('walks', gen, check, 12000, 450000,
         'walks from random roots of parsed and built trees, resumed at '
         'random events; non-trivial: at least six events', deep=True),
])
