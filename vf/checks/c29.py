"""C29 renderers can be subclassed."""
import types

import commonmark
from commonmark.render.renderer import Renderer

from .. import trees
from ..engine import Part, Prop, Violation, sut
from ..sutlib import Node, expect_eq, short

TYPES = ['document', 'block_quote', 'list', 'item', 'paragraph', 'heading',
         'code_block', 'html_block', 'thematic_break', 'text', 'softbreak',
         'linebreak', 'code', 'html_inline', 'emph', 'strong', 'link',
         'image', 'custom_inline', 'custom_block']
LEAVES = ['code_block', 'html_block', 'thematic_break', 'text', 'softbreak',
          'linebreak', 'code', 'html_inline']
PIECES = ['', '\n', 'a', '<b>', 'x\n', '\n\n', ' ', 'ab', 'é', '\r', '\na',
          'long piece of text', '&', '0']
HTML_OPTS = [{}, {'safe': True}, {'sourcepos': True}, {'softbreak': '<br />'}]
OUTS = ['same', 'upper', 'brackets']


_plain = []


def plain_buffer():
    """Whether what has been written stands in a string, `buf`, to which a
    method can add without what lit() does besides."""
    if not _plain:
        class Probe(commonmark.HtmlRenderer):
            def text(self, node, entering=None):
                try:
                    self.buf += '\ue000'
                except (AttributeError, TypeError):
                    pass
                self.out(node.literal)
        n, p = Node('document', None), Node('text', None)
        p.literal = 'a'
        n.append_child(p)
        _plain.append('\ue000a' in sut(Probe().render, n))
    return _plain[0]


# ------------------------------------------- renderers written from scratch

def gen_own(s):
    names = [t for t in TYPES if s.chance(75)]
    prog = {}
    for t in names:
        prog[t] = [[[s.pick(['lit', 'out', 'cr', 'node']), s.pick(PIECES)]
                    for _ in range(s.small(4))] for _ in range(2)]
    return [[trees.parsed_or_built(s) for _ in range(s.int(1, 2))], prog,
            s.pick(OUTS)]


def change(kind, x):
    return x if kind == 'same' else x.upper() if kind == 'upper' else \
        '[' + x + ']'


def own(prog, kind, log):
    d = {}
    for t, ops in prog.items():
        def f(self, node, entering, ops=ops):
            log.append((node, entering))
            for op, arg in ops[0 if entering else 1]:
                if op == 'lit':
                    self.lit(arg)
                elif op == 'out':
                    self.out(arg)
                elif op == 'cr':
                    self.cr()
                elif node.literal:
                    self.out(node.literal)
        d[t] = f
    if kind != 'same':
        d['out'] = lambda self, x: self.lit(change(kind, x))
    return type(str('Own'), (Renderer,), d)


def model(prog, kind, evs):
    buf, last = [], '\n'
    for n, e in evs:
        for op, arg in prog.get(n.t, [[], []])[0 if e else 1]:
            if op == 'cr':
                if last == '\n':
                    continue
                x = '\n'
            elif op == 'lit':
                x = arg
            elif op == 'out':
                x = change(kind, arg)
            elif n.literal:
                x = change(kind, n.literal)
            else:
                continue
            buf.append(x)
            last = x
    return ''.join(buf)


def same_events(log, want, what):
    if len(log) != len(want):
        raise Violation('%s: %d calls instead of %d' % (what, len(log),
                                                        len(want)))
    for i, ((n, e), (m, f)) in enumerate(zip(log, want)):
        if n is not m or e is not f:
            raise Violation('%s: call %d is for %s %r, expected %s %r' % (
                what, i, n.t, e, m.t, f))


def check_own(case, st):
    docs, prog, kind = case
    log = []
    r = sut(own(prog, kind, log))
    size = 0
    for d in docs:                     # the same renderer for all of them
        root = trees.tree_of(d)
        evs = trees.events(root)
        del log[:]
        got = sut(r.render, root)
        same_events(log, [x for x in evs if x[0].t in prog], 'own renderer')
        expect_eq(got, model(prog, kind, evs), 'what the renderer wrote')
        size = max(size, len(log))
    st.nt(size >= 5)


# -------------------------------------------- changes to the given renderers

def gen_sub(s):
    return [trees.parsed_or_built(s),
            [t for t in TYPES if s.chance(s.pick([15, 50]))],
            s.below(len(HTML_OPTS) + 1), s.pick(['log', 'mark', 'drop'])]


def base(kind):
    if kind == len(HTML_OPTS):
        return commonmark.ReStructuredTextRenderer, None
    return commonmark.HtmlRenderer, HTML_OPTS[kind]


def new(cls, opts):
    return sut(cls) if opts is None else sut(cls, dict(opts))


def subclass(cls, names, how, log):
    d = {}
    for t in names:
        if how != 'drop' and not hasattr(cls, t):
            continue

        def f(self, node, entering=True, t=t):
            log.append((node, entering))
            if how == 'drop':
                return
            if how == 'mark':
                self.buf += '\ue000'
            getattr(super(Sub, self), t)(node, entering)
            if how == 'mark':
                self.buf += '\ue001'
        d[t] = f
    Sub = type(str('Sub'), (cls,), d)
    return Sub, set(d)


def check_sub(case, st):
    doc, names, kind, how = case
    cls, opts = base(kind)
    root = trees.tree_of(doc)
    if how == 'drop':
        # (the reStructuredText renderer looks at neighbours)
        names = [t for t in names if t in LEAVES]
        if cls is commonmark.ReStructuredTextRenderer:
            cls, opts = commonmark.HtmlRenderer, {}
    if how == 'mark' and (cls is commonmark.ReStructuredTextRenderer or
                          not plain_buffer()):
        how = 'log'        # it measures what it has written
    log = []
    Sub, have = subclass(cls, names, how, log)
    evs = trees.events(root)
    got = sut(new(Sub, opts).render, root)
    same_events(log, [x for x in evs if x[0].t in have], 'subclass')
    what = 'with methods for %s overridden (%s)' % (
        ' '.join(sorted(have)) or 'nothing', how)
    if how == 'mark':
        expect_eq(got.replace('\ue000', '').replace('\ue001', ''),
                  sut(new(cls, opts).render, root), what)
        if got.count('\ue000') != len(log):
            raise Violation(what + ': what the methods wrote is missing')
    elif how == 'log':
        expect_eq(got, sut(new(cls, opts).render, root), what)
    else:
        for n, e in evs:
            if n.t in have:
                n.unlink()
        expect_eq(got, sut(new(cls, opts).render, root),
                  what + ' against the tree without these nodes')
    st.label(how)
    st.nt(len(log) >= 3)


# ------------------------------------------------- node types of one's own

def gen_types(s):
    return [trees.parsed_or_built(s),
            [[s.pick(['note', 'x1', 'my_leaf', 'figure', 'Text2']),
              s.below(1000), s.pick(PIECES)] for _ in range(s.int(1, 4))],
            s.below(len(HTML_OPTS) + 1),
            s.pick([True, True, 'own', 'dynamic', False])]


def check_types(case, st):
    """Leaves of an unknown type: a renderer with a method for it calls it,
    one without passes them by."""
    doc, adds, kind, known = case
    cls, opts = base(kind)
    if cls is commonmark.ReStructuredTextRenderer:
        cls, opts = commonmark.HtmlRenderer, {}
    write = plain_buffer()
    root = trees.tree_of(doc)
    plain = sut(new(cls, opts).render, root)
    log, added = [], []
    for t, i, text in adds:
        hosts = [n for n, e in trees.events(root) if e and n.t in (
            'paragraph', 'heading', 'emph', 'document', 'block_quote')]
        h = hosts[i % len(hosts)]
        n = Node(t, None)
        n.literal = text
        h.append_child(n)
        added.append(n)

    def f(self, node, entering):
        log.append((node, entering))
        if write:
            self.buf += '\ue000' + node.literal + '\ue001'
    if known == 'own':
        # methods of this one renderer
        ren = new(cls, opts)
        for t, _, _ in adds:
            setattr(ren, t, types.MethodType(f, ren))
    elif known == 'dynamic':
        # methods made when they are asked for
        names = [t for t, _, _ in adds]

        class Dyn(cls):
            def __getattr__(self, name):
                if name in names:
                    return types.MethodType(f, self)
                raise AttributeError(name)
        ren = new(Dyn, opts)
    else:
        Sub = type(str('Sub'), (cls,), dict((t, f) for t, _, _ in adds)
                   if known else {})
        ren = new(Sub, opts)
    got = sut(ren.render, root)
    evs = [x for x in trees.events(root) if x[0] in added]
    same_events(log, evs if known else [], 'new node types')
    want = ''
    rest = got
    for n, _ in evs if known and write else []:
        mark = '\ue000' + n.literal + '\ue001'
        i = rest.find(mark)
        if i < 0:
            raise Violation('%r is missing or out of order in %s' % (
                mark, short(got)))
        want += rest[:i]
        rest = rest[i + len(mark):]
    expect_eq(want + rest, plain, 'the rest of the output')
    st.nt(len(evs) >= 2)


PROP = Prop('C29', [
    Part('own', gen_own, check_own, 5000, 200000,
         'renderers with random methods for random node types, used for one '
         'or two trees; non-trivial: at least five calls', deep=True),
    Part('sub', gen_sub, check_sub, 8000, 300000,
         'subclasses of the HTML and reStructuredText renderers that log, '
         'mark or drop nodes of random types; non-trivial: at least three '
         'calls', deep=True),
    Part('types', gen_types, check_types, 4000, 150000,
         'leaves of new types added to a tree; non-trivial: at least two', deep=True),
])
