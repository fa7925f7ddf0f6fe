"""C12 results do not depend on history."""
import html.entities
import sys

import commonmark

from .. import gens, refmodel, repo
from ..engine import Part, Prop, Skip, Violation, sut
from ..sutlib import (ast_dump, expect_eq, expect_tree, parse, snap, walk)

PARSER_OPTS = [None, {}, {'smart': True}, {'smart': False}]
HTML_OPTS = [None, {}, {'safe': True}, {'sourcepos': True},
             {'softbreak': '<br />\n'}, {'softbreak': ' ', 'safe': True}]
OPS = ['parse', 'parse', 'parse', 'render', 'render', 'render', 'json', 'ast',
       'oneshot', 'part', 'part', 'new']


def small_doc(s):
    k = s.below(4)
    if k == 0:
        t = gens.with_defs(s, gens.inline(s, 2))
    elif k == 1:
        t = gens.soup_lines(s, 5)
    elif k == 2:
        t = gens.structured(s)
    else:
        t = s.pick(['[r]\n', '[r]: /other "x"\n\n[r] [foo]\n', '"a" -- \'b\'\n',
                    '[foo]: /1\n[Foo]: /2\n', '[foo] [bar][r]\n',
                    '```\nopen', '- a\n- [r]: /in\n', '> ```\n> [r]\n',
                    '<!-- open', '![*a*](b "c")\n', 'a\nb  \nc\n',
                    '1. [r]\n\n2. c\n', '\t', '', '<script>\n', '![a',
                    'javascript <b>x</b> [a](javascript:b)\n'])
        t += s.pick(['', '', '\n[r]: /r%d\n' % s.below(3)])
    return t


TWINS = [('a', 'A'), ('a', 'b'), ('b', 'B'), ('r', 'R'), ('x', 'X'),
         ('1', '2'), ('"', "'"), ('`', '``'), ('/u', '/v'), ('*', '_'),
         ('- ', '+ '), ('```', '~~~'), ('foo', 'Foo'), ('> ', '- '),
         (' ', '  '), ('\n', '\n\n'), ('é', 'É'), ('<', '&lt;'), ('(', '(<'),
         ('py', 'Py'), ('#', '##'), ('=', '-')]


def twin(s, t):
    """A document that resembles t: what is remembered of one must not show
    in the other."""
    k = s.below(8)
    if k == 0:
        return t.swapcase()
    if k == 1:
        return gens.mutate(s, t)
    if k == 2:
        i = s.below(len(t) + 1)
        return t[i:] + '\n\n' + t[:i]
    if k == 3:
        return '\n'.join(x + s.pick(['', '', ' x', '`', '*', '"', ' ', ']'])
                         for x in t.split('\n'))
    have = [p for p in TWINS if p[0] in t]
    if not have:
        return t.upper()
    a, b = s.pick(have)
    if k < 6:
        return t.replace(a, b)
    i = s.pick([i for i in range(len(t)) if t.startswith(a, i)])
    return t[:i] + b + t[i + len(a):]


def language(s):
    f = s.pick(['```', '~~~', '````'])
    return f + s.pick(['py', 'Py', 'PY', 'c', 'C', 'py x', 'c++', 'py&amp;',
                       '', ' py', 'é', 'É', 'js"']) + '\n' + s.pick(
        ['x', '<', '']) + '\n' + f + '\n'


def gen_docs(s):
    docs = [small_doc(s) for _ in range(s.int(1, 3))]
    if s.chance(15):
        docs[0] += '\n' + language(s)
    while len(docs) < 2 or (len(docs) < 4 and s.chance(45)):
        docs.append(twin(s, s.pick(docs)))
        if s.chance(15):
            docs[-1] += '\n\n' + language(s)
    return docs


def gen(s):
    docs = gen_docs(s)
    return [docs, [s.below(len(PARSER_OPTS)) for _ in range(s.int(1, 3))],
            [s.below(len(HTML_OPTS) + 1) for _ in range(s.int(1, 3))],
            s.chance(50),
            [[s.pick(OPS), s.below(1000), s.below(1000)]
             for _ in range(s.int(4, 24))]]


def deep(ast):
    """Everything observable about a tree."""
    return [(n.t, n.literal, n.destination, n.title, n.info, n.level,
             repr(sorted((n.list_data or {}).items(), key=str)),
             repr(n.sourcepos), n.string_content, n.is_open,
             n.last_line_blank, id(n), id(n.parent), id(n.nxt))
            for n in walk(ast)]


def renderer(kind, opts):
    if kind == len(HTML_OPTS):
        return sut(commonmark.ReStructuredTextRenderer)
    if opts is None:
        return sut(commonmark.HtmlRenderer)
    return sut(commonmark.HtmlRenderer, opts)


def parser(opts):
    return sut(commonmark.Parser) if opts is None else \
        sut(commonmark.Parser, opts)


def copy(o):
    return None if o is None else dict(o)


def check(case, st):
    docs, pks, rks, share, ops = case
    # what fresh objects give, computed first
    base = {}
    for d, t in enumerate(docs):
        for smart in (False, True):
            ast = sut(parser({'smart': True} if smart else None).parse, t)
            b = {'snap': snap(ast)}
            for k in range(len(HTML_OPTS) + 1):
                o = copy(HTML_OPTS[k]) if k < len(HTML_OPTS) else None
                b[k] = sut(renderer(k, o).render, ast)
            b['json'] = sut(commonmark.dumpJSON, ast)
            b['ast'] = ast_dump(ast)
            base[d, smart] = b
        doc, refs, amb = refmodel.parse(t)
        if not amb:
            expect_eq(base[d, False][0], refmodel.Html().render(doc),
                      'HTML of document %d' % d)
    popts = [copy(PARSER_OPTS[k]) for k in pks]
    ropts = [copy(HTML_OPTS[k]) if k < len(HTML_OPTS) else None for k in rks]
    if share:       # the same dict object for two instances
        for i in range(1, len(ropts)):
            if rks[i] == rks[0]:
                ropts[i] = ropts[0]
    pin = [copy(o) for o in popts]
    rin = [copy(o) for o in ropts]
    ps = [parser(o) for o in popts]
    rs = [renderer(k, o) for k, o in zip(rks, ropts)]
    trees = []
    count = 0

    def smart(i):
        return bool((PARSER_OPTS[pks[i]] or {}).get('smart'))

    for op, a, b in ops:
        if op == 'parse':
            i, d = a % len(ps), b % len(docs)
            ast = sut(ps[i].parse, docs[d])
            expect_tree(snap(ast), base[d, smart(i)]['snap'],
                        'document %d by used parser %d' % (d, i))
            trees.append([d, smart(i), ast, deep(ast)])
            count += 1
        elif op == 'new':
            if len(ps) < 6:
                k = a % len(PARSER_OPTS)
                pks = pks + [k]
                popts.append(copy(PARSER_OPTS[k]))
                pin.append(copy(PARSER_OPTS[k]))
                ps.append(parser(popts[-1]))
                k = b % len(HTML_OPTS)
                rks = rks + [k]
                ropts.append(copy(HTML_OPTS[k]))
                rin.append(copy(HTML_OPTS[k]))
                rs.append(renderer(k, ropts[-1]))
        elif op == 'oneshot':
            d = a % len(docs)
            expect_eq(sut(commonmark.commonmark, docs[d]),
                      base[d, False][0], 'commonmark()')
        elif not trees:
            continue
        else:
            t = trees[a % len(trees)]
            want = base[t[0], t[1]]
            if op == 'render':
                i = b % len(rs)
                expect_eq(sut(rs[i].render, t[2]), want[rks[i]],
                          'document %d by used renderer %d (%r)' % (
                              t[0], i, ropts[i]))
                count += 1
            elif op == 'part':
                # a part of the tree, which may not end in a line break
                i = b % len(rs)
                nodes = [n for n in walk(t[2]) if n is not t[2]]
                if nodes:
                    n = nodes[(a + b) % len(nodes)]
                    fresh = renderer(rks[i], copy(rin[i]))
                    expect_eq(sut(rs[i].render, n), sut(fresh.render, n),
                              'a %s of document %d by used renderer %d (%r)'
                              % (n.t, t[0], i, ropts[i]))
                    count += 1
            elif op == 'json':
                expect_eq(sut(commonmark.dumpJSON, t[2]), want['json'],
                          'JSON')
            else:
                expect_eq(ast_dump(t[2]), want['ast'], 'AST')
        for t in trees:
            if len(trees) < 5 or t is trees[-1]:
                if deep(t[2]) != t[3]:
                    raise Violation('%s changed a tree' % op)
    for t in trees:
        if deep(t[2]) != t[3]:
            raise Violation('a tree changed')
    if popts != pin or ropts != rin:
        raise Violation('a dictionary of options changed: %r %r' % (
            popts, ropts))
    # and fresh objects still give the same
    for d, t in enumerate(docs):
        ast = sut(parser(None).parse, t)
        expect_tree(snap(ast), base[d, False]['snap'], 'fresh parser after')
        expect_eq(sut(renderer(0, None).render, ast), base[d, False][0],
                  'fresh renderer after')
    st.nt(count >= 3)
    if share:
        st.label('shared options')


def gen_pristine(s):
    return [gen_docs(s) + [gens.document(s)], s.below(6), s.chance(30)]


def results(cm, t, kind, smart):
    p = cm.Parser({'smart': True}) if smart else cm.Parser()
    ast = sut(p.parse, t)
    o = copy(HTML_OPTS[kind])
    r = cm.HtmlRenderer() if o is None else cm.HtmlRenderer(o)
    return [sut(r.render, ast), sut(cm.ReStructuredTextRenderer().render, ast),
            sut(cm.dumpJSON, ast)]


def check_pristine(case, st):
    """The package as this process has used it for thousands of documents
    against one imported anew for the last document alone."""
    docs, kind, smart = case
    old = [results(commonmark, t, kind, smart) for t in docs]
    new = results(repo.pristine(), docs[-1], kind, smart)
    for name, a, b in zip(('HTML', 'RST', 'JSON'), old[-1], new):
        expect_eq(a, b, '%s of the last document, after others' % name)
    cm = repo.pristine()
    for i in list(range(len(docs))[::-1]) + [0]:
        for name, a, b in zip(('HTML', 'RST', 'JSON'),
                              results(cm, docs[i], kind, smart), old[i]):
            expect_eq(a, b, '%s of document %d, in another order' % (name, i))
    st.nt(len(set(x[0] for x in old)) > 1)


TOOL = 4


class Interruption(object):
    """Runs f once, in the middle of g: when g has executed `at` lines of the
    package, as when another thread gets its turn there."""

    def __init__(self, at, f):
        self.left, self.f, self.result, self.n = at, f, None, 0

    def line(self, code, no):
        if not code.co_filename.startswith(repo.REPO):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n == self.left:
            try:
                self.result = self.f()
            except Exception as e:
                self.result = e
        return None

    def run(self, g):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'vf')
        try:
            mon.restart_events()
            mon.register_callback(TOOL, mon.events.LINE, self.line)
            mon.set_events(TOOL, mon.events.LINE)
            return g()
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)


def gen_preempt(s):
    docs = gen_docs(s)
    return [docs[:1] + [s.pick(docs)], s.below(6), s.chance(40), s.chance(40),
            s.below(1000)]


def check_preempt(case, st):
    (a, b), kind, sa, sb, place = case

    def work(t, smart):
        return lambda: results(commonmark, t, kind, smart)

    wa, wb = work(a, sa)(), work(b, sb)()
    count = Interruption(0, None)
    got = count.run(work(a, sa))
    it = Interruption(1 + count.n * place // 1000, work(b, sb))
    got = it.run(work(a, sa))
    if isinstance(it.result, Exception):
        raise Violation('the other document: %s' % it.result)
    if it.result is None:
        raise Skip('not reached')
    for name, x, y in zip(('HTML', 'RST', 'JSON'), it.result, wb):
        expect_eq(x, y, '%s of a document processed while another one is' %
                  name)
    for name, x, y in zip(('HTML', 'RST', 'JSON'), got, wa):
        expect_eq(x, y, '%s of a document, with another one processed in '
                  'between' % name)
    st.nt(wa[0] != wb[0])


LONG = [20, 50, 70, 120, 130, 200, 260, 500, 520, 1010, 1030, 2060, 4100]
ENTITIES = sorted(k for k in html.entities.html5 if k.endswith(';'))


def nth(i):
    """One of a series of documents in which everything differs."""
    return ('# h%d\n\n[L%d]: /u%d?%d "t%d"\n\n[x%d][l%d] *e%d* **s%d** `c%d` '
            '&#%d; &%s\\%s <http://a.b/%d> <b a="%d"> ![i%d](</p %d> "%d")\n\n'
            '``` lang%d\nz%d\n```\n\n%d. item\n\n- "q%d"...--\n\n> p%d\n'
            % ((i,) * 10 + (33 + i, ENTITIES[i % len(ENTITIES)],
                            '!"#$%%&\'()*+,'[i % 13]) + (i,) * 7 +
               (i % 2000,) + (i,) * 2))


def gen_long(s):
    return [s.pick(LONG), s.below(5000), s.below(6), s.chance(30),
            s.chance(50), [small_doc(s) for _ in range(2)]]


def check_long(case, st):
    """Objects of a package imported anew, used for n documents, against new
    ones of another."""
    n, start, kind, smart, same, docs = case
    cm, ref = repo.pristine(), repo.pristine()

    def make(m):
        o = copy(HTML_OPTS[kind])
        return (m.Parser({'smart': True}) if smart else m.Parser(),
                m.HtmlRenderer() if o is None else m.HtmlRenderer(o),
                m.ReStructuredTextRenderer())

    def out(m, objs, t):
        ast = sut(objs[0].parse, t)
        return [sut(objs[1].render, ast), sut(objs[2].render, ast),
                sut(m.dumpJSON, ast)]
    used = make(cm)
    for i in range(n):
        out(cm, used if same else make(cm), nth(start + i))
    probes = [docs[0], nth(start), nth(start + n - 1), nth(start + n),
              nth(start).swapcase(), docs[1]]
    for d, t in enumerate(probes):
        want = out(ref, make(ref), t)
        for what, objs in (('used', used), ('new', make(cm))):
            for name, a, b in zip(('HTML', 'RST', 'JSON'), out(cm, objs, t),
                                  want):
                expect_eq(a, b, '%s of document %d by %s objects, after %d '
                          'others' % (name, d, what, n))
    st.label('same objects' if same else 'objects of their own')
    st.nt(n >= 100)


PROP = Prop('C12', [
    Part('histories', gen, check, 5000, 150000,
         'histories of parses, renderings and dumps by several instances; '
         'non-trivial: at least three parses or renderings by used objects'),
    Part('pristine', gen_pristine, check_pristine, 500, 20000,
         'documents and lookalikes, in two orders, against a package imported '
         'anew; non-trivial: at least two different results'),
    Part('long', gen_long, check_long, 24, 1500,
         'a document after up to 4100 others that differ in every word; '
         'non-trivial: a hundred or more', cpu=120),
    Part('preempt', gen_preempt, check_preempt, 1500, 60000,
         'a document processed by objects of its own in the middle of '
         'processing another one, after a random number of executed lines '
         '(as by another thread); non-trivial: different results'),
])
