"""C28 a document written out from a tree parses back to that tree."""
from .. import refmodel, writer
from ..engine import Part, Prop, Skip
from ..sutlib import expect_eq, expect_tree, html_of, parse, snap
from .c06 import from_snap
from .c11 import respell, squeeze


def gen_doc(s):
    t, want = writer.document(s)
    return [t, want]


def gen_deep(s):
    t, want = writer.document(s, 7, 1)
    return [t, want]


def gen_big(s):
    """Long texts, long lists, many lines: but not nested deep."""
    s.big = True
    if s.chance(30):
        return gen_inline(s)
    t, want = writer.document(s, 3, 3)
    return [t, want]


def gen_inline(s):
    defs = writer.Defs()
    c = writer.Ctx(s.int(2, 5), False, False, '', defs)
    t, kids = writer.seq(s, c, top=True)
    ls = ['\n'.join(x for x, _ in writer.definition(s, k, defs).lines)
          for k in defs.map]
    return ['\n\n'.join([t] + ls) + '\n',
            ('document', (('paragraph', tuple(kids)),))]


def gen_tabs(s):
    t, want = writer.document(s) if s.chance(70) else writer.document(s, 6, 2)
    L = respell(t.replace('\t', '    ').split('\n'), lambda: s.chance(65))
    return ['\n'.join(L), want, t]


def check_tabs(case, st):
    text, want = case[0], writer.to_tuple(case[1])
    if '\t' in case[2]:
        raise Skip('tabs of its own')
    expect_tree(squeeze(snap(parse(text))), squeeze(want),
                'tree of %r' % text)
    st.nt('\t' in text)


def kinds(x, acc):
    acc.add(x[0])
    for k in x[1:]:
        if isinstance(k, tuple):
            for y in k:
                kinds(y, acc)
    return acc


def check(case, st):
    text, want = case[0], writer.to_tuple(case[1])
    ast = parse(text)
    expect_tree(snap(ast), want, 'tree of %r' % text)
    if '&#10;' not in text and '&#xa;' not in text.lower() and \
            '&NewLine;' not in text:
        # (where a line ending written as a reference meets a hard break in
        # an image description, how many come out is nobody's business)
        expect_eq(html_of(ast), refmodel.Html().render(from_snap(want)),
                  'HTML of %r' % text)
    ks = kinds(want, set()) - {'document', 'text', 'paragraph'}
    for k in ks:
        st.label(k)
    st.nt(len(ks) >= 1)


PROP = Prop('C28', [
    Part('documents', gen_doc, check, 40000, 1500000,
         'a tree of up to 5 top-level blocks nested up to 4 deep, written '
         'with random spellings; non-trivial: it has more than paragraphs of '
         'plain text'),
    Part('tabs', gen_tabs, check_tabs, 10000, 400000,
         'as above, with tabs for blanks at the beginning of lines, blanks '
         'not compared; non-trivial: there is a tab'),
    Part('deep', gen_deep, check, 12000, 450000,
         'few blocks nested up to 7 deep; non-trivial: as above'),
    Part('big', gen_big, check, 2500, 90000,
         'up to 30 inlines or lines in a block, 15 items in a list, 80 '
         'characters in a fence or underline; non-trivial: as above'),
    Part('inline', gen_inline, check, 40000, 1500000,
         'one paragraph of inlines nested up to 5 deep, with the reference '
         'definitions it needs; non-trivial: as above'),
])
