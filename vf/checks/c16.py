"""C16 JSON and AST dumps."""
import contextlib
import io
import json
import re

import commonmark

from .. import trees
from ..engine import Part, Prop, Skip, Violation, sut
from ..sutlib import CONTAINERS, ast_dump, expect_eq, snap


def gen(s):
    return trees.parsed_or_built(s, ('raw',))


KEYS = ('literal', 'title', 'info', 'destination', 'list_data')


def record(n):
    r = {'type': n.t}
    for k in KEYS:
        v = getattr(n, k)
        if v:
            r[k] = v
    return json.loads(json.dumps(r))


def flatten(js):
    """The event list: (record, entering)."""
    data = json.loads(js)
    if not isinstance(data, list) or not data:
        raise Violation('JSON is not a list')
    out = []
    for i, r in enumerate(data):
        out.append((r, i == 0))
        for k in r.get('children', ()):
            if k.get('children'):
                raise Violation('an entered node has children in the JSON')
            out.append((k, True))
    return out


def rebuild(evs):
    """The tree (nested tuples) from the event list alone."""
    stack, root = [], None
    for r, entering in evs:
        t = r['type']
        if entering:
            v = [t, {k: r[k] for k in KEYS if k in r}, []]
            if stack:
                stack[-1][2].append(v)
            elif root is None:
                root = v
            else:
                raise Violation('two roots')
            if t in CONTAINERS:
                stack.append(v)
        else:
            if not stack or stack[-1][0] != t:
                raise Violation('leave event of %s does not match' % t)
            stack.pop()
    if stack:
        raise Violation('nodes are not left')
    return root


def nested(n):
    r = record(n)
    r.pop('type')
    from ..sutlib import kids
    return [n.t, r, [nested(c) for c in kids(n)] if n.t in CONTAINERS else []]


HEAD = re.compile(r'^\t\t-> \[([a-z_]+)\]$', re.M)


def check(case, st):
    root = trees.tree_of(case)
    evs = trees.events(root)
    js = sut(commonmark.dumpJSON, root)
    try:
        flat = flatten(js)
    except ValueError as e:
        raise Violation('invalid JSON: %s' % e)
    if len(flat) != len(evs):
        raise Violation('%d events in the JSON, %d in the tree' % (
            len(flat), len(evs)))
    for (r, e), (n, entering) in zip(flat, evs):
        want = record(n)
        got = {k: r[k] for k in ('type',) + KEYS if k in r}
        if got != want or e != entering:
            raise Violation('JSON event %r (enter: %s) instead of %r (%s)' % (
                got, e, want, entering))
        if (n.t in CONTAINERS) != ('children' in r):
            raise Violation('children key of %s' % n.t)
    if rebuild(flat) != nested(root):
        raise Violation('the rebuilt tree differs')
    st.nt(len(evs) >= 6)
    dump_check(root, evs)
    if isinstance(case, str):
        expect_eq(sut(commonmark.commonmark, case, 'json'), js,
                  'commonmark(json)')
        expect_eq(sut(commonmark.commonmark, case, format='json'), js,
                  'commonmark(format=json)')
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            sut(commonmark.commonmark, case, 'ast')
        expect_eq(buf.getvalue(), ast_dump(root), 'commonmark(ast)')
        st.label('parsed')
    else:
        st.label('built')


def dump_check(root, evs):
    out = ast_dump(root)
    if not out.startswith('[%s]\n' % root.t):
        raise Violation('AST dump starts with %r' % out[:40])
    if HEAD.search('\n'.join((n.literal or '') + '\n' + (n.title or '') +
                             '\n' + (n.info or '') for n, _ in evs)):
        raise Skip('text that looks like the dump')
    heads = list(HEAD.finditer(out))
    got = [m.group(1) for m in heads]
    want = [n.t for n, _ in evs]
    if got != want:
        raise Violation('AST dump lists %r, expected %r' % (got[:40],
                                                            want[:40]))
    for i, (m, (n, e)) in enumerate(zip(heads, evs)):
        end = heads[i + 1].start() if i + 1 < len(heads) else len(out)
        body = out[m.end():end]
        for name, v in (('Literal', n.literal), ('Title', n.title),
                        ('Destination', n.destination), ('Info', n.info)):
            # the attribute, alone on its line(s)
            if v and ('\t\t\t-> ' not in v) and \
                    '-> %s: %s\n' % (name, v) not in body:
                raise Violation('%s %r of %s not in %r' % (name, v, n.t,
                                                           body[:200]))
            if not v and re.search('-> %s: [^\n]' % name, body) and \
                    '-> %s: ' % name not in (n.literal or '') + \
                    (n.title or '') + (n.info or ''):
                raise Violation('%s of %s in %r' % (name, n.t, body[:200]))
        d = n.list_data
        for k in ('type', 'bullet_char', 'start', 'delimiter'):
            v = d.get(k) if d else None
            line = '[%s] = ' % k
            if v and line + str(v) + '\n' not in body:
                raise Violation('%s = %r of %s not in %r' % (k, v, n.t,
                                                             body[:300]))
            if not v and '-> ' + line in body and \
                    line not in (n.literal or ''):
                raise Violation('%s of %s in %r' % (k, n.t, body[:300]))


PROP = Prop('C16', [
    Part('dumps', gen, check, 9000, 300000,
         'dumps of parsed and built trees decoded again; non-trivial: at '
         'least six events', deep=True),
])
