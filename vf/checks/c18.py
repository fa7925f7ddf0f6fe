"""C18 the cmark command."""
import contextlib
import gc
import io
import os
import subprocess
import sys

import commonmark
import commonmark.cmark as cmark

from .. import gens, repo
from ..engine import Part, Prop, Skip, Violation, sut
from ..sutlib import ast_dump, parse, short

MODES = [[], ['-a'], ['-aj']]


def text(s):
    k = s.below(20)
    t = gens.with_defs(s, gens.document(s))
    if k == 0:
        return s.pick(['', '\n', ' ', 'x', '\n\n\n', '\ufeff# a', '\x00'])
    if k < 5:
        t = gens.exotic(s, t)
    elif k < 8:
        t = gens.mutate(s, t)
    elif k < 10:
        t = t.replace('\n', s.pick(['\r\n', '\r', '\n']))
    elif k == 10:
        t = '\n\n'.join([t] * s.int(2, 40))
        if s.chance(10):        # more than any buffer holds
            room = s.pick([9000, 40000, 70000, 140000])
            t = '\n\n'.join([t] * (1 + room // (len(t) + 2)))
    elif k == 11 and s.chance(40):
        t = gens.stretch(s, t, 9000)
    if s.chance(30):
        t = t.rstrip('\n')
    if s.chance(30):
        # an unusual character where files begin, end, or break
        c = s.pick(EDGE) if s.chance(60) else chr(s.below(0x800))
        i = s.pick([0, len(t), len(t), s.below(len(t) + 1)])
        t = t[:i] + c * s.int(1, 2) + t[i:] + s.pick(['', '', '\n'])
    return t


EDGE = list('\x00\x01\x03\x04\x07\x08\t\x0b\x0c\x0e\x11\x13\x1a\x1b\x1c\x1d'
            '\x1e\x1f\x7f\x80\x85\x9b\xa0\xad \u2028\u2029\ufeff\ufffe\uffff'
            '\ufffd\U0001f600\U0010ffff\U0001fffe\u200b\u0301\u202e%\\')


def gen(s):
    # mode, file or stdin, -o or not, order of the arguments
    return [text(s), s.below(3), s.pick(['file', 'stdin', 'dash']),
            s.pick(['stdout', 'file', 'dash']), s.below(3), s.chance(10)]


def expected(t, mode):
    ast = parse(t)
    if mode == 0:
        return sut(commonmark.commonmark, t)
    if mode == 1:
        return ast_dump(ast)
    return sut(commonmark.commonmark, t, 'json')


def paths():
    d = repo.scratch()
    return os.path.join(d, 'in.md'), os.path.join(d, 'out')


def argv(mode, src, dst, order, inp, outp):
    a = []
    opt = list(MODES[mode])
    o = {'stdout': [], 'file': ['-o', outp], 'dash': ['-o', '-']}[dst]
    i = {'file': [inp], 'stdin': [], 'dash': ['-']}[src]
    if order == 0:
        a = i + o + opt
    elif order == 1:
        a = opt + i + o
    else:
        a = o + i + opt
    return a


def prepare(t, dst):
    inp, outp = paths()
    data = t.encode('utf-8')
    with open(inp, 'wb') as f:
        f.write(data)
    if os.path.exists(outp):
        os.unlink(outp)
    if dst == 'file':
        # an old, longer file must be replaced
        with open(outp, 'wb') as f:
            f.write(b'old contents ' * 50)
    return inp, outp, data


def result(code, out, err, inp, outp, data, dst, mode):
    with open(inp, 'rb') as f:
        if f.read() != data:
            raise Violation('the input file changed')
    if code not in (0, None):
        raise Violation('exit status %r: %s' % (code, err[-300:]))
    if dst == 'file' and mode != 1:
        if out:
            raise Violation('-o given, but standard output got %s' %
                            short(out))
        if not os.path.exists(outp):
            raise Violation('the output file does not exist')
        with open(outp, 'rb') as f:
            return f.read().decode('utf-8')
    return out


def inside(case):
    t, mode, src, dst, order, _ = case
    inp, outp, data = prepare(t, dst)
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    raw = io.BytesIO()
    sys.argv = ['cmark'] + argv(mode, src, dst, order, inp, outp)
    sys.stdin = io.TextIOWrapper(
        io.BytesIO(data if src != 'file' else b'not *this*'),
        encoding='utf-8')
    sys.stdout = out = io.TextIOWrapper(raw, encoding='utf-8')
    sys.stderr = err = io.StringIO()
    code = None
    try:
        try:
            sut(cmark.main)
        except SystemExit as e:
            code = e.code
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    gc.collect()
    out.flush()
    return result(code, raw.getvalue().decode('utf-8'), err.getvalue(), inp,
                  outp, data, dst, mode)


def outside(case):
    t, mode, src, dst, order, _ = case
    inp, outp, data = prepare(t, dst)
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONPATH': repo.REPO,
           'PYTHONUTF8': '1',
           'PYTHONPYCACHEPREFIX': os.path.join(repo.scratch(), 'pyc')}
    r = subprocess.run(
        [sys.executable, '-m', 'commonmark.cmark'] +
        argv(mode, src, dst, order, inp, outp),
        input=data if src != 'file' else b'not *this*',
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
        cwd=repo.scratch(), timeout=120)
    return result(r.returncode, r.stdout.decode('utf-8'),
                  r.stderr.decode('utf-8', 'replace'), inp, outp, data, dst,
                  mode)


def compare(got, want, case):
    if got != want:
        raise Violation('%s from %s to %s: got %s expected %s' % (
            ['HTML', 'AST', 'JSON'][case[1]], case[2], case[3], short(got),
            short(want)))


def check(case, st):
    t = case[0]
    want = expected(t, case[1])
    if case[5]:
        compare(outside(case), want, case)
        st.label('subprocess')
    else:
        try:
            compare(inside(case), want, case)
        except Violation:
            # only what a real run shows counts
            compare(outside(case), want, case)
            raise Skip('differs only in-process')
    st.label('%s %s %s' % (['html', 'ast', 'json'][case[1]], case[2],
                           case[3]))
    st.nt(len(want) > 20)


PROP = Prop('C18', [
    Part('cli', gen, check, 4000, 100000,
         'texts run through the command in every combination of mode, input '
         'and output, a tenth of them in a process of its own; non-trivial: '
         'the expected output has more than 20 characters',
         text_shrink=(lambda c: c[0], lambda c, t: [t] + c[1:]), cpu=60),
], assumptions=['files and pipes are UTF-8', 'the AST dump always goes to '
                'standard output'])
