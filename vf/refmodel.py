"""Independent reference model of CommonMark 0.29 (the version named by the
repository's CHANGELOG and carried as spec.txt).

Written from the prose of the spec, not from commonmark/*.py, and structured
differently on purpose: a stack of open containers and one open leaf instead of
an open/closed node tree; items are grouped into lists, and lists judged
tight/loose, after the fact from line numbers; hand-written scanners instead of
regular expressions; emphasis resolved by a naive nearest-opener search over a
Python list instead of a doubly linked delimiter stack with lower bounds.

The model produces a plain tree of Node objects plus an HTML rendering.  Where
the spec does not settle a question (or the code base has a recorded known
finding) the model adds a tag to `amb`; callers skip and count such documents.
"""
import html.entities
import re
import unicodedata

ASCII_PUNCT = set('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')
LETTERS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGITS = set('0123456789')
ALNUM = LETTERS | DIGITS
WS = set(' \t\n\v\f\r')
HTML5 = html.entities.html5

BLOCK_TAGS = set(
    'address article aside base basefont blockquote body caption center col '
    'colgroup dd details dialog dir div dl dt fieldset figcaption figure '
    'footer form frame frameset h1 h2 h3 h4 h5 h6 head header hr html iframe '
    'legend li link main menu menuitem nav noframes ol optgroup option p param '
    'section source summary table tbody td tfoot th thead title tr track ul'
    .split())


class N(object):
    """A node of the neutral tree."""
    __slots__ = ('t', 'kids', 'text', 'dest', 'title', 'info', 'level',
                 'ltype', 'lstart', 'ldelim', 'lchar', 'tight', 'start',
                 'end', 'raw', 'x')

    def __init__(self, t, **kw):
        self.t = t
        self.kids = []
        self.text = self.dest = self.title = self.info = self.level = None
        self.ltype = self.lstart = self.ldelim = self.lchar = None
        self.tight = self.start = self.end = self.raw = self.x = None
        for k, v in kw.items():
            setattr(self, k, v)

    def key(self):
        """The comparable value of this node (no line numbers)."""
        t = self.t
        if t in ('text', 'code', 'html_inline', 'html_block'):
            return (t, self.text)
        if t == 'code_block':
            return (t, self.info, self.text)
        if t in ('softbreak', 'linebreak', 'thematic_break'):
            return (t,)
        head = (t,)
        if t == 'heading':
            head = (t, self.level)
        elif t in ('link', 'image'):
            head = (t, self.dest, self.title)
        elif t == 'list':
            head = (t, self.ltype, self.lstart, self.ldelim, self.lchar,
                    'tight' if self.tight else 'loose')
        return head + (tuple(k.key() for k in self.kids),)


# ---------------------------------------------------------------- lines

def split_lines(text):
    """Lines without their endings; no phantom line after a final ending."""
    out, cur, i, n = [], [], 0, len(text)
    while i < n:
        c = text[i]
        if c == '\n' or c == '\r':
            if c == '\r' and i + 1 < n and text[i + 1] == '\n':
                i += 1
            out.append(''.join(cur))
            cur = []
        else:
            cur.append('\ufffd' if c == '\0' else c)
        i += 1
    if cur:
        out.append(''.join(cur))
    return out


class Cur(object):
    """A position in a line that counts columns (tab stop 4)."""

    def __init__(self, line):
        self.s = line
        self.i = 0
        self.col = 0
        self.pend = 0     # columns left over from a partly used tab

    def indent(self):
        n, col, i = self.pend, self.col + self.pend, self.i
        while i < len(self.s) and self.s[i] in ' \t':
            w = 4 - col % 4 if self.s[i] == '\t' else 1
            n += w
            col += w
            i += 1
        return n

    def ws_end(self):
        i = self.i
        while i < len(self.s) and self.s[i] in ' \t':
            i += 1
        return i

    def blank(self):
        return self.ws_end() == len(self.s)

    def text(self):
        """Rest of the line after its indentation."""
        return self.s[self.ws_end():]

    def skip_cols(self, n):
        """Consume n columns of spaces/tabs (all must be there)."""
        while n > 0:
            if self.pend:
                k = min(n, self.pend)
                self.pend -= k
                self.col += k
                n -= k
            elif self.i < len(self.s) and self.s[self.i] == '\t':
                self.pend = 4 - self.col % 4
                self.i += 1
            elif self.i < len(self.s) and self.s[self.i] == ' ':
                self.i += 1
                self.col += 1
                n -= 1
            else:
                return

    def skip_ws(self):
        self.skip_cols(self.indent())

    def skip_chars(self, n):
        self.i += n
        self.col += n

    def rest(self):
        return ' ' * self.pend + self.s[self.i:]

    def copy(self):
        c = Cur(self.s)
        c.i, c.col, c.pend = self.i, self.col, self.pend
        return c


# ---------------------------------------------------------------- block starts

def thematic(s):
    core = s.replace(' ', '').replace('\t', '')
    return len(core) >= 3 and core[0] in '*-_' and core == core[0] * len(core) \
        and s[0] == core[0]


def atx(s):
    n = 0
    while n < len(s) and s[n] == '#':
        n += 1
    if not 1 <= n <= 6 or (n < len(s) and s[n] not in ' \t'):
        return None
    body = s[n:].strip(' \t')
    k = len(body)
    while k > 0 and body[k - 1] == '#':
        k -= 1
    if k == 0:
        body = ''
    elif k < len(body) and body[k - 1] in ' \t':
        body = body[:k].rstrip(' \t')
    return n, body


def fence_open(s):
    if not s or s[0] not in '`~':
        return None
    n = 0
    while n < len(s) and s[n] == s[0]:
        n += 1
    if n < 3 or (s[0] == '`' and '`' in s[n:]):
        return None
    return s[0], n, s[n:]


def setext(s):
    u = s.rstrip(' \t')
    if u and u[0] in '=-' and u == u[0] * len(u):
        return 1 if u[0] == '=' else 2
    return None


def html_start(s, amb):
    """The type (1-7) of the HTML block that starts with this text, or 0."""
    if not s.startswith('<'):
        return 0
    low = s.lower()
    for name in ('script', 'pre', 'style'):
        if low.startswith('<' + name):
            nxt = s[len(name) + 1:len(name) + 2]
            if nxt == '' or nxt == '>' or nxt in WS:
                return 1
    if s.startswith('<!--'):
        return 2
    if s.startswith('<?'):
        return 3
    if s.startswith('<!') and s[2:3] and s[2] in LETTERS and s[2].isupper():
        return 4
    if s.startswith('<![CDATA['):
        return 5
    i = 2 if s.startswith('</') else 1
    j = i
    while j < len(s) and s[j] in ALNUM:
        j += 1
    if low[i:j] in BLOCK_TAGS:
        nxt = s[j:j + 1]
        if nxt == '' or nxt in WS or nxt == '>' or s[j:j + 2] == '/>':
            return 6
    end = scan_open_tag(s, 0)
    if end is None:
        end = scan_close_tag(s, 0)
    if end is not None and all(c in WS for c in s[end:]):
        name = tag_name(s, i)
        if name.lower() in ('script', 'pre', 'style'):
            # spec 0.29 excludes these for open tags only by its wording "(with
            # any tag name other than ...) or a complete closing tag"
            if not s.startswith('</'):
                amb.add('html7-literal-tag')
                return 0
        return 7
    return 0


def html_end(kind, s):
    low = s.lower()
    if kind == 1:
        return any(t in low for t in ('</script>', '</pre>', '</style>'))
    if kind == 2:
        return '-->' in s
    if kind == 3:
        return '?>' in s
    if kind == 4:
        return '>' in s
    if kind == 5:
        return ']]>' in s
    return False


def list_marker(s):
    """(type, char, delim, start, width) or None; needs a space, tab or end."""
    if not s:
        return None
    if s[0] in '-+*':
        m = ('bullet', s[0], None, None, 1)
    else:
        n = 0
        while n < len(s) and n < 10 and s[n] in DIGITS:
            n += 1
        if not 1 <= n <= 9 or s[n:n + 1] not in ('.', ')'):
            return None
        m = ('ordered', None, s[n], int(s[:n]), n + 1)
    if s[m[4]:m[4] + 1] not in ('', ' ', '\t'):
        return None
    return m


# ---------------------------------------------------------------- blocks

class Blocks(object):
    def __init__(self, text):
        self.lines = split_lines(text)
        self.doc = N('document', start=1)
        self.refmap = {}
        self.amb = set()
        self.stack = [self.doc]
        self.leaf = None
        for no, line in enumerate(self.lines, 1):
            self.line(no, line)
        self.close_to(0)

    # -- tree building
    def close_leaf(self):
        leaf = self.leaf
        if leaf is None:
            return
        self.leaf = None
        if leaf.t == 'paragraph':
            text = '\n'.join(leaf.raw)
            text, any_def = take_refdefs(text, self.refmap, self.amb)
            if any_def and not text.strip(' \t\n\v\f\r'):
                leaf.t = 'refdef'
            leaf.x = text
        elif leaf.t == 'code_block':
            if leaf.x is None:      # indented
                while leaf.raw and not leaf.raw[-1].strip(' \t'):
                    leaf.raw.pop()
            leaf.text = ''.join(r + '\n' for r in leaf.raw)
        elif leaf.t == 'html_block':
            while len(leaf.raw) > 1 and not leaf.raw[-1].strip(' \t'):
                leaf.raw.pop()
                self.amb.add('html-trailing-blank')
            leaf.text = '\n'.join(leaf.raw)

    def close_to(self, depth):
        """Keep stack[:depth] open and close everything below."""
        self.close_leaf()
        while len(self.stack) > max(depth, 1):
            self.stack.pop()

    def add(self, node, no):
        node.start = node.end = no
        self.stack[-1].kids.append(node)
        return node

    # -- one line
    def line(self, no, line):
        cur = Cur(line)
        depth = 1
        while depth < len(self.stack):
            c = self.stack[depth]
            if c.t == 'block_quote':
                if cur.indent() <= 3 and cur.text().startswith('>'):
                    cur.skip_ws()
                    cur.skip_chars(1)
                    if cur.indent() > 0:
                        cur.skip_cols(1)
                    c.end = no
                else:
                    break
            else:   # item
                if cur.blank() and not c.kids:
                    break
                if cur.indent() >= c.x:
                    cur.skip_cols(c.x)
                elif cur.blank():
                    cur.skip_ws()
                else:
                    break
            depth += 1
        matched = depth == len(self.stack)
        leaf = self.leaf

        # literal leaves swallow the line
        if matched and leaf is not None and leaf.t != 'paragraph':
            if leaf.t == 'code_block' and leaf.x is not None:
                ch, n, off, _ = leaf.x
                t = cur.text().rstrip(' ')
                if cur.indent() <= 3 and t and t == ch * len(t) and len(t) >= n:
                    leaf.end = no
                    self.close_leaf()
                    return
                if cur.indent() <= 3 and t.rstrip(' \t') == \
                        ch * len(t.rstrip(' \t')) and len(t.rstrip(' \t')) >= n:
                    self.amb.add('tab-after-closing-fence')
                cur.skip_cols(min(off, cur.indent()))
                leaf.raw.append(cur.rest())
                leaf.end = no
                return
            if leaf.t == 'code_block':
                if cur.indent() >= 4:
                    nonblank = not cur.blank()
                    cur.skip_cols(4)
                    leaf.raw.append(cur.rest())
                    if nonblank:
                        leaf.end = no
                    return
                if cur.blank():
                    leaf.raw.append('')
                    return
                self.close_leaf()
                leaf = None
            else:   # html
                if leaf.x in (6, 7) and cur.blank():
                    self.close_leaf()
                    leaf = None
                    # falls through: a blank line
                else:
                    leaf.raw.append(cur.rest())
                    leaf.end = no
                    if html_end(leaf.x, cur.rest()):
                        self.close_leaf()
                    return

        # new block starts
        while True:
            para = self.leaf if (self.leaf is not None and
                                 self.leaf.t == 'paragraph') else None
            lazy_ok = para is not None and not matched
            if cur.blank():
                break
            ind = cur.indent()
            s = cur.text()
            if ind >= 4:
                if para is None:
                    self.close_to(depth)
                    cur.skip_cols(4)
                    node = self.add(N('code_block', info=''), no)
                    node.raw = [cur.rest()]
                    self.leaf = node
                    return
                break
            if s[0] == '>':
                self.close_to(depth)
                cur.skip_ws()
                cur.skip_chars(1)
                if cur.indent() > 0:
                    cur.skip_cols(1)
                self.stack.append(self.add(N('block_quote'), no))
                depth += 1
                matched = True
                continue
            h = atx(s)
            if h:
                self.close_to(depth)
                self.add(N('heading', level=h[0], x=h[1]), no)
                return
            f = fence_open(s)
            if f:
                self.close_to(depth)
                node = self.add(N('code_block'), no)
                node.x = (f[0], f[1], ind, None)
                node.info = unescape(f[2].strip(' \t\v\f'))
                node.raw = []
                self.leaf = node
                return
            ht = html_start(s, self.amb)
            if ht == 7 and para is not None:
                ht = 0
            if ht:
                self.close_to(depth)
                node = self.add(N('html_block', x=ht), no)
                node.raw = [cur.rest()]
                self.leaf = node
                if html_end(ht, s):
                    self.close_leaf()
                return
            lv = setext(s)
            if lv and para is not None and matched:
                text = '\n'.join(para.raw)
                refs = {}
                rest, any_def = take_refdefs(text, refs, self.amb)
                if rest.strip(' \t\n\v\f\r'):
                    for k, v in refs.items():
                        self.refmap.setdefault(k, v)
                    self.leaf = None
                    para.t = 'heading'
                    para.level = lv
                    para.x = rest
                    para.end = no
                    return
                if rest.strip(' \t\n'):
                    # 0.29 wants a non-whitespace character in the lines, later
                    # versions one that is not a space or tab
                    self.amb.add('setext-exotic-white')
                # only definitions so far: they are complete, and this line
                # cannot underline anything
                for k, v in refs.items():
                    self.refmap.setdefault(k, v)
                para.t = 'refdef'
                para.end = no - 1
                self.leaf = None
                para = None
                if list_marker(s) and s.rstrip(' \t') == '-':
                    self.amb.add('dash-after-refdef')
            if thematic(s):
                self.close_to(depth)
                self.add(N('thematic_break'), no)
                return
            m = list_marker(s)
            if m:
                after = cur.copy()
                after.skip_ws()
                after.skip_chars(m[4])
                empty = after.blank()
                if para is not None and matched and (
                        empty or (m[0] == 'ordered' and m[3] != 1)):
                    # only a line that would otherwise continue this very
                    # paragraph is protected (spec examples 272 and 285)
                    break
                self.close_to(depth)
                n = after.indent()
                if empty or n > 4:
                    if n > 0:
                        after.skip_cols(1)
                    pad = m[4] + 1
                else:
                    after.skip_cols(n)
                    pad = m[4] + n
                item = N('item', ltype=m[0], lchar=m[1], ldelim=m[2],
                         lstart=m[3], x=ind + pad)
                self.stack.append(self.add(item, no))
                depth += 1
                matched = True
                cur = after
                continue
            break

        # text or blank
        if cur.blank():
            if self.leaf is not None and self.leaf.t == 'paragraph':
                self.close_leaf()
            self.close_to(depth)
            return
        if self.leaf is not None and self.leaf.t == 'paragraph':
            self.leaf.raw.append(cur.text())      # includes lazy continuation
            self.leaf.end = no
            return
        self.close_to(depth)
        node = self.add(N('paragraph'), no)
        node.raw = [cur.text()]
        self.leaf = node


def finish(node, amb):
    """Group items into lists, set container ends, decide tight/loose, drop
    definition placeholders."""
    order = []
    todo = [node]
    while todo:
        n = todo.pop()
        order.append(n)
        todo.extend(n.kids)
    for n in reversed(order):
        if n.kids:
            n.end = max(n.end or 0, max(k.end for k in n.kids))
        out = []
        for k in n.kids:
            if k.t == 'item':
                if out and out[-1].t == 'list' and \
                        (out[-1].ltype, out[-1].lchar, out[-1].ldelim) == \
                        (k.ltype, k.lchar, k.ldelim):
                    out[-1].kids.append(k)
                    out[-1].end = k.end
                else:
                    lst = N('list', ltype=k.ltype, lchar=k.lchar,
                            ldelim=k.ldelim, lstart=k.lstart,
                            start=k.start, end=k.end)
                    lst.kids.append(k)
                    out.append(lst)
            else:
                out.append(k)
        n.kids = out
    for n in order:
        for lst in n.kids:
            if lst.t != 'list':
                continue
            lst.tight = True
            for i, item in enumerate(lst.kids):
                if i + 1 < len(lst.kids) and \
                        lst.kids[i + 1].start > item.end + 1:
                    lst.tight = False
                for a, b in zip(item.kids, item.kids[1:]):
                    if b.start > a.end + 1:
                        lst.tight = False
                        if b.t == 'refdef' or a.t == 'refdef':
                            amb.add('refdef-loose')
                last = item
                while last.kids:
                    last = last.kids[-1]
                if last.t == 'html_block' and last.x not in (6, 7):
                    if not last.raw[-1].strip(' \t') or \
                            'html-trailing-blank' in amb:
                        amb.add('html-blank-in-list')
    for n in order:
        n.kids = [k for k in n.kids if k.t != 'refdef']
        for k in n.kids:
            if k.t == 'list':
                for it in k.kids:
                    it.kids = [c for c in it.kids if c.t != 'refdef']


# ---------------------------------------------------------------- scanners

def scan_ws1(s, i):
    """Whitespace with at most one line ending."""
    while i < len(s) and s[i] in ' \t':
        i += 1
    if i < len(s) and s[i] == '\n':
        i += 1
        while i < len(s) and s[i] in ' \t':
            i += 1
    return i


def scan_label(s, i):
    """End of the link label that starts at s[i] == '[', or None."""
    if s[i:i + 1] != '[':
        return None
    j = i + 1
    seen = False
    while j < len(s):
        c = s[j]
        if c == ']':
            if j - i - 1 > 999 or not seen:
                return None
            return j + 1
        if c == '[':
            return None
        if c == '\\' and j + 1 < len(s):
            seen = True
            j += 2
            continue
        if c not in WS:
            seen = True
        j += 1
    return None


def norm_label(raw):
    return ' '.join(x for x in re.split('[ \t\n\v\f\r]+', raw[1:-1].casefold()) if x)


def scan_dest(s, i, amb):
    """(end, destination) or None."""
    if s[i:i + 1] == '<':
        j = i + 1
        while j < len(s):
            c = s[j]
            if c == '>':
                return j + 1, unescape(s[i + 1:j])
            if c in '<\n\r':
                return None
            if c == '\\' and j + 1 < len(s) and s[j + 1] in ASCII_PUNCT:
                j += 1
            j += 1
        return None
    j, depth = i, 0
    while j < len(s):
        c = s[j]
        if c == '\\' and s[j + 1:j + 2] and s[j + 1] in ASCII_PUNCT:
            j += 2
            continue
        if c == ' ' or ord(c) < 32 or ord(c) == 127:
            break
        if c == '(':
            depth += 1
            if depth > 32:
                amb.add('deep-parentheses')   # the spec allows a limit
        elif c == ')':
            if depth == 0:
                break
            depth -= 1
        j += 1
    if depth or j == i:
        return None
    return j, unescape(s[i:j])


def scan_title(s, i):
    """(end, title) or None."""
    if s[i:i + 1] == '' or s[i] not in '"\'(':
        return None
    close = ')' if s[i] == '(' else s[i]
    j = i + 1
    while j < len(s):
        c = s[j]
        if c == close:
            return j + 1, unescape(s[i + 1:j])
        if c == '(' and close == ')':
            return None
        if c == '\\' and j + 1 < len(s) and s[j + 1] in ASCII_PUNCT:
            j += 1
        j += 1
    return None


def at_eol(s, i):
    """Position after the rest of a line that holds only whitespace, or None."""
    while i < len(s) and s[i] in ' \t':
        i += 1
    if i == len(s):
        return i
    if s[i] == '\n':
        return i + 1
    return None


def take_refdefs(text, refmap, amb):
    """Strip leading link reference definitions; returns (rest, any)."""
    any_def = False
    while text.startswith('['):
        e = scan_label(text, 0)
        if e is None or text[e:e + 1] != ':':
            break
        raw = text[:e]
        i = scan_ws1(text, e + 1)
        d = scan_dest(text, i, amb)
        if d is None:
            break
        i, dest = d
        k = scan_ws1(text, i)
        end = title = None
        if k > i:
            t = scan_title(text, k)
            if t is not None:
                end = at_eol(text, t[0])
                title = t[1]
        if end is None:
            title = ''
            end = at_eol(text, i)
            if end is None:
                break
        refmap.setdefault(norm_label(raw), (dest, title))
        text = text[end:]
        any_def = True
    return text, any_def


def tag_name(s, i):
    j = i
    if j < len(s) and s[j] in LETTERS:
        j += 1
        while j < len(s) and (s[j] in ALNUM or s[j] == '-'):
            j += 1
    return s[i:j]


def skip_all_ws(s, i):
    while i < len(s) and s[i] in WS:
        i += 1
    return i


def scan_open_tag(s, i):
    name = tag_name(s, i + 1)
    if not name:
        return None
    i += 1 + len(name)
    while True:
        j = skip_all_ws(s, i)
        k = j
        if j > i and k < len(s) and (s[k] in LETTERS or s[k] in '_:'):
            k += 1
            while k < len(s) and (s[k] in ALNUM or s[k] in '_.:-'):
                k += 1
            i = k
            e = skip_all_ws(s, i)
            if s[e:e + 1] == '=':
                e = skip_all_ws(s, e + 1)
                q = s[e:e + 1]
                if q in ('"', "'"):
                    z = s.find(q, e + 1)
                    if z < 0:
                        return None
                    i = z + 1
                else:
                    z = e
                    while z < len(s) and ord(s[z]) > 32 and \
                            s[z] not in '"\'=<>`':
                        z += 1
                    if z == e:
                        return None
                    i = z
            continue
        if s[j:j + 1] == '>':
            return j + 1
        if s[j:j + 2] == '/>':
            return j + 2
        return None


def scan_close_tag(s, i):
    if s[i:i + 2] != '</':
        return None
    name = tag_name(s, i + 2)
    if not name:
        return None
    j = skip_all_ws(s, i + 2 + len(name))
    return j + 1 if s[j:j + 1] == '>' else None


def scan_html(s, i, amb):
    """End of the raw inline HTML starting at s[i] == '<', or None."""
    e = scan_open_tag(s, i)
    if e is None:
        e = scan_close_tag(s, i)
    if e is not None:
        return e
    if s.startswith('<!--', i):
        z = s.find('--', i + 4)
        if z < 0 or s[z + 2:z + 3] != '>':
            return None
        body = s[i + 4:z]
        if body.startswith('>') or body.startswith('->') or \
                body.endswith('-'):
            return None
        return z + 3
    if s.startswith('<?', i):
        z = s.find('?>', i + 2)
        return None if z < 0 else z + 2
    if s.startswith('<![CDATA[', i):
        z = s.find(']]>', i + 9)
        return None if z < 0 else z + 3
    if s[i:i + 9].upper() == '<![CDATA[' and s.find(']]>', i + 9) >= 0:
        amb.add('lower-case-declaration')
    if s.startswith('<!', i):
        j = i + 2
        while j < len(s) and s[j] in LETTERS:
            j += 1
        if not s[i + 2:j].isupper() and j > i + 2 and s[j:j + 1] and \
                s[j] in WS and s.find('>', j) >= 0:
            # not a declaration in 0.29, one from 0.30 on; the code base
            # accepts it
            amb.add('lower-case-declaration')
        j = i + 2
        while j < len(s) and s[j] in LETTERS and s[j].isupper():
            j += 1
        if j > i + 2 and j < len(s) and s[j] in WS:
            z = s.find('>', j)
            return None if z < 0 else z + 1
    return None


def scan_autolink(s, i):
    """(end, destination, text) or None."""
    z = i + 1
    while z < len(s) and ord(s[z]) > 32 and s[z] not in '<>':
        z += 1
    if s[z:z + 1] != '>':
        return None
    body = s[i + 1:z]
    colon = body.find(':')
    if colon >= 0:
        scheme = body[:colon]
        if 2 <= len(scheme) <= 32 and scheme[0] in LETTERS and \
                all(c in ALNUM or c in '+.-' for c in scheme):
            return z + 1, body, body
    at = body.find('@')
    if at > 0:
        local, host = body[:at], body[at + 1:]
        if all(c in ALNUM or c in ".!#$%&'*+/=?^_`{|}~-" for c in local) and \
                all(1 <= len(p) <= 63 and p[0] in ALNUM and p[-1] in ALNUM and
                    all(c in ALNUM or c == '-' for c in p)
                    for p in host.split('.')):
            return z + 1, 'mailto:' + body, body
    return None


def scan_entity(s, i):
    """(end, replacement) or None."""
    z = s.find(';', i, i + 40)
    if z < 0:
        return None
    body = s[i + 1:z]
    if body.startswith('#'):
        num = body[1:]
        if num[:1] in ('x', 'X'):
            h = num[1:]
            if not 1 <= len(h) <= 6 or \
                    any(c not in '0123456789abcdefABCDEF' for c in h):
                return None
            v = int(h, 16)
        else:
            if not 1 <= len(num) <= 7 or any(c not in DIGITS for c in num):
                return None
            v = int(num)
        if v == 0 or v > 0x10ffff or 0xd800 <= v <= 0xdfff:
            return z + 1, '\ufffd'
        return z + 1, chr(v)
    if body and all(c in ALNUM for c in body) and body + ';' in HTML5:
        return z + 1, HTML5[body + ';']
    return None


def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s) and s[i + 1] in ASCII_PUNCT:
            out.append(s[i + 1])
            i += 2
            continue
        if c == '&':
            e = scan_entity(s, i)
            if e:
                out.append(e[1])
                i = e[0]
                continue
        out.append(c)
        i += 1
    return ''.join(out)


# ---------------------------------------------------------------- inlines

def is_uws(c):
    return c in '\t\n\f\r' or unicodedata.category(c) == 'Zs'


def is_punct(c):
    return c in ASCII_PUNCT or unicodedata.category(c)[0] == 'P'


class Run(object):
    """A delimiter run (or smart quote) in the token list."""

    def __init__(self, ch, n, can_open, can_close):
        self.ch, self.n, self.orig = ch, n, n
        self.can_open, self.can_close = can_open, can_close
        self.out = None     # for quotes

    def as_text(self):
        return self.out if self.out is not None else self.ch * self.n


class Bracket(object):
    def __init__(self, image, index):
        self.image, self.index, self.active = image, index, True

    def as_text(self):
        return '![' if self.image else '['


def flanking(s, a, b):
    before = s[a - 1] if a > 0 else '\n'
    after = s[b] if b < len(s) else '\n'
    bw, aw = is_uws(before), is_uws(after)
    bp, ap = is_punct(before), is_punct(after)
    left = not aw and (not ap or bw or bp)
    right = not bw and (not bp or aw or ap)
    return left, right, bp, ap


SPECIAL = set('\n`[]\\!<&*_')


def smart_text(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith('...', i):
            out.append('\u2026')
            i += 3
            continue
        if s.startswith('--', i):
            j = i
            while j < len(s) and s[j] == '-':
                j += 1
            n = j - i
            # the fewest characters that add up, em dashes first; all of one
            # kind when possible
            if n % 3 == 0:
                em, en = n // 3, 0
            elif n % 2 == 0:
                em, en = 0, n // 2
            elif n % 3 == 2:
                em, en = (n - 2) // 3, 1
            else:
                em, en = (n - 4) // 3, 2
            out.append('\u2014' * em + '\u2013' * en)
            i = j
            continue
        out.append(s[i])
        i += 1
    return ''.join(out)


def parse_inlines(s, refmap, smart=False, amb=None):
    amb = set() if amb is None else amb
    toks = []      # str | N | Run | Bracket
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '\n':
            k = 0
            # trailing source spaces: only spaces written as such
            if toks and isinstance(toks[-1], str):
                t = toks[-1]
                stripped = t.rstrip(' ')
                k = len(t) - len(stripped)
                toks[-1] = stripped
            toks.append(N('linebreak' if k >= 2 else 'softbreak'))
            i += 1
            while i < n and s[i] == ' ':
                i += 1
        elif c == '\\':
            nx = s[i + 1:i + 2]
            if nx == '\n':
                toks.append(N('linebreak'))
                i += 2
                while i < n and s[i] == ' ':
                    i += 1
            elif nx and nx in ASCII_PUNCT:
                toks.append(N('text', text=nx))
                i += 2
            else:
                toks.append(N('text', text='\\'))
                i += 1
        elif c == '`':
            j = i
            while j < n and s[j] == '`':
                j += 1
            w = j - i
            k, found = j, None
            while k < n:
                if s[k] != '`':
                    k += 1
                    continue
                e = k
                while e < n and s[e] == '`':
                    e += 1
                if e - k == w:
                    found = (k, e)
                    break
                k = e
            if found:
                body = s[j:found[0]].replace('\n', ' ')
                if body.strip(' ') and body[0] == ' ' and body[-1] == ' ':
                    body = body[1:-1]
                toks.append(N('code', text=body))
                i = found[1]
            else:
                toks.append(N('text', text=s[i:j]))
                i = j
        elif c in '*_' or (smart and c in '\'"'):
            j = i + 1
            if c in '*_':
                while j < n and s[j] == c:
                    j += 1
            left, right, bp, ap = flanking(s, i, j)
            if c == '*':
                r = Run(c, j - i, left, right)
            elif c == '_':
                r = Run(c, j - i, left and (not right or bp),
                        right and (not left or ap))
            else:
                r = Run(c, 1, left and not right, right)
                r.out = '\u2019' if c == "'" else '\u201c'
            toks.append(r)
            i = j
        elif c == '[':
            toks.append(Bracket(False, i))
            i += 1
        elif c == '!':
            if s[i + 1:i + 2] == '[':
                toks.append(Bracket(True, i + 1))
                i += 2
            else:
                toks.append(N('text', text='!'))
                i += 1
        elif c == ']':
            i = close_bracket(s, i, toks, refmap, amb)
        elif c == '<':
            a = scan_autolink(s, i)
            if a:
                node = N('link', dest=a[1], title='')
                node.kids = [N('text', text=a[2])]
                toks.append(node)
                i = a[0]
            else:
                e = scan_html(s, i, amb)
                if e:
                    toks.append(N('html_inline', text=s[i:e]))
                    i = e
                else:
                    toks.append(N('text', text='<'))
                    i += 1
        elif c == '&':
            e = scan_entity(s, i)
            if e:
                toks.append(N('text', text=e[1]))
                i = e[0]
            else:
                toks.append(N('text', text='&'))
                i += 1
        else:
            j = i
            while j < n and s[j] not in SPECIAL and \
                    not (smart and s[j] in '\'"'):
                j += 1
            t = s[i:j]
            toks.append(smart_text(t) if smart else t)
            i = j
    return resolve(toks)


def close_bracket(s, i, toks, refmap, amb):
    """Handle ']' at i; returns the next position."""
    at = len(toks) - 1
    while at >= 0 and not isinstance(toks[at], Bracket):
        at -= 1
    lit = N('text', text=']')
    if at < 0:
        toks.append(lit)
        return i + 1
    br = toks[at]
    if not br.active:
        toks[at] = N('text', text=br.as_text())
        toks.append(lit)
        return i + 1
    found = None
    j = i + 1
    if s[j:j + 1] == '(':
        found = inline_tail(s, j + 1, amb)
    if found is None:
        e = scan_label(s, j)
        if e is not None:
            r = refmap.get(norm_label(s[j:e]))
            if r is not None:
                found = (e,) + r
        else:
            end = j + 2 if s[j:j + 2] == '[]' else j
            whole = scan_label(s, br.index)
            if whole == i + 1:
                z = s.find(']', j) if s[j:j + 1] == '[' else -1
                if z > j + 1 and not s[j + 1:z].strip(' \t\n\v\f\r'):
                    # "[foo][ ]": the brackets hold no link label, but every
                    # implementation takes them for one that is undefined
                    amb.add('blank-label')
                r = refmap.get(norm_label(s[br.index:i + 1]))
                if r is not None:
                    found = (end,) + r
    if found is None:
        toks[at] = N('text', text=br.as_text())
        toks.append(lit)
        return i + 1
    node = N('image' if br.image else 'link', dest=found[1], title=found[2])
    node.kids = resolve(toks[at + 1:])
    toks[at:] = [node]
    if not br.image:
        for t in toks:
            if isinstance(t, Bracket) and not t.image:
                t.active = False
    return found[0]


def inline_tail(s, i, amb):
    """'(' already consumed: (end, dest, title) or None."""
    i = scan_ws1(s, i)
    if s[i:i + 1] == ')':
        return i + 1, '', ''
    d = scan_dest(s, i, amb)
    if d is None:
        return None
    i, dest = d
    k = scan_ws1(s, i)
    title = ''
    if k > i:
        t = scan_title(s, k)
        if t is not None:
            k, title = t
            k = scan_ws1(s, k)
    if s[k:k + 1] == ')':
        return k + 1, dest, title
    return None


def resolve(toks):
    """Emphasis by nearest-opener search, then merge text."""
    L = list(toks)
    i = 0
    while i < len(L):
        c = L[i]
        if not (isinstance(c, Run) and c.can_close):
            i += 1
            continue
        j = i - 1
        while j >= 0:
            o = L[j]
            if isinstance(o, Run) and o.ch == c.ch and o.can_open:
                both = o.can_close or c.can_open
                if not (both and (o.orig + c.orig) % 3 == 0 and
                        not (o.orig % 3 == 0 and c.orig % 3 == 0)):
                    break
            j -= 1
        if c.ch in '\'"':
            c.out = '\u2019' if c.ch == "'" else '\u201d'
            if j >= 0:
                L[j].out = '\u2018' if c.ch == "'" else '\u201c'
            i += 1
            continue
        if j < 0:
            if not c.can_open:
                c.can_close = False
            i += 1
            continue
        o = L[j]
        use = 2 if o.n >= 2 and c.n >= 2 else 1
        node = N('strong' if use == 2 else 'emph')
        node.kids = merge(L[j + 1:i])
        o.n -= use
        c.n -= use
        L[j + 1:i] = [node]
        i = j + 2
        if o.n == 0:
            del L[j]
            i -= 1
        if c.n == 0:
            del L[i]
    return merge(L)


def merge(L):
    out = []
    for t in L:
        if isinstance(t, (Run, Bracket)):
            t = t.as_text()
        if isinstance(t, N) and t.t != 'text':
            out.append(t)
            continue
        txt = t if isinstance(t, str) else t.text
        if txt == '':
            continue
        if out and out[-1].t == 'text':
            out[-1] = N('text', text=out[-1].text + txt)
        else:
            out.append(N('text', text=txt))
    return out


# ---------------------------------------------------------------- document

def parse(text, smart=False):
    """Returns (document node, refmap, set of ambiguity tags)."""
    b = Blocks(text)
    finish(b.doc, b.amb)
    todo = [b.doc]
    while todo:
        n = todo.pop()
        if n.t in ('paragraph', 'heading'):
            raw = n.x if n.x is not None else '\n'.join(n.raw)
            n.kids = parse_inlines(raw.strip(' \t\n\v\f\r'), b.refmap, smart,
                                   b.amb)
        else:
            todo.extend(n.kids)
    return b.doc, b.refmap, b.amb


# ---------------------------------------------------------------- HTML

URL_KEEP = ALNUM | set("_.-~;/@:+?=&()%#*,")


def norm_url(u):
    out = []
    for ch in u:
        if ch in URL_KEEP:
            out.append(ch)
        else:
            out.extend('%%%02X' % b for b in ch.encode('utf-8'))
    return ''.join(out)


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;') \
        .replace('>', '&gt;').replace('"', '&quot;')


OMITTED = '<!-- raw HTML omitted -->'


class Html(object):
    """Renders the neutral tree.  Iterative, so depth is not limited."""

    def __init__(self, softbreak='\n', safe=None, norm=None):
        """safe: predicate of destinations that safe mode lets through."""
        self.softbreak = softbreak
        self.safe = safe
        self.norm = norm or norm_url

    def render(self, doc):
        out = ['\n']

        def cr():
            if not out[-1].endswith('\n'):
                out.append('\n')

        todo = [('in', doc, None, None)]
        while todo:
            ev, n, parent, gp = todo.pop()
            if ev == 'lit':
                if n:
                    out.append(n)
                continue
            if ev == 'blk':
                cr()
                if n:
                    out.append(n)
                cr()
                continue
            t = n.t
            tight_p = (t == 'paragraph' and gp is not None and
                       gp.t == 'list' and gp.tight)
            if ev == 'out':
                if t == 'block_quote':
                    cr()
                    out.append('</blockquote>\n')
                elif t == 'list':
                    cr()
                    out.append('</ul>\n' if n.ltype == 'bullet'
                               else '</ol>\n')
                elif t == 'item':
                    out.append('</li>\n')
                elif t == 'paragraph':
                    if not tight_p:
                        out.append('</p>\n')
                elif t == 'heading':
                    out.append('</h%d>\n' % n.level)
                elif t == 'emph':
                    out.append('</em>')
                elif t == 'strong':
                    out.append('</strong>')
                elif t == 'link':
                    out.append('</a>')
                continue
            if t == 'text':
                out.append(esc(n.text))
            elif t == 'softbreak':
                out.append(self.softbreak)
            elif t == 'linebreak':
                out.append('<br />\n')
            elif t == 'code':
                out.append('<code>' + esc(n.text) + '</code>')
            elif t == 'html_inline':
                out.append(OMITTED if self.safe else n.text)
            elif t == 'html_block':
                cr()
                out.append(OMITTED if self.safe else n.text)
                cr()
            elif t == 'custom_inline':
                if n.x[0]:
                    out.append(n.x[0])
                todo.append(('lit', n.x[1] or '', None, None))
                for k in reversed(n.kids):
                    todo.append(('in', k, n, parent))
            elif t == 'custom_block':
                cr()
                if n.x[0]:
                    out.append(n.x[0])
                cr()
                todo.append(('blk', n.x[1], None, None))
                for k in reversed(n.kids):
                    todo.append(('in', k, n, parent))
            elif t == 'code_block':
                cr()
                words = n.info.split()
                out.append('<pre><code' +
                           (' class="language-' + esc(words[0]) + '"'
                            if words else '') + '>' + esc(n.text) +
                           '</code></pre>\n')
            elif t == 'thematic_break':
                cr()
                out.append('<hr />\n')
            elif t == 'image':
                alt = self.alt(n)
                ok = not self.safe or self.safe(n.dest)
                out.append('<img src="' +
                           (esc(self.norm(n.dest)) if ok else '') +
                           '" alt="' + alt + '"' +
                           (' title="' + esc(n.title) + '"'
                            if n.title else '') + ' />')
            else:
                if t == 'block_quote':
                    cr()
                    out.append('<blockquote>\n')
                elif t == 'list':
                    cr()
                    if n.ltype == 'bullet':
                        out.append('<ul>\n')
                    elif n.lstart not in (1, None):
                        out.append('<ol start="%d">\n' % n.lstart)
                    else:
                        out.append('<ol>\n')
                elif t == 'item':
                    out.append('<li>')
                elif t == 'paragraph':
                    if not tight_p:
                        cr()
                        out.append('<p>')
                elif t == 'heading':
                    cr()
                    out.append('<h%d>' % n.level)
                elif t == 'emph':
                    out.append('<em>')
                elif t == 'strong':
                    out.append('<strong>')
                elif t == 'link':
                    ok = not self.safe or self.safe(n.dest)
                    out.append('<a' +
                               (' href="' + esc(self.norm(n.dest)) + '"'
                                if ok else '') +
                               (' title="' + esc(n.title) + '"'
                                if n.title else '') + '>')
                todo.append(('out', n, parent, gp))
                for k in reversed(n.kids):
                    todo.append(('in', k, n, parent))
        return ''.join(out[1:])

    def alt(self, n):
        """Plain string content of an image description, escaped."""
        out, todo = [], list(reversed(n.kids))
        while todo:
            k = todo.pop()
            if k.t == 'html_inline' and self.safe:
                out.append(esc(OMITTED))
            elif k.t in ('text', 'code', 'html_inline'):
                out.append(esc(k.text))
            elif k.t == 'softbreak':
                out.append(self.softbreak)
            elif k.t == 'linebreak':
                if not (out and out[-1] == '\n'):
                    out.append('\n')
            else:
                todo.extend(reversed(k.kids))
        return ''.join(out)


def to_html(text, smart=False):
    doc, refmap, amb = parse(text, smart)
    return Html().render(doc), amb
