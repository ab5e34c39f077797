"""Reference model: a small executable description of what a build of a project must publish.

Works on plain trees (path -> ('D',) | ('F', bytes) | ('L', target)); shares no code with the program."""
import json, re, datetime, tomllib

D = ('D',)
BUILTINS = {'begin', 'dateformat', 'else', 'end', 'excerpt', 'for', 'ifdefined', 'import', 'insert', 'timetoread',
            'ifeq', 'ifne', 'ifgt', 'ifge', 'iflt', 'ifle'}

class Fail(Exception):
    """The build has to fail."""

class Ambiguous(Exception):
    """The documentation does not settle what should happen: no verdict."""

class VErr(Exception):
    pass

# ------------------------------------------------------------------ file system
class VFS:
    def __init__(self, tree):
        self.n = {'/': D}
        self.kids = {'/': set()}
        for p in sorted(tree):
            self._put(p, tree[p])

    def _put(self, p, e):
        d, _, n = p.rpartition('/')
        d = d or '/'
        if d not in self.n:
            self._put(d, D)
        if d not in self.kids:
            return
        self.n[p] = e
        self.kids[d].add(n)
        if e[0] == 'D':
            self.kids.setdefault(p, set())

    def copy(self):
        v = VFS({})
        v.n = dict(self.n)
        v.kids = {k: set(s) for k, s in self.kids.items()}
        return v

    def tree(self):
        t = dict(self.n)
        t.pop('/')
        return t

    def lex(self, cwd, p):
        return p if p.startswith('/') else (cwd.rstrip('/') + '/' + p)

    def resolve(self, p, follow=True, depth=0):
        """Canonical path; the last component may be missing only if missing=True is handled by the caller."""
        if depth > 40:
            raise VErr('loop')
        cur = '/'
        comps = [c for c in p.split('/') if c not in ('', '.')]
        slash = p.endswith('/')
        for i, c in enumerate(comps):
            last = i + 1 == len(comps)
            if self.n[cur][0] != 'D':
                raise VErr('notdir')
            if c == '..':
                cur = cur.rpartition('/')[0] or '/'
                continue
            q = (cur if cur != '/' else '') + '/' + c
            e = self.n.get(q)
            if e is None:
                raise VErr('missing')
            if e[0] == 'L' and (not last or follow or slash):
                t = e[1]
                base = t if t.startswith('/') else cur + '/' + t
                rest = '/'.join(comps[i + 1:])
                return self.resolve(base + ('/' + rest if rest else ''), follow, depth + 1)
            cur = q
        return cur

    def look(self, p, follow=True):
        try:
            return self.n[self.resolve(p, follow)]
        except VErr:
            return None

    def isdir(self, p):
        e = self.look(p)
        return e is not None and e[0] == 'D'

    def isfile(self, p):
        e = self.look(p)
        return e is not None and e[0] == 'F'

    def ls(self, p):
        return sorted(self.kids[self.resolve(p)], key=lambda s: s.encode('utf-8', 'surrogateescape'))

    def under(self, p):
        pre = p.rstrip('/') + '/'
        return {q[len(pre):]: e for q, e in self.n.items() if q.startswith(pre)}

    # changes (as an editor or script makes them); return False when they do not apply
    def mkdirp(self, p):
        cur = '/'
        for c in p.split('/'):
            if c in ('', '.'):
                continue
            q = (cur if cur != '/' else '') + '/' + c
            e = self.n.get(q)
            if e is None:
                self._put(q, D)
                cur = q
            else:
                try:
                    cur = self.resolve(q)
                except VErr:
                    return False
                if self.n[cur][0] != 'D':
                    return False
        return True

    def write(self, p, data, append=False):
        d, _, n = p.rpartition('/')
        try:
            d = self.resolve(d or '/')
        except VErr:
            return False
        if self.n[d][0] != 'D':
            return False
        q = (d if d != '/' else '') + '/' + n
        e = self.n.get(q)
        if e is not None and e[0] == 'L':
            try:
                q = self.resolve(q)
            except VErr:
                return False
            e = self.n[q]
        if e is not None and e[0] != 'F':
            return False
        if append and e is not None:
            data = e[1] + data
        self._put(q, ('F', data))
        return True

    def rm(self, p):
        d, _, n = p.rpartition('/')
        try:
            d = self.resolve(d or '/')
        except VErr:
            return False
        q = (d if d != '/' else '') + '/' + n
        if q not in self.n:
            return False
        self._rm(q)
        return True

    def _rm(self, q):
        if self.n[q][0] == 'D':
            for k in list(self.kids[q]):
                self._rm(q + '/' + k)
            del self.kids[q]
        del self.n[q]
        d, _, n = q.rpartition('/')
        self.kids[d or '/'].discard(n)

    def mv(self, a, b):
        def sp(p):
            d, _, n = p.rpartition('/')
            return self.resolve(d or '/'), n
        try:
            (d1, n1), (d2, n2) = sp(a), sp(b)
        except VErr:
            return False
        q1 = (d1 if d1 != '/' else '') + '/' + n1
        q2 = (d2 if d2 != '/' else '') + '/' + n2
        if q1 not in self.n or q1 == q2 or q2.startswith(q1 + '/'):
            return False
        if q2 in self.n:
            if self.n[q2][0] == 'D':
                if self.n[q1][0] != 'D' or self.kids[q2]:
                    return False
            elif self.n[q1][0] == 'D':
                return False
            self._rm(q2)
        moved = {q1: self.n[q1]}
        for k, e in self.under(q1).items():
            moved[q1 + '/' + k] = e
        self._rm(q1)
        for k in sorted(moved):
            self._put(q2 + k[len(q1):], moved[k])
        return True

# ------------------------------------------------------------------ scripts
class Kill(Exception):
    pass

def run_script(vfs, code, cwd, env, argv=()):
    """Effects of a simulated script; returns (status, snaps) with status 0, 1..255 or -signal."""
    def ex(s):
        def sub(m):
            k = m.group(1)
            if k and k.isdigit():
                return argv[int(k)] if int(k) < len(argv) else ''
            return env.get(k, '')
        r = re.sub(r'\$([A-Za-z0-9_]*)', sub, s)
        return r if r.startswith('/') or not r else cwd.rstrip('/') + '/' + r
    for line in code.split('\n'):
        a = line.split()
        if not a or a[0][0] == '#' or a[0] == ':':
            continue
        k = a[0].lstrip('@')
        g = lambda i: a[i] if i < len(a) else ''
        h = lambda s: b'' if s in ('', '-') else bytes.fromhex(s)
        if k == 'mkdirp':
            vfs.mkdirp(ex(g(1)))
        elif k in ('write', 'append'):
            vfs.write(ex(g(1)), h(g(2)), k == 'append')
        elif k == 'rm':
            vfs.rm(ex(g(1)))
        elif k == 'cp':
            e = vfs.look(ex(g(1)))
            if e is None or e[0] != 'F':
                return 1
            vfs.write(ex(g(2)), e[1])
        elif k == 'need':
            if vfs.look(ex(g(1))) is None:
                return 1
        elif k == 'have':
            if vfs.look(ex(g(1))) is not None:
                return int(g(2))
        elif k == 'exit':
            return int(g(1)) & 255
        elif k == 'kill':
            return -(int(g(1)) & 127)
        elif k in ('out', 'err', 'outn', 'errn', 'sleep', 'snap'):
            pass
        else:
            raise ValueError(line)
    return 0

# ------------------------------------------------------------------ markdown subset
SAFE = re.compile(r"^[A-Za-z0-9 ,.;:!?/()\n-]*$")

def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')

def inline(s):
    out, i = [], 0
    pat = re.compile(r'\*\*([A-Za-z0-9]+(?: [A-Za-z0-9]+)*)\*\*|\*([A-Za-z0-9]+(?: [A-Za-z0-9]+)*)\*|`([A-Za-z0-9 ]*[A-Za-z0-9])`|\[([A-Za-z0-9]+(?: [A-Za-z0-9]+)*)\]\(([A-Za-z0-9/.]+)\)')
    for m in pat.finditer(s):
        pre = s[i:m.start()]
        out.append(plain(pre))
        if m.group(1):
            out.append('<strong>%s</strong>' % m.group(1))
        elif m.group(2):
            out.append('<em>%s</em>' % m.group(2))
        elif m.group(3):
            if m.group(3) != m.group(3).strip():
                raise Ambiguous('code span')
            out.append('<code>%s</code>' % m.group(3))
        else:
            out.append('<a href="%s">%s</a>' % (m.group(5), m.group(4)))
        i = m.end()
    out.append(plain(s[i:]))
    return ''.join(out)

def plain(s):
    if not SAFE.match(s) or '--' in s or '...' in s or re.search(r'  \n|:[a-z]+:|https?:|www', s):
        raise Ambiguous('markdown text')
    return s

def md2html(text):
    out = []
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if not l.strip():
            i += 1
            continue
        if l != l.lstrip() or l != l.rstrip():
            raise Ambiguous('markdown indent')
        m = re.match(r'^(#{1,6}) (\S.*)$', l)
        if m:
            n = len(m.group(1))
            out.append('<h%d>%s</h%d>\n' % (n, inline(m.group(2)), n))
            i += 1
        elif l == '```':
            j = i + 1
            while j < len(lines) and lines[j] != '```':
                if not SAFE.match(lines[j]):
                    raise Ambiguous('code block')
                j += 1
            if j >= len(lines) or j == i + 1:
                raise Ambiguous('open fence')
            out.append('<pre><code>%s</code></pre>\n' % ''.join(esc(x) + '\n' for x in lines[i + 1:j]))
            i = j + 1
        elif l.startswith('- '):
            items = []
            while i < len(lines) and lines[i].startswith('- '):
                if not re.match(r'^[A-Za-z]', lines[i][2:]) or lines[i] != lines[i].rstrip():
                    raise Ambiguous('list item')
                items.append(lines[i][2:])
                i += 1
            if i < len(lines) and lines[i].strip():
                raise Ambiguous('lazy list')
            k = i
            while k < len(lines) and not lines[k].strip():
                k += 1
            if k < len(lines) and re.match(r'^[-*+]', lines[k]):
                raise Ambiguous('loose list')
            out.append('<ul>\n%s</ul>\n' % ''.join('<li>%s</li>\n' % inline(x) for x in items))
        else:
            para = []
            while i < len(lines) and lines[i].strip():
                if not re.match(r'^[A-Za-z*`\[(]', lines[i]) or lines[i] != lines[i].strip() or lines[i].startswith(('* ', '```', '[^', '[ ]', '[x]')):
                    raise Ambiguous('paragraph')
                para.append(lines[i])
                i += 1
            out.append('<p>%s</p>\n' % inline('\n'.join(para)))
    return ''.join(out)

# ------------------------------------------------------------------ template parsing
class P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def next(self):
        if self.i >= len(self.s):
            raise Fail('unexpected end of file')
        self.i += 1
        return self.s[self.i - 1]

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def while_(self, f):
        j = self.i
        while self.i < len(self.s) and f(self.s[self.i]):
            self.i += 1
        return self.s[j:self.i]

    def expect(self, t):
        for c in t:
            if self.next() != c:
                raise Fail('expected ' + t)

    def until_open(self):
        r, i = '', self.i
        while i < len(self.s):
            r += self.s[i]
            i += 1
            if r.endswith('{{'):
                if len(r) > 2 and r[-3] == '\\':
                    r = r[:-3] + '{{'
                    continue
                self.i = i
                return r[:-2]
        return None

def parse_arg(a):
    if a.startswith('$'):
        if not all(c.isalnum() or c in '_.' for c in a[1:]):
            raise Fail('invalid variable name')
        return ('v', a[1:])
    if a.startswith('"') and a.endswith('"') and len(a) > 1:
        if '"' in a[1:-1]:
            raise Fail('syntax error')
        return ('s', a[1:-1])
    if re.match(r'^[+-]?[0-9]+$', a) and -2**31 <= int(a) < 2**31:
        return ('i', int(a))
    if a in BUILTINS:
        return ('d', a)
    raise Fail('syntax error')

def parse_template(text, plugins):
    p, toks = P(text), []
    while True:
        raw = p.until_open()
        if raw is None:
            break
        if raw:
            toks.append(('raw', raw))
        p.ws()
        c = p.peek()
        if c is None:
            raise Fail('unexpected end of file')
        if c == '$':
            p.next()
            n = p.while_(lambda c: c.isalnum() or c in '_.')
            if not n:
                raise Fail('invalid variable name')
            toks.append(('var', n))
        else:
            toks.append(parse_function(p, plugins))
        p.ws()
        p.expect('}}')
    rest = p.s[p.i:].replace('\\{{', '{{')
    if rest:
        toks.append(('raw', rest))
    return toks

def parse_function(p, plugins):
    name = p.while_(lambda c: c.isalnum() or c in '_:')
    if not name:
        raise Fail('invalid function name')
    p.ws()
    p.expect('(')
    pos, named = [], []
    while True:
        p.ws()
        q = [False]
        def f(c):
            if c == '"':
                q[0] = not q[0]
            return q[0] or c not in '),'
        a = p.while_(f).strip()
        if a and a[0] != '"' and '=' in a:
            k, _, v = a.partition('=')
            if not k or not v or not all(c.isalnum() or c == '_' for c in k):
                raise Fail('syntax error')
            named.append((k, parse_arg(v)))
        elif a:
            if named:
                raise Fail('positional after named')
            pos.append(parse_arg(a))
        if p.next() == ')':
            break
    p.ws()
    if name in BUILTINS:
        return ('fn', name, check_args(name, pos, named))
    for pl in plugins:
        if name in ('say', 'say_' + pl, pl + '::say', pl + '::say_' + pl, 'say_' + pl.split('-')[0]):
            if not pos or pos[0][0] != 's':
                raise Fail('invalid argument')
            return ('fn', 'plugin', '(%s:%s)' % (pl, pos[0][1]))
    raise Fail('nonexistent function ' + name)

def check_args(name, pos, named):
    def shape(*kinds):
        if len(pos) != len(kinds) or named or any(a[0] not in k for a, k in zip(pos, kinds)):
            raise Fail('bad arguments of ' + name)
        return pos
    if name in ('begin', 'end'):
        return shape('sd')
    if name == 'insert':
        return shape('s')
    if name == 'else':
        return shape()
    if name == 'import':
        return shape('v', 's')
    if name in ('ifdefined', 'timetoread'):
        return shape('v')
    if name == 'dateformat':
        return shape('v', 's')
    if name == 'excerpt':
        shape('v', 'i')
        if pos[1][1] < 0:
            raise Fail('negative length')
        return pos
    if name.startswith('if'):
        return shape('vsi', 'vsi')
    # for
    if len(pos) != 2 or pos[0][0] != 'v' or pos[1][0] not in 'sv':
        raise Fail('bad arguments of for')
    if pos[1][0] == 's' and not pos[1][1].endswith(('.json', '/')):
        raise Fail('bad source of for')
    o = dict(skip=None, limit=None, sortby=None, order='asc')
    for k, v in named:
        if k in ('skip', 'limit'):
            if v[0] != 'i' or o[k] is not None or v[1] < 0:
                raise Fail('bad ' + k)
            o[k] = v[1]
        elif k == 'sortby':
            if v[0] != 'v' or o[k] is not None:
                raise Fail('bad sortby')
            o[k] = v[1]
        elif k == 'order':
            if v not in (('s', 'asc'), ('s', 'desc')):
                raise Fail('bad order')
            o[k] = v[1]
        else:
            raise Fail('bad argument ' + k)
    return (pos[0][1], pos[1], o)

# ------------------------------------------------------------------ template execution
def get_value(idx, v):
    for i in idx:
        if isinstance(v, dict) and i in v:
            v = v[i]
        elif isinstance(v, list) and i.isdigit() and int(i) < len(v):
            v = v[int(i)]
        elif isinstance(v, dict) and i.isdigit():
            raise Ambiguous('numeric index of object')
        else:
            return None
    return v

class Frame:
    __slots__ = ('name', 'vars', 'out')

    def __init__(self, name, vars=()):
        self.name, self.vars, self.out = name, dict(vars), []

class Exec:
    """Executes template tokens with a frame stack, as the template language is documented."""
    def __init__(self, site, base_vars, self_value=None):
        self.site = site
        self.base_vars = base_vars
        f = Frame('base', base_vars)
        if self_value is not None:
            f.vars.setdefault('self', self_value)
        self.stack = [f]
        self.sections = []

    def page(self, toks):
        self.run_all(toks)
        f = self.stack.pop()
        if f.name != 'base':
            raise Fail('unclosed block')
        return ''.join(f.out)

    def root(self, toks):
        if self.stack:
            raise Fail('stack')
        self.stack.append(Frame('base', self.base_vars))
        self.run_all(toks)
        if len(self.stack) != 1:
            raise Ambiguous('unclosed block in root')
        return ''.join(self.stack.pop().out)

    def run_all(self, toks):
        self.toks, self.i = toks, 0
        while self.i < len(self.toks):
            self.i += 1
            self.step(self.toks[self.i - 1])

    def lookup(self, name):
        parts = name.split('.')
        for f in reversed(self.stack):
            if parts[0] in f.vars:
                return True, get_value(parts[1:], f.vars[parts[0]])
        return False, None

    def out(self, s):
        if not self.stack:
            raise Fail('stack')
        self.stack[-1].out.append(s)

    def string(self, name):
        ok, v = self.lookup(name)
        if not ok or not isinstance(v, str):
            raise Fail('not a string: ' + name)
        return v

    def step(self, t):
        if t[0] == 'raw':
            return self.out(t[1])
        if t[0] == 'var':
            return self.out(self.string(t[1]))
        name, a = t[1], t[2]
        if name == 'plugin':
            return self.out(a)
        getattr(self, 'f_' + (name if not (name.startswith('if') and name != 'ifdefined') else 'if'))(a, name)

    def f_begin(self, a, _):
        self.stack.append(Frame('begin:' + a[0][1]))

    def f_end(self, a, _):
        f = self.stack.pop() if self.stack else None
        if f is None:
            raise Fail('end without begin')
        if a[0][0] == 's':
            if f.name != 'begin:' + a[0][1]:
                raise Fail('end without begin')
            s = ''.join(f.out)
            self.out(s)
            self.sections.append((a[0][1], s))
        else:
            if not f.name.startswith(a[0][1] + ':'):
                raise Fail('end without begin')
            self.out(''.join(f.out))

    def f_else(self, a, _):
        if not self.stack or not self.stack[-1].name.startswith('if'):
            raise Fail('else without if')

    def f_insert(self, a, _):
        for l, s in self.sections:
            if l == a[0][1]:
                return self.out(s)
        raise Fail('undefined section')

    def f_import(self, a, _):
        n = self.site.at(a[1][1])
        if n is None or n.dir or n.kind != 'json':
            raise Fail('import')
        f = self.stack[-1]
        if a[0][1] in f.vars:
            raise Fail('variable exists')
        f.vars[a[0][1]] = n.value

    def cond(self, c, label):
        h = len(self.stack)
        self.stack.append(Frame(label))
        skipped = 0                                     # blocks open within the branch that is not taken
        while len(self.stack) > h:
            if self.i >= len(self.toks):
                raise Fail('unexpected end of file')
            self.i += 1
            t = self.toks[self.i - 1]
            fn = t[1] if t[0] == 'fn' else None
            if not c and fn is not None and (fn in ('for', 'begin') or fn.startswith('if')):
                skipped += 1
            elif not c and skipped:
                skipped -= fn == 'end'
            elif c or (fn in ('end', 'else') and len(self.stack) == h + 1):
                self.step(t)
                if fn == 'else':
                    c = not c

    def f_ifdefined(self, a, _):
        ok, v = self.lookup(a[0][1])
        self.cond(ok and v is not None, 'ifdefined:' + a[0][1])

    def f_if(self, a, name):
        def val(x):
            if x[0] != 'v':
                return x[1]
            ok, v = self.lookup(x[1])
            if isinstance(v, bool) or not isinstance(v, (str, int, float)) or not ok:
                raise Fail('undefined')
            if isinstance(v, float):
                if v != int(v):
                    raise Ambiguous('fraction in comparison')
                v = int(v)
            if isinstance(v, int) and not -2**31 <= v < 2**31:
                raise Ambiguous('large number')
            return v
        x, y = val(a[0]), val(a[1])
        same = isinstance(x, str) == isinstance(y, str)
        num = same and not isinstance(x, str)
        c = {'ifeq': same and x == y, 'ifne': not (same and x == y), 'ifgt': num and x > y, 'ifge': num and x >= y,
             'iflt': num and x < y, 'ifle': num and x <= y}[name]
        if name in ('ifgt', 'ifge', 'iflt', 'ifle') and not num:
            raise Ambiguous('ordering of strings')
        self.cond(c, name + ':')

    def f_for(self, a, _):
        var, src, o = a
        start = self.i
        if src[0] == 'v':
            ok, v = self.lookup(src[1])
            if not ok or not isinstance(v, list):
                raise Fail('not an array')
            items = list(v)
        else:
            n = self.site.at(src[1])
            if n is None:
                raise Fail('not found')
            if src[1].endswith('/') and not src[1].endswith('.json'):
                if not n.dir:
                    raise Fail('not a directory')
                items = [c.md_value() for c in n.kids if not c.dir and c.kind == 'md']
            else:
                if n.dir or n.kind != 'json' or not isinstance(n.value, list):
                    raise Fail('not an array')
                items = list(n.value)
        if o['sortby'] is not None:
            idx = o['sortby'].split('.')[1:]
            def key(v):
                s = get_value(idx, v)
                return s.encode() if isinstance(s, str) else b''
            items.sort(key=key)
        if o['order'] == 'desc':
            items.reverse()
        if o['skip'] is not None:
            items = items[o['skip']:]
        if o['limit'] is not None:
            items = items[:o['limit']]
        if not items:
            depth = 1
            while depth:
                if self.i >= len(self.toks):
                    raise Fail('unexpected end of file')
                t = self.toks[self.i]
                self.i += 1
                if t[0] == 'fn':
                    depth += 1 if t[1] in ('for', 'begin') or t[1].startswith('if') else -1 if t[1] == 'end' else 0
        for v in items:
            self.i = start
            h = len(self.stack)
            self.stack.append(Frame('for:' + var, {var: v}))
            while len(self.stack) > h:
                if self.i >= len(self.toks):
                    raise Fail('unexpected end of file')
                self.i += 1
                self.step(self.toks[self.i - 1])

    def f_excerpt(self, a, _):
        s, n = self.string(a[0][1]), a[1][1]
        if not s.isascii():
            text = re.sub('<[^>]*(>|$)', '', s)
            if len(text.encode()) < n:                  # whether characters or bytes count, nothing is left out
                return self.out(text)
            raise Ambiguous('excerpt of non-ASCII text')
        out, tag, used = '', False, 0
        while len(out) < n and used < len(s):
            c = s[used]
            used += 1
            if c == '<':
                tag = True
            elif c == '>':
                tag = False
            elif not tag:
                out += c
        self.out(out + ('...' if used < len(s) else ''))

    def f_timetoread(self, a, _):
        self.out(str(max(len(self.string(a[0][1]).split()) // 200, 1)))

    def f_dateformat(self, a, _):
        s, fmt = self.string(a[0][1]), a[1][1]
        m = re.match(r'^(\d{4})-(\d\d)-(\d\d)$', s)
        if not m:
            if re.search(r'\d', s):
                raise Ambiguous('date notation')
            raise Fail('invalid date')
        try:
            d = datetime.date(int(m.group(1)), int(m.group(2)), int(m.group(3)))
        except ValueError:
            raise Fail('invalid date')
        if d.year < 1000 or set(re.findall(r'%(.)', fmt)) - set('YmdBbAaHMjy'):
            raise Ambiguous('date format')
        self.out(datetime.datetime(d.year, d.month, d.day).strftime(fmt))

# ------------------------------------------------------------------ source tree
class Node:
    def __init__(self, name, dir, src):
        self.name, self.dir, self.src = name, dir, src
        self.kids, self.data, self.kind = [], None, None
        self.toks = self.front = self.md = self.html = self.value = self.plug = None

    def md_value(self):
        v = dict(self.front)
        v['content'] = self.html
        v['markdown'] = self.md
        return v

NUMBER = re.compile(r'"(?:[^"\\]|\\.)*"|[+-]?(?:inf(?:inity)?|nan|(?:\d+\.?\d*|\.\d+)(?:e[+-]?\d+)?)(?=[\s,\]}]|$)', re.I)

def parse_json(text):
    try:
        v = json.loads(text, object_pairs_hook=no_dups, parse_constant=lambda c: 1 / 0)
    except (ValueError, ZeroDivisionError, RecursionError):
        # numbers that JSON does not allow, but which are clear ('1.', '+1'): nothing is said about them
        try:
            json.loads(NUMBER.sub(lambda m: m.group() if m.group()[0] == '"' else 'null' if 'n' in m.group().lower() else '0', text))
        except (ValueError, RecursionError):
            raise Fail('invalid json')
        if any(m[0] != '"' and 'n' in m.lower() for m in NUMBER.findall(text)):
            raise Fail('invalid json')
        raise Ambiguous('unusual numbers in JSON')
    if not finite(v):
        raise Fail('number out of range')
    return v

def finite(v, d=0):
    if d > 200:
        raise Ambiguous('depth of JSON')
    if isinstance(v, (list, dict)):
        return all(finite(x, d + 1) for x in (v.values() if isinstance(v, dict) else v))
    try:
        return not isinstance(v, (int, float)) or abs(float(v)) < float('inf')
    except OverflowError:
        return False

def no_dups(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise Ambiguous('duplicate key')
    return d

def lines_of(s):
    r = s.split('\n')
    if r and r[-1] == '':
        r.pop()
    return [x[:-1] if x.endswith('\r') else x for x in r]

def uni(name):
    return name.encode('utf-8', 'surrogateescape').decode('utf-8', 'replace')

class Site:
    """One build's view of the sources."""
    def __init__(self, vfs, project, plugins=()):
        self.vfs, self.project, self.plugins = vfs, project, list(plugins)
        self.tree, self.lossy = None, False

    def at(self, path):
        n = self.tree
        for c in path.split('/'):
            if c in ('', '.'):
                continue
            if c == '..' or not n.dir:
                return None
            n = next((k for k in n.kids if k.name == c), None)
            if n is None:
                return None
        return None if path.startswith('/') else n

    def read(self, path, parse, depth=0):
        if depth > 60:
            raise Fail('endless directory')
        d = Node(path.rpartition('/')[2], True, path)
        for name in self.vfs.ls(path):
            p = path + '/' + name
            e = self.vfs.look(p)
            if e is None:
                raise Fail('unreadable ' + p)
            self.lossy |= uni(name) != name
            if e[0] == 'D':
                c = self.read(p, parse, depth + 1)
                c.name = uni(name)
            else:
                c = Node(uni(name), False, p)
                c.data = e[1]
                if parse:
                    self.parse(c)
                else:
                    c.kind = 'raw'
            d.kids.append(c)
        return d

    def parse(self, n):
        stem, dot, ext = n.name.rpartition('.')
        ext = ext if dot and stem else None
        if ext in ('html', 'md', 'json'):
            try:
                text = n.data.decode('utf-8')
            except UnicodeDecodeError:
                raise Fail('not UTF-8: ' + n.src)
        if ext == 'html':
            n.kind, n.toks = 'html', parse_template(text, self.plugins)
        elif ext == 'md':
            n.kind = 'md'
            self.parse_md(n, text)
        elif ext == 'json':
            n.kind = 'json'
            n.value = parse_json(text)
            if '\\u' in text and re.search('[\ud800-\udfff]', json.dumps(n.value, ensure_ascii=False)):
                raise Ambiguous('unpaired surrogates in JSON')
        else:
            n.kind = 'none'
            if ext == 'simx' and self.plugins:
                n.kind, n.plug = 'custom', self.plugins[0]
                if n.data.startswith(b'BAD'):
                    raise Fail('plugin parse')

    def parse_md(self, n, text):
        n.front, skip = {}, 0
        if text.startswith(('---\n', '---\r\n')):
            dashes = 0
            for i, l in enumerate(lines_of(text)):
                if l.startswith('---'):
                    dashes += 1
                    if dashes == 2:
                        skip = i + 1
                        break
                    continue
                k, c, v = l.partition(':')
                v = v.strip()
                if not c or len(v) < 2 or v[0] != '"' or v[-1] != '"':
                    raise Fail('invalid frontmatter')
                if k.strip() in n.front or k.strip() in ('content', 'markdown'):
                    raise Ambiguous('repeated frontmatter key')
                n.front[k.strip()] = v[1:-1]
            if dashes != 2:
                raise Fail('unexpected end of file')
        n.md = '\n'.join(lines_of(text)[skip:])
        n.toks = parse_template(n.md, self.plugins)

    def each(self, n):
        if n.dir:
            for k in n.kids:
                yield from self.each(k)
        else:
            yield n

    def build(self, cfg, environ):
        """Returns [(relative directory, Node-like entry)] of the processed tree."""
        p = self.project + '/content'
        if not self.vfs.isdir(p):
            raise Fail('no content')
        self.tree = self.read(self.vfs.resolve(p), True)
        lossy = lambda v: v.encode('utf-8', 'surrogateescape').decode('utf-8', 'replace')
        base = {'env': {lossy(k): lossy(v) for k, v in environ.items()}}
        done = []
        for n in self.each(self.tree):
            if n.kind == 'md':
                done.append((n, md2html(Exec(self, base).page(n.toks))))
        for n, h in done:
            n.html = h
        return self.process(self.tree, None, None, base)

    def process(self, d, root, md, base):
        for k in d.kids:
            if k.name == 'root.html':
                root = k.toks if k.kind == 'html' else None
            elif k.name == 'md.html':
                md = k.toks if k.kind == 'html' else None
        out = Node(d.name, True, d.src)
        for k in d.kids:
            if k.dir:
                out.kids.append(self.process(k, root, md, base))
                continue
            o = Node(k.name, False, k.src)
            o.kind, o.data, o.front, o.value = k.kind, k.data, k.front, k.value
            if k.name not in ('root.html', 'md.html'):
                if k.kind in ('html', 'md'):
                    if root is None:
                        raise Fail('no root.html')
                    if k.kind == 'html':
                        x = Exec(self, base)
                        x.page(k.toks)
                    else:
                        if md is None:
                            raise Fail('no md.html')
                        x = Exec(self, base, k.md_value())
                        x.page(md)
                        o.name = k.name[:-3] + '.html'
                    o.data = x.root(root).encode('utf-8')
                elif k.kind == 'custom':
                    if k.data.startswith(b'FAIL'):
                        raise Fail('plugin process')
                    o.data = ('[%s]' % k.plug).encode() + k.data
                    o.name = k.name + '.out'
            out.kids.append(o)
        return out

def merge(a, b):
    for k in b.kids:
        o = next((x for x in a.kids if x.name == k.name), None)
        if o is None:
            a.kids.append(k)
        elif o.dir and k.dir:
            merge(o, k)
        else:
            raise Conflict(o, k)

class Conflict(Fail):
    def __init__(self, a, b):
        Fail.__init__(self, 'conflict between %s and %s' % (a.src, b.src))
        self.a, self.b = a, b

def published(n, cfg):
    """Output name of a file below its directory, or None."""
    if n.kind == 'raw':
        return n.name
    if n.name in ('root.html', 'md.html') and n.kind != 'md' or (n.name.endswith('.json') and not cfg['data']):
        return None
    if cfg['strip'] and n.name.endswith('.html') and n.name != 'index.html':
        if n.name == '.html':
            raise Ambiguous('page without a name')
        return n.name[:-5] + '/index.html'
    return n.name

def layout(tree, cfg):
    """(files {rel: bytes}, dirs {rel}); raises Conflict."""
    files, dirs, owner = {}, set(), {}
    def rec(d, pre):
        for k in d.kids:
            if k.dir:
                p = pre + k.name
                if p in files:
                    raise Conflict(owner[p], k)
                dirs.add(p)
                owner.setdefault(p, k)
                rec(k, p + '/')
            else:
                q = published(k, cfg)
                if q is None:
                    continue
                p = pre + q
                if '/' in q:
                    dd = pre + q.rpartition('/')[0]
                    if dd in files:
                        raise Conflict(owner[dd], k)
                    dirs.add(dd)
                    owner.setdefault(dd, k)
                if p in files or p in dirs:
                    raise Conflict(owner[p], k)
                files[p] = k.data
                owner[p] = k
    rec(tree, '')
    return files, dirs

def metadata(tree, cfg):
    def rec(n):
        if n.dir:
            return {'type': 'directory', 'name': n.name, 'children': [rec(k) for k in n.kids]}
        m = {'name': n.name, 'type': 'file'}
        if n.kind == 'md':
            m.update(type='markdown', value=dict(n.front))
        elif n.kind == 'json':
            m.update(type='json', value=n.value)
        elif n.kind == 'custom':
            m.update(type='custom')
        return m
    return {'name': cfg['name'], 'author': cfg['author'], 'data': [rec(k) for k in tree.kids]}

def canon_meta(m):
    def num(x):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return float(x) + 0.0
        if isinstance(x, dict):
            return {k: num(v) for k, v in x.items()}
        return [num(v) for v in x] if isinstance(x, list) else x
    m = num(m)
    def rec(x):
        if isinstance(x, dict) and x.get('type') == 'directory' and isinstance(x.get('children'), list):
            x = dict(x)
            x['children'] = sorted((rec(c) for c in x['children']), key=lambda c: json.dumps(c, sort_keys=True))
        return x
    m = dict(m)
    if isinstance(m.get('data'), list):
        m['data'] = sorted((rec(c) for c in m['data']), key=lambda c: json.dumps(c, sort_keys=True))
    return m

def load_config(text):
    try:
        t = tomllib.loads(text)
    except tomllib.TOMLDecodeError:
        raise Fail('manifest')
    s = t.get('site')
    if not isinstance(s, dict) or not isinstance(s.get('name'), str) or not isinstance(s.get('author', ''), str):
        raise Fail('manifest')
    st = t.get('settings', {})
    dep = t.get('dependencies', {})
    if not isinstance(st, dict) or not isinstance(dep, dict) or any(not isinstance(v, str) for v in dep.values()):
        raise Fail('manifest')
    g = {}
    for k, dflt in (('strip_extensions', True), ('save_data_files', False), ('save_metadata', False)):
        v = st.get(k, dflt)
        if not isinstance(v, bool):
            raise Fail('manifest')
        g[k] = v
    return dict(name=s['name'], author=s.get('author'), strip=g['strip_extensions'], data=g['save_data_files'],
                meta=g['save_metadata'], deps=dep)

# ------------------------------------------------------------------ the whole command
PRE = ('onPreBuild', 'onPreBuild.sh')
POST = ('onPostBuild', 'onPostBuild.sh')
ENV = {'PATH': '/usr/bin', 'RUST_BACKTRACE': '0', 'SITE_VAR': 'from-env'}

class Outcome:
    ok = False
    phase = 'init'
    reason = ''
    files = None
    dirs = None
    meta = None
    cfg = None
    ran = ()
    vfs = None
    out = None
    project = None

def norm(p):
    r = []
    for c in p.split('/'):
        if c in ('', '.'):
            continue
        if c == '..':
            if r:
                r.pop()
        else:
            r.append(c)
    return '/' + '/'.join(r)

def find_project(vfs, cwd, manifest):
    try:
        m = vfs.resolve(vfs.lex(cwd, manifest))
    except VErr:
        raise Fail('no manifest')
    if vfs.n[m][0] != 'F':
        raise Fail('manifest unreadable')
    return m, m.rpartition('/')[0] or '/'

def scripts_in(vfs, project):
    d = project + '/scripts'
    if not vfs.isdir(d):
        return [], []
    names = [n for n in vfs.ls(d) if vfs.isfile(d + '/' + n)]
    return [n for n in names if n in PRE], [n for n in names if n in POST]

def script_env(project, manifest, output, env_name):
    return {'STUART_MANIFEST_PATH': manifest, 'STUART_MANIFEST_DIR': project, 'STUART_TEMP_DIR': project + '/temp',
            'STUART_OUT_DIR': output if output.startswith('/') else project + '/' + output, 'STUART_ENV': env_name}

def build(vfs, cwd='/p', manifest='stuart.toml', output='dist', env_name='production', environ=None, plugins=None,
          cfg=None, scripts=None):
    """Models one build on a copy of `vfs`. Never raises Fail; Ambiguous passes through."""
    o = Outcome()
    v = o.vfs = vfs.copy()
    environ = dict(environ or ENV)
    ran = o.ran = []
    try:
        m, project = find_project(v, cwd, manifest)
        o.project = project
        if cfg is None:
            try:
                cfg = load_config(v.n[m][1].decode('utf-8'))
            except UnicodeDecodeError:
                raise Fail('manifest not UTF-8')
        o.cfg = cfg
        if plugins is None:
            plugins = []
            for name in sorted(cfg['deps']):
                plugins.append(local_plugin(v, project, cfg['deps'][name]))
        pre, post = scripts if scripts is not None else scripts_in(v, project)
        senv = script_env(project, m, output, env_name)
        o.phase = 'pre'
        for s in pre:
            run_one(v, project, s, cwd, senv, environ, ran)
        o.phase = 'build'
        site = Site(v, project, plugins)
        environ2 = dict(environ)
        environ2['STUART_ENV'] = env_name
        tree = site.build(cfg, environ2)
        o.phase = 'merge'
        try:
            for d in ('static', 'temp'):
                p = project + '/' + d
                if v.look(p) is not None:
                    if not v.isdir(p):
                        raise Fail(d + ' is not a directory')
                    merge(tree, site.read(v.resolve(p), False))
            o.phase = 'layout'
            o.files, o.dirs = layout(tree, cfg)
        except Conflict as c:
            for x in (c.a, c.b):
                if not x.dir and published(x, cfg) is None:
                    raise Ambiguous('conflict with a file that is not published')
            raise
        if site.lossy:
            raise Ambiguous('names which are not Unicode')  # but if two become the same, it is a conflict
        v.rm(project + '/temp')
        o.phase = 'save'
        out = o.out = norm(output if output.startswith('/') else project + '/' + output)
        e = v.look(out, follow=False)
        if e is not None and (e[0] == 'D' or v.isdir(out)):
            v.rm(out)
            e = None
        if e is not None or not v.isdir(out.rpartition('/')[0] or '/'):
            raise Fail('output directory cannot be created')
        v.mkdirp(out)
        for d in sorted(o.dirs):
            v.mkdirp(out + '/' + d)
        for f in o.files:
            v.write(out + '/' + f, o.files[f])
        o.phase = 'meta'
        if cfg['meta']:
            o.meta = metadata(tree, cfg)
            if v.isdir(project + '/metadata.json'):
                raise Fail('metadata is a directory')
            v.write(project + '/metadata.json', json.dumps(o.meta).encode())
        o.phase = 'post'
        for s in post:
            run_one(v, project, s, cwd, senv, environ, ran)
        o.phase = 'done'
        o.ok = True
    except Fail as f:
        o.reason = str(f)
    return o

def run_one(v, project, name, cwd, senv, environ, ran):
    ran.append(name)
    p = project + '/scripts/' + name
    e = v.look(p)
    if e is None or e[0] != 'F':
        raise Fail('script missing')
    st = run_script(v, e[1].decode('utf-8', 'replace'), cwd, {**environ, **senv}, [p])
    if st:
        raise Fail('script %s: %d' % (name, st))

def local_plugin(v, project, sources):
    for s in sources.split(';'):
        if s.endswith(('.dll', '.js', '.mjs')):
            continue
        p = s if s.startswith('/') else project + '/' + s
        e = v.look(p)
        if e is not None and e[0] == 'F':
            m = re.match(rb'(?s)^SIMPLUGIN:([^\n]*)\n.*END$', e[1])
            if m:
                return m.group(1).decode()
    raise Fail('plugin')

def output_diff(actual, files, dirs):
    """First difference between an actual subtree {rel: entry} and the model, or None."""
    for p, b in files.items():
        a = actual.get(p)
        if a is None:
            return 'missing file %s' % p
        if a[0] != 'F':
            return '%s is not a file' % p
        if a[1] != b:
            return 'wrong bytes in %s: got %r, expected %r' % (p, clip(a[1], b), clip(b, a[1]))
    for d in dirs:
        if actual.get(d, (None,))[0] != 'D':
            return 'missing directory %s' % d
    for p, e in actual.items():
        if p not in files and p not in dirs:
            return 'unexpected %s %s' % ({'F': 'file', 'D': 'directory', 'L': 'link'}[e[0]], p)
    return None

def clip(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    i = max(0, i - 20)
    return ('..' if i else '') + a[i:i + 90].decode('utf-8', 'replace')
