"""Seeded generators: projects, edits, faults, schedules. Everything is drawn from the Random passed in."""
import json, random
import model
from model import VFS, D

WORDS = ('alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau upsilon phi chi psi omega '
         'red green blue stone river cloud ember frost lantern meadow').split()
NAMES = 'about news team work press labs docs guide start help terms legal faq shop blog notes talks media data kit'.split()

def F(b):
    return ('F', b.encode() if isinstance(b, str) else b)

def words(r, a, b):
    return ' '.join(r.choice(WORDS) for _ in range(r.randint(a, b)))

def text(r):
    """Raw template text."""
    k = r.random()
    if k < 0.6:
        return words(r, 1, 6)
    if k < 0.7:
        return '<p class="%s">%s</p>\n' % (r.choice(WORDS), words(r, 1, 4))
    if k < 0.78:
        return ' \\{{ %s }} ' % words(r, 1, 2)
    if k < 0.84:
        return ' { { } %s }}' % r.choice(WORDS)
    if k < 0.9:
        return '\n\t<b>é%s\u4e16</b>\r\n' % r.choice(WORDS)
    if k < 0.95:
        return '</body>' if r.random() < 0.3 else '</bodyx>'
    return '{' + r.choice(WORDS) + '}'

def fmt(r, inner):
    a, b = r.choice([(' ', ' ')] * 5 + [('', ''), ('\n  ', '\n'), ('\t', ' ')])
    return '{{' + a + inner + b + '}}'

def arg_ws(r, parts):
    s = r.choice([', '] * 4 + [',', ' , ', ',\n '])
    return s.join(parts)

class Ctx:
    def __init__(self, r, data, dirs):
        self.r, self.data, self.dirs = r, data, dirs      # data: {path: schema}, dirs: {path: front schema}
        self.n = 0
        self.plugins = []

    def fresh(self):
        self.n += 1
        return self.r.choice(('v', 'item', 'x_', 'Post')) + str(self.n)

UNI = ('naïve', 'Übung', 'œuvre', '日本', 'Ελλάς', 'мир', '😀', 'a\u00a0b', 'x\u0301', '“q”', '—')
ODD = ('back\\slash', 'q"uote', "it's", 'a: b', '{{ no }}', '{ $x }', '100%', '<b>', '&amp;', '# no', '---', '\ttab')

def unitext(r, line=True):
    """A string with characters that need care."""
    w = [r.choice(UNI) if r.random() < 0.4 else r.choice(ODD) if r.random() < 0.4 else r.choice(WORDS) for _ in range(r.randint(1, 4))]
    return (' ' if line or r.random() < 0.7 else r.choice(('\n', '\r\n', '\t'))).join(w)

def asize(r):
    return r.randint(1, 3) if r.random() < 0.88 else r.randint(4, 14)

def any_json(r, d=0):
    """Data that no template looks into."""
    k = r.random()
    if d < 4 and k < 0.2:
        return [any_json(r, d + 1) for _ in range(r.choice((0, 1, 2, 3, 6)))]
    if d < 4 and k < 0.45:
        return {r.choice(WORDS + list(UNI) + ['', 'a.b', 'name', 'type']) + r.choice(('', str(r.randint(0, 9)))): any_json(r, d + 1) for _ in range(r.choice((0, 1, 2, 4)))}
    return r.choice((True, False, None, 0, -1, 7, 2147483648, -99999999, 0.5, -2.25, 1234.125, r.choice((10**21, 1e300, -1e-7, 5e-324, 123456789.123456789, 2**53 + 1, 0.1, -0.0, 1.7976931348623157e308)), '', unitext(r, False), words(r, 1, 4)))

def dumps(r, v):
    """JSON written in an unusual, but valid way."""
    w = lambda: r.choice(('', '', ' ', '\n', '\t', '\r\n', '  '))
    if isinstance(v, list):
        return '[' + w() + (w() + ',' + w()).join(dumps(r, x) for x in v) + w() + ']'
    if isinstance(v, dict):
        return '{' + w() + (w() + ',' + w()).join(dumps(r, k) + w() + ':' + w() + dumps(r, x) for k, x in v.items()) + w() + '}'
    if isinstance(v, str):
        return '"' + ''.join('\\u%04X' % ord(c) if r.random() < 0.1 and ord(c) < 0x10000 else '\\/' if c == '/' else json.dumps(c, ensure_ascii=r.random() < 0.3)[1:-1] for c in v) + '"'
    if isinstance(v, float) and r.random() < 0.4:
        return '%.17E' % v
    return json.dumps(v)

def schema_value(r, s, uniq):
    k = s[0]
    if k == 'any':
        return any_json(r, 1)
    if k == 'uni':
        return unitext(r, len(s) > 1)
    if k == 'uniq' and r.random() < 0.15:
        return r.choice(('%s %d' % (r.choice(WORDS).upper(), r.randint(0, 3)), str(r.randint(0, 120)), r.choice(WORDS).title(), '_' + r.choice(WORDS), ' ' + r.choice(WORDS), r.choice(WORDS)))
    if k == 'str' and r.random() < 0.02:
        return words(r, 150, 450)
    if k == 'str':
        v = words(r, 1, 5)
        if r.random() < 0.15:
            v = '<i>%s</i> %s' % (r.choice(WORDS), v)
        return v
    if k == 'uniq':
        uniq[0] += 1
        return '%s %d' % (r.choice(WORDS), r.randint(0, 3) if r.random() < 0.3 else uniq[0])
    if k == 'date':
        return '%04d-%02d-%02d' % (r.randint(1990, 2035), r.randint(1, 12), r.randint(1, 28))
    if k == 'num':
        return r.randint(-3, 3)
    if k == 'arr':
        return [schema_value(r, s[1], uniq) for _ in range(asize(r))]
    if k == 'obj':
        o = {}
        for f, fs in s[1].items():
            if fs[0] == 'opt':
                c = r.random()
                if c < 0.4:
                    continue
                if c < 0.6 and not s[2:]:
                    o[f] = None
                    continue
                fs = fs[1]
            o[f] = schema_value(r, fs, uniq)
        return o
    raise ValueError(k)

def gen_schema(r):
    f = {'title': ('uniq',), 'date': ('date',)}
    if r.random() < 0.6:
        f['n'] = ('num',)
    if r.random() < 0.5:
        f['note'] = ('opt', ('str',))
    if r.random() < 0.4:
        f['tags'] = ('arr', ('obj', {'t': ('str',)}))
    if r.random() < 0.3:
        f['any'] = ('any',)
    if r.random() < 0.3:
        f['u'] = ('uni',)
    if r.random() < 0.2:
        f['list'] = ('arr', ('str',))
    if r.random() < 0.3:
        f['deep'] = ('obj', {'a': ('str',), 'k': ('num',)})
    return ('obj', f)

def fields(scope):
    """All readable dotted names of a scope: [(name, schema)]"""
    out = []
    def rec(n, s, d=0):
        out.append((n, s))
        if s[0] == 'obj' and d < 3:
            for k, x in s[1].items():
                rec(n + '.' + k, x, d + 1)
        if s[0] == 'arr':
            rec(n + '.0', s[1], d + 1)
    for n, s in scope.items():
        rec(n, s)
    return out

STR = ('str', 'uniq', 'date', 'html', 'uni')

def body(c, scope, depth, n, imported=None):
    r = c.r
    out = []
    scope = dict(scope)
    for _ in range(n):
        k = r.random()
        fs = fields(scope)
        strs = [f for f in fs if f[1][0] in STR]
        nums = [f for f in fs if f[1][0] == 'num']
        arrs = [f for f in fs if f[1][0] == 'arr']
        opts = [f for f in fs if f[1][0] == 'opt']
        if k < 0.3 or not strs:
            out.append(text(r))
        elif k < 0.5:
            out.append(fmt(r, '$' + r.choice(strs)[0]))
        elif k < 0.62 and depth < 3:
            v = c.fresh() if r.random() < 0.88 else r.choice(sorted(scope))
            dot = './' if r.random() < 0.06 else ''
            srcs = [('"%s%s"' % (dot, p), s) for p, s in c.data.items() if s[0] == 'arr'] + [('"%s%s/"' % (dot, p), ('arr', s)) for p, s in c.dirs.items()] + [('$' + a[0], a[1]) for a in arrs]
            if not srcs:
                continue
            src, s = r.choice(srcs)
            args = ['$' + v, src]
            item = s[1]
            if item[0] == 'obj' and r.random() < 0.5:
                args.append('sortby=$%s.%s' % (v, r.choice(sorted(item[1]) + ['none'])))
            if r.random() < 0.4:
                args.append('order="%s"' % r.choice(('asc', 'desc')))
            if r.random() < 0.3:
                args.append('limit=%d' % r.choice((1, 1, 2, 2, 3, 0, 5, 12)))
            if r.random() < 0.15:
                args.append('skip=%d' % r.choice((0, 1, 1, 2, 5)))
            inner = body(c, {**scope, v: item}, depth + 1, r.randint(1, 3))
            out.append(fmt(r, 'for(%s)' % arg_ws(r, args)) + inner + fmt(r, 'end(for)'))
        elif k < 0.74 and depth < 3:
            def branch():
                return text(r) if r.random() < 0.7 else body(c, scope, depth + 1, r.randint(1, 2))
            if opts and r.random() < 0.6:
                o = r.choice(opts)
                cond, lab = 'ifdefined($%s)' % o[0], 'ifdefined'
                a = branch() + (fmt(r, '$' + o[0]) if o[1][1][0] in STR else '')
                b = branch()
            else:
                if nums and r.random() < 0.6:
                    lab = r.choice(('ifeq', 'ifne', 'ifgt', 'ifge', 'iflt', 'ifle'))
                    x = '$' + r.choice(nums)[0]
                    y = r.choice(['$' + r.choice(nums)[0], str(r.randint(-2, 2)), str(r.randint(-2, 2))])
                    if r.random() < 0.3:
                        x, y = y, x
                elif r.random() < 0.7:
                    lab = r.choice(('ifeq', 'ifne'))
                    x = '$' + r.choice(strs)[0]
                    y = '"%s"' % r.choice(WORDS) if r.random() < 0.6 else '$' + r.choice(strs)[0]
                else:
                    lab, x, y = 'ifdefined', None, None
                if lab == 'ifdefined':
                    cond = 'ifdefined($%s)' % r.choice([s[0] for s in strs] + ['nope', strs[0][0] + '.zz'])
                else:
                    cond = '%s(%s)' % (lab, arg_ws(r, [x, y]))
                a, b = branch(), branch() + fmt(r, '$' + r.choice(strs)[0])
            s = fmt(r, cond) + a
            if r.random() < 0.6:
                s += fmt(r, 'else()') + b
            out.append(s + fmt(r, 'end(%s)' % lab))
        elif k < 0.80:
            ascii_ = [f for f in strs if f[1][0] in ('str', 'uniq', 'date')]
            if ascii_ and r.random() < 0.8:
                out.append(fmt(r, 'excerpt(%s)' % arg_ws(r, ['$' + r.choice(ascii_)[0], str(r.randint(0, 30))])))
            else:
                out.append(fmt(r, 'excerpt(%s)' % arg_ws(r, ['$' + r.choice(strs)[0], str(r.choice((400, 3000, 100000)))])))
        elif k < 0.84:
            out.append(fmt(r, 'timetoread($%s)' % r.choice(strs)[0]))
        elif k < 0.88:
            ds = [f for f in strs if f[1][0] == 'date']
            if ds:
                out.append(fmt(r, 'dateformat(%s)' % arg_ws(r, ['$' + r.choice(ds)[0], '"%s"' % r.choice(('%Y', '%d %B %Y', '%b %d', '%A', '%m/%y'))])))
        elif k < 0.94 and c.data:
            v = c.fresh()
            p = r.choice(sorted(c.data))
            out.append(fmt(r, 'import(%s)' % arg_ws(r, ['$' + v, '"%s"' % p])))
            scope[v] = c.data[p]
        elif c.plugins and r.random() < 0.8:
            pl = r.choice(c.plugins)
            out.append(fmt(r, '%s("%s")' % (r.choice(('say_' + pl, pl + '::say_' + pl, pl + '::say')), r.choice(WORDS))))
        elif depth < 3 and r.random() < 0.3:
            v = 'part%d' % (c.n + 1)
            c.n += 1
            out.append(fmt(r, 'begin("%s")' % v) + body(c, scope, depth + 1, r.randint(1, 2)) + fmt(r, 'end("%s")' % v))
        else:
            out.append(text(r))
    return ''.join(out)

def md_block(c, r, scope):
    k = r.random()
    def inl():
        x = r.random()
        w = r.choice(WORDS)
        strs = [f[0] for f in fields(scope) if f[1][0] in ('uniq', 'date', 'safe')]
        if x < 0.5:
            return words(r, 1, 5)
        if x < 0.6:
            return '**%s**' % w
        if x < 0.7:
            return '*%s*' % w
        if x < 0.76:
            return '`%s`' % w
        if x < 0.82:
            return '[%s](%s)' % (w, w + '/x.png')
        if strs and x < 0.92:
            return fmt2(r, '$' + r.choice(strs))
        if x < 0.96:
            return '{{ ifdefined($%s) }}%s{{ else() }}%s{{ end(ifdefined) }}' % (r.choice(strs + ['nope']), w, r.choice(WORDS))
        return w
    def fmt2(r, s):
        return '{{' + r.choice((' ', '')) + s + r.choice((' ', '')) + '}}'
    if k < 0.25:
        return '#' * r.randint(1, 3) + ' ' + words(r, 1, 4)
    if k < 0.7:
        return r.choice(WORDS) + ' ' + ' '.join(inl() for _ in range(r.randint(1, 4))) + ('' if r.random() < 0.7 else '\n' + r.choice(WORDS) + ' ' + inl())
    if k < 0.85:
        return '\n'.join('- ' + r.choice(WORDS) + ' ' + inl() for _ in range(r.randint(1, 3)))
    return '```\n' + '\n'.join(words(r, 1, 4) for _ in range(r.randint(1, 2))) + '\n```'

def md_file(c, r, front, uniq):
    fm = {}
    for k, s in front[1].items():
        if s[0] == 'opt':
            if r.random() < 0.5:
                continue
            s = s[1]
        fm[k] = schema_value(r, s, uniq)
        if s[0] == 'str' and r.random() < 0.3:
            fm[k] = unitext(r)
        if s[0] == 'str' and r.random() < 0.05:
            fm[k] = ''
    t = ''
    if fm or r.random() < 0.5:
        nl = '\r\n' if r.random() < 0.08 else '\n'
        t = '---' + nl + ''.join('%s: "%s"%s' % (k, v, nl) for k, v in fm.items()) + '---' + nl
    scope = {'env': ('obj', {'SITE_VAR': ('safe',), 'STUART_ENV': ('safe',)})}
    blocks = []
    for i in range(r.randint(0, 4)):
        b = md_block(c, r, scope)
        if blocks and b.startswith('- ') and blocks[-1].startswith('- '):
            continue
        blocks.append(b)
    return t + '\n\n'.join(blocks) + ('\n' if r.random() < 0.8 else '')

FRONT = {'title': ('uniq',), 'date': ('date',)}

HAVE_PLUGIN = True                                      # without a library to load, no plugins are generated

class Opts:
    def __init__(self, **k):
        self.scripts = self.old = self.links = True
        self.places = True          # vary cwd, manifest and output locations
        self.temp = True
        self.big = 0.04
        self.plugins = 0.15
        self.size = None
        self.__dict__.update(k)

def gen_project(r, o=None):
    """(tree, info): a buildable project; info says where it is and how to build it."""
    o = o or Opts()
    for _ in range(60):
        tree, info = _project(r, o)
        try:
            m = model.build(VFS(tree), info['cwd'], info['manifest'], info['output'], environ=environ(info))
        except model.Ambiguous:
            continue
        if m.ok:
            return tree, info
    raise RuntimeError('generator keeps failing')

def _project(r, o):
    t = {}
    info = {}
    root = '/p'
    if o.places:
        root = r.choice(['/p'] * 5 + ['/w/sites/my site', '/srv/a/b/c', '/déjà'])
    info['root'] = root
    info['env'] = environment(r) if r.random() < 0.12 else {}
    mname = 'stuart.toml' if not o.places or r.random() < 0.8 else r.choice(('site.toml', 'conf.toml'))
    size = o.size or r.choice((1, 1, 2, 2, 2, 3, 4))
    uniq = [0]
    data, dirs = {}, {}
    files = {}
    c = Ctx(r, data, dirs)
    plug = r.random() < o.plugins and HAVE_PLUGIN
    deps = {}
    if plug:
        c.plugins = ['pa'] if r.random() < 0.6 else ['pa', 'pb']
        for p in c.plugins:
            deps[p] = 'plug/%s.so' % p
            t[root + '/plug/%s.so' % p] = F('SIMPLUGIN:%s\nEND' % p)
    # data files
    for i in range(r.randint(0, size)):
        s = gen_schema(r)
        p = r.choice(('', '', 'data/', 'data/sub/')) + 'd%d.json' % i
        if r.random() < 0.7:
            s = ('arr', s)
        v = schema_value(r, s, uniq)
        files[p] = json.dumps(v, indent=r.choice((None, 2)), ensure_ascii=r.random() < 0.5)
        data[p] = s
    for i in range(r.choice((0, 0, 1, 2))):
        files[r.choice(('', 'data/', 'data/sub/')) + r.choice(('free%d', 'x y%d', 'é%d')) % i + '.json'] = dumps(r, any_json(r)) if r.random() < 0.4 else json.dumps(any_json(r), indent=r.choice((None, 2)), ensure_ascii=r.random() < 0.5)
    # markdown directories
    for i in range(r.randint(0, min(size, 3))):
        d = r.choice(NAMES) + str(i)
        if r.random() < 0.3:
            d = r.choice(NAMES) + str(i) + 'x/' + d
            if r.random() < 0.2:
                d = 'l1/l2/l3/' + d
        front = dict(FRONT)
        if r.random() < 0.5:
            front['note'] = ('opt', ('str',))
        fs = ('obj', dict(front), 1)
        dirs[d] = ('obj', {**front, 'content': ('html',), 'markdown': ('html',)}, 1)
        for j in range(r.randint(1, 1 + size) if r.random() < 0.95 else r.randint(8, 14)):
            files['%s/%s.md' % (d, r.choice(WORDS) + str(j) if r.random() < 0.92 else r.choice(('root', 'md', 'index', 'Index', 'a b%d' % j, 'é%d' % j, 'x.y%d' % j)))] = ('md', fs)
    for k in list(files):
        if isinstance(files[k], tuple):
            files[k] = md_file(c, r, files[k][1], uniq)
    # templates
    envs = {'env': ('obj', {'SITE_VAR': ('str',), 'STUART_ENV': ('str',)})}
    rootdirs = {''}
    allsec = ['main', 'title', 'extra']
    secs = {}
    def mkroot(d):
        ss = r.sample(allsec, r.randint(1, 3))
        if 'main' not in ss and r.random() < 0.8:
            ss.append('main')
        if d and r.random() < 0.5:
            # fits the templates above
            above = secs[nearest(d, secs)]
            ss = r.sample(above, r.randint(1, len(above)))
            inherits.add(d)
        secs[d] = ss
        h = '<html>' + body(c, envs, 2, r.randint(0, 2))
        for s in ss:
            h += text(r) + fmt(r, 'insert("%s")' % s)
            if r.random() < 0.1:
                h += fmt(r, 'insert("%s")' % s)
        files[(d + '/' if d else '') + 'root.html'] = h + ('</body>' if r.random() < 0.7 else '') + '</html>\n'
    def nearest(d, kind):
        while True:
            if d in kind:
                return d
            if not d:
                return None
            d = d.rpartition('/')[0]
    inherits = set()
    mkroot('')
    subs = sorted({x.rpartition('/')[0] for x in files if '/' in x})
    for d in subs:
        if r.random() < 0.25:
            mkroot(d)
    def page(d, scope, n):
        ss = list(secs[nearest(d, secs)])
        extra = [s for s in allsec if s not in ss]
        if extra and r.random() < 0.3:
            ss.append(r.choice(extra))
        r.shuffle(ss)
        out = body(c, scope, 2, r.randint(0, 1))
        for s in ss:
            out += fmt(r, 'begin("%s")' % s) + body(c, scope, 0, r.randint(0, n)) + fmt(r, 'end("%s")' % s) + (text(r) if r.random() < 0.3 else '')
        return out
    mds = {''}
    selfs = {**envs, 'self': ('obj', {**FRONT, 'note': ('opt', ('str',)), 'content': ('html',), 'markdown': ('html',)})}
    def mkmd(d):
        mds.add(d)
        files[(d + '/' if d else '') + 'md.html'] = page(d, selfs, 4)
    # md.html must fit the root of every page it is used for: give each root directory its own
    for d in list(secs):
        if d not in inherits or r.random() < 0.3:
            mkmd(d)
    for d in subs:
        if d not in mds and r.random() < 0.2:
            mkmd(d)
    for i in range(r.randint(1, 2 + size)):
        d = r.choice([''] * 3 + subs + ['pg%d' % i])
        n = 'index' if r.random() < 0.3 else r.choice(NAMES) + (str(i) if r.random() < 0.7 else '')
        if r.random() < 0.05:
            n = r.choice((n + '.v2', n + ' copy', n + 'é', 'root', 'md', n.upper(), '%20' + n, n + '+1', '日本', 'x.html', '-' + n, n + '~')) if r.random() < 0.9 else n
            if n in ('root', 'md'):
                continue
        files[(d + '/' if d else '') + n + '.html'] = page(d, envs, 4)
    # other content
    for i in range(r.randint(0, size)):
        n = r.choice(('style.css', 'app.js', 'pic.png', 'LICENSE', 'x.tar.gz', 'raw.htm', 'a.b.c', '.nojekyll', 'p.simx'))
        files[r.choice([''] + [s + '/' for s in subs]) + n] = blob(r, o)
    for p, b in files.items():
        t[root + '/content/' + p] = F(b)
    if r.random() < 0.15:
        t[root + '/content/' + r.choice(('empty', 'pg0/none'))] = D
    # static, temp
    for area in ('static', 'temp'):
        if area == 'temp' and not (o.temp and r.random() < 0.25):
            continue
        if r.random() < 0.75:
            t[root + '/' + area] = D
            for i in range(r.randint(0, size + 1)):
                n = r.choice(('', '', 'img/', 'a/b/', 'news/', 'fonts/')) + r.choice(('logo.png', 'robots.txt', 'data.json', 'root.html', 'md.html', 'page.html', 'index.html', 'f%d.bin' % i, 'feed.xml', 'CNAME', '.well-known'))
                t['%s/%s/%s' % (root, area, n if area == 'static' else 't' + str(i) + n.replace('/', '-'))] = F(blob(r, o))
    if r.random() < 0.2:
        lookalikes(r, t, root)
    # settings
    st = {}
    for k in ('strip_extensions', 'save_data_files', 'save_metadata'):
        if r.random() < 0.5:
            st[k] = r.random() < 0.5
    name, author = r.choice(('Site', 'My \\"site\\"', 'déjà vu')), None
    if r.random() < 0.6:
        author = r.choice(('A <a@b.c>', 'Ünïcode'))
    m = '[site]\nname = "%s"\n' % name
    if author:
        m += 'author = "%s"\n' % author
    if st:
        m += '\n[settings]\n' + ''.join('%s = %s\n' % (k, 'true' if v else 'false') for k, v in st.items())
    if deps:
        m += '\n[dependencies]\n' + ''.join('%s = "%s"\n' % (k, v) for k, v in deps.items())
    t[root + '/' + mname] = F(m)
    info['settings'] = st
    # places
    cwd, man, out = root, mname, 'dist'
    if o.places:
        k = r.random()
        if k < 0.15:
            cwd, man = '/', root[1:] + '/' + mname
        elif k < 0.25:
            cwd, man = '/elsewhere', root + '/' + mname
            t['/elsewhere'] = D
        elif k < 0.35:
            cwd, man = root + '/content', '../' + mname
        elif k < 0.42 and o.links:
            t['/lnk'] = ('L', root)
            cwd, man = '/', 'lnk/' + mname
        k = r.random()
        if k < 0.1:
            out = r.choice(('public', 'out dir', '_site'))
        elif k < 0.2:
            t['/var/www'] = D
            out = r.choice(('/var/www/site', '/var/www/s.x'))
        elif k < 0.26:
            t[root + '/build'] = D
            out = r.choice(('build/site', './build/./x', 'build/../pub'))
        elif k < 0.3:
            out = '../outside'
            if root == '/p':
                out = '../outside'
    info.update(cwd=cwd, manifest=man, output=out)
    outp = model.norm(out if out.startswith('/') else root + '/' + out)
    info['out'] = outp
    # links
    if o.links and r.random() < 0.3:
        t['/shared/lib.css'] = F('css %d' % r.randint(0, 99))
        t['/shared/deep/x.txt'] = F('x')
        where = r.choice(('static', 'content'))
        if r.random() < 0.6:
            t['%s/%s/linked.css' % (root, where)] = ('L', '/shared/lib.css')
        if r.random() < 0.6:
            t['%s/%s/linkdir' % (root, where)] = ('L', '/shared/deep')
    # scripts
    if o.scripts and r.random() < 0.4:
        if r.random() < 0.7:
            t[root + '/scripts/' + r.choice(('onPreBuild.sh', 'onPreBuild'))] = F(pre_script(r))
        if r.random() < 0.5:
            t[root + '/scripts/' + r.choice(('onPostBuild.sh', 'onPostBuild'))] = F(post_script(r))
        if r.random() < 0.2:
            t[root + '/scripts/helper.sh'] = F('exit 9\n')
    # previous output
    if o.old and r.random() < 0.6:
        old_output(r, t, outp, root, o)
    if o.old and r.random() < 0.3:
        t[root + '/metadata.json'] = F(r.choice(('{}', 'junk', '')) + 'x' * r.randint(0, 3000))
    return t, info

def lookalike(r, n):
    k = r.random()
    if k < 0.5:
        return r.choice((n.upper(), n.capitalize(), n.title(), n.swapcase()))
    if k < 0.65:
        return n + r.choice((' ', '.', '_', '~', '\u200b'))
    if k < 0.75:
        return ' ' + n
    if k < 0.85:
        return n.replace('e', 'e\u0301').replace('a', '\u0430')
    return n.replace('.', '') if '.' in n[1:] else n + '.' + r.choice(('d', 'HTML', 'MD', 'Json', 'htmlx'))

def lookalikes(r, t, root):
    """Files whose names differ from those of others only in case, spaces and the like."""
    c = root + '/content/'
    for _ in range(r.randint(1, 3)):
        src = [p for p in sorted(t) if t[p][0] == 'F' and p.startswith((c, root + '/static/'))]
        p = r.choice(src)
        area = root + ('/content/' if p.startswith(c) else '/static/')
        parts = p[len(area):].split('/')
        i = r.randrange(len(parts))
        if parts[i] in ('root.html', 'md.html'):
            continue
        parts[i] = lookalike(r, parts[i])
        dst = root + r.choice(('/content/', '/static/', '/static/')) + '/'.join(parts)
        if dst in t or '/root.' in dst or '/md.' in dst:
            continue
        if dst.startswith(c):
            n = parts[-1]
            if n.endswith(('.json', '.md', '.html')) and not p.startswith(c):
                continue
            t[dst] = t[p] if p.startswith(c) else F(words(r, 1, 3))
        else:
            t[dst] = F(words(r, 1, 5))

def blob(r, o):
    k = r.random()
    if k < o.big:
        n = r.choice((8191, 8192, 8193, 65536, 70000))
        return bytes(r.getrandbits(8) for _ in range(64)) * (n // 64) + b'z' * (n % 64)
    if k < 0.1:
        return b''
    if k < 0.3:
        return bytes(r.getrandbits(8) for _ in range(r.randint(1, 60)))
    return words(r, 1, 12) + '\n'

def pre_script(r):
    l = ['# pre']
    if r.random() < 0.8:
        l += ['mkdirp $STUART_TEMP_DIR', 'write $STUART_TEMP_DIR/gen%d.txt %s' % (r.randint(0, 3), words(r, 1, 3).encode().hex())]
        if r.random() < 0.5:
            l += ['mkdirp $STUART_TEMP_DIR/sub', 'write $STUART_TEMP_DIR/sub/g.html %s' % words(r, 1, 3).encode().hex()]
    if r.random() < 0.4:
        l.append('out %s' % b'hello\n'.hex())
    if r.random() < 0.15:
        l.append('%s %d' % (r.choice(('outn', 'errn')), r.choice((10, 65536, 70001, 200000))))
    if r.random() < 0.3:
        l.append('sleep %d' % r.randint(1, 5 * 10**9))
    return '\n'.join(l) + '\n'

def post_script(r):
    l = ['# post', 'snap']
    if r.random() < 0.3:
        l.append('out %s' % b'done\n'.hex())
    if r.random() < 0.3:
        l.append('sleep %d' % r.randint(1, 10**9))
    return '\n'.join(l) + '\n'

def old_output(r, t, out, root, o):
    t[out] = D
    for i in range(r.randint(0, 6)):
        n = r.choice(('', 'about/', 'news/', 'x/y/')) + r.choice(('index.html', 'old.html', 'stale.css', 'a', 'page.html', 'data.json'))
        p = out + '/' + n
        if not any(q == p or q.startswith(p + '/') or p.startswith(q + '/') for q in t if t[q][0] != 'D'):
            t[p] = F('stale %d' % i)
    if o.links and r.random() < 0.5:
        for i in range(r.randint(1, 3)):
            tgt = r.choice((root + '/content', root + '/static', root, '/shared', '../content', '/outside-precious', 'nowhere'))
            p = out + '/' + r.choice(('about', 'lnk', 'x', 'index.html', 'news')) + r.choice(('', str(i)))
            if not any(q == p or q.startswith(p + '/') or p.startswith(q + '/') for q in t if t[q][0] != 'D' or q.startswith(p)):
                t[p] = ('L', tgt)
        t['/outside-precious/keep.txt'] = F('keep')
    if r.random() < 0.05:
        for q in [q for q in t if q.startswith(out + '/')]:
            del t[q]
        t[out] = ('L', '/old-out-target')
        t['/old-out-target/keep'] = F('keep')

def environ(info):
    return {**model.ENV, **(info.get('env') or {})}

def environment(r):
    """Environment variables of the command; not all of them are Unicode."""
    e = {}
    if r.random() < 0.7:
        e['SITE_VAR'] = r.choice(('', 'plain value', 'a<b>&"c"', '\u00e9\u4e16\U0001f600', '{{ $env }}', 'x=y=z', 'v' * r.randint(1, 5000), 'caf\udce9', '\udcff\udcfe ok', ' '))
    if r.random() < 0.1:
        e['STUART_ENV'] = r.choice(('', 'staging', 'production', 'development'))
    for _ in range(r.choice((0, 0, 1, 3))):
        e[r.choice(('CITY', 'LANG', 'STUART_ENV', 'STUART_OUT_DIR', 'N\udcff', 'A.B', '\u00e9', 'site_var', 'STUARTX'))] = r.choice(('', 'C', 'bad\udc80', 'x' * 3000))
    return e

def io_cfg(r):
    """Random I/O behaviour that must not matter: listing order, short reads and writes, interruptions."""
    l = ['cfg dirmode %d' % r.choice((0, 1, 2, 2))]
    for k, p in (('p_shortr', 0.5), ('p_shortw', 0.5), ('p_eintr', 0.4)):
        if r.random() < p:
            l.append('cfg %s %s' % (k, r.choice(('0.02', '0.2', '0.5'))))
    if r.random() < 0.3:
        l.append('cfg dtype_unknown 1')
    if r.random() < 0.3:
        l.append('cfg mtimes %d' % r.randint(1, 10**9))
    if r.random() < 0.2:
        l.append('cfg mtgran %d' % r.choice((4 * 10**6, 10**9, 2 * 10**9)))
    return l

# ------------------------------------------------------------------ invalid projects
def content_files(t, info, *ext):
    pre = info['root'] + '/content/'
    return [p for p in sorted(t) if p.startswith(pre) and t[p][0] == 'F' and p.endswith(tuple(ext))]

def random_arg(r, v=None):
    k = r.random()
    if k < 0.3:
        return '$' + r.choice(('x', 'env', 'env.SITE_VAR', 'self', 'self.content', 'self.title', 'zz.0', '', 'a_b', '9', 'x..y', 'é', 'a.', 'env.'))
    if k < 0.6:
        return '"%s"' % r.choice(('main', 'a', '', 'x.json', 'posts/', 'missing/', '%Y', ')', ',', 'a=b', 'a, b', '(', '}}', ' pad ', '\\', 'é', 'root.html', 'root.html/', './', '/', '../', '%'))
    if k < 0.8:
        return r.choice(('0', '1', '3', '-1', '+5', '007', '2147483647', '2147483648', '-0', '99999999999999999999', '1.5', '1e3', '0x10'))
    if k < 0.92:
        return r.choice(('for', 'main', 'ifeq', 'insert', 'else', 'begin', 'end', 'import', 'ifdefined', 'nosuch', 'for1', 'timetoread'))
    return r.choice(('"', '"a', 'a"', '""""', '"a"b"', "'a'", '$a-b', '$$x', 'a b', '{', '', ' ', '=', 'x=', '=1'))

SHAPES = {'begin': 'q', 'end': 'q', 'insert': 's', 'else': '', 'import': 'vs', 'ifdefined': 'v', 'timetoread': 'v', 'dateformat': 'vs', 'excerpt': 'vi', 'for': 'vq',
          'ifeq': 'xx', 'ifne': 'xx', 'ifgt': 'xx', 'ifge': 'xx', 'iflt': 'xx', 'ifle': 'xx'}

def shape_arg(r, k):
    if k == 'v' or k in 'xq' and r.random() < 0.3:
        return r.choice(('$x', '$env.SITE_VAR', '$self', '$zz', '$self.title', '$env'))
    if k == 'i' or k == 'x' and r.random() < 0.5:
        return str(r.choice((0, 1, 5, 100)))
    return '"%s"' % r.choice(('main', 'a', 'x.json', 'posts/', '%Y', 'é'))

def spoil_args(r, a, n=''):
    """Arguments that are probably wrong."""
    a = list(a)
    k = r.random()
    if n == 'for' and k < 0.5:
        key = r.choice(('skip', 'limit', 'sortby', 'order'))
        if r.random() < 0.8:
            a = [x for x in a if not x.startswith(key)]
        v = {'skip': ('-1', '"1"', '$x', '1.5', '99999999999999999999', '2147483647'), 'sortby': ('"title"', '1', 'title', '$', '$a.b', '$title.'), 'order': ('"up"', '"ASC"', '$x', '1', 'asc', '""', '"desc "')}
        a.insert(r.randint(2, len(a)) if len(a) > 1 else len(a), '%s=%s' % (key, r.choice(v.get(key) or v['skip'])))
        return a
    if k < 0.25:
        a.insert(r.randint(0, len(a)), random_arg(r))
    elif k < 0.4 and a:
        a.pop(r.randrange(len(a)))
    elif k < 0.7 and a:
        a[r.randrange(len(a))] = random_arg(r)
    elif k < 0.95:
        a.append('%s=%s' % (r.choice(('skip', 'limit', 'sortby', 'order', 'sortby', 'order', 'x', 'name', 'skip ', '', 'a-b')), r.choice((random_arg(r), '1', '$title', '"asc"', '-1', '"up"', ' 1'))))
    else:
        a.append('')
    return a

def write_call(r, n, a):
    sp = lambda: r.choice(('', '', '', ' ', '  ', '\n', '\t'))
    return '{{' + sp() + n + sp() + '(' + sp() + (',' + sp()).join(a) + sp() + ')' + sp() + '}}'

def for_opts(r, v=None):
    return r.sample(['skip=%s' % r.choice((0, 1, 2)), 'limit=%s' % r.choice((0, 1, 7)), 'sortby=$title' if v is None else 'sortby=$%s.%s' % (v, r.choice(('t', 'o.t', 'n'))), 'order="%s"' % r.choice(('asc', 'desc'))], r.choice((0, 0, 1, 2, 4)))

def random_call(r):
    """A call of some function, with the right arguments or nearly so."""
    n = r.choice(list(SHAPES))
    a = [shape_arg(r, k) for k in SHAPES[n]]
    if n == 'for':
        a += for_opts(r)
    for _ in range(r.choice((0, 1, 1, 1, 2))):
        a = spoil_args(r, a, n)
    n = n if r.random() < 0.93 else r.choice((n.upper(), n + '2', 'x::' + n, n[:-1], '', n + ' ' + n, 'else if'))
    c = write_call(r, n, a)
    if r.random() < 0.06:
        c = r.choice((c[:-1], c[:-2] + '}', c.replace('(', '', 1), c.replace(')', '', 1), c[2:], '{{' + c, c + '}}'))
    return c

def random_block(r, t, info):
    """A block in which one of the calls, or their nesting, is wrong or nearly so."""
    dirs = sorted({p.rpartition('/')[0][len(info['root']) + 9:] for p in t if p.startswith(info['root'] + '/content/') and t[p][0] == 'F'} - {''})
    jsons = [p[len(info['root']) + 9:] for p in content_files(t, info, '.json')]
    k = r.choice(('begin', 'for', 'for', 'if', 'if', 'ifdefined', 'import', 'leaf'))
    x = 'v%d' % r.randint(0, 9)
    if k == 'begin':
        q = '"%s"' % r.choice(('main', 'zq', ''))
        cs = [('begin', [q]), 'text', ('end', [q])]
    elif k == 'for':
        src = r.choice(['"%s/"' % d for d in dirs] + ['"%s"' % j for j in jsons] + ['"./"', '$self', '$env.SITE_VAR']) if r.random() < 0.9 else random_arg(r)
        cs = [('for', ['$' + x, src] + for_opts(r)), '[{{ $%s }}]' % x if r.random() < 0.3 else '[{{ ifdefined($%s.title) }}{{ $%s.title }}{{ end(ifdefined) }}]' % (x, x), ('end', ['for'])]
    elif k == 'if':
        n = r.choice(('ifeq', 'ifne', 'ifgt', 'ifge', 'iflt', 'ifle'))
        ops = lambda: r.choice(('1', '2', '-1', '"a"', '"1"', '"b"', '$env.SITE_VAR', '$env.STUART_ENV', '"production"', '$self', '$nope', '""', '"á"', '"A"'))
        cs = [(n, [ops(), ops()]), 'yes', ('else', []), 'no', ('end', [n])]
    elif k == 'ifdefined':
        cs = [('ifdefined', [r.choice(('$env', '$nope', '$env.SITE_VAR', '$self.title'))]), 'yes', ('else', []), 'no', ('end', ['ifdefined'])]
    elif k == 'import':
        cs = [('import', ['$' + x, '"%s"' % r.choice(jsons or ['none.json'])]), '{{ ifdefined($%s.title) }}{{ $%s.title }}{{ end(ifdefined) }}' % (x, x)]
    else:
        n = r.choice(('timetoread', 'excerpt', 'dateformat', 'insert'))
        cs = [(n, {'timetoread': ['$env.SITE_VAR'], 'excerpt': ['$env.SITE_VAR', '3'], 'dateformat': ['"2022-01-01"', '"%Y"'], 'insert': ['"main"']}[n])]
    how = r.random()
    calls = [i for i, c in enumerate(cs) if isinstance(c, tuple)]
    if how < 0.55:
        i = r.choice(calls)
        cs[i] = (cs[i][0], spoil_args(r, cs[i][1], cs[i][0]))
    elif how < 0.75:
        what = r.choice(('drop', 'double', 'swap', 'cross'))
        i = r.choice(calls)
        if what == 'drop':
            cs.pop(i)
        elif what == 'double':
            cs.insert(r.randint(0, len(cs)), cs[i])
        elif what == 'swap':
            j = r.choice(calls)
            cs[i], cs[j] = cs[j], cs[i]
        else:
            cs = [('ifdefined', ['$env'])] + cs[:-1] + [('end', ['ifdefined'])] + cs[-1:]
    return ''.join(c if isinstance(c, str) else write_call(r, *c) for c in cs)

def scope_value(r, d):
    o = {}
    if r.random() < 0.7:
        o['t'] = r.choice(('a', 'b', 'c', 'B', '', '10', '9'))
    if r.random() < 0.15:
        o['n'] = r.choice((1, 2, 10, -1, 1.5))
    if d and r.random() < 0.6:
        o['xs'] = [scope_value(r, d - 1) for _ in range(r.choice((0, 1, 2, 2, 3)))]
    if d and r.random() < 0.4:
        o['o'] = scope_value(r, d - 1)
    if r.random() < 0.05:
        o[r.choice(('t', 'xs', 'o'))] = r.choice((None, True, 5, 'str', [], {}, ['a', 'b']))
    return o

def scope_block(r, src):
    """Nested blocks over data whose members may be missing, with variables that shadow each other."""
    names = r.choice((['x'], ['x', 'y'], ['x', 'x', 'y']))
    gread, gloop = r.choice((0.7, 1, 1)), r.choice((0.2, 0.6, 1))
    def ref(scope):
        v = r.choice(scope or ['x']) if gread == 1 or r.random() < 0.93 else r.choice(('x', 'y', 'env'))
        return '$' + v + ''.join(r.choice(('.o', '.xs.0', '.0')) for _ in range(r.choice((0, 0, 0, 1))))
    def read(scope):
        p = ref(scope) + r.choice(('.t', '.t', '.t', '.t', '.n', ''))
        if r.random() < gread:
            p = p if p.endswith('.t') else p + '.t'
            return '{{ ifdefined(%s) }}{{ %s }}{{ else() }}-{{ end(ifdefined) }}' % (p, p if gread == 1 or r.random() < 0.9 else ref(scope) + '.t')
        return '{{ %s }}' % p
    def rec(scope, d):
        out = ''
        for _ in range(r.choice((1, 1, 2, 3))):
            k = r.random()
            if k < 0.35 or not d:
                out += read(scope)
            elif k < 0.75:
                v = r.choice(names)
                p = '"%s"' % src if not scope or r.random() < 0.2 else ref(scope) + '.xs'
                b = '{{ for($%s, %s) }}[%s]{{ end(for) }}' % (v, ', '.join([p] + for_opts(r, v)), rec(scope + [v], d - 1))
                out += '{{ ifdefined(%s) }}%s{{ end(ifdefined) }}' % (p, b) if p[0] == '$' and r.random() < gloop else b
            elif k < 0.85:
                v = r.choice(names)
                out += '{{ import($%s, "%s") }}' % (v, src)
                scope = scope + [v]
            elif k < 0.95:
                n = r.choice(('ifeq', 'ifne', 'ifgt', 'ifle'))
                out += '{{ ifdefined(%s) }}' % (q := ref(scope) + '.t') + '{{ %s(%s, %s) }}=%s{{ else() }}%s{{ end(%s) }}' % (n, q, r.choice(('"a"', '"b"', ref(scope) + '.t')) if n in ('ifeq', 'ifne') else '"b"', rec(scope, d - 1), read(scope), n) + '{{ end(ifdefined) }}'
            else:
                b = 's%d' % r.randint(0, 99999)
                out += '{{ begin("%s") }}%s{{ end("%s") }}' % (b, rec(scope, d - 1), b)
        return out
    return rec([], r.choice((2, 3, 4)))

def bad_call(r):
    for _ in range(200):
        c = random_call(r)
        try:
            model.parse_template('x' + c + 'y', [])
        except model.Fail:
            return c
        except model.Ambiguous:
            pass
    return '{{ foo( }}'

def front_fuzz(r):
    """Front matter that is unusual or wrong."""
    ls = ['title: "x"']
    for _ in range(r.randint(1, 4)):
        ls.insert(r.randint(0, len(ls)), r.choice(('--a: "b"', '-: "x"', 'a: b: "c"', ' key : "v"  ', '', ': "v"', 'b: ""', 'c: """', 'd: "', 'e:"tight"', 'f: \'x\'', 'g: "a" # no', 'h "x"', '# comment',
                                                   'i: 5', 'j: "a"b"', 'k: "a" "b"', '\tl\t:\t"tab"\t', 'm: “q”', 'n: "\\"', 'o: "{{ $x }}"', '...', '- --: "q"', 'ü: "ö"')))
    end = r.choice(('---', '---', '---', '----', '--- x', ' ---', '--', '===', '---\n---'))
    return r.choice(('---\n', '---\n', '---\r\n', '--- \n', '----\n', '\n---\n', ' ---\n', '\ufeff---\n')) + '\n'.join(ls) + '\n' + end + r.choice(('\nbody\n', '\n', '', '\r\nbody'))

def break_project(r, t, info, kinds=None):
    """(tree, label): the project with one thing wrong with it."""
    t = dict(t)
    root = info['root']
    pages = content_files(t, info, '.html', '.md')
    htmls = content_files(t, info, '.html')
    mds = content_files(t, info, '.md')
    jsons = content_files(t, info, '.json')
    man = root + '/' + info['manifest'].rpartition('/')[2]
    def put(p, s, where=None):
        b = t[p][1].decode()
        i = len(b) if where is None and r.random() < 0.5 else b.find('{{') if '{{' in b and r.random() < 0.5 else len(b)
        t[p] = F(b[:i] + s + b[i:])
    ks = kinds or ['syntax', 'call', 'call'] + ['value'] * 3 + ['block', 'root', 'mdroot', 'json', 'utf8', 'front', 'manifest', 'content', 'plugin', 'simx', 'area', 'dangling', 'script', 'script']
    for _ in range(50):
        k = r.choice(ks)
        if k == 'call':
            put(r.choice(pages), bad_call(r))
        elif k == 'scope':
            src = r.choice(('zscope.json', 'data/zscope.json'))
            t[root + '/content/' + src] = F(json.dumps([scope_value(r, 3) for _ in range(r.choice((1, 2, 3, 4)))]))
            put(r.choice([p for p in htmls if not p.endswith(('/root.html', '/md.html'))] or htmls), scope_block(r, src))
        elif k == 'odd':
            # right or wrong
            if r.random() < 0.6 or not mds:
                put(r.choice(pages), random_block(r, t, info) if r.random() < 0.7 else random_call(r))
            else:
                t[r.choice(mds)] = F(front_fuzz(r))
        elif k == 'syntax':
            put(r.choice(pages), r.choice(('{{ ', '{{ foo( }}', '{{ nosuch() }}', '{{ for($a) }}', '{{ }}', '{{ $a-b }}', '{{ insert() }}', '{{ begin("x" }}', '{{ ifeq(1) }}',
                                           '{{ excerpt($a, $b) }}', '{{ import("a.json") }}', '{{ insert(name="x", "y") }}', '{{ else(1) }}', '{{ insert("', '{{ "')))
        elif k == 'value':
            put(r.choice(pages), r.choice(('{{ $nope }}', '{{ $nope.x.y }}', '{{ insert("no such section") }}', '{{ import($zz, "missing.json") }}', '{{ for($zz, "missing/") }}{{ end(for) }}',
                                           '{{ for($zz, "missing.json") }}{{ end(for) }}', '{{ for($zz, $env) }}{{ end(for) }}', '{{ dateformat($env.SITE_VAR, "%Y") }}', '{{ $env }}', '{{ end(for) }}',
                                           '{{ end("never begun") }}', '{{ for($zz, "root.html/") }}{{ end(for) }}', '{{ for($zz, "index.html/") }}{{ end(for) }}', '{{ import($zz, "./") }}', '{{ import($zz, "/root.html") }}', '{{ else() }}', '{{ ifeq($nope, 1) }}a{{ end(ifeq) }}', '{{ timetoread($nope) }}')))
        elif k == 'block':
            put(r.choice([p for p in pages if not p.endswith('/root.html')] or pages), r.choice(('{{ begin("q") }}', '{{ ifdefined($env) }}', '{{ ifeq(1, 1) }}', '{{ ifne(1, 1) }}x')))
        elif k == 'root':
            p = root + '/content/root.html'
            if p not in t:
                continue
            del t[p]
        elif k == 'mdroot':
            p = [q for q in htmls if q.endswith('/md.html')]
            if not p or not mds:
                continue
            for q in p:
                del t[q]
        elif k == 'json':
            p = r.choice(jsons) if jsons else root + '/content/bad.json'
            b = t[p][1] if p in t else b'{"a": [1]}'
            t[p] = F(r.choice((b[:r.randint(0, max(0, len(b.rstrip()) - 1))], b + b'}', b'', b'{a: 1}', b"{'a': 1}", b'nul', b'[1,]', b'{"a" 1}', b'[1e400]', b'{"a": [NaN]}', b'-inf', b'{"a": 1,}', b'["\x01"]', b'["\\x"]', b'[1] []', b'[1 2]')))
        elif k == 'utf8':
            p = r.choice(pages + jsons)
            b = t[p][1]
            i = r.randint(0, len(b))
            t[p] = F(b[:i] + r.choice((b'\xff', b'\xc3', b'\xed\xa0\x80')) + b[i:])
            try:
                t[p][1].decode('utf-8')
                continue
            except UnicodeDecodeError:
                pass
        elif k == 'front':
            if not mds:
                continue
            p = r.choice(mds)
            t[p] = F(r.choice(('---\ntitle: x\n---\n', '---\ntitle: "x"\n', '---\ntitle "x"\n---\n', '---\n\n---\ntext', '---\ntitle: "x\n---\n')))
        elif k == 'manifest':
            b = t[man][1].decode()
            x = r.randint(0, 6)
            if x == 0:
                del t[man]
            elif x == 1:
                t[man] = F(b[:r.randint(0, len(b) - 1)])
            elif x == 2:
                t[man] = F(b.replace('name =', r.choice(('nam =', 'name = 3 #', 'name: '))))
            elif x == 3:
                t[man] = F(b + r.choice(('\n]', '\nx = ', '\n[site]\n', '\n[settings]\nstrip_extensions = "yes"\n', '\n[settings]\nsave_metadata = 1\n')))
            elif x == 4:
                t[man] = F(b.encode() + b'\n# \xff\n')
            elif x == 5:
                t[man] = F('')
            else:
                del t[man]
                t[man] = D
        elif k == 'content':
            if info['cwd'].startswith(root + '/content'):
                continue
            for q in [q for q in t if q == root + '/content' or q.startswith(root + '/content/')]:
                del t[q]
            if r.random() < 0.4:
                t[root + '/content'] = F('not a directory')
        elif k == 'plugin':
            b = t[man][1].decode()
            src = r.choice(('plug/none.so', 'plug/garbage.so', 'plug/lib.dll', 'plug/none.so;plug/garbage.so', 'plug/noinit.so'))
            t[root + '/plug/garbage.so'] = F('garbage')
            b = b + '\n[dependencies]\n' if '[dependencies]' not in b else b
            t[man] = F(b + 'zz = "%s"\n' % src)
        elif k == 'simx':
            if b'plug/pa.so' not in t[man][1]:
                continue
            t[root + '/content/q.simx'] = F(r.choice(('BAD x', 'FAIL x')))
        elif k == 'area':
            a = root + '/' + r.choice(('static', 'static', 'temp'))
            for q in [q for q in t if q == a or q.startswith(a + '/')]:
                del t[q]
            t[a] = F('a file')
            if any(q.startswith(root + '/scripts/') for q in t):
                continue
        elif k == 'dangling':
            t['%s/%s/broken%s' % (root, r.choice(('content', 'static')), r.choice(('', '.html', '.md')))] = ('L', r.choice(('/nowhere', 'broken2', '../missing.css', '.', '..', 'broken', '../content')))
            if not any(q.startswith(root + '/static/') for q in t):
                continue
        elif k == 'script':
            p = root + '/scripts/' + r.choice(('onPreBuild.sh', 'onPreBuild'))
            s = '# pre\n'
            if r.random() < 0.5:
                s += 'mkdirp $STUART_TEMP_DIR\nwrite $STUART_TEMP_DIR/z.txt 41\n'
            if r.random() < 0.5:
                s += 'err %s\n' % b'broken\n'.hex()
            s += r.choice(('exit %d' % r.choice((1, 2, 3, 126, 127, 255)), 'kill %d' % r.choice((9, 15, 11, 6)), 'need nothing-here\n' if r.random() < 0.3 else 'exit 1')) + '\n'
            t[p] = F(s)
        return t, k
    return t, 'none'

# ------------------------------------------------------------------ edits of a project's sources
def enc(e):
    if e[0] == 'D':
        return 'dir'
    try:
        return {'text': e[1].decode('utf-8')}
    except UnicodeDecodeError:
        return {'hex': e[1].hex()}

def reval(r, v):
    """A data value of the same shape."""
    if isinstance(v, dict):
        return {k: reval(r, x) for k, x in v.items()}
    if isinstance(v, list):
        l = [reval(r, x) for x in v]
        if l and r.random() < 0.3:
            l = l + [reval(r, l[0])]
        return l
    if isinstance(v, str):
        if len(v) == 10 and v[4] == '-' and v[7] == '-':
            return '%04d-%02d-%02d' % (r.randint(1990, 2035), r.randint(1, 12), r.randint(1, 28))
        return v if r.random() < 0.5 else words(r, 1, 4)
    if isinstance(v, bool) or v is None:
        return v
    return r.randint(-3, 3)

def one_edit(r, t, info, settings=False):
    """[edit, ...]: one change a user makes to the sources, in existing directories; None if it does not apply."""
    root = info['root']
    files = [p for p in sorted(t) if t[p][0] == 'F' and p.startswith((root + '/content/', root + '/static/'))]
    pages = [p for p in files if p.startswith(root + '/content/') and p.endswith(('.html', '.md'))]
    k = r.random()
    if k < 0.3:
        p = r.choice(pages)
        b = t[p][1]
        add = ('\n\n' + r.choice(WORDS) + ' ' + r.choice(WORDS) + '\n' if p.endswith('.md') else r.choice(WORDS)).encode()
        if p.endswith('.md'):
            return [['put', p, enc(('F', b + add))]]
        i = b.rfind(b'{{ end("') if r.random() < 0.7 else b.rfind(b'</')
        i = max(i, 0)
        return [['put', p, enc(('F', b[:i] + add + b[i:]))]]
    if k < 0.42:
        js = [p for p in files if p.endswith('.json') and '/content/' in p]
        if not js:
            return None
        p = r.choice(js)
        return [['put', p, enc(F(json.dumps(reval(r, json.loads(t[p][1])))))]]
    if k < 0.52:
        ps = [p for p in pages if p.rpartition('/')[2] not in ('root.html', 'md.html')]
        if not ps:
            return None
        p = r.choice(ps)
        d, _, n = p.rpartition('/')
        q = '%s/%s%d.%s' % (d, r.choice(NAMES), r.randint(10, 99), n.rpartition('.')[2])
        if q in t:
            return None
        if r.random() < 0.4:
            return [['mv', p, q]]
        return [['put', q, enc(t[p])]]
    if k < 0.62:
        ps = [p for p in files if p.rpartition('/')[2] not in ('root.html', 'md.html')]
        return [['rm', r.choice(ps)]] if ps else None
    if k < 0.8:
        dirs = sorted({p.rpartition('/')[0] for p in files} | {root + '/content'} | ({root + '/static'} if root + '/static' in t else set()))
        p = '%s/%s%d%s' % (r.choice(dirs), r.choice(WORDS), r.randint(0, 9), r.choice(('.css', '.txt', '', '.bin')))
        return [['put', p, enc(F(words(r, 0, 8)))]]
    if k < 0.9 or not settings:
        ps = [p for p in files if p not in pages and not p.endswith('.json')]
        if not ps:
            return None
        p = r.choice(ps)
        if p.endswith('.simx'):
            return None
        return [['put', p, enc(F(words(r, 0, 8)))]]
    man = root + '/' + info['manifest'].rpartition('/')[2]
    b = t[man][1].decode()
    for s in ('strip_extensions', 'save_data_files', 'save_metadata'):
        if s + ' = ' in b and r.random() < 0.5:
            b = b.replace(s + ' = true', s + ' = X').replace(s + ' = false', s + ' = true').replace(s + ' = X', s + ' = false')
    return [['put', man, enc(('F', b.encode()))]]

def edit_project(r, t, info, n, settings=False, buildable=True):
    """(edits, tree afterwards)"""
    import case as C
    out = []
    for _ in range(n * 12):
        if len(out) >= n:
            break
        e = one_edit(r, t, info, settings)
        if not e:
            continue
        t2 = C.edit_tree(t, e)
        if buildable:
            try:
                m = model.build(VFS(t2), info['cwd'], info['manifest'], info['output'])
            except model.Ambiguous:
                continue
            if not m.ok:
                continue
        out += e
        t = t2
    return out, t
