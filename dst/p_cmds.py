"""Properties of the other commands: creating and cleaning projects, and fetching plugins."""
import copy, json, os, tomllib
import build as B, case as C, gen, model, sim
from base import *
from gen import F
from model import VFS, Ambiguous, D
from p_build import BASE, build_phase, exact, implied, norm_dirs, parents, pick_faults, preserved, said, seedof, untouched, model_with

def L(p):
    return ("L", p)

def hexs(s):
    return sim.hx(s) if s else '-'

def rule(prog, args, code):
    return 'rule %s %s %s' % (prog, sim.pct(args), hexs(code))

def ppath(p):
    """A path as a word of the script language (no spaces)."""
    assert ' ' not in p, p
    return p

# ------------------------------------------------------------------ plugin sources
LIBRARY = 'SIMPLUGIN:%s\n\x7fELF and so on\nEND'

def lib(id, r=None):
    return LIBRARY % id if r is None or r.random() < 0.7 else 'SIMPLUGIN:%s\n%sEND' % (id, 'code ' * r.randint(1, 4000))

def san(dep):
    return dep.replace('-', '').replace('_', '')

LOCAL = ['so-ok'] * 3 + ['so-bad', 'so-missing', 'so-trunc', 'dll', 'js', 'so-link', 'so-dirlink']
CARGO = ['cargo-ok'] * 4 + ['cargo-fail', 'cargo-signal', 'cargo-nothing', 'cargo-garbage', 'cargo-nopkg', 'cargo-badtoml']
GIT = ['git'] * 6
WEB = ['web-ok'] * 3 + ['web-redirect', 'web-chunked', 'web-trunc', 'web-rst', 'web-rst0', 'web-refuse', 'web-nohost', 'web-404', 'web-garbage', 'web-empty', 'web-eof', 'web-hdr']

class World:
    """The outside world of a project in one phase: what git, cargo and the network do."""
    def __init__(self):
        self.cargo, self.ls, self.clones, self.pulls, self.web, self.origins, self.pre = [], [], [], [], [], [], []

    def lines(self, nogit=False, nocargo=False):
        out = []
        if nogit:
            out.append('noprog git')
        else:
            for mark in self.ls:
                out.append(rule('git', '*ls-remote*%s*' % mark, 'out %s' % hexs('0123abc\tHEAD\n')))
            for mark, code in self.clones:
                out.append(rule('git', '*clone*%s*' % mark, code))
            out.append(rule('git', '*pull*', 'need $TARGET/.git\n' + '\n'.join('if $TARGET/.git/%s\n%s\nfi' % (mark, code) for mark, code in self.pulls)))
            out.append(rule('git', '*origin*', '\n'.join('if $TARGET/.git/%s\nout %s\nexit 0\nfi' % (m, hexs(u + '\n')) for m, u in self.origins) + '\nexit 1'))
            out.append(rule('git', '*', 'err %s\nexit 128' % hexs('fatal: could not read from remote repository\n')))
        if nocargo:
            out.append('noprog cargo')
        else:
            code = '\n'.join('if $MDIR/%s\n%s\nexit 0\nfi' % (mark, code) for mark, code in self.cargo) + '\nerr %s\nexit 101' % hexs('error: could not compile\n')
            for a in ('*build*--release*', '*--release*build*', '*build* -r*'):
                out.append(rule('cargo', a, code))
            out.append(rule('cargo', '*build*', code.replace('/target/release', '/target/debug')))
            out.append(rule('cargo', '*', 'exit 101'))
        return out + self.web

def noise(r):
    k = r.random()
    if k < 0.5:
        return ''
    if k < 0.8:
        return 'err %s\n' % hexs('   Compiling x v0.1.0\n' * r.randint(1, 20))
    return r.choice(('errn %d\n', 'outn %d\n')) % r.choice((4096, 65536, 65537, 200000))

def cargo_toml(name):
    return '[package]\nname = "%s"\nversion = "0.1.0"\n\n[lib]\ncrate-type = ["cdylib"]\n' % name

def cargo_code(r, kind, pkg, id):
    t = '$MDIR/target/release/lib%s.so' % pkg.replace('-', '_')
    ok = noise(r) + 'mkdirp $MDIR/target/release\nwrite %s %s\nsleep %d\n' % (t, hexs(lib(id)), r.choice((1, 1000, 10**9)))
    return {'cargo-ok': ok, 'cargo-nopkg': ok, 'cargo-fail': noise(r) + 'exit 101', 'cargo-signal': noise(r) + 'kill 9', 'cargo-nothing': noise(r) + ':',
            'cargo-garbage': 'mkdirp $MDIR/target/release\nwrite %s %s' % (t, hexs('not a library')), 'cargo-badtoml': 'err %s\nexit 101' % hexs('error: failed to parse manifest\n')}[kind]

class Source:
    """One source of a dependency: its text, and what it needs in the tree and the world."""
    def __init__(self, r, t, root, dep, n):
        self.r, self.root, self.dep, self.n = r, root, dep, n
        self.id = '%s-%d' % (san(dep), n)
        self.mark = 'm%s%d' % (san(dep), n)
        k = r.random()
        self.kind = r.choice(LOCAL if k < 0.34 else CARGO if k < 0.56 else GIT if k < 0.78 else WEB)
        getattr(self, 'make_' + self.kind.split('-')[0].replace('dll', 'so').replace('js', 'so'))(t)

    def make_so(self, t):
        r, k = self.r, self.kind
        d = r.choice(('plug', 'plug', 'lib/deep', 'plug ins'))
        p = '%s/%s%s' % (d, self.mark, {'dll': '.dll', 'js': r.choice(('.js', '.mjs'))}.get(k, r.choice(('.so', '.so', '.so.1', '.dylib'))))
        self.file = full = self.root + '/' + p
        if k == 'so-bad':
            t[full] = F(r.choice(('', 'garbage', '\x7fELF', '#!/bin/sh\n')))
        elif k == 'so-trunc':
            x = lib(self.id)
            t[full] = F(x[:r.randint(1, len(x) - 1)])
        elif k == 'so-link':
            t['/opt/real-%s.so' % self.mark] = F(lib(self.id))
            t[full] = L('/opt/real-%s.so' % self.mark)
        elif k == 'so-dirlink':
            t[full] = L(r.choice(('/nowhere', self.root)))
        elif k != 'so-missing':
            t[full] = F(lib(self.id, r))
        self.text = r.choice((p, p, './' + p, full))
        self.static = k in ('so-ok', 'so-link')
        if k == 'so-dirlink':
            self.static = False

    def make_cargo(self, t):
        r, k = self.r, self.kind
        p = r.choice(('crates/', '', 'my crates/')) + self.mark + 'crate'
        full = self.root + '/' + p
        self.pkg = r.choice((self.dep, 'plugin-' + self.mark, self.mark))
        t[full + '/' + self.mark] = F('')
        t[full + '/src/lib.rs'] = F('// code\n')
        t[full + '/Cargo.toml'] = F({'cargo-nopkg': r.choice(('[workspace]\nmembers = []\n', '[package]\nversion = "1.0.0"\n', '')), 'cargo-badtoml': '[package\n'}.get(k, cargo_toml(self.pkg)))
        self.text = r.choice((p, p, p + '/', './' + p, full))

    def make_git(self, t):
        r = self.r
        self.text = 'https://git.test/%s%s' % (self.mark, r.choice(('.git', '')))
        self.sub = r.choice(('', '', 'plugin', 'a/b c', 'x/%s' % self.dep))
        self.content = r.choice(['match'] * 5 + ['nothing', 'other'])

    def make_web(self, t):
        self.text = 'http://%s.test/dl/%s%s.so' % (self.mark, self.r.choice(('', 'v1/')), self.mark)

    def enter(self, w, phase):
        """What this source is like in this phase: returns the outcome ('ok' or not) or a dict for git."""
        r, k = self.r, self.kind
        if k.startswith(('so', 'dll', 'js')):
            if phase and k == 'so-ok' and r.random() < 0.3:
                self.id = '%s-%dv%d' % (san(self.dep), self.n, phase)
                w.pre.append(['put', self.file, {'text': lib(self.id)}])
            return self.static
        if phase and r.random() < 0.6:
            self.id = '%s-%dv%d' % (san(self.dep), self.n, phase)       # what is offered is a new version
        if k.startswith('cargo'):
            kind = k if phase == 0 or r.random() < 0.6 or k in ('cargo-nopkg', 'cargo-badtoml') else r.choice(('cargo-ok', 'cargo-fail'))
            if kind in ('cargo-nothing', 'cargo-garbage') and phase:
                kind = 'cargo-fail'
            w.cargo.append((self.mark, cargo_code(r, kind, self.pkg, self.id)))
            return kind == 'cargo-ok'
        if k == 'git':
            o = dict(exists=r.random() < 0.8, clone=r.random() < 0.85, pull=r.random() < 0.75, build=r.random() < 0.85, match=self.content == 'match')
            if o['exists']:
                w.ls.append('git.test/' + self.mark)
            pre = 'vacant $TARGET 128\nmkdirp $TARGET/.git\nwrite $TARGET/.git/%s -\n' % self.mark
            sub = '$TARGET/' + (self.sub.replace(' ', '') + '/' if self.sub else '')
            pkg = self.dep if self.content == 'match' else 'another'
            if self.content != 'nothing':
                files = [(sub + 'Cargo.toml', cargo_toml(pkg)), (sub + self.mark, ''), (sub + 'src/lib.rs', '//')]
            else:
                files = [('$TARGET/README', 'nothing here')]
            if r.random() < 0.5:
                files += [('$TARGET/tools/Cargo.toml', r.choice((cargo_toml('tool'), '[workspace]\n', 'broken [', ''))), ('$TARGET/aa/Cargo.toml', cargo_toml(self.dep + '2'))]
            r.shuffle(files)
            body = ''
            for p, b in files:
                body += 'mkdirp %s\nwrite %s %s\n' % (p.rpartition('/')[0], p, hexs(b))
            if o['clone']:
                code = pre + noise(r) + body
            else:
                code = pre + (body if r.random() < 0.5 else '') + noise(r) + r.choice(('exit 128', 'kill 15', 'exit 1'))
            w.clones.append(('git.test/' + self.mark, code))
            w.origins.append((self.mark, self.text))
            w.pulls.append((self.mark, noise(r) + ('exit 0' if o['pull'] else r.choice(('exit 1', 'kill 2')))))
            w.cargo.append((self.mark, cargo_code(r, 'cargo-ok' if o['build'] else r.choice(('cargo-fail', 'cargo-signal')), self.dep, self.id)))
            return o
        # web
        kind = k if phase == 0 or r.random() < 0.6 else r.choice(('web-ok', 'web-404', 'web-refuse', 'web-trunc'))
        if kind == 'web-eof' and phase:
            kind = 'web-ok'
        host = self.mark + '.test'
        ip = '10.%d.%d.%d' % (phase, 1 + sum(map(ord, self.dep)) % 250, self.n + 1)
        if kind != 'web-nohost':
            w.web.append('host %s %s' % (host, ip))
        body = lib(self.id, r)
        def resp(status, body, extra='', length=None):
            return ('HTTP/1.1 %s\r\nContent-Type: application/octet-stream\r\n%sContent-Length: %d\r\n\r\n' % (status, extra, len(body) if length is None else length)).encode() + body.encode()
        end = r.choice(('fin', 'fin', ''))
        full = resp('200 OK', body)
        cut = r.randint(0, len(full) - 1)
        hdr = full.index(b'\r\n\r\n') + 4
        if kind == 'web-ok':
            acts = pieces(r, full) + [end]
        elif kind == 'web-redirect':
            w.web.append('host %s %s' % ('cdn.' + host, ip))
            acts = pieces(r, resp(r.choice(('301 Moved Permanently', '302 Found')), '', 'Location: http://cdn.%s/real.so\r\n' % host)) + [end]
            w.web.append('web %s 80 %s %s' % ('cdn.' + host, '/real.so', ';'.join(x for x in pieces(r, full) + [end] if x)))
        elif kind == 'web-chunked':
            b = body.encode()
            h = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
            i = 0
            while i < len(b):
                n = r.randint(1, len(b))
                h += ('%x\r\n' % len(b[i:i + n])).encode() + b[i:i + n] + b'\r\n'
                i += n
            acts = pieces(r, h + b'0\r\n\r\n') + [end]
        elif kind == 'web-trunc':
            acts = pieces(r, full[:r.randint(hdr, len(full) - 1)]) + ['fin']
        elif kind == 'web-hdr':
            # cut within the status line or right after a complete header line
            n = r.choice((r.randint(0, 14), full.index(b'\r\n') + 2))
            acts = pieces(r, full[:n]) + [r.choice(('fin', 'rst'))]
        elif kind == 'web-rst':
            acts = pieces(r, full[:r.randint(hdr, len(full) - 1)]) + ['rst']
        elif kind == 'web-rst0':
            acts = ['rst']
        elif kind == 'web-eof':
            acts = ['fin']
        elif kind == 'web-404':
            acts = pieces(r, resp('404 Not Found', '<html>Not found</html>')) + [end]
        elif kind == 'web-garbage':
            acts = pieces(r, resp('200 OK', 'not a library ' * r.randint(1, 50))) + [end]
        elif kind == 'web-empty':
            acts = pieces(r, resp('200 OK', '')) + [end]
        else:
            acts = []
        if kind == 'web-refuse':
            w.web.append('refuse ' + host)
        elif acts:
            w.web.append('web %s 80 * %s' % (host, ';'.join(x for x in acts if x)))
        return kind in ('web-ok', 'web-redirect', 'web-chunked')

def pieces(r, b):
    """The bytes in one or several packets with delays."""
    if not b:
        return []
    if r.random() < 0.4:
        return ['%d:%s' % (r.choice((1000, 10**6)), b.hex())]
    out, i = [], 0
    while i < len(b):
        n = r.choice((1, 2, 7, 60, 500, len(b)))
        if len(out) > 12:
            n = len(b)
        out.append('%d:%s' % (r.choice((1, 1000, 10**6, 10**9)), b[i:i + n].hex()))
        i += n
    return out

def add_fetched_plugin(r, t, info):
    """Gives a project without plugins one that has to be fetched and compiled or downloaded; returns (tree, world lines)."""
    root = info['root']
    man = [p for p in t if p.rpartition('/')[0] == root and p.endswith('.toml')]
    if len(man) != 1 or t[man[0]][0] != 'F' or b'[dependencies]' in t[man[0]][1] or any(p.endswith('.simx') for p in t):
        return t, []
    t = dict(t)
    for _ in range(50):
        t2 = dict(t)
        s = Source(r, t2, root, 'fetched', 0)
        w = World()
        o = s.enter(w, 0)
        if s.kind.startswith('so') or not (o is True or isinstance(o, dict) and all(o.values())):
            continue
        t2[man[0]] = F(t2[man[0]][1] + ('\n[dependencies]\nfetched = "%s"\n' % s.text).encode())
        t2[root + '/content/fetched.simx'] = F('by plugin')
        info['fetched'] = [s.id]
        return t2, w.lines()
    return t, []

# ------------------------------------------------------------------ P18
DEPS = ['pa', 'zz', 'my-plug', 'under_score', 'q1']

class P18(Prop):
    id = 'P18'
    frozen = ('world', 'tree', 'pre')
    rule = ('one evaluation = one or two builds of a project with 1-3 dependencies of 1-4 sources each, every fetch step having a chosen outcome, sometimes with failing operations; judged: the plugin of the first working '
            'source is in the output, no later source is contacted, and without one the command fails before scripts and output; non-trivial = a source failed or was fetched; distinct = by operation history and initial tree')
    budget = {'quick': (7800, 75), 'thorough': (200000, 2400)}
    stubs = STUBS + ['git, cargo and web servers: simulated processes and peers; TLS downloads are out of reach']

    def explore(self, r, ctx, tier, i):
        if not gen.HAVE_PLUGIN:
            return
        t, root = {}, r.choice(('/p', '/p', '/w/my site'))
        deps = sorted(r.sample(DEPS, r.choice((1, 1, 1, 2, 2, 3))))
        src = {d: [Source(r, t, root, d, n) for n in range(r.choice((1, 1, 2, 2, 3, 4)))] for d in deps}
        one = []
        for d in deps:
            one.append('{{ say_%s("x") }}' % san(d))
        t[root + '/content/root.html'] = F('<html>{{ insert("main") }}</html>')
        t[root + '/content/index.html'] = F('{{ begin("main") }}%s{{ say("first") }}{{ end("main") }}' % ''.join(one))
        if r.random() < 0.5:
            t[root + '/content/a.simx'] = F('custom')
        if r.random() < 0.4:
            t[root + '/scripts/onPreBuild.sh'] = F('write $STUART_TEMP_DIR/pre.txt 6869\n')
        if r.random() < 0.4:
            t[root + '/scripts/onPostBuild.sh'] = F('exit 0\n')
        if r.random() < 0.6:
            for q in ('index.html', 'old/page.html'):
                t[root + '/dist/' + q] = F('old')
        meta = r.random() < 0.3
        if meta and r.random() < 0.5:
            t[root + '/metadata.json'] = F('old metadata')
        man = '[site]\nname = "S"\n' + ('\n[settings]\nsave_metadata = true\n' if meta else '') + '\n[dependencies]\n'
        order = list(deps)
        r.shuffle(order)
        for d in order:
            man += '%s = "%s"\n' % (d if r.random() < 0.8 else '"%s"' % d, ';'.join(s.text for s in src[d]))
        t[root + '/stuart.toml'] = F(man)
        info = {'root': root, 'cwd': root, 'manifest': 'stuart.toml', 'output': 'dist', 'plan': []}
        if r.random() < 0.2:
            info['cwd'], info['manifest'] = '/', root[1:] + '/stuart.toml'
        phases = []
        for k in range(r.choice((1, 1, 1, 2, 2, 3))):
            w = World()
            plan = {}
            nogit, nocargo = r.random() < 0.06, r.random() < 0.05
            for d in deps:
                plan[d] = []
                for s in src[d]:
                    o = s.enter(w, k)
                    if s.kind == 'git' and nogit or s.kind.startswith('cargo') and nocargo:
                        o = False
                    if s.kind == 'git' and nocargo and isinstance(o, dict):
                        o['build'] = False
                    plan[d].append([s.id, s.kind, o, s.mark])
            info['plan'].append(plan)
            ph = build_phase(r, info, world=w.lines(nogit, nocargo))
            ph['pre'] = ph['pre'] + w.pre
            if r.random() < 0.3:
                ph['cfg'] = ph['cfg'] + ['cfg p_net %g' % r.choice((0.2, 0.6))]
            phases.append(ph)
        case = new_case(self.id, t, phases, info)
        runs = ctx.run(case)
        if ctx.stop or r.random() < 0.5:
            return
        j = r.choice((r.randrange(len(runs)), len(runs) - 1))
        ops = io_ops(runs[j]) + [(o[2], o[3], o[4]) for o in runs[j].res.ops() if o[3] in ('socket', 'connect', 'resolve')]
        # failures while plugins are being loaded: before the first thing that belongs to the build proper
        cut = next((o[2] for o in runs[j].res.ops() if o[3] in ('opendir', 'open') and below(o[4], root + '/content')), 10**9)
        ops = [o for o in ops if o[0] < cut]
        fetched = [o for o in ops if '/_build/' in o[2] or '/target/' in o[2]]
        for _ in range(6):
            some = fetched if fetched and r.random() < 0.4 else ops
            if not some:
                return
            kinds = sorted({o[1] for o in some})
            k = r.choice(kinds)
            o = r.choice([o for o in some if o[1] == k])
            c2 = copy.deepcopy(case)
            c2['phases'][j]['faults'] = [fault_like(ops, o, r.choice(ERRS.get(k, (EIO, 111, 110))), r.choice((1, 1, 2, 1000000)))]
            ctx.run(c2)
            if ctx.stop:
                return

    def judge(self, case, runs, probe):
        out = []
        for j, r in enumerate(runs):
            x = r.res
            ab = abnormal(r)
            if ab:
                out.append(ab)
                break
            plan = case['info']['plan'][j]
            project, o = where(r.before, r.phase)
            if project is None:
                return out
            deps = sorted(plan)
            loaded = []
            for l in x.log:
                if l[0] == 'L':
                    loaded.append(sim.unpct(l[3]))
            who = {s[0]: (d, n) for d in deps for n, s in enumerate(plan[d])}
            expect = {}
            for d in deps:
                expect[d] = first_working(plan[d], r.before, project, d)
            fired = real_faults(r)
            scripts = [l for l in x.log if l[0] == 'P' and l[3] == 'sh']
            have = {}
            for id in loaded:
                if id in who:
                    have.setdefault(who[id][0], []).append(id)
            kept = untouched(r, o, 'the published site')
            if any(d not in have for d in deps):
                if x.code == 0:
                    out.append(('unloaded-success', 'success was reported although no plugin was loaded for %s' % ', '.join(d for d in deps if d not in have)))
                if scripts:
                    out.append(('script-ran', 'a build script was started although a plugin did not load'))
                if kept:
                    out.append(('output-touched', 'a plugin did not load, but ' + kept))
                mt = untouched(r, project + '/metadata.json', 'the metadata file')
                if mt:
                    out.append(('output-touched', 'a plugin did not load, but ' + mt))
                if x.code != 0 and not said(r):
                    out.append(('silent-failure', 'the command failed without an error message'))
            if not fired:
                ids = [expect[d] for d in deps]
                if None in ids:
                    probe('no working source')
                    if x.code == 0:
                        out.append(('accepted', 'success was reported although no source of %s works' % deps[ids.index(None)]))
                else:
                    probe('loaded')
                    if x.code != 0:
                        out.append(('failed', 'every dependency has a working source, but the command failed: ' + clip(x.err, 300)))
                    else:
                        for d in deps:
                            if have.get(d) != [expect[d]]:
                                out.append(('wrong-source', '%s was loaded from %r, but its first working source is %s' % (d, have.get(d), expect[d])))
                        out += exact(r, model_with(r.before, r.phase, ids))
            elif x.code == 0 and len(have) == len(deps):
                probe('survived')
                out += [(k, t + ' [failed operations: %s]' % fired) for k, t in exact(r, model_with(r.before, r.phase, [have[d][-1] for d in deps]))]
            for d in deps:
                if d in have and not out:
                    n = min(who[i][1] for i in have[d])
                    for s in plan[d][n + 1:]:
                        if any(l[0] in 'PG' and any(s[3] in sim.unpct(a) for a in l[2:]) and not any(s[3] + 'x' in a for a in l) for l in x.log):
                            out.append(('later-source', '%s was loaded, but its later source %s was contacted' % (d, s[3])))
            if out:
                break
        return out

    def nontrivial(self, case, runs):
        return any(l[0] in 'PG' for r in runs for l in r.res.log) or any(r.res.code != 0 for r in runs)

def first_working(sources, before, project, dep):
    """The id of the first source that works, trying them in order, and what the clone of the dependency is by then."""
    git = '%s/_build/plugins/%s/.git' % (project, dep)
    cached = next((p[len(git) + 1:] for p in sorted(before) if p.startswith(git + '/m')), None)
    for id, kind, o, mark in sources:
        if not isinstance(o, dict):
            if o:
                return id
            continue
        if not o['exists']:
            continue
        if cached == mark:
            if not o['pull']:
                continue
        else:
            if not o['clone']:
                continue
            cached = mark
        if o['match'] and o['build']:
            return id
    return None

# ------------------------------------------------------------------ P16
NAMES = ['site', 'my-site', 'My Site', 'a.b', 'déjà vu', '日本', 'it\'s', 'say "hi"', 'back\\slash', 'tab\there', 'x{{y}}', '$HOME', 'a;b', '%41', 'n' * 200, ' lead', '#frag', 'new\nline', 'trail.', '\\n', '"""', "'''", '\u2028x', 'a=b', '[x]', '~', 'emoji😀', 'del\x7f', 'bell\x07']
USERS = ['A', 'Ann Example', 'Zoë "Z" O\'Neil', 'back\\slash', 'D. Knuth', '名前', 'x <y>', 'tab\tuser', '{{ x }}', 'a # b', "''' x", '\\u0041', '""" q']
MAILS = ['a@b.c', 'ann@example.org', 'x+y@z', 'weird"@q', 'b\\c@d', 'ü@ö.de']
DEFAULT = os.path.join(B.REPO, 'stuart', 'tests', 'basic')

def default_files():
    out = {}
    for d, _, fs in os.walk(DEFAULT):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), DEFAULT)
            if p != 'stuart.toml':
                out[p] = open(os.path.join(d, f), 'rb').read()
    return out

class P16(Prop):
    id = 'P16'
    frozen = ('world',)
    rule = ('one evaluation = creating a project with some name, git behaviour, surroundings and possibly a failing operation or kill, then (if it succeeded) building it; judged: complete and exact project or failing status, '
            'nothing that existed changed; non-trivial = a project was created or an operation failed; distinct = by operation history and initial tree')
    budget = {'quick': (10500, 75), 'thorough': (200000, 1800)}

    def explore(self, r, ctx, tier, i):
        t = {'/home/u': D, '/home/u/other.txt': F('keep'), '/home/u/old': D, '/home/u/old/stuart.toml': F('[site]\nname = "old"\n'), '/home/u/old/dist/index.html': F('x')}
        cwd = r.choice(('/home/u', '/home/u', '/home/u/old', '/'))
        name = r.choice(NAMES)
        base = name
        k = r.random()
        if k < 0.1:
            name = r.choice(('/home/u/', '../u/', './')) + base if cwd == '/home/u' else '/home/u/' + base
        elif k < 0.15:
            name = 'missing/dir/' + base
        elif k < 0.18:
            name = base + '/'
        elif k < 0.21:
            name = r.choice(('.', '..', '/', '/home/u/old', '/home/u/other.txt'))
        args = ['new', name]
        if name.startswith('-'):
            args = ['new', '--', name]
        nogit = r.random() < 0.35
        if nogit:
            args.append('--no-git')
        target = model.norm(name if name.startswith('/') else cwd + '/' + name)
        exists = 'no'
        if r.random() < 0.2 and target not in t and target != '/' and not below(cwd, target) and 'missing' not in name:
            exists = r.choice(('dir', 'full', 'file', 'link', 'dangling'))
            if exists == 'dir':
                t[target] = D
            elif exists == 'full':
                for q in ('stuart.toml', 'content/index.html', 'keep.txt', '.gitignore', '.git/config'):
                    t[target + '/' + q] = F('mine')
            elif exists == 'file':
                t[target] = F('mine')
            else:
                t[target] = L('/home/u/old' if exists == 'link' else '/nowhere')
        user, mail = r.choice(USERS), r.choice(MAILS)
        g = r.random()
        info = {'name': name, 'author': '%s <%s>' % (user, mail), 'nogit': nogit, 'target': target}
        world = []
        say = lambda s: 'out ' + hexs(s + r.choice(('\n', '\n', '\r\n', '')))
        ini = 'mkdirp $TARGET/.git\nwrite $TARGET/.git/config -\nout %s' % hexs('Initialized\n')
        if g < 0.5:
            world = [rule('git', '*user.name*', say(user)), rule('git', '*user.email*', say(mail))]
        elif g < 0.6:
            world = [rule('git', '*user.name*', 'exit 1'), rule('git', '*user.email*', say(mail))]
            info['author'] = None
        elif g < 0.7:
            world = [rule('git', '*user.name*', say(user)), rule('git', '*user.email*', r.choice(('exit 1', 'kill 9', 'err %s\nexit 128' % hexs('fatal\n'))))]
            info['author'] = None
        elif g < 0.8:
            world = ['noprog git']
            info['author'] = None
        else:
            world = [rule('git', '*config*', 'exit 1')]
            info['author'] = None
        if 'noprog git' not in world:
            world.append(rule('git', '*init*', r.choice((ini, ini, ini, 'exit 128', 'kill 11', 'errn 100000\nexit 1'))))
            world.append(rule('git', '*', 'exit 129'))
        ph = C.phase(args, cwd, seedof(r), cfg=gen.io_cfg(r), world=world)
        b = C.phase(['build'], target, seedof(r), cfg=gen.io_cfg(r))
        case = new_case(self.id, t, [ph], info)
        runs = ctx.run(case)
        if ctx.stop:
            return
        if runs[0].res.ok:
            ctx.run(new_case(self.id, t, [ph, b], info))
            if ctx.stop:
                return
        ops = io_ops(runs[0])
        kinds = sorted({o[1] for o in ops})
        for _ in range(4):
            if not ops:
                return
            p2 = copy.deepcopy(ph)
            if r.random() < 0.25:
                p2['faults'] = ['kill %d %s' % (r.randint(0, runs[0].res.stat['fops']), r.choice(('0', '0.5', '1')))]
            elif r.random() < 0.15:
                p2['faults'] = ['diskfree %d' % r.choice((0, 10, 300, 2000, 20000))]
            else:
                k = r.choice(kinds)
                o = r.choice([o for o in ops if o[1] == k])
                p2['faults'] = [fault_like(ops, o, r.choice(ERRS[k]), r.choice((1, 1, 1000000)))]
            rr = ctx.run(new_case(self.id, t, [p2], info))
            if ctx.stop:
                return
            if rr[0].res.ok:
                ctx.run(new_case(self.id, t, [p2, b], info))
                if ctx.stop:
                    return

    def judge(self, case, runs, probe):
        out = []
        r = runs[0]
        info = case['info']
        ab = abnormal(r)
        if ab:
            return [ab]
        x = r.res
        target = info['target']
        was = any(below(p, target) for p in r.before) or target == '/' or target in BASE
        # nothing that was there before may change
        a, b = dict(r.before), dict(r.after)
        for d in implied(list(a) + [r.phase['cwd'].rstrip('/') + '/.']):
            a.setdefault(d, D)
        for p in sorted(a):
            if a[p] != b.get(p):
                out.append(('altered', 'something that existed was %s: %s' % ('removed' if p not in b else 'changed', p)))
                break
        real = target
        try:
            real = VFS(r.before).resolve(target.rpartition('/')[0] or '/').rstrip('/') + '/' + target.rpartition('/')[2]
        except model.VErr:
            pass
        for p in sorted(b):
            if p not in a and p not in BASE and not below(p, real):
                out.append(('elsewhere', 'something was created outside the new project: %s' % p))
                break
        for seq, k, p in muts(r):
            if p in a and p != '/':
                out.append(('altered', '%s of %s, which existed' % (k, p)))
                break
        if x.status == 'killed':
            probe('killed')
            return out
        fired = real_faults(r)
        if x.code != 0:
            probe('failed')
            if not said(r):
                out.append(('silent-failure', 'project creation failed without an error message'))
            legal = not was and (VFS(r.before).look(real.rpartition('/')[0] or '/') or ('',))[0] == 'D'
            if not {k: n for k, n in fired.items() if k != 'program_missing'} and legal:
                out.append(('failed', 'creating %r failed although nothing stands in the way: %s' % (info['name'], clip(x.err))))
            return out
        probe('created')
        if was:
            out.append(('accepted', 'success was reported although %s existed' % target))
            return out
        proj = {p[len(real) + 1:]: e for p, e in b.items() if p.startswith(real + '/')}
        for p, c in default_files().items():
            if proj.get(p) != ('F', c):
                out.append(('incomplete', 'success was reported, but %s is %s' % (p, 'missing' if p not in proj else 'not the default one')))
                return out
        for d in ('content', 'static'):
            if proj.get(d, ('',))[0] != 'D':
                out.append(('incomplete', 'success was reported, but %s is missing' % d))
        if not info['nogit']:
            gi = proj.get('.gitignore', ('F', b''))[1]
            if not all(w in gi for w in (b'dist', b'_build', b'metadata.json')):
                out.append(('incomplete', 'success was reported, but .gitignore is missing or incomplete'))
            ini = [l for l in x.log if l[0] == 'P' and l[3] == 'git' and sim.unpct(l[4]).split(' ')[0] == 'init']
            if not ini and not fired:
                out.append(('incomplete', 'no git repository was initialised'))
        elif '.gitignore' in proj or '.git' in proj:
            out.append(('elsewhere', 'git files were created although they were not wanted'))
        try:
            m = tomllib.loads(proj.get('stuart.toml', ('F', b''))[1].decode('utf-8'))
            site = m['site']
            name, author = site['name'], site.get('author')
        except (ValueError, KeyError, TypeError) as e:
            out.append(('manifest', 'the new manifest is invalid: %s: %r' % (e, proj.get('stuart.toml'))))
            return out
        if name != info['name']:
            out.append(('manifest', 'the project is called %r instead of %r' % (name, info['name'])))
        okauth = [info['author']]
        if fired:
            okauth.append(None)
        if author not in okauth:
            out.append(('manifest', 'the author is %r instead of %r' % (author, info['author'])))
        for r2 in runs[1:]:
            m2 = model_of(r2.before, r2.phase)
            if not m2.ok:
                out.append(('unbuildable', 'the new project does not build: ' + m2.reason))
            else:
                out += [('new-' + k, 'building the new project: ' + t) for k, t in exact(r2, m2)]
        return out

    def nontrivial(self, case, runs):
        return runs[0].res.ok or bool(real_faults(runs[0])) or runs[0].res.status == 'killed'

# ------------------------------------------------------------------ P17
class P17(Prop):
    id = 'P17'
    rule = ('one evaluation = cleaning (sometimes twice) a directory with generated artefacts of many shapes, with failing operations, a kill or a concurrent deleter; judged: everything else unchanged, success only if all '
            'artefacts are gone, ordinary artefacts always removed; non-trivial = something was removed or failed; distinct = by operation history and initial tree')
    budget = {'quick': (15000, 75), 'thorough': (200000, 1500)}

    def explore(self, r, ctx, tier, i):
        root = r.choice(('/p', '/p', '/srv/my site'))
        t = {root + '/content/index.html': F('page'), root + '/content/sub/x.md': F('md'), root + '/static/a.css': F('css'), root + '/scripts/onPreBuild.sh': F('exit 0\n'), '/keep/file.txt': F('keep'), '/keep/sub/deep.txt': F('deep'),
             root + '/distant/x': F('x'), root + '/dist.old': F('x'), root + '/_builder/x': F('x'), root + '/metadata.json.bak': F('x'), root + '/temp/t': F('t'), root + '/content/dist/page.html': F('nested'), root + '/content/metadata.json': F('{}')}
        shape = {}
        man = r.choice(['file'] * 6 + ['none', 'none', 'link', 'dangling', 'empty', 'other'])
        if man == 'file':
            t[root + '/stuart.toml'] = F('[site]\nname = "x"\n')
        elif man == 'empty':
            t[root + '/stuart.toml'] = F('')
        elif man == 'other':
            t[root + '/site.toml'] = F('[site]\nname = "x"\n')
        elif man == 'link':
            t['/keep/stuart.toml'] = F('[site]\nname = "x"\n')
            t[root + '/stuart.toml'] = L('/keep/stuart.toml')
        elif man == 'dangling':
            t[root + '/stuart.toml'] = L('/nowhere/stuart.toml')
        for n in ('dist', '_build'):
            k = r.choice(['dir'] * 7 + ['none'] * 2 + ['link', 'dangling', 'file', 'empty'])
            shape[n] = k
            p = root + '/' + n
            if k == 'dir':
                for j in range(r.randint(1, 6)):
                    q = r.choice(('', 'a/', 'a/b/', 'c d/', 'é/')) + r.choice(('f%d' % j, 'index.html', '.hidden', 'x.so', 'dist'))
                    t[p + '/' + q] = F('gen')
                if r.random() < 0.5:
                    t[p + '/' + r.choice(('out', 'a/out', 'zz'))] = L(r.choice(('/keep', '/keep/file.txt', '/keep/sub', '..', '../content', '/', '/nowhere', '.', '../static/a.css')))
                if r.random() < 0.2:
                    t[p + '/deep' + '/d' * r.randint(5, 30)] = D
            elif k == 'empty':
                t[p] = D
            elif k in ('link', 'dangling'):
                t[p] = L(r.choice(('/keep', '/keep/sub', 'content', root)) if k == 'link' else '/nowhere')
            elif k == 'file':
                t[p] = F('a file')
        k = r.choice(['file'] * 6 + ['none'] * 3 + ['link', 'dir', 'dangling'])
        shape['metadata.json'] = k
        p = root + '/metadata.json'
        if k == 'file':
            t[p] = F('{}')
        elif k == 'dir':
            t[p + '/x'] = F('x')
        elif k in ('link', 'dangling'):
            t[p] = L('/keep/file.txt' if k == 'link' else '/nowhere')
        cwd = root if r.random() < 0.9 else r.choice((root + '/content', '/keep', '/', root + '/dist'))
        t = sane(t)
        if cwd != '/' and cwd not in implied(t):
            cwd = root
        if r.random() < 0.08:
            t['/lnk'] = L(root)
            if cwd == root:
                cwd = '/lnk'
        ph = C.phase(['clean'], cwd, seedof(r), cfg=gen.io_cfg(r))
        info = {'root': root, 'shape': shape}
        case = new_case(self.id, t, [ph], info)
        runs = ctx.run(case)
        if ctx.stop:
            return
        ops = io_ops(runs[0])
        kinds = sorted({o[1] for o in ops})
        for _ in range(4):
            if not ops:
                return
            p2 = copy.deepcopy(ph)
            x = r.random()
            again = None
            if x < 0.2:
                p2['faults'] = ['kill %d' % r.randint(0, runs[0].res.stat['fops'])]
                again = copy.deepcopy(ph)
            elif x < 0.4:
                names = [q for q in t if any(below(q, root + '/' + n) for n in ('dist', '_build', 'metadata.json'))]
                if not names:
                    continue
                st = []
                for _ in range(r.randint(1, 4)):
                    q = r.choice(names)
                    st.append('o %d rm %s' % (r.randint(1, 30), sim.pct(q)))
                p2['actors'] = {'deleter': st}
            elif x < 0.5:
                o = r.choice(ops)
                q = o[2]
                p2['faults'] = ['fault match unlink,rmdir,open,opend,opendir,readdir %s* 0 %d 1000000' % (glob_esc(q), r.choice((EACCES, EIO, EBUSY)))]
            else:
                k = r.choice(kinds)
                o = r.choice([o for o in ops if o[1] == k])
                p2['faults'] = [fault_like(ops, o, r.choice(ERRS[k]), r.choice((1, 1, 1, 2, 1000000)))]
                if r.random() < 0.3:
                    again = copy.deepcopy(ph)
            ctx.run(new_case(self.id, t, [p2] + ([again] if again else []), info))
            if ctx.stop:
                return

    def judge(self, case, runs, probe):
        out = []
        for r in runs:
            x = r.res
            ab = abnormal(r)
            if ab:
                return [ab]
            v = VFS(r.before)
            try:
                cwd = v.resolve(r.phase['cwd'])
            except model.VErr:
                raise Ambiguous('no working directory')
            names = [cwd.rstrip('/') + '/' + n for n in ('dist', '_build', 'metadata.json')]
            man = v.look(cwd.rstrip('/') + '/stuart.toml')
            a, b = dict(r.before), dict(r.after)
            for d in implied(a):
                a.setdefault(d, D)
            ok = names if man is not None else []
            for p in sorted(set(a) | set(b)):
                if a.get(p) != b.get(p) and p not in BASE and not any(below(p, n) for n in ok) and not r.phase['actors']:
                    out.append(('altered', 'clean %s %s%s' % ('removed' if p not in b else 'created' if p not in a else 'changed', p, '' if man is not None else ' outside a project')))
                    break
            for seq, k, p in muts(r):
                if not any(below(p, n) for n in ok):
                    out.append(('altered', 'clean did %s %s' % (k, p)))
                    break
            for p in sorted(b):
                if any(below(p, n) for n in names) and a.get(p) != b[p] and not r.phase['actors']:
                    out.append(('altered', 'clean changed %s' % p))
                    break
            if x.status == 'killed':
                probe('killed')
                continue
            left = [n for n in names if any(below(p, n) for p in b)]
            if man is None:
                probe('no project')
                if x.code == 0:
                    out.append(('accepted', 'success was reported outside a project'))
                continue
            if x.code == 0:
                probe('cleaned')
                if left:
                    out.append(('left', 'success was reported, but %s is still there' % ', '.join(left)))
            else:
                probe('failed')
                if not said(r):
                    out.append(('silent-failure', 'cleaning failed without an error message'))
                normal = all((a.get(n) or D)[0] in 'DL' for n in names[:2]) and (a.get(names[2]) or ('F',))[0] in 'FL'
                if not real_faults(r) and normal and not r.phase['actors']:
                    out.append(('failed', 'nothing stands in the way, but cleaning failed: ' + clip(x.err)))
        return out

    def nontrivial(self, case, runs):
        return any(muts(r) or real_faults(r) for r in runs)

CHECKS = [P16(), P17(), P18()]
