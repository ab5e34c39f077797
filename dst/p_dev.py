"""Properties of the development server: sessions with edits, live-reload clients, web requests and faults."""
import copy, re
import case as C, gen, model, sim
from base import *
from gen import F
from model import VFS, Ambiguous, D
from p_build import at_root, build_phase, implied, said, seedof, clip as clip2

NET = ['HTTP clients and browsers: scripted peers on the simulated sockets', 'editors: scripted changes of the simulated file system with the notifications Linux would give']
STUBS_DEV = STUBS + NET
PORT = 6904
KEY = b'dGhlIHNhbXBsZSBub25jZQ=='
ACCEPT = b's3pPLMBiTxaQ9kYGzzhZRbK+xOo='
HANDSHAKE = (b'GET /__ws HTTP/1.1\r\nHost: localhost:6904\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: ' + KEY +
             b'\r\nSec-WebSocket-Version: 13\r\n\r\n')
RELOAD = b'\x81\x06reload'

def hexb(b):
    return b.hex() or '-'

# ------------------------------------------------------------------ generating sessions
def dev_project(r, **k):
    o = dict(links=False, temp=False, big=0.0, plugins=0.1, size=r.choice((1, 1, 2, 2, 3)))
    o.update(k)
    t, info = gen.gen_project(r, gen.Opts(**o))
    if r.random() < 0.12:
        # sources in directories that have the names of generated ones
        for i in range(r.choice((1, 2, 3))):
            area = info['root'] + r.choice(('/content', '/static'))
            p = '%s/%s/%s%d.%s' % (area, r.choice(ODD_DIRS), r.choice(('app', 'file', '.hid')), i, r.choice(('js', 'css', 'txt')))
            if any(q.startswith(area + '/') for q in t) and not any(below(p, q) and t[q][0] != 'D' for q in t):
                t[p] = F(gen.words(r, 1, 4))
    return t, info

ODD_DIRS = ('dist', 'dist', 'temp', '_build', 'js/dist', 'a/temp/b', 'dist/temp', 'metadata.json', 'stuart.toml', 'target/debug', '.git', 'node_modules/x', 'scripts', 'plugins', 'dist.d', 'content', 'static')

def dev_phase(r, info, **k):
    a = ['dev']
    if info['manifest'] != 'stuart.toml':
        a += ['--manifest-path', info['manifest']]
    if info['output'] != 'dist':
        a += ['-o', info['output']]
    p = C.phase(a, info['cwd'], seedof(r), cfg=gen.io_cfg(r) + sched_cfg(r), env=info.get('env') or {}, **k)
    return p

def sched_cfg(r):
    l = ['cfg maxops 400000']
    if r.random() < 0.7:
        l.append('cfg p_sched %s' % r.choice(('0.01', '0.05', '0.2', '0.5')))
    if r.random() < 0.35:
        l.append('cfg p_stall %s' % r.choice(('0.02', '0.1', '0.4')))
    if r.random() < 0.4:
        l.append('cfg p_net %s' % r.choice(('0.1', '0.5')))
    if r.random() < 0.2:
        l.append('cfg p_spur %s' % r.choice(('0.05', '0.3')))
    if r.random() < 0.3:
        l.append('cfg opcost %d' % r.choice((100, 20000, 100000)))  # a faster or slower machine
    return l

def burst_cfg(r):
    """Threads that are held up again and again on a slow machine."""
    return ['cfg maxops 400000', 'cfg p_sched %s' % r.choice(('0.2', '0.5')), 'cfg p_stall %s' % r.choice(('0.1', '0.4')), 'cfg opcost %d' % r.choice((1000, 50000, 200000))]

def burst_trigger(r):
    def f(kind=''):
        return 't %d' % r.choice((10**6, 5 * 10**6, 2 * 10**7, 10**8, 3 * 10**8, 10**9))
    return f

def put_steps(r, t, p, b, trig, split=0.0):
    """Steps which make file p hold b; trig() gives the trigger of each."""
    q = sim.pct(p)
    old = t[p][1] if p in t and t[p][0] == 'F' else None
    k = r.random()
    if old is not None and b.startswith(old) and len(b) > len(old) and k < 0.3:
        return ['%s append %s %s' % (trig(), q, hexb(b[len(old):]))]
    if r.random() < split:
        return ['%s trunc %s' % (trig(), q)] + ['%s append %s %s' % (trig('s'), q, hexb(b))]
    if k < 0.6:
        return ['%s awrite %s %s' % (trig(), q, hexb(b))]
    return ['%s write %s %s' % (trig(), q, hexb(b))]

def diff_steps(r, a, b, trig, split=0.0):
    """Steps which turn the sources a into b."""
    out, gone = [], set()
    for p in sorted(set(a) | set(b)):
        if a.get(p) == b.get(p):
            continue
        if p not in b:
            if p.rpartition('/')[0] not in gone:
                out.append('%s rm %s' % (trig(), sim.pct(p)))
            gone.add(p)
        elif b[p][0] == 'F':
            out += put_steps(r, a, p, b[p][1], trig, split)
        elif b[p][0] == 'D':
            out.append('%s mkdir %s' % (trig(), sim.pct(p)))
        else:
            return None
    return out

def trigger(r, idle):
    """Triggers of an editor's steps: at idle times only, or at any time."""
    def f(kind=''):
        if idle and kind != 's':
            return 'i 0'
        k = r.random()
        if kind == 's':
            return r.choice(('o %d' % r.choice((1, 3, 20, 200)), 't %d' % r.choice((0, 1000, 10**6, 10**8)), 'i 0'))
        if k < 0.25:
            return 'i 0'
        if k < 0.75:
            return 'o %d' % r.choice((0, 1, 2, 5, 10, 20, 40, 80, 150, 300, 600, 1500))
        return 't %d' % r.choice((0, 100, 10**4, 10**6, 10**7, 12 * 10**6, 10**8, 10**9))
    return f

def one_change(*a, **k):
    try:
        return one_change_(*a, **k)
    except (ValueError, IndexError):                    # the sources at hand are broken in a way the generator cannot edit
        return None

def one_change_(r, t, info, trig, broken=0.25, split=0.0):
    """(steps, tree): one change of the sources; None if none was found."""
    root = info['root']
    if r.random() < broken:
        t2, lab = gen.break_project(r, t, info, ['syntax', 'call', 'value', 'block', 'root', 'json', 'utf8', 'front'])
        t2 = full({**{p: e for p, e in t.items() if e[0] == 'D'}, **t2})
        s = diff_steps(r, t, t2, trig, split)
        return (s, t2) if s else None
    k = r.random()
    if k < 0.06:
        d = '%s/%s/new%d' % (root, r.choice(('content', 'content', 'static') if any(below(p, root + '/static') for p in t) else ('content',)), r.randint(0, 99))
        if d in implied(t) or d in t:
            return None
        t2 = dict(t)
        t2[d] = D
        return ['%s mkdir %s' % (trig(), sim.pct(d))], t2
    if k < 0.12:
        p = r.choice([p for p in sorted(t) if t[p][0] == 'F' and p.startswith((root + '/content/', root + '/static/'))])
        return ['%s touch %s' % (trig(), sim.pct(p))], t
    if k < 0.18:
        odd = [p for p in sorted(t) if t[p][0] == 'F' and p.endswith(('.js', '.css', '.txt')) and any('%s/%s/' % (a, d) in p for a in ('content', 'static') for d in ODD_DIRS)]
        if odd:
            p = r.choice(odd)
            t2 = {**t, p: F(gen.words(r, 0, 5))}
            s = diff_steps(r, t, t2, trig, split)
            return (s, t2) if s else None
    if k < 0.26:
        # directories are moved, copied or removed
        t = full(t)
        ds = [p for p in sorted(t) if t[p][0] == 'D' and p.startswith((root + '/content/', root + '/static/'))]
        if not ds:
            return None
        p = r.choice(ds)
        if k < 0.2:
            return ['%s rm %s' % (trig(), sim.pct(p))], {q: e for q, e in t.items() if not below(q, p)}
        to = '%s/%s%d' % (r.choice([d for d in ds if not below(d, p)] + [root + '/content', root + '/static'] if root + '/static' in t else [root + '/content']), r.choice(gen.WORDS), r.randint(0, 9))
        if to in t:
            return None
        if k < 0.23:
            return ['%s mv %s %s' % (trig(), sim.pct(p), sim.pct(to))], {(to + q[len(p):] if below(q, p) else q): e for q, e in t.items()}
        t2 = {**t, **{to + q[len(p):]: e for q, e in t.items() if below(q, p)}}
        return diff_steps(r, t, t2, trig, split), t2
    for _ in range(20):
        e = gen.one_edit(r, t, info)
        if e:
            break
    else:
        return None
    t2 = C.edit_tree(t, e)
    if len(e) == 1 and e[0][0] == 'mv':
        return ['%s mv %s %s' % (trig(), sim.pct(e[0][1]), sim.pct(e[0][2]))], t2
    s = diff_steps(r, t, t2, trig, split)
    return (s, t2) if s else None

def buildable(t, info):
    try:
        return model.build(VFS(t), info['cwd'], info['manifest'], info['output'], 'development', gen.environ(info)).ok
    except Ambiguous:
        return None

def edit_session(r, t, info, n, idle, broken=0.25, split=0.0, end=True, trig=None):
    """(steps, final tree): n changes; the last ones make the sources buildable again."""
    trig = trig or trigger(r, idle)
    t = full(t)                                         # directories stay when their files go
    steps, cur, good = [], t, t
    for _ in range(n * 6):
        if len(steps) >= n:
            break
        x = one_change(r, cur, info, trig, broken, split)
        if not x:
            continue
        b = buildable(x[1], info)
        if b is None:
            continue
        steps += x[0]
        cur = x[1]
        if b:
            good = cur
        elif r.random() < 0.5:
            s = diff_steps(r, cur, good, trig, split)
            if s:
                steps += s
                cur = good
    if end and cur is not good:
        s = diff_steps(r, cur, good, trig, split)
        steps += s
        cur = good
    return steps, cur

def last_edit(r, t, info):
    """A change at an idle time that any later build shows."""
    p = info['root'] + '/content/zz-last.txt'
    return 'i 0 write %s %s' % (sim.pct(p), b'last edit'.hex())

def pieces(r, b, p=0.5):
    """The bytes in one or several packets."""
    if not b or r.random() > p:
        return [b]
    out, i = [], 0
    while i < len(b):
        n = r.choice((1, 2, 5, 17, 60, 300))
        if len(out) > 10:
            n = len(b)
        out.append(b[i:i + n])
        i += n
    return out

def ws_client(r, start, hs=HANDSHAKE):
    st = ['%s connect %d' % (start, PORT)]
    for x in pieces(r, hs, 0.4):
        st.append('t %d send %s' % (r.choice((0, 1000, 10**6)), x.hex()))
    return st

# ------------------------------------------------------------------ reading a session back
EVENTS = {'append': 2, 'write': 4, 'awrite': 7, 'trunc': 2, 'rm': 2, 'mv': 3, 'mkdir': 3, 'touch': 2, 'overflow': 3}

class Conn:
    def __init__(self, actor, opened):
        self.actor, self.opened, self.data, self.closed, self.failed, self.how, self.sent = actor, opened, [], None, None, None, b''
        self.sends, self.stalled = [], False

    @property
    def bytes(self):
        return b''.join(x[2] for x in self.data)

class Session:
    """The recorded history of one development server."""
    def __init__(self, run):
        self.run = run
        self.x = x = run.res
        self.project, self.out = where(run.before, run.phase)
        self.idles, self.edits, self.conns, self.reads, self.blocks, self.wakes = [], [], {}, [], [], []
        self.procs, self.exits, self.muts, self.faultsteps, self.acts, self.injected = [], {}, [], [], [], []
        self.starts, first = [], None           # where each rebuild begins to read the sources, whatever it reads first
        srcs = [(self.project or '') + d for d in ('/content', '/static', '/temp')]
        self.blind, watcher = None, None
        self.states = [(0, full(run.before))]
        steps = {a: s for a, s in run.phase['actors'].items()}
        cur = self.states[0][1]
        last = {}
        for l in x.log:
            k = l[0]
            if k == 'I':
                self.idles.append((int(l[1]), int(l[2])))
            elif k == 'A':
                seq, actor, n = int(l[1]), l[2], int(l[3])
                w = steps[actor][n].split(' ')[2:]
                if w[0] in EDITS:
                    if w[0] in ('rm', 'mv') and sim.unpct(w[1]) not in cur:
                        continue                        # there was nothing to remove
                    cur = apply_step(cur, w, seq)
                    self.edits.append((seq, w, actor))
                    self.states.append((seq, cur))
                elif w[0] == 'overflow':
                    self.edits.append((seq, w, actor))
                elif w[0] in ('fault', 'nofault'):
                    self.faultsteps.append((seq, w))
                elif w[0] == 'connect':
                    m = [y for y in l if y.startswith('conn=')]
                    last[actor] = int(m[0][5:]) if m else None
                    if m:
                        self.conns[last[actor]] = Conn(actor, seq)
                elif last.get(actor) is not None:
                    c = self.conns[last[actor]]
                    if w[0] == 'send':
                        c.sent += bytes.fromhex(w[1])
                        c.sends.append((seq, bytes.fromhex(w[1])))
                    elif w[0] in ('stall', 'unstall'):
                        c.stalled = w[0] == 'stall'
                    elif w[0] in ('rst', 'gone', 'fin') and c.failed is None:
                        c.failed, c.how = seq, w[0]
            elif k == 'W':
                c = self.conns.get(int(l[2]))
                if c:
                    c.data.append((int(l[1]), int(l[3]), bytes.fromhex(l[4]) if len(l) > 4 else b''))
            elif k == 'C' and l[3] in ('close', 'shut'):
                c = self.conns.get(int(l[2]))
                if c and c.closed is None:
                    c.closed = int(l[1])
            elif k == 'o':
                p = sim.unpct(l[5])
                if l[4] == 'inotify_add':
                    watcher = l[2]
                if l[6] not in ('0', '4'):
                    self.injected.append(int(l[1]))
                    if l[2] == watcher and self.blind is None and l[4] in ('stat', 'lstat', 'opendir', 'readdir', 'inotify_add'):
                        self.blind = int(l[1])          # a new directory may now be unwatched for good
                if l[2] == '0' and l[4] in WORK:
                    self.acts.append(int(l[1]))
                if l[2] == '0' and first is None and l[4] in ('open', 'opendir') and any(below(p, d) for d in srcs):
                    first = int(l[1])
                if l[4] == 'opendir' and l[2] == '0' and self.project and p == self.project + '/content':
                    self.reads.append(int(l[1]))
                    self.starts.append(first)
            elif k == 'B':
                first = None
                self.blocks.append(int(l[1]))
            elif k == 'U':
                self.wakes.append(int(l[1]))
            elif k == 'P':
                self.procs.append((int(l[1]), l[2], l[3]))
            elif k == 'X':
                self.exits[l[2]] = int(l[1])
            elif k == 'm' and l[2] == '0':
                self.muts.append((int(l[1]), l[3], sim.unpct(l[4])))
        self.idles = [(s, i) for s, i in self.idles]
        for c in self.conns.values():
            c.parse()
            self.acts += [q for q, _, _ in c.reloads]
        self.acts += [q for q, _, _ in self.procs] + list(self.exits.values())
        self.acts.sort()

    def faults_in(self, a, b):
        """Did the simulator make an operation fail between a and b?"""
        return any(a < q <= b for q in self.injected)

    def tree_at(self, seq):
        t = self.states[0][1]
        for s, x in self.states:
            if s > seq:
                break
            t = x
        return t

    def model_at(self, seq):
        t = self.tree_at(seq)
        m0 = self.states[0][1]
        man = [p for p in m0 if below(p, self.project) and p.rpartition('/')[0] == self.project and p.endswith('.toml')]
        t = dict(t)
        for p in man:
            t[p] = m0[p]
        return model_of(t, self.run.phase)

    def snap(self, i):
        """The output directory in snapshot i, as the model writes it."""
        return self.x.snaps.get(i, {})

    def lost(self, a, b):
        """Did an edit between a and b fall into the last rebuild, after it had begun to read the sources and before the server waited again?"""
        reads = [q for q in self.reads if q <= b]
        if not reads:
            return False
        start = self.starts[len(reads) - 1]
        acts = [q for q in self.acts if start <= q <= b]
        end = next((q for q in self.blocks if q > acts[-1]), b)
        return any(start < q < end for q, w, _ in self.edits if a < q <= b)

    def between(self, l, a, b):
        return [x for x in l if a < (x[0] if isinstance(x, tuple) else x) <= b]

# what the main thread does only while it builds
WORK = {'open', 'openw', 'creat', 'opendir', 'readdir', 'read', 'write', 'mkdir', 'rmdir', 'unlink', 'rename', 'spawn', 'pipe'}
EDITS = {'append', 'write', 'awrite', 'trunc', 'rm', 'mv', 'mkdir', 'touch'}

def full(t):
    t = dict(t)
    for d in implied(t):
        t.setdefault(d, D)
    return t

def apply_step(t, w, seq):
    k = w[0]
    if k == 'touch':
        return t
    t = dict(t)
    p = sim.unpct(w[1])
    par = t.get(p.rpartition('/')[0] or '/', D)
    if k == 'mkdir':
        t[p] = D
        for d in implied([p]):
            t.setdefault(d, D)
        return t
    if k == 'rm':
        for q in [q for q in t if below(q, p)]:
            del t[q]
        return t
    if par[0] != 'D' or (p.rpartition('/')[0] or '/') not in t:
        return t
    if k == 'mv':
        q = sim.unpct(w[2])
        if p in t and (q.rpartition('/')[0] or '/') in t:
            for z in [z for z in t if below(z, q)]:
                del t[z]
            for z in [z for z in t if below(z, p)]:
                t[q + z[len(p):]] = t.pop(z)
        return t
    if k == 'trunc':
        t[p] = ('F', b'')
        return t
    b = b'' if w[2] == '-' else bytes.fromhex(w[2])
    if k == 'append':
        b = (t[p][1] if t.get(p, D)[0] == 'F' else b'') + b
    t[p] = ('F', b)
    return t

def parse_conn(c):
    """Splits what a live-reload client received: handshake end, [(seq, snap)] of reloads, rest."""
    b = c.bytes
    i = b.find(b'\r\n\r\n')
    c.ws = b.startswith(b'HTTP/1.1 101') and i >= 0
    c.ready, c.reloads, c.rest = None, [], b''
    if not c.ws:
        return
    ends, n = [], 0
    for seq, snap, d in c.data:
        n += len(d)
        ends.append((n, seq, snap))
    def at(k):                                          # the write that completed byte k
        return next((s, sn) for e, s, sn in ends if e >= k)
    c.ready = at(i + 4)[0]
    j = i + 4
    while b[j:j + 8] == RELOAD:
        first = next(s for e, s, sn in ends if e > j)
        c.reloads.append((at(j + 8)[0], at(j + 8)[1], first))
        j += 8
    c.rest = b[j:]

Conn.parse = parse_conn

def site_diff(s, snap, m):
    return out_diff(s.snap(snap), m) if m.ok else None

def started(s):
    """Did the server start and end idle?"""
    return s.x.status == 'quiescent'

def dead(s):
    """Why the server did not survive: (key, text) or None."""
    x = s.x
    if x.status == 'quiescent':
        main = [t for t in x.threads if t[0] == 0]
        return None
    if x.status == 'stepcap':
        return 'busy', 'the server never became idle again'
    i = x.err.find(b'panicked at')
    if x.status == 'exit' and i < 0 and x.code and not s.idles and s.edits:
        raise Ambiguous('the project changed while the server started')
    return 'died' if s.reads else 'not-started', 'the server ended by itself (%s %d): %s' % (x.status, x.code, clip(x.err[i:i + 200] if i >= 0 else x.err))

# ------------------------------------------------------------------ judging
def idle_checks(s, keys, probe, faulty=False, first=0):
    """At every idle moment the output is that of a fresh build of the sources, or (if they cannot be built) what it was before.
    faulty: operations failed on purpose; nothing is said until a rebuild without such a failure."""
    out = []
    prev = None
    tainted = False
    for n, (seq, snap) in enumerate(s.idles):
        if s.blind is not None and seq > s.blind:
            probe('unwatched directory')
            break
        a = s.idles[n - 1][0] if n else 0
        ed = s.between(s.edits, a, seq)
        if faulty or n < first:
            if n < first or s.faults_in(a, seq):
                tainted = True
            elif ed:
                if tainted:
                    probe('clean rebuild after failures')
                    prev = None
                tainted = False
            if tainted:
                prev = snap
                continue
        m = s.model_at(seq)
        probe('idle:%s' % ('ok' if m.ok else 'broken'))
        if m.ok:
            d = site_diff(s, snap, m)
            if d:
                if s.lost(a, seq):
                    probe('lost edit')
                    out.append(('edit-during-rebuild', 'an edit made while a rebuild was running is not in the output when the server is idle: ' + d))
                else:
                    out.append((keys['stale'], 'the server is idle, but its output is not that of a fresh build (%d edits before): %s' % (len(ed), d)))
        elif n and len(ed) <= 1 and prev is not None and m.phase in ('pre', 'build', 'merge', 'layout'):
            if s.snap(snap) != s.snap(prev):
                out.append((keys['broken'], 'the sources cannot be built (%s), but the output changed' % m.reason))
        prev = snap
        if out:
            break
    return out

# ------------------------------------------------------------------ P09
class P09(Prop):
    id = 'P09'
    stubs = STUBS_DEV
    rule = ('one evaluation = one development-server session with 1-10 edits at random moments (or idle moments only), broken states in between, lost notifications and delayed threads; judged at every idle moment against the '
            'reference model of a fresh build of the current sources; non-trivial = a rebuild happened after an edit; distinct = by operation history and initial tree')
    budget = {'quick': (7500, 75), 'thorough': (200000, 3000)}

    def explore(self, r, ctx, tier, i):
        t, info = dev_project(r)
        idle = r.random() < 0.35
        n = r.choice((1, 1, 2, 3, 3, 5, 8, 12))
        steps, cur = edit_session(r, t, info, n, idle, split=0.25)
        acts = {}
        ph = dev_phase(r, info)
        if r.random() < 0.25:
            # for a while, the kernel drops notifications
            acts['kernel'] = ['%s maxq %d' % (trigger(r, idle)(), r.choice((1, 2, 4, 8))), 'o %d maxq 16384' % r.choice((1, 10, 100, 1000))]
        if r.random() < 0.15:
            steps.insert(r.randrange(len(steps) + 1), '%s overflow' % trigger(r, idle)())
        if not idle and r.random() < 0.65:
            steps.append(last_edit(r, t, info))
        acts['ed'] = steps
        ph['actors'] = acts
        ctx.run(new_case(self.id, t, [ph], info, [info['out']]))

    def judge(self, case, runs, probe):
        s = Session(runs[0])
        ab = dead(s)
        if ab:
            return [ab]
        return idle_checks(s, {'stale': 'stale', 'broken': 'broken-changed-output'}, probe)

    def nontrivial(self, case, runs):
        return bool([l for l in runs[0].res.log if l[0] == 'A'])


# ------------------------------------------------------------------ P10
def ignored_steps(r, t, info, m):
    """Changes which are no changes of sources: what the server itself wrote."""
    root, out = info['root'], info['out']
    c = ['%s/_build/x%d' % (root, r.randint(0, 3)), root + '/metadata.json']
    if m.ok and m.files:
        c += [out + '/' + f for f in r.sample(sorted(m.files), min(3, len(m.files)))]
    c = [p for p in c if not any(below(p, root + d) for d in ('/content', '/static', '/scripts'))]
    p = r.choice(c)
    k = r.random()
    if '/_build/' in p and k < 0.5:
        return ['i 0 mkdir %s' % sim.pct(p)]
    if k < 0.3:
        return ['i 0 rm %s' % sim.pct(p)]
    return ['i 0 write %s %s' % (sim.pct(p), b'touched'.hex())]

class P10(Prop):
    id = 'P10'
    stubs = STUBS_DEV
    rule = ('one evaluation = one build (to learn how often a build reads the sources) and one development-server session with edits, changes of generated files and long idle times, over all output locations and settings; '
            'judged: one build at the start, a bounded number per edit, none otherwise, and idleness; non-trivial = the server became idle at least twice; distinct = by operation history and initial tree')
    budget = {'quick': (7800, 75), 'thorough': (200000, 2400)}

    def explore(self, r, ctx, tier, i):
        t, info = dev_project(r, plugins=0.2)
        root = info['root']
        man = [p for p in t if p.rpartition('/')[0] == root and p.endswith('.toml')][0]
        b = t[man][1].decode()
        if r.random() < 0.5 and 'save_metadata' not in b:
            t[man] = F(b + ('' if '[settings]' in b else '\n[settings]\n') + '\nsave_metadata = true\n') if '[settings]' not in b or '[dependencies]' not in b else t[man]
        if r.random() < 0.25 and info['output'] == 'dist':
            # an output directory in an unusual place
            o = r.choice(('content/../public', './site', 'out/a', 'a b', '../outside', '/var/www/site', '_site/', 'build/../web', 'static/../dist2', 'my/dist'))
            o2 = o if o.startswith('/') else root + '/' + o
            full_out = model.norm(o2)
            if not any(below(full_out, q) for q in t if t[q][0] != 'D'):
                t[full_out.rpartition('/')[0] + '/.keep'] = F('')
                info = dict(info, output=o, out=full_out)
                for q in [q for q in t if below(q, root + '/dist')]:
                    del t[q]
        m = model.build(VFS(t), info['cwd'], info['manifest'], info['output'], 'development', gen.environ(info))
        if not m.ok:
            return
        x = r.random()
        steps = []
        if x < 0.75:
            idle = r.random() < 0.8
            steps, _ = edit_session(r, t, info, r.choice((1, 2, 4, 7)), idle, split=0.1)
        for _ in range(r.choice((0, 1, 2))):
            steps[(j := r.randrange(len(steps) + 1)):j] = ignored_steps(r, t, info, m)
        if r.random() < 0.3:
            steps.append('t %d nop' % (3600 * 10**9))
        ph = dev_phase(r, info, actors={'ed': steps} if steps else {})
        ctx.run(new_case(self.id, t, [build_phase(r, info), ph], info, [info['out']]))

    def judge(self, case, runs, probe):
        s = Session(runs[1])
        if runs[0].res.status != 'exit' or runs[0].res.code != 0:
            raise Ambiguous('the sources cannot be built')
        k = len([o for o in runs[0].res.ops() if o[1] == 0 and o[3] == 'opendir' and o[4] == s.project + '/content'])
        if k == 0:
            raise Ambiguous('builds do not read the sources')
        ab = dead(s)
        if ab:
            return [(ab[0], ab[1] + ' (%d builds)' % (len(s.reads) // k))]
        out = []
        for n, (seq, snap) in enumerate(s.idles):
            a = s.idles[n - 1][0] if n else 0
            ed = [e for e in s.between(s.edits, a, seq)]
            src = [e for e in ed if e[1][0] == 'overflow' or not self.generated(s, e[1])]
            builds = len(s.between(s.reads, a, seq)) / k
            probe('idle after %d edits' % min(len(src), 3))
            if n == 0 and not src:
                if builds != 1:
                    out.append(('rebuild', 'the server built %g times before it became idle, although nothing had changed' % builds))
            else:
                most = sum(EVENTS[e[1][0]] for e in src) + (n == 0)
                if builds > most:
                    out.append(('rebuild', 'the server built %g times after %d changes of sources%s' % (builds, len(src), ' (only generated files changed)' if ed and not src else '')))
        return out

    def generated(self, s, w):
        ps = [sim.unpct(x) for x in w[1:2] + (w[2:3] if w[0] == 'mv' else [])]
        return all(below(p, s.out) or below(p, s.project + '/_build') or p == s.project + '/metadata.json' for p in ps)

    def nontrivial(self, case, runs):
        return len([l for l in runs[1].res.log if l[0] == 'I']) > 1

# ------------------------------------------------------------------ P11, P14
def alive(c, a, b):
    """Was this client connected and registered throughout the interval?"""
    return c.ws and c.ready <= a and (c.failed is None or c.failed > b)

def client_checks(s, probe):
    out = []
    conns = [c for c in s.conns.values() if HANDSHAKE in c.sent or c.ws]
    k = len([q for q in s.reads if s.idles and q <= s.idles[0][0]])
    if s.idles and s.between(s.edits, 0, s.idles[0][0]):
        k = 0
    for c in conns:
        if c.failed is None and HANDSHAKE in c.sent and not c.ws:
            out.append(('no-handshake', 'a live-reload client was never accepted: %r' % c.bytes[:60]))
        elif c.ws and ACCEPT not in c.bytes[:400]:
            out.append(('no-handshake', 'a live-reload client got a wrong handshake: %r' % c.bytes[:200]))
        elif c.ws and c.failed is None and c.rest:
            out.append(('corrupt', 'a live-reload client received something else than reload messages: %r' % c.rest[:40]))
        elif c.ws and c.failed is None and c.closed is not None:
            out.append(('dropped', 'a working live-reload client was disconnected'))
    if out:
        return out
    writes = [q for q, _, p in s.muts if below(p, s.out) or p == s.project + '/metadata.json']
    single_ok = []
    for n in range(len(s.idles)):
        seq, snap = s.idles[n]
        if s.blind is not None and seq > s.blind:
            break
        a = s.idles[n - 1][0] if n else 0
        ed = s.between(s.edits, a, seq)
        reads = s.between(s.reads, a, seq)
        fired = s.faults_in(a, seq)
        live = [c for c in conns if alive(c, a, seq)] if n else []
        counts = [len([1 for q in c.reloads if a < q[0] <= seq]) for c in live]
        every = [q for c in conns for q in c.reloads if a < q[0] <= seq]
        m = s.model_at(seq)
        if live and len(set(counts)) > 1:
            out.append(('unequal', 'of %d clients connected throughout, some got %d reload messages and others %d' % (len(live), min(counts), max(counts))))
        if live:
            probe('interval with %d clients' % min(len(live), 4))
        # nothing may be written or running between a reload message and the next build
        for q, sn, first in every:
            nxt = next((x for x in s.reads if x > q), 10**12)
            nxtp = next((x for x, _, _ in s.procs if x > q), 10**12)
            if any(q < w < min(nxt, nxtp, seq) for w in writes):
                out.append(('early-reload', 'a reload message was sent before the output was completely written'))
                break
            if any(p < q < s.exits.get(pid, 10**12) for p, pid, _ in s.procs):
                out.append(('early-reload', 'a reload message was sent while a script was still running'))
                break
        if len(ed) <= 1:
            for q, sn, first in every:
                if not m.ok:
                    out.append(('extra-reload', 'a reload message was sent although the rebuild failed (%s)' % m.reason))
                    break
                d = site_diff(s, sn, m) if sn >= 0 else None
                if d:
                    out.append(('early-reload', 'a reload message was sent when the output was not the finished site: ' + d))
                    break
        if n and not ed and any(counts) and not fired:
            out.append(('extra-reload', 'a reload message was sent although nothing had changed'))
        if n and live and len(ed) == 1 and not fired and not out:
            builds = len(reads) / k if k else None
            w = ed[0][1][0]
            if m.ok:
                probe('reload')
                if w not in ('touch', 'mkdir', 'overflow') and counts[0] < 1:
                    out.append(('missing-reload', 'the sources changed and were rebuilt, but no reload message was sent'))
                elif builds is not None and builds == int(builds) and counts[0] != builds:
                    out.append(('miscount', '%d rebuilds succeeded, but %d reload messages were sent to each client' % (builds, counts[0])))
            elif counts[0]:
                out.append(('extra-reload', 'the rebuild failed, but a reload message was sent'))
        elif n and live and ed and not fired and not out:
            if k and counts[0] > len(reads) / k:
                out.append(('miscount', '%g rebuilds were made, but %d reload messages were sent to each client' % (len(reads) / k, counts[0])))
            if m.ok and counts[0] < 1 and s.snap(snap) != s.snap(s.idles[n - 1][1]):
                out.append(('missing-reload', 'the output changed, but no reload message was sent'))
        if n and m.ok and len(ed) == 1 and ed[0][1][0] not in ('touch', 'mkdir', 'overflow') and not fired:
            single_ok.append(a)
        if out:
            return out
    for c in conns:
        if c.ws and c.how in ('rst', 'gone'):
            nb = len([a for a in single_ok if a > c.failed])
            if nb >= (1 if c.how == 'rst' else 2):
                probe('dead client')
                if c.closed is None:
                    out.append(('kept-dead', 'a client that had gone (%s) is still kept after %d rebuilds' % (c.how, nb)))
    return out

class P11(Prop):
    id = 'P11'
    stubs = STUBS_DEV
    rule = ('one evaluation = one development-server session with edits (some of which break the build), failing operations and live-reload clients connecting at any moment; judged: number, order and moment (against a snapshot of '
            'the output) of the reload messages; non-trivial = at least one reload message was received; distinct = by operation history and initial tree')
    budget = {'quick': (6300, 75), 'thorough': (200000, 2400)}
    failing = False

    def explore(self, r, ctx, tier, i):
        t, info = dev_project(r)
        idle = r.random() < 0.65
        steps, cur = edit_session(r, t, info, r.choice((2, 3, 5, 8)), idle, broken=0.35 if idle else r.choice((0.0, 0.35)), split=0.1)
        burst = r.random() < 0.2
        if burst:
            steps = ['i 0 nop', 'i 0 nop'] + edit_session(r, t, info, r.choice((2, 3, 5)), False, broken=r.choice((0.0, 0.2)), trig=burst_trigger(r))[0]
        if not burst and not self.failing and r.random() < 0.3:
            steps = with_faults(r, steps, info)
        if r.random() < 0.5:
            steps.append(last_edit(r, t, info))
        acts = {}
        n = r.choice((1, 1, 2, 3, 5)) if not self.failing else r.choice((2, 3, 4, 6, 9, 9))
        if r.random() < 0.04:
            n = r.choice((17, 20, 33))
        anywhere = lambda: r.choice(('i 0', 'i 0', 'o %d' % r.choice((0, 50, 200, 1000)), 't %d' % r.choice((10**6, 10**8, 10**10))))
        for j in range(n):
            st = ws_client(r, r.choice(('i 0', 'i 0', 'i 0', anywhere())))
            if self.failing:
                k = r.random()
                if k < 0.55:
                    x = r.random()
                    if x < 0.3:
                        st = st[:r.randint(1, len(st))]         # may fail before or during the handshake
                    st.append('%s %s' % (soon(r) if r.random() < 0.35 else anywhere(), r.choice(('rst', 'gone', 'gone', 'fin'))))
                    if r.random() < 0.3:
                        st += ws_client(r, anywhere())
                elif k < 0.65:
                    st.append('%s stall' % anywhere())
                elif k < 0.75:
                    # it may speak, too: pings, text, closing, rubbish
                    st.append('%s send %s' % (anywhere(), r.choice((b'\x81\x80abcd', b'\x89\x80abcd', b'\x88\x82abcd\x61\x62', b'\xff\xff\xff', b'GET / HTTP/1.1\r\n\r\n')).hex()))
            acts['ws%d' % j] = st
        acts['ed'] = steps
        ph = dev_phase(r, info, actors=acts)
        if burst:
            ph['cfg'] = gen.io_cfg(r) + burst_cfg(r)
        ctx.run(new_case(self.id, t, [ph], info, [info['out']]))

    def judge(self, case, runs, probe):
        s = Session(runs[0])
        ab = dead(s)
        if ab:
            return [ab]
        return client_checks(s, probe)

    def nontrivial(self, case, runs):
        return any(l[0] == 'W' and len(l) > 4 and RELOAD.hex() in l[4] for l in runs[0].res.log)

class P14(P11):
    id = 'P14'
    rule = ('one evaluation = one development-server session with edits and 2-9 live-reload clients, about half of which disconnect, reset, stall or misbehave at random moments; judged: the messages of every surviving client, the '
            'removal of dead ones, and that rebuilding goes on; non-trivial = a client failed and another one received a reload message; distinct = by operation history and initial tree')
    failing = True

    def judge(self, case, runs, probe):
        s = Session(runs[0])
        ab = dead(s)
        if ab:
            return [ab]
        out = client_checks(s, probe)
        if not out:
            out = [(k, x) for k, x in idle_checks(s, {'stale': 'stuck', 'broken': 'broken'}, probe) if k == 'stuck']
        return out

def with_faults(r, steps, info):
    """Failing operations during some of the rebuilds."""
    out = []
    for x in steps:
        if r.random() < 0.3 and x.startswith('i '):
            out.append(fault_step(r, info))
            out.append(x)
            out.append('i 0 nofault')
        else:
            out.append(x)
    return out + ['i 0 nofault']

def fault_step(r, info, trig='i 0'):
    k = r.choice(('open', 'opendir', 'readdir', 'read', 'creat', 'write', 'write', 'mkdir', 'unlink', 'rmdir', 'stat', 'realpath', 'spawn', 'pipe'))
    where = {'creat': info['out'], 'write': info['out'], 'mkdir': info['out'], 'unlink': info['out'], 'rmdir': info['out'], 'open': info['root'] + '/content', 'opendir': info['root'], 'readdir': info['root']}.get(k)
    g = '*' if where is None or r.random() < 0.2 else glob_esc(where) + '*'
    return '%s fault %s %s %d %d' % (trig, k, g, r.choice(ERRS[k]), r.choice((1, 1, 2, 5, 1000)))

# ------------------------------------------------------------------ P12
SERVICE = ('epoll', 'thread')                           # never made to fail: without them there is no server to judge

def get_request(path, keep=False, extra=b''):
    p = path if isinstance(path, bytes) else path.encode()
    return b'GET ' + p + b' HTTP/1.1\r\nHost: localhost:6904\r\n' + extra + (b'Connection: keep-alive\r\n' if keep else b'') + b'\r\n'

def headers(r, more=False):
    """Header lines which must not matter."""
    v = lambda: r.choice((b'', b'x', b'*/*', b'abcdefg\xc3\xa9x', b'\xf0\x9f\x98\x80', b'a' * r.choice((7, 8, 300, 3000)), b'0', b'-1', b'localhost', b'text/html;q=0.8, */*', b'gzip, deflate, br', b'a=b; c=d', b'==', b'http://evil.example/', b'en', b'18446744073709551616'))
    names = [b'User-Agent', b'Accept', b'Accept-Encoding', b'Accept-Language', b'Cookie', b'Referer', b'Origin', b'Via', b'X-Custom', b'user-agent', b'X-Y', b'DNT', b'Cache-Control', b'Pragma', b'Authorization']
    if more:
        names += [b'Range', b'If-None-Match', b'If-Modified-Since', b'X-Forwarded-For', b'Expect', b'Upgrade', b'Sec-WebSocket-Key', b'Transfer-Encoding', b'Content-Type', b'Host', b'Connection', b'Date', b'Forwarded']
    return b''.join(r.choice(names) + r.choice((b': ', b':', b':  ')) + v() + b'\r\n' for _ in range(r.choice((0, 1, 2, 4))))

JUNK = (b'\r\n\r\n', b'\n', b'\0\0\0\0\r\n\r\n', b'\xff\xfe\xfd\r\n\r\n', b'GET\r\n\r\n', b'GET / HTTP/1.1\n\n', b'GET  / HTTP/1.1\r\n\r\n', b'FOO / HTTP/1.1\r\n\r\n',
        b'GET / HTTP/1.1\r\nno colon here\r\n\r\n', b'GET / HTTP/1.1\r\nContent-Length: 99999\r\n\r\nabc', b'POST / HTTP/1.1\r\nContent-Length: x\r\n\r\n', b'GET /%zz HTTP/1.1\r\n\r\n', b'GET /%00 HTTP/1.1\r\n\r\n',
        b'GET /../../../etc/passwd HTTP/1.1\r\n\r\n', b'GET /' + b'a' * 5000 + b' HTTP/1.1\r\n\r\n', b'GET / HTTP/1.1\r\nHost: ' + b'x' * 9000 + b'\r\n\r\n', b'OPTIONS * HTTP/1.1\r\n\r\n', b'HEAD / HTTP/1.1\r\n\r\n',
        b'GET /__ws HTTP/1.1\r\nUpgrade: websocket\r\n\r\n', b'GET /nowhere HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: x\r\n\r\n', b'GET / HTTP/1.1\r\n\xe9: x\r\n\r\n', b'GET / HTTP/1.1\r\nX-Forwarded-For: nonsense\r\n\r\n',
        b'\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03', b'GET / HTTP/1.1\r\n:\r\n\r\n', b'GET / HTTP/1.1\r\na\r\n', b'DELETE / HTTP/1.1\r\n\r\n', b'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n')

def anywhere(r):
    return r.choice(('i 0', 'i 0', 'o %d' % r.choice((0, 50, 200, 1000)), 't %d' % r.choice((0, 10**6, 10**8, 10**10))))

def soon(r):
    """A moment just after the previous step."""
    return r.choice(('t %d' % r.choice((0, 1000, 2000, 4000, 8000, 20000, 60000, 200000)), 'o %d' % r.choice((1, 2, 3, 4, 6, 10, 20))))

def bad_client(r, hang):
    """(steps, hangs): a client which does not behave."""
    st = ['%s connect %d' % (anywhere(r), PORT)]
    k = r.random()
    if k > 0.92:
        # gone as soon as it has asked
        b = HANDSHAKE if r.random() < 0.7 else get_request('/')
        return st + ['t 0 send %s' % b.hex(), '%s %s' % (soon(r), r.choice(('rst', 'gone', 'fin')))], False
    b = r.choice(JUNK) if k < 0.6 else HANDSHAKE if k < 0.75 else get_request(r.choice(('/', '/index.html', '/nope', '/zz-last.txt')), r.random() < 0.5, headers(r, True))
    cut = r.random() < 0.35
    if cut:
        b = b[:r.randint(0, len(b) - 1)]
    for x in pieces(r, b, 0.4):
        if x:
            st.append('%s send %s' % (r.choice(('t 0', 't 1000', 't 1000000', 'o 5', 'i 0')), x.hex()))
    x = r.random()
    if x < 0.25 and hang:
        if r.random() < 0.4:
            st.insert(r.randint(1, len(st)), 't 0 stall')
        return st, True
    st.append('%s %s' % (anywhere(r), r.choice(('fin', 'rst', 'gone', 'rst'))))
    return st, False

def slice_steps(r, t, info):
    """Faults of the services a server uses while running."""
    k = r.choice(('accept', 'accept', 'inotify_add', 'inotify_read'))
    return '%s fault %s * %d %d' % (r.choice(('i 0', 'i 0', anywhere(r))), k, {'accept': r.choice((EMFILE, ENFILE, 103, ENOMEM)), 'inotify_add': r.choice((ENOSPC, ENOMEM)), 'inotify_read': EIO}[k], r.choice((1, 1, 2, 4)))

def end_steps(r, t, info):
    """The last word: faults are over, the sources change, and someone asks for the result."""
    return ['i 0 nofault', last_edit(r, t, info), 'i 0 connect %d' % PORT, 't 0 send %s' % get_request('/zz-last.txt').hex()]

def served(s):
    """Was the final request answered with the final bytes?"""
    want = get_request('/zz-last.txt')
    for c in s.conns.values():
        if c.actor == 'ed' and c.sent.endswith(want):
            b = c.bytes
            return b.startswith(b'HTTP/1.1 200') and b'\r\n\r\nlast edit' in b, b
    return None, b''

class P12(Prop):
    id = 'P12'
    stubs = STUBS_DEV
    rule = ('one evaluation = one development-server session with edits, broken sources, failing file operations, failing accepts, watches and notification reads, lost notifications and malformed, aborted or hanging clients (fewer than '
            'worker threads) - or a start with something wrong; judged after the faults stop: the next edit is rebuilt exactly and served, or (start) an error and a failing status; non-trivial = a fault, bad client or broken state occurred; distinct = by operation history and initial tree')
    budget = {'quick': (8000, 75), 'thorough': (200000, 2400)}

    def explore(self, r, ctx, tier, i):
        t, info = dev_project(r, plugins=0.15)
        if r.random() < 0.3:
            return self.start(r, ctx, t, info)
        if r.random() < 0.2:
            t0, _ = gen.break_project(r, t, info, ['syntax', 'call', 'value', 'block', 'root', 'json', 'utf8', 'front'])
        else:
            t0 = t
        idle = r.random() < 0.5
        steps, cur = edit_session(r, t, info, r.choice((0, 1, 3, 5, 8)), idle, broken=0.4, split=0.15)
        if t0 is not t:
            steps = diff_steps(r, full(t0), full(t), trigger(r, idle), 0.0) + steps
        if r.random() < 0.6:
            steps = with_faults(r, steps, info) if r.random() < 0.5 else self.scatter(r, steps, [fault_step(r, info, anywhere(r)) for _ in range(r.choice((1, 2, 4)))])
        if r.random() < 0.4:
            steps = self.scatter(r, steps, [slice_steps(r, t, info) for _ in range(r.choice((1, 2, 3)))])
        if r.random() < 0.2:
            # directories come and go
            d = r.choice([d for d in sorted(full(t)) if full(t)[d] == D and d.startswith(info['root'] + '/content')] or [info['root'] + '/content'])
            away = [p for p in full(cur) if below(p, d)]
            if d in full(cur):
                steps += ['%s rm %s' % (anywhere(r), sim.pct(d))]
                rest = {p: e for p, e in full(cur).items() if p not in away}
                steps += diff_steps(r, rest, full(cur), trigger(r, r.random() < 0.5), 0.0)
        acts = {}
        if r.random() < 0.3:
            acts['kernel'] = ['%s maxq %d' % (anywhere(r), r.choice((0, 1, 2, 8))), 'o %d maxq 16384' % r.choice((1, 10, 100, 1000))]
            steps = self.scatter(r, steps, ['%s overflow' % anywhere(r)])
        n = 0
        for j in range(r.choice((0, 1, 2, 4, 8))):
            acts['bad%d' % j], h = bad_client(r, n < 6)
            n += h
        for j in range(r.choice((0, 0, 1, 2))):
            acts['ws%d' % j] = ws_client(r, anywhere(r)) + (['%s %s' % (anywhere(r), r.choice(('rst', 'gone', 'stall', 'fin')))] if r.random() < 0.4 else [])
        acts['ed'] = steps + end_steps(r, t, info)
        ph = dev_phase(r, info, actors=acts)
        ctx.run(new_case(self.id, t0, [ph], info, [info['out']]))

    def scatter(self, r, steps, more):
        steps = list(steps)
        for x in more:
            steps.insert(r.randrange(len(steps) + 1), x)
        return steps

    def start(self, r, ctx, t, info):
        """Something is wrong when the server starts."""
        k = r.random()
        ed = ['i 0 touch %s' % sim.pct(info['root'] + '/content/root.html')] + end_steps(r, t, info)
        if k < 0.3:
            ph = dev_phase(r, info, actors={'ed': ed}, world=['busyport %d' % PORT])
            return ctx.run(new_case(self.id, t, [ph], info, [info['out']]))
        if k < 0.55:
            t2, lab = gen.break_project(r, t, info, ['manifest', 'manifest', 'plugin'])
            ph = dev_phase(r, info, actors={'ed': ed})
            return ctx.run(new_case(self.id, t2, [ph], info, [info['out']]))
        ph = dev_phase(r, info, actors={'ed': ed})
        case = new_case(self.id, t, [ph], info, [info['out']])
        runs = ctx.run(case)
        if ctx.stop:
            return
        s = Session(runs[0])
        end = s.idles[0][0] if s.idles else 10**12
        svc = ('bind', 'listen', 'socket', 'inotify_init', 'inotify_add', 'realpath', 'dlopen')
        ops = [o for o in runs[0].res.ops() if o[0] < end and (o[3] in ERRS or o[3] in svc)]
        for _ in range(2):
            c2 = copy.deepcopy(case)
            o = r.choice([o for o in ops if o[3] in svc]) if r.random() < 0.5 else r.choice(ops)
            e = {'bind': (98, 13), 'listen': (98,), 'socket': (EMFILE, ENFILE), 'inotify_init': (EMFILE,), 'inotify_add': (ENOSPC, ENOMEM, EACCES)}.get(o[3]) or ERRS[o[3]]
            c2['phases'][0]['faults'] = ['fault idx %d %d 1' % (o[2], r.choice(e))]
            ctx.run(c2)
            if ctx.stop:
                return

    def judge(self, case, runs, probe):
        run = runs[0]
        s = Session(run)
        x = run.res
        start = not s.idles
        if x.status == 'exit':
            if not start:
                return [dead(s)]
            m = model_of(run.before, run.phase)
            if not real_faults(run) and not s.edits and m.phase not in ('pre', 'manifest') and m.ok:
                return [('died', 'the server did not start although nothing was wrong (%d): %s' % (x.code, clip(x.err)))]
            if s.edits:
                raise Ambiguous('the project changed while the server started')
            probe('refused to start')
            if x.code == 0:
                return [('start-status', 'the server could not start, but its status is 0: ' + clip(x.err))]
            if x.code == 101 or b'panicked at' in x.err:
                return [('start-panic', 'the server panicked when it could not start: ' + clip(x.err))]
            if not said(run):
                return [('start-silent', 'the server could not start, but said nothing')]
            return []
        ab = dead(s)
        if ab:
            return [ab]
        stuck = [c for c in s.conns.values() if not c.ws and c.closed is None and c.actor != 'ed']
        if len(stuck) >= 7:
            raise Ambiguous('as many hanging clients as worker threads')
        last = [q for q, w, _ in s.edits if w[0] == 'write' and w[1].endswith('/zz-last.txt')]
        if not last or s.injected and max(s.injected) > last[-1]:
            raise Ambiguous('faults have not stopped')
        out = []
        # the notification library says nothing about directories it could not watch
        watcher = {l[2] for l in x.log if l[0] == 'o' and l[4] == 'inotify_add'}
        lame = [l for l in x.log if l[0] == 'o' and (l[2] in watcher or l[2] != '0' and int(l[1]) < s.idles[0][0]) and l[6] not in ('0', '4') and
                (l[4] in ('stat', 'lstat', 'opendir', 'readdir') or l[4] == 'inotify_add' and int(l[1]) > s.idles[0][0])]
        m = s.model_at(10**12)
        if not m.ok:
            raise Ambiguous('the sources end up broken')
        after = [(q, sn) for q, sn in s.idles if q > last[-1]]
        d = site_diff(s, after[0][1], m) if after else 'never idle again'
        if d:
            if lame and not any(q > last[-1] for q in s.reads):
                return [('watch-not-set-up', 'an operation failed while the watcher was setting up its watches (%s %s), and it never noticed a later change' % (lame[0][4], sim.unpct(lame[0][5])))]
            out.append(('no-rebuild', 'after the faults, a change of the sources did not lead to a correct output: ' + d))
        ok, b = served(s)
        if ok is False:
            out.append(('no-answer', 'after the faults, a request was not answered with the current file: %r' % b[:200]))
        elif ok is None:
            refused = [l for l in x.log if l[0] == 'A' and l[2] == 'ed' and l[-1] == 'refused']
            if refused:
                out.append(('no-answer', 'after the faults, nothing listens on the port'))
        else:
            probe('rebuilt and answered')
        return out

    def nontrivial(self, case, runs):
        return bool(runs[0].res.fired) or any(k.startswith('bad') for k in case['phases'][0]['actors']) or runs[0].res.status == 'exit'

# ------------------------------------------------------------------ P13
MIME = dict(css='text/css', html='text/html', htm='text/html', js='text/javascript', mjs='text/javascript', txt='text/plain', bmp='image/bmp', gif='image/gif', jpeg='image/jpeg', jpg='image/jpeg', png='image/png',
            webp='image/webp', svg='image/svg+xml', ico='image/vnd.microsoft.icon', json='application/json', pdf='application/pdf', zip='application/zip', mp4='video/mp4', ogv='video/ogg', webm='video/webm', ttf='font/ttf',
            otf='font/otf', woff='font/woff', woff2='font/woff2')
SENTINEL = b'SENTINEL-OUTSIDE-THE-OUTPUT'

def enc(r, p, how=None):
    """A request path for the published path p."""
    how = r.choice(('min', 'min', 'all', 'lower', 'raw', 'rand')) if how is None else how
    o = ''
    for b in p.encode():
        ch = chr(b)
        need = not (ch.isalnum() and b < 128 or ch in '-._~/!$&()*,;=@+\'')
        if how == 'all' and ch != '/' or how == 'rand' and r.random() < 0.3 or need and not (how == 'raw' and b >= 128):
            o += ('%%%02x' if how == 'lower' or how == 'rand' and r.random() < 0.5 else '%%%02X') % b
        else:
            o += ch
    return o.encode('latin-1')

def web_path(r, m, t, info):
    """A request target."""
    files = sorted(m.files)
    dirs = sorted({f.rpartition('/')[0] for f in files if '/' in f} | set(m.dirs))
    k = r.random()
    q = b'?x=1&y=/../z' if r.random() < 0.12 else b''
    if k < 0.42 and files:
        return b'/' + enc(r, r.choice(files)) + q
    if k < 0.52:
        return b'/' + enc(r, r.choice(dirs)) + q if dirs else b'/'
    if k < 0.64:
        return (b'/' + enc(r, r.choice(dirs)) + b'/' if dirs and r.random() < 0.7 else b'/') + q
    if k < 0.72 and files:
        f = r.choice(files)
        p = enc(r, f)
        return b'/' + r.choice((p + b'/', p + b'x', p[:-1], p.upper(), p.replace(b'/', b'//'), b'/' + p, b'./' + p, p.replace(b'/', b'/./'), p + b'%00', p + b'%20', p + b'%2f', p.replace(b'.html', b''), p.replace(b'/', b'%2F'), p + b'/.'))
    if k < 0.94:
        up = r.choice((b'../', b'..%2f', b'%2e%2e/', b'%2e%2e%2f', b'..%5c', b'....//', b'.%2e/', b'%252e%252e/', b'..%c0%af', b'..;/', b'%2e./'))
        n = r.choice((1, 1, 2, 3, 8))
        tail = r.choice((b'secret.txt', b'stuart.toml', b'content/root.html', b'etc/passwd', b'distx/secret.txt', b'_build/secret.txt', b'temp/secret.txt', b''))
        pre = r.choice((b'/', b'/', b'//', b'/%2f', (b'/' + enc(r, r.choice(dirs)) + b'/') if dirs else b'/'))
        abs_ = r.choice((b'/etc/passwd', b'//etc/passwd', b'/%2fetc%2fpasswd', enc(r, info['root'] + '/secret.txt'), b'/' + enc(r, info['root'] + '/secret.txt'), b'/%2f' + enc(r, info['root'] + '/secret.txt')))
        return abs_ if r.random() < 0.25 else pre + up * n + tail
    return r.choice((b'/%', b'/%z', b'/%zz', b'/%4', b'/a%', b'/nope', b'/nope/', b'/' + b'a' * 300, b'/' + b'a/' * 600, b'/%ff', b'/a%80b', b'/~', b'/*', b'/index.html/index.html', b'/__ws', b'/favicon.ico', b'/%2e', b'/.', b'/./', b'//', b'/%20'))

class WebModel:
    """What a published tree answers."""
    def __init__(self, snap, out):
        self.t = {}
        for p, e in snap.items():
            if p == out or p.startswith(out + '/'):
                self.t[p[len(out) + 1:]] = e
        for p in list(self.t):
            while '/' in p:
                p = p.rpartition('/')[0]
                self.t.setdefault(p, D)

    def find(self, p):
        """Entry at a path as the operating system reads it; None if there is none."""
        parts = p.split('/')
        cur = []
        for i, c in enumerate(parts):
            if len(c.encode()) > 255:
                return None
            if c in ('', '.'):
                if cur and self.t.get('/'.join(cur), D)[0] != 'D':
                    return None
                continue
            cur.append(c)
            if '/'.join(cur) not in self.t:
                return None
            if i < len(parts) - 1 and self.t['/'.join(cur)][0] != 'D':
                return None
        return '/'.join(cur), self.t.get('/'.join(cur), D)

    def answer(self, target):
        """('file', name, bytes) | ('redirect', location) | ('missing',) | None where nothing is required."""
        if not target.startswith(b'/'):
            return None
        path = target.partition(b'?')[0]
        d = bytearray()
        i = 0
        while i < len(path):
            if path[i] == 0x25:
                h = path[i + 1:i + 3]
                if not re.fullmatch(rb'[0-9a-fA-F]{2}', h):
                    return None if b'+' in h else ('missing',)
                d.append(int(h, 16))
                i += 3
            else:
                d.append(path[i])
                i += 1
        try:
            p = bytes(d).decode('utf-8')
        except UnicodeDecodeError:
            return ('missing',)
        if len(d) > 3500:
            return ('missing',)
        if '\0' in p:
            return ('missing',)
        if '..' in p or ':' in p:
            e = self.find(p) if '..' not in p.split('/') else None
            return None if e else ('missing',)
        if p.strip('/') == '' or p.endswith('/'):
            e = self.find(p + 'index.html')
            return ('file', e[0], e[1][1]) if e and e[1][0] == 'F' else ('missing',)
        e = self.find(p)
        if e is None:
            return ('missing',)
        if e[1][0] == 'F':
            return ('file', e[0], e[1][1])
        return ('redirect', path + b'/')

def parse_response(b):
    """(status, headers, body, rest) of the first response; None if it is incomplete."""
    i = b.find(b'\r\n\r\n')
    if i < 0:
        return None
    lines = b[:i].split(b'\r\n')
    st = lines[0].split(b' ')
    h = {}
    for l in lines[1:]:
        k, _, v = l.partition(b':')
        h[k.strip().lower()] = v.strip()
    try:
        n = int(h.get(b'content-length', b'0'))
        code = int(st[1])
    except (ValueError, IndexError):
        return 0, h, b, b''
    body = b[i + 4:i + 4 + n]
    if len(body) < n:
        return None
    rest = b[i + 4 + n:]
    if n and rest.startswith(b'\r\n'):                  # the library ends every body with a line break
        rest = rest[2:]
    return code, h, body, rest

def wrong_answer(req, want, resp, faulty):
    """What is wrong with a response; None if nothing."""
    code, h, body, rest = resp
    if faulty and code != 200:
        return None
    if want[0] == 'missing':
        if code == 404 or code in (400, 414):
            return None
        return ('found', 'nothing is published at %r, but the answer is %d %r' % (req[:120], code, body[:60]))
    if want[0] == 'redirect':
        if code not in (301, 302, 307, 308):
            return 'no-redirect', '%r is a directory, but the answer is %d' % (req[:120], code)
        if h.get(b'location') != want[1]:
            return 'no-redirect', '%r is a directory, but the redirection leads to %r' % (req[:120], h.get(b'location'))
        return None
    name, data = want[1], want[2]
    if code != 200:
        return 'not-served', '%r is published, but the answer is %d' % (req[:120], code)
    i = data.find(b'</body>')
    if i < 0:
        if body != data:
            return 'wrong-bytes', 'the answer to %r is not the published file: %s' % (req[:120], bytes_diff(body, data))
    else:
        a, b = data[:i], data[i:]
        inj = body[i:len(body) - len(b)]
        if not body.startswith(a) or not body.endswith(b) or len(body) < len(data):
            return 'wrong-bytes', 'the answer to %r is not the published page with a script before its first </body>: %s' % (req[:120], bytes_diff(body, data))
        if not (inj.startswith(b'<script') and inj.rstrip().endswith(b'</script>') and inj.count(b'<script') == 1 and b'WebSocket' in inj and b'__ws' in inj and b'reload' in inj):
            return 'injection', 'what is inserted into %r is not the reload script: %r' % (req[:120], inj[:80])
    base = name.rpartition('/')[2]
    ext = base.rpartition('.')[2] if '.' in base[1:] else ''
    ct = h.get(b'content-type', b'').partition(b';')[0].strip().decode('latin-1')
    if ext in MIME and ct != MIME[ext]:
        return 'content-type', '%r has content type %r instead of %r' % (req[:120], ct, MIME[ext])
    if ext.lower() not in MIME and ct not in ('', 'application/octet-stream'):
        return 'content-type', '%r has content type %r' % (req[:120], ct)
    return None

def bytes_diff(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return '%d bytes instead of %d, first difference at %d: %r instead of %r' % (len(a), len(b), i, a[i:i + 40], b[i:i + 40])

def web_checks(s, probe):
    out = []
    for c in s.conns.values():
        if SENTINEL in c.bytes:
            return [('escape', 'a client received bytes from outside the output directory: %r' % c.sent[:160])]
    stuck = [c for c in s.conns.values() if not c.ws and c.closed is None]
    if len(stuck) >= 8:
        raise Ambiguous('as many hanging clients as worker threads')
    for c in s.conns.values():
        if not c.sends or not c.actor.startswith('web'):
            continue
        buf, pos, ends = b'', 0, []
        for q, b in c.sends:
            buf += b
            ends.append((len(buf), q))
        data, dpos, dends = c.bytes, 0, []
        n = 0
        for q, _, b in c.data:
            n += len(b)
            dends.append((n, q))
        prev = 0
        while pos < len(buf):
            j = buf.find(b'\r\n\r\n', pos)
            if j < 0:
                break
            req = buf[pos:j + 4]
            first = next(q for e, q in ends if e > pos)
            sent = next(q for e, q in ends if e >= j + 4)
            pos = j + 4
            if first < prev:
                break                                   # not sequential: nothing is promised
            line = req.split(b'\r\n')[0].split(b' ')
            if len(line) != 3 or line[0] != b'GET':
                break
            resp = parse_response(data[dpos:])
            gone = c.failed is not None and c.how != 'fin'
            if resp is None:
                if not gone and not c.stalled and not s.faults_in(first, 10**12):
                    out.append(('no-answer', 'the request %r was never (completely) answered: %r' % (line[1][:120], data[dpos:dpos + 80])))
                break
            dpos = len(data) - len(resp[3])
            done = next((q for e, q in dends if e >= dpos), 10**12)
            prev = done
            idle = [(q, sn) for q, sn in s.idles if q < sent]
            nxt = next((q for q, sn in s.idles if q > done), 10**12)
            if not idle or s.between(s.edits, idle[-1][0], nxt):
                probe('overlaps a rebuild')
            else:
                want = WebModel(s.snap(idle[-1][1]), s.out).answer(line[1])
                faulty = s.faults_in(idle[-1][0], nxt)
                if want is None:
                    probe('no verdict')
                    if resp[0] == 200 and len(resp[2]) and not faulty and not published(s, idle[-1][1], resp[2]):
                        out.append(('escape', 'the answer to %r is no published file: %r' % (line[1][:120], resp[2][:60])))
                else:
                    w = wrong_answer(line[1], want, resp, faulty)
                    probe(want[0] + (' (operation failed)' if faulty else ''))
                    if w:
                        out.append(w)
            if out:
                return out
            if b'connection: keep-alive' not in req.lower():
                if resp[3] not in (b'', b'\r'):
                    out.append(('extra', 'more than one answer to %r: %r' % (line[1][:120], resp[3][:60])))
                break
    return out

def published(s, snap, body):
    i = body.find(b'<script>(')
    return any(e[0] == 'F' and (body == e[1] or body.endswith(e[1][-20:])) for e in s.snap(snap).values())

EXTRA = ('a b.txt', 'ü.css', '日本.html', 'x%20y.js', 'noext', 'lib.min.js', '.hidden', 'UP.HTML', 'q?m.txt', 'h#sh.txt', 'plus+.txt', 'e.woff2', 'p.png', 'end.', 'amp&x.json', 'deep/er/index.html', 'deep/er/x.htm', 'idx/index.html/inner.txt',
         'empty.txt', 'big.bin', 'two.html', 'w:x.txt', 'a..b.txt', 'dots...', 'body.txt', 'v.mp4', 'u.xyz', 's.svg', "it's.txt", '%2e%2e', '%41.txt', '~t.pdf')

def extra_file(r, n):
    k = r.random()
    if n.startswith('empty'):
        return b''
    if n.startswith('big'):
        return bytes(r.getrandbits(8) for _ in range(r.choice((5000, 70000, 200000))))
    if n.startswith('two') or k < 0.3:
        return r.choice((b'<html><body>a</body><body>b</body></html>', b'</body>', b'</body></body>', b'x</BODY>y</body >z', b'<pre></bo</body>dy>', b'</body', b'\xff\xfe</body>\x00', b'<body>' + b'x' * 9000 + b'</body>\n'))
    if k < 0.5:
        return bytes(r.getrandbits(8) for _ in range(r.choice((1, 10, 300))))
    return ('text %d\r\n\r\nHTTP/1.1 404\r\n' % r.randint(0, 999)).encode()

class P13(Prop):
    id = 'P13'
    stubs = STUBS_DEV
    rule = ('one evaluation = one development-server session in which 1-7 web clients send 1-6 requests each (published paths in all encodings, directories, missing, malformed and traversing paths) in arbitrary packets, with short sends and '
            'receives, stalls and aborting clients, before and after edits; judged: every response that does not overlap a rebuild against the published tree; non-trivial = a published file was served; distinct = by operation history and initial tree')
    budget = {'quick': (9000, 75), 'thorough': (200000, 2400)}

    def explore(self, r, ctx, tier, i):
        t, info = dev_project(r, plugins=0.0)
        root = info['root']
        st = root + r.choice(('/static/', '/static/', '/static/sub/'))
        for n in r.sample(EXTRA, r.choice((0, 2, 5, 9))):
            if not any(below(p, st + n) or below(st + n, p) and t[p][0] == 'F' for p in t):
                t[st + n] = F(extra_file(r, n))
        if r.random() < 0.03:
            n = r.choice((65535, 65536, 262144, 1 << 20, 1 << 20, 1300000)) + r.choice((-1, 0, 1, 777))
            t[root + '/static/big.' + r.choice(('bin', 'html'))] = F(r.choice((b'', b'<html>\n<body>')) + bytes(r.randrange(256) for _ in range(997)) * (n // 997 + 1) + r.choice((b'', b'</body></html>')))
        for p in (root + '/secret.txt', root.rpartition('/')[0] + '/secret.txt', '/secret.txt', '/etc/passwd', info['out'] + 'x/secret.txt', root + '/_build/secret.txt', root + '/distx/secret.txt'):
            if not below(p, info['out']):
                t[p] = F(SENTINEL + b' ' + p.encode())
        m = model.build(VFS(t), info['cwd'], info['manifest'], info['output'], 'development', gen.environ(info))
        if not m.ok:
            return
        acts = {}
        steps = []
        x = r.random()
        if x < 0.35:
            steps, _ = edit_session(r, t, info, r.choice((1, 2, 3)), True, broken=0.3)
        if x < 0.25:
            o = glob_esc(info['out']) + '*'
            k = r.choice(('open', 'read', 'read', 'stat', 'realpath'))
            steps = ['%s fault %s %s %d %d' % (r.choice(('t %d' % r.choice((0, 10**6, 10**9)), 'i 0')), k, o, r.choice(ERRS[k]), r.choice((1, 2, 5)))] + steps
            steps += ['i 0 nofault']
        if steps:
            acts['ed'] = steps
        stuck = 0
        for j in range(r.choice((1, 1, 2, 3, 5))):
            n = r.choice((1, 1, 2, 3, 6))
            st = ['%s connect %d' % (r.choice(('i 0', 'i 0', 't 30000000000')), PORT)]
            for q in range(n):
                keep = q < n - 1 or r.random() < 0.15
                if keep and q == n - 1:
                    if stuck >= 2:
                        keep = False
                    stuck += keep
                ex = r.choice((b'', b'', b'Accept: */*\r\nUser-Agent: x\r\n', b'Cookie: a=b\r\n', b'Content-Length: 0\r\n', headers(r)))
                b = get_request(web_path(r, m, t, info), keep, ex)
                ps = pieces(r, b, 0.35)
                for z, y in enumerate(ps):
                    st.append('%s send %s' % (('i 0' if q and r.random() < 0.7 else 't %d' % r.choice((0, 20000000000))) if z == 0 and q == 0 else 'i 0' if z == 0 else 't %d' % r.choice((0, 0, 1000, 10**6, 10**9)), y.hex()))
            if r.random() < 0.12:
                st.insert(1, 't 0 stall')
                st.append('%s unstall' % r.choice(('i 0', 't %d' % 10**9)))
            elif r.random() < 0.12:
                st.append('%s %s' % (r.choice(('t 0', 't 1000', 't 1000000', 'o 3', 'o 10')), r.choice(('rst', 'gone', 'fin'))))
            acts['web%d' % j] = st
        for j in range(r.choice((0, 0, 0, 1, 2))):
            acts['bad%d' % j], _ = bad_client(r, False)
        if r.random() < 0.15:
            acts['ws'] = ws_client(r, 'i 0')
        ph = dev_phase(r, info, actors=acts)
        if r.random() < 0.3:
            ph['cfg'].append('cfg sndcap %d' % r.choice((1, 100, 5000, 65536)))
        ctx.run(new_case(self.id, t, [ph], info, [info['out']]))

    def judge(self, case, runs, probe):
        s = Session(runs[0])
        ab = dead(s)
        if ab:
            return [ab]
        return web_checks(s, probe)

    def nontrivial(self, case, runs):
        return any(l[0] == 'W' and len(l) > 4 and b'HTTP/1.1 200'.hex() in l[4] for l in runs[0].res.log)

# ------------------------------------------------------------------ P15: rebuilds of one server
def explore_rebuilds(check, r, ctx, tier):
    t, info = dev_project(r, plugins=0.2)
    steps, cur = edit_session(r, t, info, r.choice((2, 3, 5, 8)), True, broken=0.35)
    if r.random() < 0.6:
        steps = with_faults(r, steps, info)
        steps.append(last_edit(r, t, info))
    elif r.random() < 0.5:
        for _ in range(r.randint(1, 3)):
            steps.insert(r.randrange(len(steps) + 1), 'i 0 touch %s' % sim.pct(info['root'] + '/content/root.html'))
    ph = dev_phase(r, info, actors={'ed': steps})
    ctx.run(new_case(check.id, t, [ph], info, [info['out']]))

def judge_rebuilds(case, runs, probe):
    s = Session(runs[0])
    ab = dead(s)
    if ab:
        return [ab]
    probe('rebuilds compared', len([1 for n in range(1, len(s.idles)) if s.between(s.reads, s.idles[n - 1][0], s.idles[n][0])]))
    return idle_checks(s, {'stale': 'differs', 'broken': 'failed-build-changed'}, probe, faulty=True)

CHECKS = [P09(), P10(), P11(), P12(), P13(), P14()]
