"""Runs the program once under the simulator: scenario out, recorded history back."""
import os, subprocess, tempfile

D = ('D',)

def pct(s):
    if isinstance(s, str):
        s = s.encode('utf-8', 'surrogateescape')
    if not s:
        return '%'
    return ''.join(chr(c) if 32 < c < 127 and c != 37 else '%%%02x' % c for c in s)

def unpct(s):
    if s == '%':
        return ''
    if '%' not in s:
        return s
    b = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '%' and i + 2 < len(s) + 0 and i + 3 <= len(s):
            b.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            b += s[i].encode()
            i += 1
    return b.decode('utf-8', 'surrogateescape')

def hx(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    return b.hex() or '-'

def unhx(s):
    return b'' if s == '-' else bytes.fromhex(s)

def tree_lines(tree):
    out = []
    for p in sorted(tree):
        e = tree[p]
        if e[0] == 'D':
            out.append('D ' + pct(p))
        elif e[0] == 'F':
            out.append('F %s %s' % (pct(p), e[1].hex() or '-'))
        else:
            out.append('L %s %s' % (pct(p), pct(e[1])))
    return out

class Result:
    """History of one simulated run."""
    __slots__ = ('status', 'code', 'stat', 'fired', 'choices', 'threads', 'out', 'err', 'log', 'snaps', 'tree', 'why')

    def ops(self):
        """[(seq, tid, fop, kind, path, errno, target)]"""
        r = []
        for l in self.log:
            if l[0] == 'o':
                r.append((int(l[1]), int(l[2]), int(l[3]), l[4], unpct(l[5]), int(l[6])))
        return r

    @property
    def ok(self):
        return self.status == 'exit' and self.code == 0

def parse(data):
    r = Result()
    r.status, r.code, r.stat, r.fired, r.choices, r.threads = 'none', -1, {}, {}, {}, []
    r.out = r.err = b''
    r.log, r.snaps, r.tree, r.why = [], {}, {}, ''
    cur = None
    ended = False
    for line in data.split('\n'):
        a = line.split(' ')
        k = a[0]
        if cur is not None:
            if k == 'F':
                cur[unpct(a[1])] = ('F', unhx(a[2]))
                continue
            if k == 'D':
                cur[unpct(a[1])] = D
                continue
            if k == 'L' and len(a) == 3 and a[1].startswith('/'):
                cur[unpct(a[1])] = ('L', unpct(a[2]))
                continue
        if k == 'SNAP':
            cur = r.snaps[int(a[1])] = {}
        elif k == 'TREE':
            cur = r.tree = {}
        elif k == 'END':
            ended = True
            break
        elif k == 'STATUS':
            r.status = a[1]
            r.code = int(a[-1])
            r.why = unpct(a[2]) if a[1] == 'harness' else ''
        elif k == 'STAT':
            for x in a[1:]:
                n, v = x.split('=')
                r.stat[n] = v if n.endswith('hash') else int(v)
        elif k == 'FIRED':
            r.fired[unpct(a[1])] = int(a[2])
        elif k == 'CH':
            r.choices[a[1]] = (int(a[2]), a[3:])
        elif k == 'T':
            r.threads.append((int(a[1]), a[2], a[3]))
        elif k == 'OUT':
            r.out = unhx(a[1])
        elif k == 'ERR':
            r.err = unhx(a[1])
        elif k:
            r.log.append(a)
    if not ended:
        r.status = 'crash'
    return r

_dir = None

def _scratch():
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _dir = (os.getpid(), tempfile.mkdtemp(prefix='dst', dir=base))
        import atexit, shutil
        pid, d = _dir
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        try:
            from multiprocessing import util
            util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
        except Exception:
            pass
    return _dir[1]

HANG, PATIENCE = 12, 50                                 # seconds: a run that takes longer than the first is repeated before it counts as hanging

def run(built, lines, argv, env=None, limit=None):
    """One simulated execution. `lines`: the whole scenario."""
    d = _scratch()
    sc, out = os.path.join(d, 'sc'), os.path.join(d, 'out')
    with open(sc, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    if os.path.exists(out):
        os.unlink(out)
    e = {'PATH': '/usr/bin', 'RUST_BACKTRACE': '0', 'SITE_VAR': 'from-env'}
    if env:
        e.update(env)
    e.update({'SIM_SCENARIO': sc, 'SIM_OUT': out, 'LD_PRELOAD': built['so']})
    try:
        p = subprocess.run([built['bin']] + argv, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=limit or HANG, cwd='/', close_fds=False)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        if limit is None:
            return run(built, lines, argv, env, PATIENCE)
        r = parse('')
        r.status = 'hang'
        return r
    try:
        with open(out, encoding='utf-8', errors='surrogateescape') as f:
            r = parse(f.read())
    except FileNotFoundError:
        r = parse('')
    if r.status == 'crash':
        r.code = rc
    return r
