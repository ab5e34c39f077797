import copy, json, random
import case as C, gen, model, sim
from model import VFS, Ambiguous, D

MUT = {'openw', 'creat', 'write', 'mkdir', 'rmdir', 'unlink', 'rename', 'symlink', 'link', 'chmod', 'ftruncate'}
EIO, EACCES, ENOSPC, EMFILE, ENFILE, EROFS, ENOMEM, EPERM, EAGAIN, EDQUOT, EBUSY, ENOENT, ESTALE = 5, 13, 28, 24, 23, 30, 12, 1, 11, 122, 16, 2, 116
ERRS = {
    'stat': (EIO, EACCES, ENOMEM), 'lstat': (EIO, EACCES, ENOMEM), 'fstat': (EIO, ENOMEM), 'open': (EIO, EACCES, EMFILE, ENFILE, ENOMEM), 'openw': (EIO, EACCES, ENOSPC, EROFS),
    'opend': (EIO, EACCES, EMFILE), 'creat': (EIO, EACCES, ENOSPC, EROFS, EMFILE, EDQUOT), 'opendir': (EIO, EACCES, EMFILE, ENOMEM), 'readdir': (EIO, ENOMEM),
    'read': (EIO,), 'write': (EIO, ENOSPC, EDQUOT), 'mkdir': (EIO, ENOSPC, EACCES, EROFS, EDQUOT), 'rmdir': (EIO, EACCES, EBUSY, EROFS), 'unlink': (EIO, EACCES, EPERM, EROFS),
    'rename': (EIO, EACCES, ENOSPC), 'realpath': (EIO, EACCES), 'readlink': (EIO,), 'getcwd': (EACCES,), 'spawn': (EAGAIN, ENOMEM, EMFILE), 'pipe': (EMFILE, ENFILE),
    'lseek': (EIO,), 'dlopen': (EIO,), 'ftruncate': (EIO,),
}
REAL = ['stuart and stuart_core, unmodified, compiled from /repo (all threads, parsers, processing, saving, scripts, plugin loading, server, watcher loop)',
        'the Rust standard library, clap, toml, pulldown-cmark, notify, humphrey, humphrey_ws, humphrey_json, libloading as locked by the repository']
STUBS = ['the C library calls for files, directories, processes, sockets, epoll, inotify, threads, locks, clocks and randomness: an in-memory simulator (sim/)',
         'build scripts, git and cargo: a small script interpreter with the same effects on files and exit status',
         'plugin libraries: a real shared library built against the plugin interface, one identity per simulated file']
ASSUME = ['the simulated file system and sockets behave like Linux for the calls the program makes', 'the reference model (dst/model.py) states the intended result; inputs it does not define give no verdict']

class Prop:
    id = None
    level = 'exploration'
    rule = ''
    budget = {'quick': (400, 120), 'thorough': (40000, 3000)}
    real, stubs, assumptions = REAL, STUBS, ASSUME
    frozen = ()                                         # parts of a case the oracle relies on: not minimised

    def nontrivial(self, case, runs):
        return True

def args_of(ph):
    """What the command line of a phase means."""
    a = ph['argv']
    o = dict(cmd=a[0], manifest='stuart.toml', output='dist', iters=10)
    i = 1
    while i < len(a):
        if a[i] == '--manifest-path':
            o['manifest'] = a[i + 1]; i += 1
        elif a[i] in ('-o', '--output'):
            o['output'] = a[i + 1]; i += 1
        elif a[i] in ('-i', '--iters'):
            o['iters'] = int(a[i + 1]); i += 1
        i += 1
    return o

def env_of(ph):
    e = dict(model.ENV)
    e.update(ph.get('env') or {})
    return e

ENVNAME = {'build': 'production', 'bench': 'benchmark', 'dev': 'development'}

def model_of(tree, ph):
    a = args_of(ph)
    return model.build(VFS(tree), ph['cwd'], a['manifest'], a['output'], ENVNAME[a['cmd']], env_of(ph))

def where(tree, ph):
    """(project, out) directories; None if there is no project."""
    a = args_of(ph)
    try:
        _, project = model.find_project(VFS(tree), ph['cwd'], a['manifest'])
    except model.Fail:
        return None, None
    return project, model.norm(a['output'] if a['output'].startswith('/') else project + '/' + a['output'])

def abnormal(r):
    """Why a run did not end as a command should: (key, text) or None."""
    x = r.res
    if x.status == 'exit':
        if b'panicked at' in x.err or b'panicked at' in x.out or x.code == 101:
            i = x.err.find(b'panicked at')
            return 'panic', 'the command panicked: %s' % x.err[i:i + 160].decode('utf-8', 'replace')
        return None
    if x.status == 'killed':
        return None
    return 'abnormal-' + x.status, 'the command ended abnormally: %s %d' % (x.status, x.code)

def out_diff(tree, m, out=None):
    """Difference between the published output (and metadata, if exported) and the model."""
    v = VFS(tree)
    d = model.output_diff(v.under(out or m.out), m.files, m.dirs)
    if d:
        return d
    return None

def meta_diff(tree, m):
    e = tree.get(m.project + '/metadata.json')
    if not m.cfg['meta']:
        return None
    if e is None or e[0] != 'F':
        return 'metadata.json is missing'
    try:
        got = json.loads(e[1].decode('utf-8'))
    except ValueError as x:
        return 'metadata.json is not valid JSON: %s: %r' % (x, e[1][-60:])
    a, b = model.canon_meta(got), model.canon_meta(m.meta)
    if a != b:
        return 'metadata.json differs: ' + first_diff(a, b)
    return None

def first_diff(a, b, p='$'):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return '%s: %r instead of %r' % (p, str(a)[:80], str(b)[:80])
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s: %s' % (p, k, 'missing' if k not in a else 'unexpected')
            if a[k] != b[k]:
                return first_diff(a[k], b[k], p + '.' + k)
    if isinstance(a, list):
        for i in range(min(len(a), len(b))):
            if a[i] != b[i]:
                return first_diff(a[i], b[i], '%s[%d]' % (p, i))
        return '%s: %d entries instead of %d' % (p, len(a), len(b))
    return '%s: %r instead of %r' % (p, str(a)[:80], str(b)[:80])

def subtree(tree, d):
    """Literal entries at and below d (links not followed)."""
    return {p: e for p, e in tree.items() if p == d or p.startswith(d + '/')}

def below(p, d):
    return p == d or p.startswith(d.rstrip('/') + '/')

def muts(r):
    """Changes the program itself made to the file system: [(seq, what, path)]."""
    return [(int(l[1]), l[3], sim.unpct(l[4])) for l in r.res.log if l[0] == 'm']

def real_faults(r):
    """Failures the simulator injected that the program had to notice; legal variation (short reads and writes, interrupted calls, clock jumps) is none."""
    return {k: n for k, n in r.res.fired.items() if ':' in k or k in ('enospc', 'program_missing', 'eaddrinuse')}

def clip(b, n=200):
    return (b if isinstance(b, str) else b.decode('utf-8', 'replace'))[-n:]

def sane(tree):
    """Without entries below something that is not a directory."""
    def ok(p):
        d = p.rpartition('/')[0]
        while d:
            if d in tree and tree[d][0] != 'D':
                return False
            d = d.rpartition('/')[0]
        return True
    return {p: e for p, e in tree.items() if ok(p)}

def new_case(prop, tree, phases, info=None, snapdirs=()):
    return {'prop': prop, 'tree': C.enc_tree(sane(tree)), 'phases': phases, 'info': info or {}, 'snapdirs': list(snapdirs)}

def with_tree(case, tree):
    c = copy.deepcopy(case)
    c['tree'] = C.enc_tree(tree)
    return c

def vary(case, i=0, **k):
    c = copy.deepcopy(case)
    c['phases'][i].update(k)
    return c

def io_ops(r):
    """Operations of the program at which a file-system fault can be put: [(fop, kind, path)]"""
    return [(o[2], o[3], o[4]) for o in r.res.ops() if o[3] in ERRS]

def fault_at(op, errno, count=1):
    return 'fault idx %d %d %d' % (op[0], errno, count)

def fault_like(ops, op, errno, count=1):
    """The same fault addressed by operation kind and path, so that it survives small changes of the history."""
    n = 0
    for o in ops:
        if o[1] == op[1] and o[2] == op[2]:
            n += 1
        if o[0] == op[0]:
            break
    return 'fault match %s %s %d %d %d' % (op[1], glob_esc(op[2]), n - 1, errno, count)

def glob_esc(p):
    return sim.pct(''.join('?' if c in '*?[]\\' else c for c in p)) if p else '%'
