"""Checks of the build pipeline: P01-P08, P15, P19."""
import copy, json, random
import case as C, gen, model, sim
from base import *
from gen import F
from model import D

def seedof(r):
    return r.randint(1, 2**31 - 1)

def build_phase(r, info, **k):
    k.setdefault('cfg', gen.io_cfg(r))
    k.setdefault('env', info.get('env') or {})
    return C.phase(C.build_argv(info), info['cwd'], seedof(r), **k)

def exact(r, m, need=True):
    """The run has to be exactly what the model says."""
    ab = abnormal(r)
    if ab:
        return [ab]
    if not m.ok:
        if r.res.code == 0:
            return [('accepted-invalid', 'the build reports success although it cannot: ' + m.reason)]
        return []
    if r.res.code != 0:
        return [('failed', 'the build of valid sources failed: ' + clip(r.res.err))] if need else []
    d = out_diff(r.after, m)
    if d:
        return [('wrong-output', 'the build reports success, but the output is not the site: ' + d)]
    d = meta_diff(r.after, m)
    if d:
        return [('wrong-metadata', 'the build reports success, but ' + d)]
    return []

def at_root(tree, info):
    """Can 'bench' and 'clean' be used on it (they have no options)."""
    return info['manifest'] == 'stuart.toml' and info['output'] == 'dist' and info['cwd'] == info['root']

# ------------------------------------------------------------------ P01
class P01(Prop):
    id = 'P01'
    rule = ('one evaluation = one history of builds judged against the reference model: exit status, every path and byte of the output directory, and exported metadata; '
            'non-trivial = at least one build published at least two files; distinct = by operation history and initial tree')
    budget = {'quick': (15000, 75), 'thorough': (400000, 2400)}

    def explore(self, r, ctx, tier, i):
        k = r.random()
        if k < 0.15:
            t, info = gen.gen_project(r, gen.Opts(size=1))
            t, lab = gen.break_project(r, t, info, ['scope'])
            ctx.run(new_case(self.id, t, [build_phase(r, info)], info))
            return
        t, info = gen.gen_project(r)
        if k < 0.4:
            t, lab = gen.break_project(r, t, info, r.choice((None, ['odd'], ['odd'])))
            ctx.probe('broken:' + lab)
            case = new_case(self.id, t, [build_phase(r, info)], info)
            ctx.run(case)
            return
        phases = [build_phase(r, info)]
        cur = t
        while r.random() < 0.4 and len(phases) < 4:
            e, cur = gen.edit_project(r, cur, info, r.randint(1, 4), settings=True)
            if r.random() < 0.2:
                e = e + [['put', info['out'] + '/stray%d.html' % r.randint(0, 9), {'text': 'x'}]] if not any(p.startswith(info['out'] + '/stray') for p in cur) else e
            phases.append(build_phase(r, info, pre=e))
        ctx.run(new_case(self.id, t, phases, info))

    def judge(self, case, runs, probe):
        out = []
        for r in runs:
            m = model_of(r.before, r.phase)
            out += exact(r, m)
        return out

    def nontrivial(self, case, runs):
        return any(r.res.ok and len(r.after) > 3 for r in runs)

# ------------------------------------------------------------------ P02
class P02(Prop):
    id = 'P02'
    rule = ('one evaluation = one build with one or more failing file operations (chosen from the operations its fault-free run performs), followed by an undisturbed build; '
            'non-trivial = at least one fault fired; distinct = by operation history and initial tree')
    budget = {'quick': (1860, 75), 'thorough': (60000, 3000)}

    def explore(self, r, ctx, tier, i):
        t, info = gen.gen_project(r, gen.Opts(plugins=0.2, big=0.08))
        base = build_phase(r, info)
        if r.random() < 0.3:
            base['cfg'] = []
        runs = ctx.run(new_case(self.id, t, [base], info))
        if ctx.stop:
            return
        ops = io_ops(runs[0])
        if not ops:
            return
        kinds = sorted({o[1] for o in ops})
        for _ in range(14 if tier == 'quick' else 30):
            ph = copy.deepcopy(base)
            ph['faults'] = pick_faults(r, ops, kinds)
            after = build_phase(r, info, cfg=[])
            ctx.run(new_case(self.id, t, [ph, after], info))
            if ctx.stop:
                return

    def judge(self, case, runs, probe):
        out = []
        for r in runs:
            m = model_of(r.before, r.phase)
            fired = sum(real_faults(r).values())
            ab = abnormal(r)
            if ab:
                out.append(ab)
                continue
            if r.res.code == 0:
                probe('survived' if fired else 'clean')
                out += [(k, '%s [failed operations: %s]' % (x, real_faults(r))) for k, x in exact(r, m)]
            else:
                probe('reported')
                if m.ok and not fired:
                    out.append(('failed', 'no operation failed, but the build did: ' + clip(r.res.err)))
                elif b'rror' not in r.res.err and b'rror' not in r.res.out and not said(r):
                    out.append(('silent-failure', 'the build failed without an error message'))
        return out

    def nontrivial(self, case, runs):
        return any(real_faults(r) for r in runs)

def said(r):
    """Something on standard error apart from progress messages."""
    prog = (b'Building', b'Exporting', b'Executing', b'Finished', b'Loaded', b'Loading', b'Cloning', b'Pulling', b'Compiling', b'Downloading', b'Skipping', b'Created', b'Started', b'Detected')
    for l in (r.res.err + b'\n' + r.res.out).split(b'\n'):
        s = l.strip()
        if s and not any(p in s for p in prog):
            return True
    return False

def pick_faults(r, ops, kinds):
    x = r.random()
    if x < 0.08:
        return ['diskfree %d' % r.choice((0, r.randint(0, 400), r.randint(0, 4000), r.randint(0, 100000)))]
    if x < 0.2:
        # a kind of operation keeps failing from some point on
        k = r.choice(kinds)
        n = sum(o[1] == k for o in ops)
        return ['fault match %s * %d %d 1000000' % (k, r.randint(0, max(0, n - 1)), r.choice(ERRS[k]))]
    if x < 0.28:
        # everything fails below some path
        o = r.choice(ops)
        p = o[2]
        if p.count('/') > 1 and r.random() < 0.6:
            p = p.rpartition('/')[0]
        k = r.choice(('*', 'open,opendir,read,readdir,stat', 'creat,write,mkdir,unlink,rmdir'))
        return ['fault match %s %s* 0 %d 1000000' % (k, glob_esc(p) if p else '', r.choice((EIO, EACCES)))]
    if x < 0.34:
        # a source that was listed is gone when it is to be read (an editor is just replacing it)
        o = [o for o in ops if o[1] == 'open' and any(a in o[2] for a in ('/content/', '/static/', '/temp/'))]
        if o:
            return [fault_like(ops, r.choice(o), r.choice((ENOENT, ESTALE)), r.choice((1, 1, 2)))]
    n = 1 if x < 0.8 else r.randint(2, 4)
    out = []
    for _ in range(n):
        k = r.choice(kinds)
        o = r.choice([o for o in ops if o[1] == k])
        out.append(fault_like(ops, o, r.choice(ERRS[k]), r.choice((1, 1, 1, 2, 1000000))))
    return out

# ------------------------------------------------------------------ P03
def untouched(r, d, what):
    """Nothing at or below d was changed by the run, not even for a moment."""
    a, b = subtree(r.before, d), subtree(r.after, d)
    if not a and d in implied(r.before):
        a = {d: D}
    if norm_dirs(r.before, d) != norm_dirs(r.after, d):
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p) and not (p in implied(r.before) and b.get(p) == D):
                return '%s was altered: %s %s' % (what, p, 'removed' if p not in b else 'created' if p not in a else 'changed')
    for seq, k, p in muts(r):
        if below(p, d):
            return '%s was written to: %s %s' % (what, k, p)
    return None

def implied(t):
    s = set()
    for p in t:
        d = p.rpartition('/')[0]
        while d and d not in s:
            s.add(d)
            d = d.rpartition('/')[0]
    return s

def norm_dirs(t, d):
    x = subtree(t, d)
    for p in implied(t):
        if below(p, d):
            x.setdefault(p, D)
    return x

BEFORE = ('init', 'pre', 'build', 'merge', 'layout')

class P03(Prop):
    id = 'P03'
    rule = ('one evaluation = a published site, then a build (or benchmark or development server) of a defective project or with source reads failing before publishing starts, or a development session whose edits break the sources; judged: output directory and metadata '
            'identical, and not written to; non-trivial = the build failed and a previous site existed; distinct = by operation history and initial tree')
    budget = {'quick': (7000, 75), 'thorough': (200000, 2400)}

    def explore(self, r, ctx, tier, i):
        t, info = gen.gen_project(r, gen.Opts(old=True, plugins=0.2))
        if r.random() < 0.5:
            first = build_phase(r, info)
            runs = ctx.run(new_case(self.id, t, [first], info))
            if ctx.stop:
                return
            t = runs[0].after
        x = r.random()
        if x < 0.12:
            return self.session(r, ctx)
        if x < 0.6:
            for _ in range(4):
                b, lab = gen.break_project(r, t, info)
                ctx.probe('broken:' + lab)
                ph = build_phase(r, info)
                if at_root(t, info) and r.random() < 0.2:
                    ph['argv'] = ['bench', '-i', '2']
                elif r.random() < 0.12:
                    ph['argv'] = ['dev'] + C.build_argv(info)[1:]
                ctx.run(new_case(self.id, b, [ph], info))
                if ctx.stop:
                    return
        else:
            base = build_phase(r, info)
            runs = ctx.run(new_case(self.id, t, [base], info))
            if ctx.stop:
                return
            _, out = where(t, base)
            ops = io_ops(runs[0])
            seqs = {o[2]: o[0] for o in runs[0].res.ops()}
            first = min([s for s, k, p in muts(runs[0]) if below(p, out)] or [10**9])
            cand = [o for o in ops if seqs[o[0]] < first and o[1] not in MUT and not below(o[2], out)]
            for _ in range(6):
                if not cand:
                    return
                k = r.choice(sorted({o[1] for o in cand}))
                o = r.choice([o for o in cand if o[1] == k])
                ph = copy.deepcopy(base)
                ph['faults'] = [fault_like(ops, o, r.choice(ERRS[k]), r.choice((1, 1, 2)))]
                ph['early'] = True
                ctx.run(new_case(self.id, t, [ph], info))
                if ctx.stop:
                    return

    def session(self, r, ctx):
        """A development server whose sources break while it runs."""
        import p_dev
        t, info = p_dev.dev_project(r, plugins=0.2)
        steps, _ = p_dev.edit_session(r, t, info, r.choice((2, 3, 5, 8)), True, broken=0.6, split=0.15)
        ph = p_dev.dev_phase(r, info, actors={'ed': steps})
        ctx.run(new_case(self.id, t, [ph], info, [info['out']]))

    def judge_session(self, r, probe):
        import p_dev
        s = p_dev.Session(r)
        ab = p_dev.dead(s)                              # P09 and P12 say something about that
        if ab:
            probe('server ended')
            return []
        for n, (seq, snap) in enumerate(s.idles):
            a = s.idles[n - 1][0] if n else 0
            if len(s.between(s.edits, a, seq)) > 1 or n == 0 and s.between(s.edits, a, seq):
                continue
            m = s.model_at(seq)
            if m.ok or m.phase not in BEFORE:
                continue
            probe('failed rebuild')
            for q, k, p in s.between(s.muts, a, seq):
                if below(p, s.out) or p == s.project + '/metadata.json':
                    return [('touched', 'a rebuild failed before publishing (%s), but the published site was written to: %s %s' % (m.reason, k, p))]
        return []

    def judge(self, case, runs, probe):
        out = []
        for r in runs:
            x = r.res
            if r.phase.get('actors'):
                out += self.judge_session(r, probe)
                continue
            if x.status == 'exit' and x.code == 0:
                probe('succeeded')
                continue
            early = r.phase.get('early') and not early_over(r)
            if not early:
                m = model_of(r.before, r.phase)
                if m.ok or m.phase not in BEFORE:
                    continue
            project, o = where(r.before, r.phase)
            if project is None:
                # no project was found: nothing at all may change
                project, o = case['info'].get('root', '/p'), case['info'].get('out', '/p/dist')
            probe('failed-early')
            for d, w in ((o, 'the published site'), (project + '/metadata.json', 'the exported metadata')):
                u = untouched(r, d, w)
                if u:
                    out.append(('touched', 'the build failed before publishing, but ' + u + ' (' + clip(x.err, 120) + ')'))
        return out

    def nontrivial(self, case, runs):
        o = case['info'].get('out', '/p/dist')
        return any(r.res.code != 0 and any(below(p, o) for p in r.before) for r in runs)

def early_over(r):
    """The fault fired only after publishing had begun (the history differs from the one it was chosen in)."""
    _, out = where(r.before, r.phase)
    bad = [o[0] for o in r.res.ops() if o[5] not in (0, 2) and o[3] not in MUT]
    first = [s for s, k, p in muts(r) if out and below(p, out)]
    return bool(first) and not any(b < first[0] for b in bad)

# ------------------------------------------------------------------ P04
class P04(Prop):
    id = 'P04'
    rule = ('one evaluation = a build killed at a chosen operation (a write may be torn), possibly again, possibly followed by loss of unsynced data in what it wrote, then one undisturbed build; judged against a '
            'build from a clean checkout; non-trivial = the kill happened; distinct = by operation history and initial tree')
    budget = {'quick': (1800, 75), 'thorough': (60000, 3000)}

    def explore(self, r, ctx, tier, i):
        t, info = gen.gen_project(r, gen.Opts(temp=False, plugins=0.25, big=0.06))
        if r.random() < 0.3:
            import p_cmds
            t, world = p_cmds.add_fetched_plugin(r, t, info) if gen.HAVE_PLUGIN else (t, [])
        else:
            world = []
        if r.random() < 0.4:
            t = ctx.run(new_case(self.id, t, [build_phase(r, info, world=world)], info))[0].after
            if ctx.stop:
                return
            if r.random() < 0.6:
                e, t2 = gen.edit_project(r, t, info, 2, settings=True)
                t = t2
        base = build_phase(r, info, world=world)
        runs = ctx.run(new_case(self.id, t, [base], info))
        if ctx.stop or not runs[0].res.stat:
            return
        ops = runs[0].res.ops()
        nf = runs[0].res.stat['fops']
        mut = [o[2] for o in ops if o[3] in MUT or o[3] in ('spawn', 'close')]
        for _ in range(9 if tier == 'quick' else 24):
            ph = copy.deepcopy(base)
            k = r.choice(mut) if mut and r.random() < 0.75 else r.randint(0, max(0, nf - 1))
            ph['faults'] = ['kill %d %s' % (k, r.choice(('0', '0.3', '0.7', '1')))]
            if ops and r.random() < 0.1:
                ph['faults'].append(pick_faults(r, io_ops(runs[0]), sorted({o[1] for o in io_ops(runs[0])}))[0])
            phases = [ph]
            while r.random() < 0.25 and len(phases) < 3:
                p2 = copy.deepcopy(base)
                p2['seed'] = seedof(r)
                p2['faults'] = ['kill %d %s' % (r.randint(0, max(1, nf)), r.choice(('0', '0.5', '1')))]
                phases.append(p2)
            last = copy.deepcopy(base)
            last['seed'] = seedof(r)
            if r.random() < 0.5:
                rr = ctx.run(new_case(self.id, t, phases, info), judge=False)
                last['pre'] = power_loss(r, t, rr[-1].after, *where(t, base))
            ctx.run(new_case(self.id, t, phases + [last], info))
            if ctx.stop:
                return

    def judge(self, case, runs, probe):
        if len(runs) != len(case['phases']):
            r = runs[-1]
            ab = abnormal(r)
            return [ab] if ab else []
        out = []
        for r in runs[:-1]:
            ab = abnormal(r)
            if ab:
                out.append(ab)
            if r.res.status == 'killed':
                probe('killed')
        r = runs[-1]
        t = C.dec_tree(case['tree'])
        project, o = where(t, r.phase)
        if project is None:
            return out
        clean = {p: e for p, e in t.items() if not any(below(p, x) for x in (o, project + '/temp', project + '/_build', project + '/metadata.json'))}
        if o not in implied(t) and project + '/temp' in t and len(runs) > 1:
            pass
        if any(below(p, project + '/temp') for p in t):
            raise Ambiguous('a temporary directory of unknown origin')
        if case['info'].get('fetched'):
            m = model_with(clean, r.phase, case['info']['fetched'])
        else:
            m = model_of(clean, r.phase)
        if not m.ok:
            return out
        if case['phases'][-1].get('pre'):
            probe('power-loss')
        for k, x in exact(r, m):
            out.append(('unrepaired-' + k, 'after the interruption, ' + x))
        return out

    def nontrivial(self, case, runs):
        return any(r.res.status == 'killed' for r in runs)

def model_with(tree, ph, plugins):
    a = args_of(ph)
    return model.build(VFS(tree), ph['cwd'], a['manifest'], a['output'], ENVNAME[a['cmd']], env_of(ph), plugins=list(plugins))

def power_loss(r, before, after, project, out):
    """Edits which drop un-synced writes of an interrupted build: contents and names it wrote may be missing, partial or old."""
    e = []
    mine = [out, project + '/metadata.json', project + '/temp']
    for p in sorted(after):
        if not any(below(p, d) for d in mine) or after[p] == before.get(p):
            continue
        x = r.random()
        if after[p][0] == 'F':
            if x < 0.25:
                e.append(['trunc', p, 0])
            elif x < 0.45:
                e.append(['trunc', p, r.randint(0, len(after[p][1]))])
            elif x < 0.6:
                e.append(['rm', p])
            elif x < 0.75 and p in before and before[p][0] == 'F':
                e.append(['put', p, gen.enc(before[p])])
        elif after[p][0] == 'D' and x < 0.08 and p != project:
            e.append(['rm', p])
    for p in sorted(before):
        if before[p][0] in 'FL' and p not in after and any(below(p, d) for d in mine[:2]) and r.random() < 0.3:
            d = p.rpartition('/')[0]
            if all(after.get(q, D) == D for q in parents(p)) and not any(q.startswith(p + '/') for q in after):
                e.append(['put', p, gen.enc(before[p]) if before[p][0] == 'F' else {'link': before[p][1]}])
    return e

def parents(p):
    d = p.rpartition('/')[0]
    while d:
        yield d
        d = d.rpartition('/')[0]

# ------------------------------------------------------------------ P05
class P05(Prop):
    id = 'P05'
    rule = ('one evaluation = build, bench, dev or clean on a project whose old output contains links to sources and elsewhere, with failing operations or killed at some point; judged: every path outside the output, '
            'temp, _build and metadata.json unchanged, and no operation ever altered one; non-trivial = something was written or removed; distinct = by operation history and initial tree')
    budget = {'quick': (4000, 75), 'thorough': (80000, 2400)}

    def explore(self, r, ctx, tier, i):
        t, info = gen.gen_project(r, gen.Opts(old=True, links=True, plugins=0.15))
        decorate(r, t, info)
        if r.random() < 0.25:
            t, _ = gen.break_project(r, t, info)
        world = []
        if r.random() < 0.15:
            import p_cmds
            try:
                t, world = p_cmds.add_fetched_plugin(r, t, info) if gen.HAVE_PLUGIN else (t, [])
            except KeyError:
                pass
        base = build_phase(r, info, world=world)
        x = r.random()
        if x < 0.12:
            base['argv'] = ['dev'] + base['argv'][1:]
        elif x < 0.3 and info['cwd'] == info['root']:
            base['argv'] = ['bench', '-i', '2']
        elif x < 0.5:
            base['argv'] = ['clean']
            base['cwd'] = r.choice((info['root'], info['root'], info['cwd'], info['root'] + '/content', '/'))
            if t.get(base['cwd'], D)[0] != 'D' or (base['cwd'] not in t and base['cwd'] not in implied(t)):
                base['cwd'] = info['root']
        case = new_case(self.id, t, [base], info)
        runs = ctx.run(case)
        if ctx.stop:
            return
        ops = io_ops(runs[0])
        nf = (runs[0].res.stat or {}).get('fops', 0)
        if not ops or not nf:
            return
        kinds = sorted({o[1] for o in ops})
        for _ in range(3 if base['argv'][0] == 'dev' else 9):
            ph = copy.deepcopy(base)
            if r.random() < 0.4:
                ph['faults'] = ['kill %d %s' % (r.randint(0, nf - 1), r.choice(('0', '0.5', '1')))]
            else:
                ph['faults'] = pick_faults(r, ops, kinds)
            phases = [ph]
            if r.random() < 0.3:
                p2 = copy.deepcopy(base)
                p2['seed'] = seedof(r)
                phases.append(p2)
            ctx.run(new_case(self.id, t, phases, info))
            if ctx.stop:
                return

    def judge(self, case, runs, probe):
        out = []
        for r in runs:
            out += preserved(r, case['info'].get('root', '/p'))
        return out

    def nontrivial(self, case, runs):
        return any(muts(r) for r in runs)

BASE = ('/dev', '/dev/null', '/dev/urandom', '/tmp')  # always there in the simulator

def allowed_dirs(r, root):
    if r.phase['argv'][0] == 'clean':
        c = r.phase['cwd']
        try:
            c = VFS(r.before).resolve(c)
        except model.VErr:
            pass
        return [c + '/dist', c + '/_build', c + '/metadata.json'] if c != '/' else ['/dist', '/_build', '/metadata.json']
    project, out = where(r.before, r.phase)
    if project is None:
        return []
    return [out, project + '/temp', project + '/_build', project + '/metadata.json']

def preserved(r, root, extra=()):
    ok = allowed_dirs(r, root) + list(extra)
    a, b = dict(r.before), dict(r.after)
    for d in implied(a):
        a.setdefault(d, D)
    out = []
    if r.res.status not in ('hang', 'crash', 'none') and not any(l[0] == 'P' for l in r.res.log):  # what scripts, git and cargo do is their own
        for p in sorted(set(a) | set(b)):
            if a.get(p) != b.get(p) and p not in BASE and not any(below(p, d) for d in ok):
                out.append(('altered', '%s %s %s' % (' '.join(r.phase['argv']), 'removed' if p not in b else 'created' if p not in a else 'changed', p)))
                break
    for seq, k, p in muts(r):
        if not any(below(p, d) for d in ok) and p not in ('/dev/null', ''):
            out.append(('altered', '%s did %s %s' % (' '.join(r.phase['argv']), k, p)))
            break
    return out

def decorate(r, t, info):
    """Things next to the generated files that must survive."""
    root = info['root']
    for n in ('distant.txt', 'dist.bak/x', '.git/HEAD', 'metadata.json.orig', 'scripts/lib/x', 'temperature', 'content2/a', '_build2/x', 'README.md', 'node_modules/m.js'):
        if r.random() < 0.4:
            t[root + '/' + n] = F('keep ' + n)
    if r.random() < 0.3:
        t[root + '/_build/plugins/zz/x'] = F('cache')
        if r.random() < 0.5:
            t[root + '/_build/lnk'] = ('L', r.choice(('../content', '/outside-precious', '..')))
            t['/outside-precious/keep.txt'] = F('keep')
    if r.random() < 0.2 and not any(p.startswith(root + '/temp') for p in t):
        if r.random() < 0.5:
            t[root + '/temp/l'] = ('L', r.choice((root + '/static', root + '/content')))
            if not any(p.startswith(root + '/static') for p in t):
                t[root + '/static/k.txt'] = F('k')
        else:
            t['/tmpdata/k.txt'] = F('k')
            t[root + '/temp'] = ('L', '/tmpdata')
    if r.random() < 0.1 and root + '/metadata.json' not in t:
        t['/outside-precious/m.json'] = F('precious')

# ------------------------------------------------------------------ P06
def conflict(r, t, info):
    """Adds one or two pairs of files that collide, or nearly do."""
    t = dict(t)
    root = info['root']
    c, s, tm = root + '/content/', root + '/static/', root + '/temp/'
    dirs = sorted({''} | {p[len(c):].rpartition('/')[0] + '/' for p in t if p.startswith(c) and '/' in p[len(c):] and t[p][0] == 'F'})
    page = next((t[p] for p in sorted(t) if p.startswith(c) and p.endswith('.html') and p.rpartition('/')[2] not in ('root.html', 'md.html')), None)
    pagedir = next((p[len(c):].rpartition('/')[0] for p in sorted(t) if p.startswith(c) and p.endswith('.html') and p.rpartition('/')[2] not in ('root.html', 'md.html')), '')
    pd = pagedir + '/' if pagedir else ''
    md = F('---\ntitle: "T"\n---\ntext\n')
    def put(p, e):
        if e is None:                                   # the project has no page to copy
            return False
        for q in t:
            if q.startswith(p + '/') or (t[q][0] != 'D' and p.startswith(q + '/')) or q == p:
                return False
        if same is not None:                            # equal contents are as much of a conflict as different ones
            e = same.setdefault('e', e)
        t[p] = e
        return True
    same = None
    for _ in range(r.choice((1, 1, 2))):
        same = {} if r.random() < 0.3 else None
        d = r.choice(dirs)
        n = r.choice(gen.NAMES) + str(r.randint(0, 99))
        k = r.randint(0, 18)
        if k == 0:
            put(c + pd + n + '.md', md), put(c + pd + n + '.html', page)
        elif k == 1:
            x = n + r.choice(('.css', '', '.html', '.tar.gz', '.md'))
            put(c + d + x, F('a') if not x.endswith(('.html', '.md')) else md if x.endswith('.md') else page), put(s + d + x, F('b'))
        elif k == 2:
            put(s + d + n, F('a')), put(tm + d + n, F('b'))
        elif k == 3:
            put(c + pd + n + '.html', page), put(c + pd + n + '/index.html', page)
        elif k == 4:
            put(c + pd + n + '.html', page), put(c + pd + n, F('raw'))
        elif k == 5:
            put(s + d + n + '/x', F('a')), put(c + d + n, F('b'))
        elif k == 6:
            put(c + pd + n + '.html', page), put(s + pd + n + '/index.html', F('static'))
        elif k == 7:
            put(c + d + n + '.json', F('{}')), put(s + d + n + '.json', F('[]'))
        elif k == 8:
            put(c + pd + n + '.html', page), put(tm + pd + n + '/index.html', F('temp'))
        elif k == 9:
            put(c + d + n + '.simx', F('x')), put(r.choice((s, tm)) + d + n + '.simx.out', F('y'))
        elif k == 10:
            put(s + d + n + '/a', F('x')), put(tm + d + n, F('y'))
        elif k == 11:
            put(c + pd + n + '.md', md), put(s + pd + n + '/index.html', F('static'))
        elif k == 12:
            put(c + pd + n + '.md', md), put(s + pd + n, F('static'))
        elif k == 13:
            put(c + pd + n + '.html', page), put(c + pd + n + '/' + r.choice(('other.html', 'index.htm', 'Index.html')), page)
        elif k == 14:
            put(c + d + n + '.txt', F('a')), put(s + d + n.upper() + '.txt', F('b'))
        elif k == 15:
            put(c + pd + n + '.html', page), put(s + pd + n + '.html', F('same page'))
        elif k == 16:
            put(c + pd + n + '.html', page), put(s + pd + n + '/index.html/deep', F('x'))
        elif k == 17:
            # names which are not Unicode are published as something else
            x = r.choice(('', '.txt', '.css'))
            put(r.choice((c, s)) + d + n + '\udcff' + x, F('a')), put(r.choice((c, s, s)) + d + n + r.choice(('\udcfe', '\udcff', '\ufffd')) + x, F('b'))
        else:
            put(c + pd + n + '.md', md), put(c + pd + n + '.html', page), put(s + pd + n + '.md', F('x'))
    return t

class P06(Prop):
    id = 'P06'
    rule = ('one evaluation = a build of a project with one or two pairs of files that collide (or nearly do) after renaming and merging, over every listing order; judged against the reference model: '
            'a collision fails and leaves the old site untouched, a near miss publishes everything; non-trivial = the model says there is a collision; distinct = by operation history and initial tree')
    budget = {'quick': (7800, 75), 'thorough': (400000, 2400)}

    def explore(self, r, ctx, tier, i):
        t, info = gen.gen_project(r, gen.Opts(size=r.choice((1, 1, 2)), plugins=0.25))
        for _ in range(4):
            c = conflict(r, t, info)
            phases = [build_phase(r, info)]
            if r.random() < 0.2:
                p = build_phase(r, info)
                p['pre'] = [['put', p2, gen.enc(c[p2])] for p2 in sorted(c) if p2 not in t and '/temp/' not in p2]
                phases = [build_phase(r, info), p]
                c = t
            ctx.run(new_case(self.id, c, phases, info))
            if ctx.stop:
                return

    def judge(self, case, runs, probe):
        out = []
        for r in runs:
            m = model_of(r.before, r.phase)
            if not m.ok and m.phase in ('merge', 'layout'):
                probe('conflict:' + m.phase)
                ab = abnormal(r)
                if ab:
                    out.append(ab)
                elif r.res.code == 0:
                    out.append(('silent-conflict', 'the build succeeded in spite of a ' + m.reason))
                else:
                    project, o = where(r.before, r.phase)
                    u = untouched(r, o, 'the published site') or untouched(r, project + '/metadata.json', 'the exported metadata')
                    if u:
                        out.append(('conflict-touched', 'the build failed with a ' + m.reason + ', but ' + u))
            elif m.ok:
                probe('no conflict')
                out += exact(r, m)
        return out

    def nontrivial(self, case, runs):
        return any(r.res.status == 'exit' and r.res.code == 1 for r in runs)

# ------------------------------------------------------------------ P07
def gen_scripts(r, t, info, bench=False):
    """Replaces the project's scripts with a random set; returns nothing."""
    root = info['root']
    for p in [p for p in t if p.startswith(root + '/scripts')]:
        del t[p]
    names = [n for n in model.PRE + model.POST if r.random() < 0.55]
    for j, n in enumerate(names):
        pre = n in model.PRE
        l = ['# ' + n, 'snap']
        if pre and r.random() < 0.7:
            l += ['mkdirp $STUART_TEMP_DIR', 'write $STUART_TEMP_DIR/%s.txt %s' % (n, gen.words(r, 1, 3).encode().hex())]
        if r.random() < 0.35:
            l.append('sleep %d' % r.choice((1, 1000, 10**9, 60 * 10**9, 3600 * 10**9)))
        if r.random() < 0.25:
            l.append('%s %d' % (r.choice(('outn', 'errn')), r.choice((1, 4096, 65535, 65536, 65537, 300000))))
        if r.random() < 0.1:
            l += ['outn 70000', 'errn 70000']
        if r.random() < 0.2:
            l.append(r.choice(('exit %d' % r.choice((1, 2, 3, 77, 126, 127, 128, 255)), 'kill %d' % r.choice((1, 2, 6, 9, 11, 13, 15)))))
        elif r.random() < 0.2:
            l.append('exit 0')
        t[root + '/scripts/' + n] = F('\n'.join(l) + '\n')
    for n in ('onprebuild.sh', 'onPreBuild.bat', 'onPostBuild.sh.bak', 'helper', 'onPreBuild.sh~'):
        if r.random() < 0.1:
            t[root + '/scripts/' + n] = F('exit 5\n')
    if r.random() < 0.06:
        t[root + '/scripts/' + r.choice(('onPreBuild/x', 'onPostBuild.sh/x'))] = F('x') if not any(p.startswith(root + '/scripts/onP') for p in t) else F('y')
        for p in [p for p in t if p + '/x' in t]:
            del t[p]

class P07(Prop):
    id = 'P07'
    rule = ('one evaluation = one build or benchmark with up to two pre-build and two post-build scripts of random outcome, output volume and duration, with failing spawns and pipes; judged from the history of process '
            'starts, exits and file operations; non-trivial = at least one script was due; distinct = by operation history and initial tree')
    budget = {'quick': (9000, 75), 'thorough': (300000, 2400)}

    def explore(self, r, ctx, tier, i):
        t, info = gen.gen_project(r, gen.Opts(scripts=False, size=r.choice((1, 1, 2)), plugins=0.05))
        gen_scripts(r, t, info)
        if r.random() < 0.1:
            t, _ = gen.break_project(r, t, info, ['syntax', 'value', 'json', 'manifest', 'content'])
        ph = build_phase(r, info)
        if at_root(t, info) and r.random() < 0.3:
            ph['argv'] = ['bench', '-i', str(r.randint(1, 4))]
        snaps = [info['out'], info['root'] + '/metadata.json', info['root'] + '/temp']
        runs = ctx.run(new_case(self.id, t, [ph], info, snaps))
        if ctx.stop:
            return
        ops = io_ops(runs[0])
        sp = [o for o in ops if o[1] in ('spawn', 'pipe') or (o[1] == 'open' and o[2] == '/dev/null')]
        sc = [o for o in ops if '/scripts' in o[2] and o[1] != 'spawn']
        for _ in range(4):
            p2 = copy.deepcopy(ph)
            x = r.random()
            if sp and x < 0.6:
                o = r.choice(sp)
                p2['faults'] = [fault_like(ops, o, r.choice(ERRS[o[1]]), r.choice((1, 1, 1000000)))]
            elif sc and x < 0.9:
                o = r.choice(sc)
                p2['faults'] = [fault_like(ops, o, r.choice(ERRS.get(o[1], (EIO,))))]
            else:
                p2['world'] = p2['world'] + ['noprog sh']
            ctx.run(new_case(self.id, t, [p2], info, snaps))
            if ctx.stop:
                return

    def judge(self, case, runs, probe):
        out = []
        for r in runs:
            out += scripts_ok(r, probe)
        return out

    def nontrivial(self, case, runs):
        return any(l[0] == 'P' for r in runs for l in r.res.log)

def scripts_ok(r, probe):
    """The history of one command against the rules for scripts."""
    out = []
    ab = abnormal(r)
    if ab:
        return [ab]
    x = r.res
    if x.status != 'exit':
        return []
    a = args_of(r.phase)
    project, o = where(r.before, r.phase)
    if project is None:
        return [('ran', 'a script ran without a project')] if any(l[0] == 'P' for l in x.log) else []
    pre, post = model.scripts_in(VFS(r.before), project)
    due = {project + '/scripts/' + n: 'pre' for n in pre}
    due.update({project + '/scripts/' + n: 'post' for n in post})
    builds = a['iters'] if a['cmd'] == 'bench' else 1
    want = model.script_env(project, model.find_project(VFS(r.before), r.phase['cwd'], a['manifest'])[0], a['output'], ENVNAME[a['cmd']])
    # the command as a sequence of events
    done, failed, running, phase, nb = [], None, {}, 0, 0
    started = []        # of the current build
    content_seen = pub_seen = False
    m = None
    for l in x.log:
        if l[0] == 'P':
            pid, prog, argv = l[2], sim.unpct(l[3]), sim.unpct(l[4])
            s = argv.split(' ')[0] if argv.split(' ')[0] in due else argv
            if prog != 'sh':
                continue
            if s not in due:
                out.append(('ran', 'started %r, which is not a build script' % s))
                continue
            if failed:
                out.append(('after-failure', '%s was started although %s failed' % (s, failed)))
                continue
            if running:
                out.append(('overlap', '%s was started while %s was running' % (s, ', '.join(running.values()))))
            if due[s] == 'pre':
                if content_seen or pub_seen or any(due[q] == 'post' for q in started):
                    if len([q for q in due if due[q] == 'pre' and q not in started]) == 0 or nb + 1 < builds:
                        # the next build begins
                        miss = [q for q in due if q not in started]
                        if miss:
                            out.append(('skipped', 'a build finished without running %s' % ', '.join(sorted(miss))))
                        started, content_seen, pub_seen = [], False, False
                        nb += 1
                    else:
                        out.append(('late', '%s was started after content had been read' % s))
            else:
                if s in started and not pre and nb + 1 < builds:
                    started, nb = [], nb + 1
                if not pub_seen:
                    out.append(('early', '%s was started before the output was written' % s))
            if s in started:
                out.append(('twice', '%s was started twice in one build' % s))
            started.append(s)
            done.append(s)
            env = dict(e.split('=', 1) for e in (sim.unpct(v) for v in l[6:]) if '=' in e)
            if env != want:
                out.append(('environment', '%s was started with %r instead of %r' % (s, env, want)))
            running[pid] = s
        elif l[0] == 'X':
            s = running.pop(l[2], None)
            if s and int(l[3]) != 0:
                failed = failed or '%s (status %s)' % (s, l[3])
                probe('script failed')
        elif l[0] == 'o':
            kind, path, e = l[4], sim.unpct(l[5]), int(l[6])
            if kind in ('open', 'opendir') and e == 0 and (below(path, project + '/content') or below(path, project + '/static')):
                content_seen = True
                if running:
                    out.append(('unfinished', '%s was read while %s was running' % (path, ', '.join(running.values()))))
                if not any(due[q] == 'post' for q in started):
                    miss = [q for q in due if due[q] == 'pre' and q not in started]
                    if miss and not post_seen(started, due):
                        out.append(('skipped', 'content was read although %s had not run' % ', '.join(sorted(miss))))
                        break
        elif l[0] == 'm':
            kind, path = l[3], sim.unpct(l[4])
            if below(path, o) or path == project + '/metadata.json':
                pub_seen = True
                if running:
                    out.append(('unfinished', '%s %s while %s was running' % (kind, path, ', '.join(running.values()))))
                if failed:
                    out.append(('after-failure', '%s %s although %s failed' % (kind, path, failed)))
                    break
        elif l[0] == 'S' and l[2] in running and due[running[l[2]]] == 'post' and int(l[3]) >= 0 and not failed and not real_faults(r):
            snap = x.snaps[int(l[3])]
            m = m or model_of(r.before, r.phase)
            if builds == 1 and m.out and m.files is not None:
                d = model.output_diff(VFS(snap).under(m.out), m.files, m.dirs)
                if d is None and m.cfg['meta'] and m.meta is not None:
                    d = meta_diff(snap, m)
                if d:
                    out.append(('incomplete', 'when %s started, the output was not complete: %s' % (running[l[2]], d)))
    if failed and x.code == 0:
        out.append(('failure-ignored', 'success was reported although %s failed' % failed))
    if x.code == 0:
        for s in due:
            if done.count(s) != builds:
                out.append(('count', '%s ran %d times in %d successful builds' % (s, done.count(s), builds)))
    else:
        m = m or model_of(r.before, r.phase)
        if m.ok and not real_faults(r) and not failed and 'noprog sh' not in r.phase['world']:
            out.append(('failed', 'the build of a valid project failed: ' + clip(x.err)))
    return out

def post_seen(started, due):
    return any(due[q] == 'post' for q in started)

# ------------------------------------------------------------------ P08
class P08(Prop):
    id = 'P08'
    rule = ('one evaluation = a history of builds over changing sources and settings with short, failing or torn metadata writes; judged: the metadata file against the reference model after every success, untouched when '
            'export is off or the build failed before publishing; non-trivial = a metadata file was exported; distinct = by operation history and initial tree')
    budget = {'quick': (5400, 75), 'thorough': (200000, 2400)}

    def explore(self, r, ctx, tier, i):
        for _ in range(20):
            t, info = gen.gen_project(r, gen.Opts(plugins=0.1, size=r.choice((1, 2, 3))))
            if info['settings'].get('save_metadata') or r.random() < 0.15:
                break
        phases = [build_phase(r, info)]
        cur = t
        for _ in range(r.choice((0, 1, 1, 2))):
            e, cur2 = gen.edit_project(r, cur, info, r.randint(1, 3), settings=True)
            if r.random() < 0.25:
                b, lab = gen.break_project(r, cur2, info, ['syntax', 'value', 'json', 'script', 'front', 'utf8'])
                e2 = [['put', p, gen.enc(b[p])] for p in sorted(b) if b[p] != cur2.get(p)] + [['rm', p] for p in sorted(cur2) if p not in b]
                phases.append(build_phase(r, info, pre=e + e2))
                back = [['put', p, gen.enc(cur2[p])] for p in sorted(cur2) if b.get(p) != cur2[p]] + [['rm', p] for p in sorted(b) if p not in cur2]
                phases.append(build_phase(r, info, pre=back))
            else:
                phases.append(build_phase(r, info, pre=e))
            cur = cur2
        case = new_case(self.id, t, phases, info, [info['out'], info['root'] + '/metadata.json'])
        runs = ctx.run(case)
        if ctx.stop or len(runs) != len(phases):
            return
        j = r.randrange(len(phases))
        ops = io_ops(runs[j])
        mine = [o for o in ops if o[2].endswith('/metadata.json')]
        for _ in range(2):
            if not mine:
                break
            c2 = copy.deepcopy(case)
            if r.random() < 0.6:
                o = r.choice(mine)
                c2['phases'][j]['faults'] = [fault_like(ops, o, r.choice(ERRS[o[1]]))]
            else:
                c2['phases'][j]['faults'] = pick_faults(r, ops, sorted({o[1] for o in ops}))
            ctx.run(c2)
            if ctx.stop:
                return

    def judge(self, case, runs, probe):
        out = []
        for r in runs:
            ab = abnormal(r)
            if ab:
                out.append(ab)
                continue
            m = model_of(r.before, r.phase)
            meta = m.project and m.project + '/metadata.json'
            if not meta:
                continue
            if r.res.code == 0:
                if not m.ok:
                    continue
                if m.cfg['meta']:
                    probe('exported')
                    d = meta_diff(r.after, m)
                    if d:
                        out.append(('wrong-metadata', 'the build reports success, but ' + d))
                    for l in r.res.log:
                        if l[0] == 'S' and int(l[3]) >= 0 and m.ran and scripts_post(r, l[2]):
                            d = meta_diff(r.res.snaps[int(l[3])], m)
                            if d:
                                out.append(('late-metadata', 'when the post-build script ran, ' + d))
            elif m.ok and not real_faults(r):
                out.append(('failed', 'the build of a valid project failed: ' + clip(r.res.err)))
            if (m.cfg and not m.cfg['meta']) or (not m.ok and m.phase in BEFORE):
                u = untouched(r, meta, 'the metadata file')
                if u:
                    probe('kept')
                    out.append(('metadata-touched', '%s, but %s' % ('export is off' if m.cfg and not m.cfg['meta'] else 'the build failed before publishing', u)))
        return out

    def nontrivial(self, case, runs):
        return any(p.endswith('/metadata.json') for r in runs for _, k, p in muts(r))

def scripts_post(r, pid):
    for l in r.res.log:
        if l[0] == 'P' and l[2] == pid:
            return 'onPostBuild' in sim.unpct(l[4])
    return False

# ------------------------------------------------------------------ P15
class P15(Prop):
    id = 'P15'
    rule = ('one evaluation = a benchmark of several iterations (with scripts that change the sources in between), or a development server rebuilding after each of a sequence of edits, each build compared with the '
            'reference model of a fresh build; non-trivial = at least two builds in one process were compared; distinct = by operation history and initial tree')
    budget = {'quick': (7000, 75), 'thorough': (150000, 2400)}

    def explore(self, r, ctx, tier, i):
        if r.random() < 0.45:
            import p_dev
            return p_dev.explore_rebuilds(self, r, ctx, tier)
        t, info = gen.gen_project(r, gen.Opts(places=False, scripts=False, plugins=0.15, size=r.choice((1, 2, 2, 3))))
        root = info['root']
        man = root + '/stuart.toml'
        pre = ['# pre', 'snap']
        if r.random() < 0.6:
            pre += ['mkdirp $STUART_TEMP_DIR', 'write $STUART_TEMP_DIR/gen.txt 41']
        if r.random() < 0.6:
            for k in range(r.randint(1, 3)):
                x = r.random()
                c = gen.content_files(t, info, '.html', '.md')
                c = [p for p in c if not p.endswith(('/root.html', '/md.html'))]
                if x < 0.4 and c:
                    pre.append('append %s %s' % (sim.pct(r.choice(c)), (' more%d' % k).encode().hex()))
                elif x < 0.7:
                    pre.append('append %s %s' % (root + '/content/count.txt', b'x'.hex()))
                else:
                    pre.append('cp %s %s' % (root + '/content/count%d.txt' % k, root + '/content/count%d.txt' % (k + 1)))
                    t[root + '/content/count%d.txt' % k] = F('c')
        if r.random() < 0.12:
            # fails in the second or third iteration
            pre += ['have %s 4' % (root + '/f2')] if r.random() < 0.5 else []
            pre += ['have %s 7' % (root + '/f3'), 'mkdirp %s' % (root + '/f3')] if r.random() < 0.5 else []
        if ' ' not in root:
            t[root + '/scripts/onPreBuild.sh'] = F('\n'.join(pre) + '\n')
        t[root + '/scripts/onPostBuild.sh'] = F('# post\nsnap\n')
        n = r.choice((1, 2, 2, 3, 4, 6))
        ph = C.phase(['bench', '-i', str(n)], info['cwd'], seedof(r), cfg=gen.io_cfg(r), env=info.get('env') or {})
        snaps = [info['out'], root + '/metadata.json', root + '/content', root + '/static']
        case = new_case(self.id, t, [ph], info, snaps)
        runs = ctx.run(case)
        if ctx.stop:
            return
        if r.random() < 0.4:
            ops = io_ops(runs[0])
            c2 = copy.deepcopy(case)
            c2['phases'][0]['faults'] = pick_faults(r, ops, sorted({o[1] for o in ops}))
            c2['phases'].append(C.phase(['bench', '-i', '1'], info['cwd'], seedof(r), env=info.get('env') or {}))
            ctx.run(c2)

    def judge(self, case, runs, probe):
        if case['phases'][0]['argv'][0] == 'dev':
            import p_dev
            return p_dev.judge_rebuilds(case, runs, probe)
        out = []
        for r in runs:
            ab = abnormal(r)
            if ab:
                out.append(ab)
                continue
            a = args_of(r.phase)
            if a['cmd'] != 'bench':
                continue
            tree = r.before
            snaps = [l for l in r.res.log if l[0] == 'S' and scripts_post(r, l[2])]
            fired = bool(real_faults(r))
            for it in range(a['iters']):
                m = model_of(tree, r.phase)
                if not m.ok:
                    if r.res.code == 0:
                        out.append(('accepted-invalid', 'iteration %d succeeded although a fresh build would fail: %s' % (it + 1, m.reason)))
                    if len(snaps) > it and m.phase != 'post':
                        out.append(('accepted-invalid', 'iteration %d published although a fresh build would fail: %s' % (it + 1, m.reason)))
                    tree = None
                    break
                if it >= len(snaps):
                    if not fired:
                        out.append(('failed', 'iteration %d failed: %s' % (it + 1, clip(r.res.err))))
                    tree = None
                    break
                s = r.res.snaps[int(snaps[it][3])]
                d = out_diff(s, m) or meta_diff(s, m)
                if d:
                    out.append(('differs', 'iteration %d does not publish what a fresh build would: %s' % (it + 1, d)))
                    break
                probe('iterations compared')
                if fired and it + 1 < a['iters']:
                    # a failing operation may have left temporary files behind: nothing more can be said
                    left = [o for o in r.res.ops() if o[5] not in (0, 2) and below(o[4], m.project + '/temp')]
                    if left:
                        tree = None
                        break
                tree = m.vfs.tree()
            if tree is not None and r.res.code == 0:
                d = out_diff(r.after, m)
                if d:
                    out.append(('differs', 'the benchmark does not leave what a fresh build would: %s' % d))
            if tree is not None and not out and r.res.code != 0 and not fired:
                out.append(('failed', 'the benchmark failed: ' + clip(r.res.err)))
        return out

    def nontrivial(self, case, runs):
        return sum(l[0] == 'S' for r in runs for l in r.res.log) >= 2 or case['phases'][0]['argv'][0] == 'dev'

# ------------------------------------------------------------------ P19
class P19(Prop):
    id = 'P19'
    rule = ('one evaluation = five builds of the same sources under different listing orders, clocks, process ids, random seeds, read sizes and previous outputs, compared byte for byte with each other; '
            'non-trivial = the builds published a page; distinct = by operation history and initial tree')
    budget = {'quick': (5600, 75), 'thorough': (150000, 2400)}

    def explore(self, r, ctx, tier, i):
        t, info = gen.gen_project(r, gen.Opts(temp=False, scripts=r.random() < 0.3, plugins=0.35, size=r.choice((2, 3, 4)), links=True, old=False))
        if r.random() < 0.2:
            t, _ = gen.break_project(r, t, info, ['value', 'syntax', 'block', 'json', 'simx', 'front'])
        if r.random() < 0.5:
            ties(r, t, info)
        if r.random() < 0.2:
            dates(r, t, info, r.random() < 0.15)
        phases = []
        for k in range(5):
            cfg = ['cfg dirmode %d' % (0, 1, 2, 2, 2)[k], 'cfg epoch %d' % r.randint(0, 4 * 10**9), 'cfg pid %d' % r.randint(2, 4194303)]
            if k and r.random() < 0.7:
                cfg.append('cfg mtimes %d' % r.randint(1, 10**9))
            if r.random() < 0.4:
                cfg += ['cfg p_shortr 0.3', 'cfg p_shortw 0.3']
            pre = []
            if k and r.random() < 0.4:
                pre = [['rm', info['out']], ['rm', info['root'] + '/metadata.json']]
            elif k and r.random() < 0.5:
                pre = [['put', info['out'] + '/%s.html' % r.choice(gen.NAMES), {'text': 'stale'}], ['put', info['root'] + '/metadata.json', {'text': 'x' * r.randint(0, 5000)}]]
                if any(below(info['out'] + '/x', q) for q in t if t[q][0] == 'F'):
                    pre = []
            phases.append(build_phase(r, info, cfg=cfg, pre=pre))
        ctx.run(new_case(self.id, t, phases, info))

    def judge(self, case, runs, probe):
        out = []
        seen = None
        for r in runs:
            ab = abnormal(r)
            if ab:
                return [ab]
            project, o = where(r.before, r.phase)
            if project is None:
                return []
            cur = (r.res.code, {p[len(o):]: e for p, e in subtree(r.after, o).items()}, r.after.get(project + '/metadata.json')) if r.res.code == 0 else (r.res.code, None, None)
            if seen is None:
                seen = cur
                continue
            if case['info'].get('incomplete') and (cur[0] != seen[0] or cur[0] == 0 and any('/when' in p and cur[1].get(p) != seen[1].get(p) for p in set(cur[1]) | set(seen[1]))):
                out.append(('incomplete-date', 'a date without a year, a day or any date at all is completed from the clock, so two builds of the same sources differ'))
                break
            if cur[0] != seen[0]:
                out.append(('verdict-differs', 'one build exits with %d, another with %d' % (seen[0], cur[0])))
                break
            if cur[0] != 0:
                continue
            if cur[1] != seen[1]:
                for p in sorted(set(cur[1]) | set(seen[1])):
                    if cur[1].get(p) != seen[1].get(p):
                        a, b = (x[1].get(p) for x in (seen, cur))
                        out.append(('output-differs', 'two builds of the same sources differ at %s: %s' % (p, 'only in one' if a is None or b is None else '%r / %r' % (model.clip(a[1], b[1]), model.clip(b[1], a[1])) if len(a) > 1 and len(b) > 1 else 'kind')))
                        break
                break
            if cur[2] != seen[2] and (meta_on(r, project)):
                out.append(('metadata-differs', 'two builds of the same sources export different metadata'))
                break
        return out

    def nontrivial(self, case, runs):
        return any(r.res.ok for r in runs)

def meta_on(r, project):
    return any(p == project + '/metadata.json' and k in ('create', 'truncate', 'write') for _, k, p in muts(r))

DATES = ('2021-02-21', '2021-02-21 14:32', '2021-02-21T14:32:10Z', '2021-02-21T14:32:10.5+02:00', '2021-02-21 PST', '2020-07-20+08:00', '1511648546', '1620021848429', 'Wed, 02 Jun 2021 06:31:39 GMT',
         '2019-11-29 08:08-08', '2021-Feb-21', 'May 25, 2021', '25 May 2021', '14 May 2019 19:11:40.164', '7 oct 70', '8/8/1965', '04/8/2014 22:05', '2014/4/8', '2014/04/02 03:00:51', '03.31.2014', '08.21.71',
         '2014.03.30', '171113 14:14:20', '2014\u5e7404\u670808\u65e5', 'May 8, 2009 5:57:51 PM', '2017-11-25T22:34:50Z', '2021-02-30', '', 'yesterday', '99/99/9999')
INCOMPLETE = ('12:30', '4:00pm', '01:06:06', '6:00 AM', '2014.03', '2019.12', 'May 6 at 9:24 PM', 'May 27 02:45:27', '6:00pm UTC')

def dates(r, t, info, incomplete):
    """A page that formats dates in many notations."""
    c = info['root'] + '/content/'
    if any(p.startswith(c + 'when') for p in t):
        return
    l = r.sample(INCOMPLETE if incomplete else DATES, r.choice((1, 1, 2, 4)))
    t[c + 'when.json'] = F(json.dumps([{'d': d} for d in l]))
    t[c + 'when.html'] = F('{{ begin("main") }}{{ for($w, "when.json") }}[{{ dateformat($w.d, "%s") }}]{{ end(for) }}{{ end("main") }}' % r.choice(('%Y-%m-%d', '%d %B %Y', '%A %H:%M:%S', '%j %p %I', '%+', '%s', '%D %T %Z')) +
                           ''.join('{{ begin("%s") }}x{{ end("%s") }}' % (s, s) for s in ('title', 'extra')))
    if incomplete:
        info['incomplete'] = True

def ties(r, t, info):
    """Loops whose sort keys tie, and several files that look alike."""
    c = info['root'] + '/content/'
    d = r.choice(('ties', 'same', 'zz'))
    if any(p.startswith(c + d) for p in t):
        return
    n = r.randint(2, 7)
    for k in range(n):
        t['%s%s/%s%d.md' % (c, d, r.choice(gen.WORDS), k)] = F('---\ntitle: "T%d"\ndate: "2020-01-0%d"\n---\nbody %d\n' % (r.randint(0, 1), r.randint(1, 2), k))
    t[c + 'tied.json'] = F(json.dumps([{'a': r.randint(0, 1), 'k': j} for j in range(n)]))
    loop = ''.join(r.sample([
        '{{ for($x, "%s/") }}[{{ $x.title }} {{ $x.content }}]{{ end(for) }}' % d,
        '{{ for($x, "%s/", sortby=$x.title) }}[{{ $x.title }} {{ $x.content }}]{{ end(for) }}' % d,
        '{{ for($x, "%s/", sortby=$x.date, order="desc", limit=%d) }}[{{ $x.content }}]{{ end(for) }}' % (d, r.randint(1, n)),
        '{{ for($x, "tied.json", sortby=$x.a) }}({{ $x.k }}){{ end(for) }}',
        '{{ for($x, "tied.json", sortby=$x.a, order="desc") }}({{ $x.k }}){{ end(for) }}',
    ], r.randint(1, 5)))
    t[c + 'tied.html'] = F('{{ begin("main") }}' + loop + '{{ end("main") }}')
    for s in ('title', 'extra'):
        t[c + 'tied.html'] = F(t[c + 'tied.html'][1] + ('{{ begin("%s") }}x{{ end("%s") }}' % (s, s)).encode())

CHECKS = [P01(), P02(), P03(), P04(), P05(), P06(), P07(), P08(), P15(), P19()]
