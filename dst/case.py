"""A case is plain JSON: an initial file tree and phases, each one simulated execution of the program."""
import copy, json
import sim, model
from model import VFS

D = ('D',)

def enc_tree(tree):
    o = {}
    for p in sorted(tree):
        e = tree[p]
        if e[0] == 'D':
            o[p] = 'dir'
        elif e[0] == 'L':
            o[p] = {'link': e[1]}
        else:
            try:
                o[p] = {'text': e[1].decode('utf-8')}
            except UnicodeDecodeError:
                o[p] = {'hex': e[1].hex()}
    return o

def dec_entry(v):
    if v == 'dir':
        return D
    if 'link' in v:
        return ('L', v['link'])
    return ('F', v['text'].encode('utf-8') if 'text' in v else bytes.fromhex(v['hex']))

def dec_tree(o):
    return {p: dec_entry(v) for p, v in o.items()}

def phase(cmd, cwd='/p', seed=0, **k):
    """One execution. cfg/world/faults: scenario lines; actors: {name: [step, ...]}; pre: edits of the tree before it starts."""
    d = dict(argv=cmd, cwd=cwd, seed=seed, cfg=[], world=[], faults=[], actors={}, pre=[], env={}, choices=None)
    d.update(k)
    return d

def build_argv(info, iters=None):
    a = []
    if info['manifest'] != 'stuart.toml':
        a += ['--manifest-path', info['manifest']]
    if info['output'] != 'dist':
        a += ['-o', info['output']]
    return ['build'] + a

def edit_tree(tree, edits):
    """Literal edits of a stored tree (what a power loss leaves behind, or the user does between commands)."""
    t = dict(tree)
    for e in edits:
        op, p = e[0], e[1]
        if op == 'put':
            for q in [q for q in t if q.startswith(p + '/')]:
                del t[q]
            t[p] = dec_entry(e[2])
        elif op == 'rm':
            for q in [q for q in t if q == p or q.startswith(p + '/')]:
                del t[q]
        elif op == 'mv':
            for q in [q for q in t if q == p or q.startswith(p + '/')]:
                t[e[2] + q[len(p):]] = t.pop(q)
        elif op == 'trunc':
            if t.get(p, D)[0] == 'F':
                t[p] = ('F', t[p][1][:e[2]])
    return t

class Run:
    """One executed phase."""
    __slots__ = ('before', 'res', 'phase')

    def __init__(self, before, res, ph):
        self.before, self.res, self.phase = before, res, ph

    @property
    def after(self):
        return self.res.tree

def phase_lines(ph, tree, built, snapdirs=()):
    l = ['seed %d' % ph['seed']] + list(ph['cfg']) + sim.tree_lines(tree) + ['cwd ' + sim.pct(ph['cwd'])]
    if built.get('plugin'):
        l.append('pluginso ' + sim.pct(built['plugin']))
    l += ['snapdir ' + sim.pct(d) for d in snapdirs]
    l += ph['world']
    l += ph['faults']
    for a, steps in ph['actors'].items():
        l.append('actor ' + a)
        l += ['step ' + s for s in steps]
    if ph.get('choices') is not None:
        l.append('replay')
        for c, v in ph['choices'].items():
            if v:
                l.append('choice %s %s' % (c, ' '.join(v)))
    return l

def run_phase(built, ph, tree, snapdirs=()):
    tree = edit_tree(tree, ph['pre']) if ph['pre'] else dict(tree)
    parts = ph['cwd'].split('/')
    for i in range(2, len(parts) + 1 if parts[-1] else 0):      # the simulator makes the working directory: it is not the command's doing
        tree.setdefault('/'.join(parts[:i]), D)
    env = {'SITE_VAR': 'from-env'}
    env.update(ph.get('env') or {})
    res = sim.run(built, phase_lines(ph, tree, built, snapdirs), ph['argv'], env)
    return Run(tree, res, ph)

def run_case(built, case):
    tree = dec_tree(case['tree'])
    runs = []
    for ph in case['phases']:
        r = run_phase(built, ph, tree, case.get('snapdirs', ()))
        runs.append(r)
        tree = r.after
        if r.res.status in ('hang', 'crash', 'none', 'harness'):
            break
    return runs
