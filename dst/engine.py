"""Runs many simulated executions of a property's workloads, judges them, minimises and reports violations, writes evidence."""
import collections, copy, hashlib, json, multiprocessing, os, random, sys, time, traceback
import build as builder
import case as C, sim, model

VERIF = builder.VERIF

class HarnessError(Exception):
    pass

class Stats:
    def __init__(self):
        self.runs = self.evals = self.amb = self.ns = self.ops = self.switches = self.nontrivial = 0
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.hashes, self.shashes, self.sigs = set(), set(), set()
        self.status = collections.Counter()
        self.det_checked = self.det_bad = 0
        self.samples = []

    def add(self, o):
        for k in ('runs', 'evals', 'amb', 'ns', 'ops', 'switches', 'nontrivial', 'det_checked', 'det_bad'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ('fired', 'probes', 'status'):
            getattr(self, k).update(getattr(o, k))
        for k in ('hashes', 'shashes', 'sigs'):
            getattr(self, k).update(getattr(o, k))
        if len(self.samples) < 6:
            self.samples += o.samples[:6 - len(self.samples)]

class Violation:
    def __init__(self, key, text, case):
        self.key, self.text, self.case = key, text, case

class Ctx:
    """What a property's workload generator uses to execute and judge."""
    def __init__(self, built, check, known, item):
        self.built, self.check, self.known, self.item = built, check, known, item
        self.stats = Stats()
        self.violations = []
        self.knownhits = collections.Counter()

    def run(self, case, judge=True):
        """Executes and judges a case. Returns the runs, or None if nothing can be said about it."""
        runs = C.run_case(self.built, case)
        s = self.stats
        for r in runs:
            x = r.res
            s.runs += 1
            s.status['%s%s' % (x.status, ':%d' % x.code if x.status == 'exit' else '')] += 1
            if x.status in ('harness', 'none'):
                raise HarnessError('%s %s: %s' % (x.status, x.why, json.dumps([case['info'], case['phases']])[:1500]))
            if x.stat:
                s.ns += x.stat['now']
                s.ops += x.stat['ops']
                s.switches += x.stat['switches']
                s.hashes.add(x.stat['hash'])
                s.shashes.add(x.stat['shash'])
            s.fired.update(x.fired)
        if not judge:
            return runs
        try:
            vs = self.check.judge(case, runs, self.probe)
        except model.Ambiguous as e:
            s.amb += 1
            self.probe('no verdict: %s' % (e.args[0] if e.args else '?'))
            return runs
        s.evals += 1
        if self.check.nontrivial(case, runs):
            s.nontrivial += 1
            s.sigs.add(hashlib.sha1(json.dumps([r.res.stat.get('hash') if r.res.stat else r.res.status for r in runs]).encode() +
                                    json.dumps(case['tree'], sort_keys=True).encode()).hexdigest()[:16])
        for key, text in vs:
            if key in self.known:
                self.knownhits[key] += 1
            else:
                self.violations.append(Violation(key, text, case))
        return runs

    def probe(self, name, n=1):
        self.stats.probes[name] += n

    @property
    def stop(self):
        return bool(self.violations)

def same(a, b):
    return len(a) == len(b) and all(x.res.status == y.res.status and x.res.code == y.res.code and x.res.stat == y.res.stat and
                                    x.res.tree == y.res.tree and x.res.log == y.res.log and x.res.err == y.res.err for x, y in zip(a, b))

def one_item(args):
    built, pid, seed, tier, i, known = args
    check = get_check(pid)
    import gen
    gen.HAVE_PLUGIN = bool(built.get('plugin'))
    rng = random.Random('%s/%d/%d' % (pid, seed, i))
    ctx = Ctx(built, check, known, i)
    try:
        first = []
        orig = ctx.run
        def run(case, judge=True):
            r = orig(case, judge)
            if not first:
                first.append((copy.deepcopy(case), r))
            return r
        ctx.run = run
        check.explore(rng, ctx, tier, i)
        if first and i % 40 == 0:
            again = C.run_case(built, first[0][0])
            ctx.stats.det_checked += 1
            if not same(again, first[0][1]):
                ctx.stats.det_bad += 1
        if first and i < 3:
            ctx.stats.samples.append(sample(first[0][0], first[0][1]))
    except HarnessError as e:
        return i, ctx.stats, [], ctx.knownhits, 'item %d: %s' % (i, e)
    except Exception:
        return i, ctx.stats, [], ctx.knownhits, 'item %d: %s' % (i, traceback.format_exc())
    return i, ctx.stats, ctx.violations, ctx.knownhits, None

def sample(case, runs):
    return {'files': len(case['tree']), 'phases': [{'argv': p['argv'], 'cwd': p['cwd'], 'faults': p['faults'], 'actors': {k: len(v) for k, v in p['actors'].items()},
                                                    'cfg': p['cfg'], 'pre': len(p['pre'])} for p in case['phases']],
            'outcome': ['%s %d, %s file operations' % (r.res.status, r.res.code, (r.res.stat or {}).get('fops')) for r in runs]}

_checks = {}

def get_check(pid):
    if not _checks:
        import props
        _checks.update(props.ALL)
    return _checks[pid]

# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    return [k for k in json.load(open(p)) if isinstance(k, dict)] if os.path.exists(p) else []     # repaired defects are lines of text and suppress nothing

# ------------------------------------------------------------------ minimisation
class Minimiser:
    def __init__(self, built, check, case, key, budget):
        self.built, self.check, self.case, self.key = built, check, case, key
        self.end = time.time() + budget
        self.tries = 0

    def fails(self, case):
        if time.time() > self.end:
            return False
        self.tries += 1
        try:
            runs = C.run_case(self.built, case)
            if any(r.res.status in ('harness', 'none') for r in runs):
                return False
            return any(k == self.key for k, _ in self.check.judge(case, runs, lambda *a: None))
        except (model.Ambiguous, HarnessError):
            return False
        except Exception:
            return False

    def ddmin(self, items, put):
        """Removes as many of items as possible; put(items) builds the case."""
        n = 2
        items = list(items)
        if items and self.fails(put([])):
            self.case = put([])
            return []
        while len(items) >= 2 and time.time() < self.end:
            size = max(1, len(items) // n)
            for a in range(0, len(items), size):
                cand = items[:a] + items[a + size:]
                c = put(cand)
                if self.fails(c):
                    items, n = cand, max(n - 1, 2)
                    self.case = c
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def run(self):
        if not self.fails(self.case):
            return self.case, False
        for rnd in range(2):
            before = json.dumps(self.case, sort_keys=True)
            for i in range(len(self.case['phases'])):
                for f in ('faults', 'cfg', 'world', 'pre'):
                    if f in self.check.frozen:
                        continue
                    self.ddmin(self.case['phases'][i][f], lambda it, f=f: self.with_(i, f, it))
                for a in list(self.case['phases'][i]['actors']):
                    left = self.ddmin(self.case['phases'][i]['actors'][a], lambda it, a=a: self.with_actor(i, a, it))
            paths = [p for p in self.case['tree']]
            if 'tree' in self.check.frozen:
                continue
            self.ddmin(paths, lambda it: self.with_tree(set(it)))
            for p in list(self.case['tree']):
                v = self.case['tree'].get(p)
                if isinstance(v, dict) and 'text' in v and len(v['text']) > 4 and time.time() < self.end:
                    parts = [x for x in __import__('re').split(r'(?<=\n)|(?=\{\{)|(?<=\}\})', v['text']) if x]
                    if len(parts) > 1:
                        self.ddmin(parts, lambda it, p=p: self.with_text(p, ''.join(it)))
                elif isinstance(v, dict) and 'hex' in v and time.time() < self.end:
                    c = self.with_text(p, 'x')
                    if self.fails(c):
                        self.case = c
            if json.dumps(self.case, sort_keys=True) == before:
                break
        self.explicit()
        return self.case, True

    def with_(self, i, f, it):
        c = copy.deepcopy(self.case)
        c['phases'][i][f] = list(it)
        return c

    def with_actor(self, i, a, it):
        c = copy.deepcopy(self.case)
        if it:
            c['phases'][i]['actors'][a] = list(it)
        else:
            c['phases'][i]['actors'].pop(a, None)
        return c

    def with_tree(self, keep):
        c = copy.deepcopy(self.case)
        c['tree'] = {p: v for p, v in self.case['tree'].items() if p in keep}
        return c

    def with_text(self, p, t):
        c = copy.deepcopy(self.case)
        c['tree'][p] = {'text': t}
        return c

    def explicit(self):
        """Writes the schedule out as explicit decisions and drops those that do not matter."""
        c = copy.deepcopy(self.case)
        runs = C.run_case(self.built, c)
        for p, r in zip(c['phases'], runs):
            if p['choices'] is None:
                p['choices'] = {k: v[1] for k, v in r.res.choices.items() if v[1]}
        if not self.fails(c):
            return
        self.case = c
        for i in range(len(c['phases'])):
            for cat in sorted(self.case['phases'][i]['choices'] or {}):
                def put(it, cat=cat):
                    d = copy.deepcopy(self.case)
                    d['phases'][i]['choices'][cat] = list(it)
                    return d
                self.ddmin(self.case['phases'][i]['choices'][cat], put)
                if not self.case['phases'][i]['choices'][cat]:
                    d = copy.deepcopy(self.case)
                    d['phases'][i]['choices'].pop(cat)
                    self.case = d

# ------------------------------------------------------------------ entry points
def workers():
    return max(1, min(8, os.cpu_count() or 1))

def check(pid, tier=None, seed=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1) if seed is None else seed
    built = builder.build()
    tb = time.time() - t0
    chk = get_check(pid)
    kf = [k for k in known_findings() if k['property'] == pid and k['status'] == 'known']
    known = {k['key']: k for k in kf}
    n, cap = chk.budget[tier]
    cap = float(os.environ.get('DST_CAP', cap))
    n = int(os.environ.get('DST_N', n))
    total = Stats()
    errors, viol, hits = [], [], collections.Counter()
    t1 = time.time()
    done = 0
    stopped = 'all %d items' % n
    with multiprocessing.Pool(workers()) as pool:
        it = pool.imap_unordered(one_item, ((built, pid, seed, tier, i, set(known)) for i in range(n)), chunksize=1)
        for _ in range(n):
            try:
                i, st, vs, kh, err = it.next(timeout=max(1, 600 if tier == 'quick' else 36000))
            except StopIteration:
                break
            total.add(st)
            done += 1
            hits.update(kh)
            if err:
                errors.append(err)
                if len(errors) > 5:
                    break
            viol += vs
            if viol:
                stopped = 'first violation'
                break
            if time.time() - t1 > cap:
                stopped = 'time cap of %gs' % cap
                break
        pool.terminate()
    t2 = time.time()
    code = 0
    out = []
    if viol:
        v = viol[0]
        m = Minimiser(built, chk, copy.deepcopy(v.case), v.key, 40 if tier == 'quick' else 120)
        c, ok = m.run()
        if not ok:
            # a violation that does not repeat is a fault of the machinery (or a program that is not deterministic under it)
            c = v.case
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (pid, v.case['phases'][0]['seed'] if v.case['phases'] else 0))
        text = v.text
        if ok:
            try:
                for k, t in chk.judge(c, C.run_case(built, c), lambda *a: None):
                    if k == v.key:
                        text = t
            except Exception:
                pass
        json.dump({'property': pid, 'key': v.key, 'text': text, 'verif_seed': seed, 'reproduced': ok, 'minimiser_runs': m.tries, 'case': c}, open(path, 'w'), indent=1, sort_keys=True)
        print('%s: %s: %s' % (pid, v.key, text))
        print('minimised in %d runs; schedule and faults are in the replay file; replay with: python3 dst/main.py replay %s' % (m.tries, path))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if errors and not viol:
        for e in errors[:5]:
            sys.stderr.write(e + '\n')
        code = 2
    wall = time.time() - t0
    ex = t2 - t1
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': chk.level,
        'coverage': {
            'evaluations': total.evals, 'distinct_nontrivial': len(total.sigs), 'rule': chk.rule, 'samples': total.samples,
            'items': done, 'stopped_by': stopped, 'simulated_runs': total.runs, 'no_verdict': total.amb,
            'runs_per_hour': int(total.runs / ex * 3600) if ex else 0, 'seeds_per_hour': int(done / ex * 3600) if ex else 0,
            'simulated_seconds': round(total.ns / 1e9, 6), 'operations': total.ops, 'context_switches': total.switches,
            'faults_injected': dict(sorted(total.fired.items())), 'distinct_histories': len(total.hashes), 'distinct_schedules': len(total.shashes),
            'measure': 'distinct_histories: hashes of the whole operation history of a run (operations, paths, results, order over threads); distinct_schedules: hashes of the sequence of scheduling and I/O decisions',
            'outcomes': dict(sorted(total.status.items())), 'probes': dict(sorted(total.probes.items())),
            'determinism': '%d cases executed twice, %d differed' % (total.det_checked, total.det_bad),
            'known_finding_hits': dict(hits),
            'real_code': chk.real, 'stubs': chk.stubs, 'workers': workers(), 'build_s': round(tb, 1),
        },
        'assumptions': chk.assumptions, 'wall_s': round(wall, 1), 'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, sort_keys=True)
    print('%s %s seed %d: %d items, %d runs, %d judged, %d without verdict, %d distinct, %d faults fired, %.1fs%s' % (
        pid, tier, seed, done, total.runs, total.evals, total.amb, len(total.sigs), sum(total.fired.values()), wall, ', %d HARNESS ERRORS' % len(errors) if errors else ''))
    if total.det_bad:
        print('warning: %d of %d repeated cases differed' % (total.det_bad, total.det_checked))
    return code

def replay(path):
    built = builder.build()
    d = json.load(open(path))
    chk = get_check(d['property'])
    runs = C.run_case(built, d['case'])
    for i, r in enumerate(runs):
        print('phase %d: stuart %s -> %s %d; faults fired: %s' % (i, ' '.join(r.phase['argv']), r.res.status, r.res.code, dict(r.res.fired)))
    try:
        vs = chk.judge(d['case'], runs, lambda *a: None)
    except model.Ambiguous as e:
        vs = []
        print('no verdict: %s' % e)
    for k, t in vs:
        print('%s: %s: %s' % (d['property'], k, t))
    if any(k == d['key'] for k, _ in vs):
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('not reproduced')
    return 0
