'''Orchestration shared by all checks: running TLC, running drivers on the real code, and reporting.'''
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
CORES = os.cpu_count() or 4
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


class Broken(Exception): '''The machinery itself failed: no verdict'''


class Check:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.dir = tempfile.mkdtemp(prefix = f'verif_{pid}_')
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.models, self.violations = [], [], [], []
        self.counts = {}
        self.exhaustive = []

    def path(self, name): return os.path.join(self.dir, name)

    # ---- TLC

    def tlc(self, module, constants = None, invariants = (), properties = (), spec = 'Spec', env = None, workers = CORES, simulate = None,
            depth = 100, timeout = 800, extra = (), view = None, constraint = None, postcondition = None, heap = None, count = True, name = None):
        '''Run TLC on spec/<module>.tla with a generated configuration; returns its output. A violated invariant is a design-level failure.'''
        uid = f'{module}_{len(self.models)}_{abs(hash((name, time.time()))) % 10**8}'
        cfg = self.path(uid + '.cfg')
        with open(cfg, 'w') as f:
            f.write(f'SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n')
            for k, v in (constants or {}).items(): f.write(f'CONSTANT {k} = {tla(v)}\n')
            for v in invariants: f.write(f'INVARIANT {v}\n')
            for v in properties: f.write(f'PROPERTY {v}\n')
            if view: f.write(f'VIEW {view}\n')
            if constraint: f.write(f'CONSTRAINT {constraint}\n')
            if postcondition: f.write(f'POSTCONDITION {postcondition}\n')
        meta = self.path(uid + '_meta')
        cmd = ['tlc', '-config', cfg, '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-nowarning']
        if simulate: cmd += ['-simulate', f'num={simulate}', '-depth', str(depth), '-seed', str(SEED)]
        cmd += list(extra) + [os.path.join(VERIF, 'spec', module + '.tla')]
        e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
        e['JAVA_TOOL_OPTIONS'] = f'-Djava.io.tmpdir={self.dir}' + f' -Xmx{heap}' * bool(heap) # Leave nothing in /tmp
        t = time.time()
        try: p = subprocess.run(cmd, cwd = self.dir, env = e, capture_output = True, text = True, timeout = timeout)
        except subprocess.TimeoutExpired: raise Broken(f'TLC on {module} exceeded {timeout} s')
        finally: shutil.rmtree(meta, ignore_errors = True)
        out = p.stdout
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if simulate and not m:
            m = re.findall(r'The number of states generated: (\d+)', out)
            gen = dist = int(m[-1]) if m else 0
        if count: self.states += dist; self.transitions += gen
        ok = 'No error has been found' in out or (simulate and p.returncode == 0)
        self.models.append({'module': module, 'mode': 'simulate' if simulate else 'exhaustive', 'constants': {k: tla(v) for k, v in (constants or {}).items()}, 'invariants': list(invariants),
                            'states': dist, 'generated': gen, 'wall_s': round(time.time() - t, 1)})
        if not ok:
            if re.search(r'Invariant \S+ is violated|property \S+ was violated|properties were violated|is violated by the initial state|Deadlock reached', out): raise Broken(f'the specification {module} violates its own property:\n' + out[-3000:])
            e = out.find('Error:')
            raise Broken(f'TLC failed on {module} (exit {p.returncode}):\n' + (out[e:e + 3000] if e >= 0 else out[-3000:]) + p.stderr[-1000:])
        return out

    @staticmethod
    def printed(out):
        '''JSON values printed by PrintT(ToJson(..)), in order, without duplicates'''
        res, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                if line in seen: continue
                seen.add(line)
                res.append(json.loads(json.loads(line)))
        return res

    def generate(self, module, **kw):
        '''Behaviours of a generator module, as printed by its Emit invariant'''
        kw.setdefault('invariants', ['Emit'])
        if kw.get('simulate'): kw.setdefault('workers', 1) # Deterministic
        res = self.printed(self.tlc(module, **kw))
        res.sort(key = lambda x: json.dumps(x, sort_keys = True)) # Exhaustive runs print in any order
        if not res: raise Broken(f'{module} generated nothing')
        return res

    # ---- Real code

    def drive(self, driver, inputs, config = None, shards = None, timeout = 700, env = None, args = ()):
        '''Run drivers/<driver>.py on the inputs, in parallel; returns the recorded observations (inputs order kept)'''
        n = max(1, min(shards or CORES, (len(inputs) + 7) // 8))
        e = {**dict({k: v for k, v in os.environ.items() if k != 'PYTHONHASHSEED'}, NUMBA_DISABLE_JIT = '1', MPLBACKEND = 'Agg', OMP_NUM_THREADS = '1', OPENBLAS_NUM_THREADS = '1', MKL_NUM_THREADS = '1',
                 VERIF_REPO = REPO, VERIF_SEED = str(SEED), VERIF_CONFIG = json.dumps(config or {}), VERIF_TIER = TIER), **(env or {})}
        size = (len(inputs) + n - 1) // n
        parts = [inputs[k * size:(k + 1) * size] for k in range(n)]
        parts = [p for p in parts if p] or [[]]
        def run(k):
            tag = f'{driver}_{time.time_ns()}_{k}'
            i, o, cwd = self.path(tag + '.in'), self.path(tag + '.out'), self.path(tag + '_cwd')
            os.mkdir(cwd)
            with open(i, 'w') as f:
                for x in parts[k]: f.write(json.dumps(x) + '\n')
            try: p = subprocess.run([PY, '-B', '-W', 'ignore', os.path.join(VERIF, 'drivers', driver + '.py'), i, o, *args], cwd = cwd, env = {'PYTHONHASHSEED': str(k), **e, 'VERIF_SHARD': str(k)}, capture_output = True, text = True, timeout = timeout)
            except subprocess.TimeoutExpired: return (k, None, f'{driver} exceeded {timeout} s')
            if p.returncode and (w := raised_in_repo(p.stderr)):
                self.violations.append({'module': driver, 'constants': config, 'check': self.pid, 'env': env, 'group': driver, 'what': [f'the code could not be run: {w}'], 'record': {'stderr': p.stderr[-2000:]}})
                return (k, [], '')
            if p.returncode: return (k, None, f'{driver} exited with {p.returncode}:\n{p.stdout[-1500:]}\n{p.stderr[-3000:]}')
            with open(o) as f: return (k, [json.loads(l) for l in f], '')
        with cf.ThreadPoolExecutor(CORES) as ex: res = list(ex.map(run, range(len(parts))))
        for k, r, err in res:
            if r is None: raise Broken(err)
        return [x for k, r, err in res for x in r]

    # ---- Judging

    def judge(self, module, records, what = None, constants = None, check = None, timeout = 700, describe = None, weight = lambda r: 1, env = None, group = None):
        '''Check recorded observations against a Trace* module; violations are recorded. Returns the bad ones'''
        if not records and any(v['what'][0].startswith('the code could not be run') for v in self.violations): return []
        if not records: raise Broken(f'nothing recorded for {module}')
        group = group or what or module
        n = max(1, min(CORES, len(records) // 40))
        parts = [records[k::n] for k in range(n)]
        def run(k):
            p = self.path(f'{module}_{time.time_ns()}_{k}.ndjson')
            with open(p, 'w') as f:
                for r in parts[k]: f.write(json.dumps(r) + '\n')
            out = self.tlc(module, constants, ['Verdict'], spec = 'TSpec', env = {'TRACE': p, 'CHECK': check or self.pid, **(env or {})}, workers = 1, timeout = timeout, count = False, name = k)
            os.remove(p)
            m = re.findall(r'^\d+ states generated(?: \([^)]*\))?, (\d+) distinct states found', out, re.M)
            if not m or int(m[-1]) != len(parts[k]): raise Broken(f'{module} judged {m and m[-1]} of {len(parts[k])} records:\n' + out[-1500:])
            bad = []
            for line in out.splitlines():
                if line.startswith('"BAD '): bad.append(json.loads(json.loads(line)[4:]))
            return [(k + (b['i'] - 1) * n, b['what']) for b in bad]
        with cf.ThreadPoolExecutor(CORES) as ex: bad = sorted({(i, tuple(w)) for r in ex.map(run, range(n)) for i, w in r})
        self.traces += len(records)
        self.counts[group] = self.counts.get(group, 0) + len(records)
        for i, w in bad: self.violations.append({'module': module, 'constants': constants, 'check': check or self.pid, 'env': env, 'group': group, 'what': list(w), 'record': records[i]})
        if len(self.samples) < 6:
            for r in records[:: max(1, len(records) // 2)][:2]: self.samples.append({'group': group, 'record': short(r)})
        return bad

    # ---- Reporting

    def finish(self):
        known = [k for k in load_known() if k['property'] == self.pid]
        new, hit = [], {}
        for v in self.violations:
            text = json.dumps(v['record'], sort_keys = True)
            ks = [k for k in known if any(k['what'] in w for w in v['what']) and k['match'] in text and all(k['what'] in w for w in v['what'])]
            if ks: hit.setdefault(ks[0]['id'], []).append(v)
            else: new.append(v)
        for k in known:
            if k['id'] in hit: print(f"KNOWN-FINDING: property={self.pid} {k['describe']} ({len(hit[k['id']])} cases)")
            elif k.get('always'): print(f"KNOWN-FINDING: property={self.pid} {k['describe']}")
        replay_dir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(replay_dir, exist_ok = True)
        seen = {}
        for v in new: seen.setdefault((v['group'], tuple(v['what'])), []).append(v)
        for n, ((group, what), vs) in enumerate(sorted(seen.items(), key = lambda kv: str(kv[0]))):
            if n >= 12: print(f'... and {len(seen) - 12} more kinds of violation'); break
            vs.sort(key = lambda v: len(json.dumps(v['record'])))
            p = os.path.join(replay_dir, f"{self.pid}_{hashlib.sha1(json.dumps(vs[0], sort_keys = True).encode()).hexdigest()[:10]}.json")
            with open(p, 'w') as f: json.dump({'property': self.pid, 'seed': SEED, 'tier': TIER, **vs[0]}, f, indent = 1)
            print(f'{group}: {"; ".join(what)} ({len(vs)} cases); smallest: {json.dumps(vs[0]["record"])[:600]}')
            print(f'VIOLATION property={self.pid} replay={p}')
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                           'samples': self.samples or ['none'], 'observations_by_group': self.counts, 'models': compact(self.models), 'exhaustive_parts': self.exhaustive},
              'assumptions': self.notes, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(new)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent = 1)
        print(f'{self.pid} {TIER}: {self.states} model states, {self.transitions} transitions, {self.traces} observations of the real code judged '
              f'({", ".join(f"{k}: {n}" for k, n in self.counts.items())}), {len(new)} violations, {ev["wall_s"]} s')
        shutil.rmtree(self.dir, ignore_errors = True)
        return 1 if new else 0


def raised_in_repo(stderr):
    '''The last line of a traceback whose innermost frame among those of the drivers and of the repository is the repository's'''
    frames = [f for f in re.findall(r'^  File "([^"]+)", line', stderr, re.M) if f.startswith((os.path.join(REPO, 'GPy_ABCD'), VERIF + os.sep))]
    last = [l for l in stderr.strip().splitlines() if l][-1:]
    return last[0][:200] if last and frames and frames[-1].startswith(os.path.join(REPO, 'GPy_ABCD')) else ''


def compact(models):
    res = {}
    for m in models:
        k = (m['module'], json.dumps(m['constants'], sort_keys = True), m['mode'])
        if k in res:
            for f in ('states', 'generated', 'wall_s'): res[k][f] = round(res[k][f] + m[f], 1)
            res[k]['runs'] += 1
        else: res[k] = dict(m, runs = 1)
    return list(res.values())


def short(r, n = 1500):
    s = json.dumps(r)
    return r if len(s) <= n else s[:n] + '...'


def tla(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, str): return '"' + v + '"'
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tla(x) for x in v) + '>>'
    return str(v)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f).get('findings', [])
