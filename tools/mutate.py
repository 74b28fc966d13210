#!/usr/bin/env python3
'''mutate.py list|tests|checks: systematic small changes of the source, those which survive the repository's tests, and which of our checks report them.
Works in /tmp/mut only. SHARE=0..1 samples the mutants; FILES=regex restricts them; IDS names them; JOBS processes; CHECKS which ones to run.'''
import ast, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
OUT, BASE = '/tmp/mut', '/tmp/mut/base' # BASE: a copy of /repo made beforehand
CHECKS = [(r'KernelExpressions/', 'C01 C03 C05 C04 C02 C09 C08 C10 C11 C06 C07'), (r'KernelExpansion/grammar', 'C07 C06 C05 C04 C15'),
          (r'kernelExpressionOperations', 'C02 C06 C05 C04 C09 C10 C07'), (r'kernelOperations', 'C08 C10 C02'), (r'kernelInterpretation', 'C11 C12 C10'),
          (r'Kernels/', 'C08 C23 C20 C24 C11'), (r'modelSearch', 'C13 C17 C15 C14 C16'), (r'Models/model\.py', 'C18 C19 C24 C17 C20'), (r'modelUtil', 'C19 C18 C13 C17'),
          (r'genericUtil', 'C21 C01 C13 C15 C06'), (r'dataAndPlotting', 'C22'), (r'kernelUtil', 'C20 C08 C24'), (r'.', 'C07 C20 C08')]
SKIP = r'benchmarking|showcase|numba_types|__init__|setup'

def seg(src, n): return ast.get_source_segment(src, n)

def mutants(src):
    '''(line, start, end, replacement) in terms of offsets'''
    tree = ast.parse(src)
    lines = [0]
    for l in src.encode().splitlines(True): lines.append(lines[-1] + len(l))
    raw = src.encode()
    at = lambda ln, col: lines[ln - 1] + col
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    res = []
    def put(n, text, a = None, b = None):
        s, e = span(n) if a is None else (a, b)
        if raw[s:e].decode() != text: res.append((n.lineno, s, e, text))
    def s(n): return raw[span(n)[0]:span(n)[1]].decode()
    CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.BitAnd: '|', ast.BitOr: '&'}
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): docs.add(n.body[0])
    anns = set()
    for n in ast.walk(tree):
        for f in ('annotation', 'returns'):
            if getattr(n, f, None) is not None: anns.update(ast.walk(getattr(n, f)))
        if isinstance(n, ast.JoinedStr): anns.update(x for v in n.values if isinstance(v, ast.Constant) for x in [v]); # positions unreliable
        if isinstance(n, ast.JoinedStr): anns.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in anns: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []): put(n, f'{s(n.left)} {o} {s(n.comparators[0])}')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN: put(n, f'({s(n.left)}) {BIN[type(n.op)]} ({s(n.right)})'); put(n, s(n.left)); put(n, s(n.right))
        elif isinstance(n, ast.BoolOp):
            put(n, (' or ' if isinstance(n.op, ast.And) else ' and ').join(f'({s(v)})' for v in n.values))
            for v in n.values: put(n, s(v))
        elif isinstance(n, ast.UnaryOp): put(n, s(n.operand))
        elif isinstance(n, ast.IfExp): put(n, s(n.body)); put(n, s(n.orelse))
        elif isinstance(n, ast.If): put(n.test, 'True'); put(n.test, 'False')
        elif isinstance(n, ast.Constant) and n not in anns:
            if isinstance(n.value, bool): put(n, str(not n.value))
            elif isinstance(n.value, int): put(n, str(n.value + 1)); n.value > 1 and put(n, str(n.value - 1))
            elif isinstance(n.value, float): put(n, repr(n.value * 1.5 + .01))
        elif isinstance(n, ast.Expr) and n not in docs and isinstance(n.value, ast.Call): put(n, 'pass')
        elif isinstance(n, ast.AugAssign): put(n, 'pass')
        elif isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets): put(n, 'pass')
        elif isinstance(n, ast.Call):
            f = s(n.func)
            if f in ('sorted', 'deepcopy', 'copy', 'list', 'set', 'dict', 'tuple', 'Counter', 'reversed', 'any', 'all', 'abs', 'str', 'unique', 'np.abs', 'np.sqrt', 'flatten') and n.args:
                if f == 'any': put(n.func, 'all')
                elif f == 'all': put(n.func, 'any')
                else: put(n, f'({s(n.args[0])})')
            for alt in ({'min': 'max', 'max': 'min', 'np.sin': 'np.cos', 'np.cos': 'np.sin'}.get(f),):
                if alt: put(n.func, alt)
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args): put(n, f'{f}({s(n.args[1])}, {s(n.args[0])})')
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    rest = [s(a) for a in n.args] + [f'{x.arg} = {s(x.value)}' if x.arg else f'**{s(x.value)}' for x in n.keywords if x is not k]
                    put(n, f'{f}({", ".join(rest)})')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('set_parent', 'set_root', '_set_all_parents', 'simplify', '_initialise', 'extract_if_singleton', 'copy', 'reduce', '_update_kernel_expression_rules'): put(n, s(n.func.value))
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs: put(c, 'True')
        elif isinstance(n, ast.Slice):
            if n.lower is not None: put(n.lower, '')
            if n.upper is not None: put(n.upper, '')
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id != 'self': pass
        elif isinstance(n, ast.Continue): put(n, 'pass')
    good, seen = [], set()
    for ln, a, b, t in res:
        new = raw[:a] + t.encode() + raw[b:]
        if new in seen: continue
        seen.add(new)
        try: ast.parse(new)
        except SyntaxError: continue
        good.append((ln, a, b, t))
    return good

def listing():
    res = []
    for d, _, fs in os.walk(BASE + '/GPy_ABCD'):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), BASE)
            if not f.endswith('.py') or re.search(SKIP, p) or not re.search(os.environ.get('FILES', '.'), p): continue
            src = open(BASE + '/' + p).read()
            for ln, a, b, t in mutants(src):
                i = hashlib.md5(f'{p}{a}{b}{t}'.encode()).hexdigest()[:10]
                res.append({'id': i, 'file': p, 'line': ln, 'a': a, 'b': b, 'text': t, 'old': src.encode()[a:b].decode()})
    ids = os.environ.get('IDS', '').split()
    if ids: return [m for m in res if any(m['id'].startswith(i) for i in ids)]
    share = float(os.environ.get('SHARE', '1'))
    return [m for m in res if int(m['id'], 16) % 10000 < share * 10000]

def apply(m, d):
    p = os.path.join(d, m['file'])
    raw = open(BASE + '/' + m['file'], 'rb').read()
    open(p, 'wb').write(raw[:m['a']] + m['text'].encode() + raw[m['b']:])

def load(name):
    try: return {r['id']: r for r in map(json.loads, open(f'{OUT}/{name}.jsonl'))}
    except FileNotFoundError: return {}

def work(name, todo, f):
    done = load(name)
    todo = [m for m in todo if m['id'] not in done]
    random.Random(1).shuffle(todo)
    print(len(done), 'done', len(todo), 'to do', flush = True)
    import queue
    pool = queue.Queue()
    for _ in range(int(os.environ.get('JOBS', '3'))): pool.put(plant.copy())
    def one(m):
        d = pool.get()
        try:
            apply(m, d)
            r = {'id': m['id'], 'file': m['file'], 'line': m['line'], 'old': m['old'], 'text': m['text'], **f(m, d)}
            with open(f'{OUT}/{name}.jsonl', 'a') as o: o.write(json.dumps(r) + '\n')
        finally:
            shutil.copy(BASE + '/' + m['file'], os.path.join(d, m['file']))
            pool.put(d)
    with ThreadPoolExecutor(pool.qsize()) as e: list(e.map(one, todo))
    while not pool.empty(): shutil.rmtree(os.path.dirname(pool.get()))

def run_tests(m, d):
    try: miss = plant.tests(d)
    except Exception as e: return {'survives': False, 'why': str(e)[:100]}
    return {'survives': not miss}

def run_checks(m, d):
    names = os.environ.get('CHECKS') or next(c for r, c in CHECKS if re.search(r, m['file']))
    names = names.split()
    seen = {}
    for c in names:
        p = subprocess.run(['python3', 'check.py', c], cwd = plant.VERIF, env = dict(os.environ, VERIF_REPO = d, VERIF_TIER = 'quick', VERIF_EVIDENCE = d + '_ev'), capture_output = True, text = True)
        seen[c] = p.returncode
        if p.returncode == 1: return {'caught': c, 'rcs': seen}
    return {'caught': None, 'rcs': seen}

if __name__ == '__main__':
    ms = listing()
    if sys.argv[1] == 'list':
        from collections import Counter
        print(Counter(m['file'] for m in ms), len(ms))
    elif sys.argv[1] == 'tests': work('tests', ms, run_tests)
    elif sys.argv[1] == 'checks':
        ok = load('tests')
        work('checks', [m for m in ms if ok.get(m['id'], {}).get('survives')], run_checks)
