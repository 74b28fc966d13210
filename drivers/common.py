'''Shared by all conformance drivers (run under the repository's own Python environment).

A driver replays inputs or behaviours generated from the TLA+ specification on the real code found in $VERIF_REPO
and writes what it observed as newline-delimited JSON, one object per line; it never judges: TLC does.
'''
import json, os, random, signal, sys, types, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')

CONFIG = json.loads(os.environ.get('VERIF_CONFIG', '{}')) # Deviations from the repository's own flag values, by short name
SHORT = {'se': '__INCLUDE_SE_KERNEL', 'offset': '__USE_LIN_KERNEL_HORIZONTAL_OFFSET', 'stdper': '__USE_NON_PURELY_PERIODIC_PER_KERNEL',
         'fixslope': '__FIX_SIGMOIDAL_KERNELS_SLOPE', 'shifted': '__USE_INDEPENDENT_SIDES_CHANGEWINDOW_KERNEL'}
if CONFIG: # The flags are read at import time, hence the edited copy of the module is imported first
    ns = {}
    exec(compile(open(os.path.join(REPO, 'GPy_ABCD', 'config.py')).read(), 'config.py', 'exec'), ns)
    mod = types.ModuleType('GPy_ABCD.config')
    for k, v in ns.items():
        if not k.startswith('__builtins'): mod.__dict__[k] = v
    for short, v in CONFIG.items(): mod.__dict__[SHORT[short]] = v
    sys.modules['GPy_ABCD.config'] = mod

SEED = int(os.environ.get('VERIF_SEED', '1'))
rng = random.Random(SEED)


def flags():
    import GPy_ABCD.config as c
    return {short: bool(c.__dict__[long]) for short, long in SHORT.items()}


def read_lines(path):
    with open(path) as f: return [json.loads(l) for l in f if l.strip()]

class Out:
    def __init__(self, path): self.f = open(path, 'w'); self.n = 0
    def put(self, obj): self.f.write(json.dumps(obj) + '\n'); self.n += 1
    def close(self): self.f.close()


# ---- Expressions <-> raw trees

def K():
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    return SumKE, ProductKE, ChangeKE

def build(t, order = None):
    '''Build a raw tree bottom-up with the public constructors (each simplifies); a bare base kernel stays a string'''
    SumKE, ProductKE, ChangeKE = K()
    if t['k'] == 'B': return t['n']
    if t['k'] in ('CP', 'CW'): return ChangeKE(t['k'], build(t['l'], order), build(t['r'], order))
    b, c = list(t['b']), [build(x, order) for x in t['c']]
    if order is not None: order.shuffle(b); order.shuffle(c)
    bases, comps = b + [x for x in c if isinstance(x, str)], [x for x in c if not isinstance(x, str)]
    return (SumKE if t['k'] == 'S' else ProductKE)(bases, comps)

def build_raw(t, order = None):
    '''Build a raw tree exactly as it is, i.e. without the constructors' simplification (attributes are set afterwards)'''
    from collections import Counter
    SumKE, ProductKE, ChangeKE = K()
    if t['k'] == 'B': return t['n']
    if t['k'] in ('CP', 'CW'):
        res = ChangeKE(t['k'], 'C', 'C')
        res.left, res.right = build_raw(t['l'], order), build_raw(t['r'], order)
        return res
    res = (SumKE if t['k'] == 'S' else ProductKE)([])
    b, c = list(t['b']), [build_raw(x, order) for x in t['c']]
    if order is not None: order.shuffle(b); order.shuffle(c)
    res.base_terms, res.composite_terms = Counter(b + [x for x in c if isinstance(x, str)]), [x for x in c if not isinstance(x, str)]
    return res

def ser(x):
    '''Serialise an expression (or base kernel string) to a raw tree'''
    SumKE, ProductKE, ChangeKE = K()
    if isinstance(x, str): return {'k': 'B', 'n': x}
    if isinstance(x, ChangeKE): return {'k': x.CP_or_CW, 'l': ser(x.left), 'r': ser(x.right)}
    if isinstance(x, (SumKE, ProductKE)):
        return {'k': 'S' if isinstance(x, SumKE) else 'P', 'b': sorted(x.base_terms.elements()), 'c': [ser(c) for c in x.composite_terms]}
    raise TypeError(f'not an expression: {type(x)}')

def key(x):
    '''A string identifying an expression up to commutativity'''
    t = ser(x) if not isinstance(x, dict) else x
    if t['k'] == 'B': return t['n']
    if t['k'] in ('CP', 'CW'): return f"{t['k']}({key(t['l'])},{key(t['r'])})"
    return f"{t['k']}[{','.join(sorted(t['b']))};{','.join(sorted(key(c) for c in t['c']))}]"

def parse(s):
    '''Parse the infix form of an expression, e.g. 'PER * (WN + LIN) + CP(C, SE)', to a raw tree'''
    import re
    toks = re.findall(r'[A-Z]+|[()+*,]', s)
    if re.sub(r'[A-Z]+|[()+*,]|\s', '', s): raise ValueError(f'unexpected text in {s}')
    pos = 0
    def peek(): return toks[pos] if pos < len(toks) else ''
    def take(expected = None):
        nonlocal pos
        t = peek()
        if t == '' or (expected and t != expected): raise ValueError(f'unexpected {t!r} in {s}')
        pos += 1
        return t
    def node(kind, terms):
        if len(terms) == 1: return terms[0]
        return {'k': kind, 'b': [t['n'] for t in terms if t['k'] == 'B'], 'c': [t for t in terms if t['k'] != 'B']}
    def atom():
        t = take()
        if t == '(': r = expr(); take(')'); return r
        if t in ('CP', 'CW'):
            take('('); l = expr(); take(','); r = expr(); take(')')
            return {'k': t, 'l': l, 'r': r}
        if t not in ('WN', 'C', 'LIN', 'SE', 'PER'): raise ValueError(f'unexpected {t!r} in {s}')
        return {'k': 'B', 'n': t}
    def prod():
        ts = [atom()]
        while peek() == '*': take(); ts.append(atom())
        return node('P', ts)
    def expr():
        ts = [prod()]
        while peek() == '+': take(); ts.append(prod())
        return node('S', ts)
    r = expr()
    if pos != len(toks): raise ValueError(f'trailing text in {s}')
    return r

def as_root(x):
    '''What a user does with a hand-written expression (or base kernel string)'''
    from GPy_ABCD.KernelExpansion.grammar import make_simple_kexs
    return make_simple_kexs([x])[0]

class Stuck(Exception): '''The code under test does not return'''
def _stuck(*args): raise Stuck('no result within the time limit')
depth = 0
def attempt(f, *args, **kwargs):
    '''(result, '') or (None, description of the exception)'''
    global depth
    depth += 1
    try:
        if depth == 1: signal.signal(signal.SIGALRM, _stuck); signal.alarm(120)
        return f(*args, **kwargs), ''
    except Exception as e: return None, f'{type(e).__name__}: {e}'[:200]
    finally:
        depth -= 1
        if depth == 0: signal.alarm(0)


# ---- Object graphs

class Heap:
    '''Projects the object graph of expressions: ids are small integers, stable for the lifetime of this object'''
    def __init__(self): self.ids = {}; self.keep = []
    def id(self, o):
        if o is None: return 0
        if id(o) not in self.ids: self.ids[id(o)] = len(self.ids) + 1; self.keep.append(o)
        return self.ids[id(o)]
    def kids(self, o):
        SumKE, ProductKE, ChangeKE = K()
        if isinstance(o, ChangeKE): return [x for x in (o.left, o.right) if not isinstance(x, str)]
        return list(o.composite_terms)
    def nodes(self, o):
        '''All nodes below and including o (first): id, kind, own content, children, parent and root ids, and ids of the mutable containers it owns'''
        SumKE, ProductKE, ChangeKE = K()
        res, todo, seen = [], [o], set()
        if isinstance(o, str): return []
        while todo:
            x = todo.pop(0)
            if id(x) in seen: continue
            seen.add(id(x))
            if isinstance(x, ChangeKE): kind, own, boxes = x.CP_or_CW, [y if isinstance(y, str) else '' for y in (x.left, x.right)], [x.parameters]
            else: kind, own, boxes = ('S' if isinstance(x, SumKE) else 'P'), sorted((+x.base_terms).elements()), [x.base_terms, x.composite_terms, x.parameters]
            res.append({'id': self.id(x), 'k': kind, 'own': own, 'kids': [self.id(y) for y in self.kids(x)],
                        'parent': self.id(getattr(x, 'parent', None)), 'root': self.id(getattr(x, 'root', None)), 'boxes': [self.id(b) for b in boxes],
                        'params': repr(sorted((str(k), v) for k, v in x.parameters.items() if v))})
            todo += self.kids(x)
        return res
