'''GPy kernels as the specification sees them: structure read from the linked parameters, i.e. those an optimiser changes.'''
import math
from common import *

LN2 = math.log(2)
BASE = {'White': 'WN', 'Bias': 'C', 'RBF': 'SE', 'LinearWithOffset': 'LIN', 'Linear': 'LIN', 'PureStdPeriodicKernel': 'PER', 'StdPeriodic': 'PER'}

def kind(k):
    from GPy.kern import Add, Prod
    n = type(k).__name__
    if isinstance(k, Add): return 'S'
    if isinstance(k, Prod): return 'P'
    if n.startswith('ChangePoint'): return 'CP'
    if n.startswith('ChangeWindow'): return 'CW'
    if n in BASE: return 'B'
    raise TypeError(f'unknown kernel {n}')

def pname(p): # GPy numbers repeated names
    return p.name.rstrip('0123456789').rstrip('_') if p.name.rstrip('0123456789').endswith('_') else p.name

def decode(base, name, code, stdper = False):
    if name in ('variance', 'shift_variance'): return float(code)
    if name == 'lengthscale':
        if base == 'PER' and not stdper: return 1e9 if code == 0 else (code * LN2) ** -.5
        return ((4 if base == 'PER' else 8) * LN2 * code) ** -.5
    return code / 2

def encode(base, name, value, stdper = False):
    value = float(value)
    if name in ('variance', 'shift_variance'): return near(value)
    if name == 'lengthscale':
        if base == 'PER' and not stdper: return 0 if value > 1e8 else near(value ** -2 / LN2)
        return near(value ** -2 / ((4 if base == 'PER' else 8) * LN2))
    return near(value * 2)

def near(x):
    r = round(x)
    return r if abs(x - r) < 1e-4 * max(1, abs(x)) else -99999 # Not one of the values that were assigned

def children(k):
    from GPy.kern import Kern
    return [p for p in k.parameters if isinstance(p, Kern)], [p for p in k.parameters if not isinstance(p, Kern)]

def assign(k, pick, stdper = False, base = None):
    '''Assign a code to every linked parameter: pick(base or change kind, parameter name) -> code; yields (param, value)'''
    from GPy.kern import Kern
    b = BASE.get(type(k).__name__) or kind(k)
    for p in k.parameters: # In the order of the whole parameter vector
        if isinstance(p, Kern): yield from assign(p, pick, stdper)
        else: yield p, decode(b, pname(p), pick(b, pname(p)), stdper)

def gk(k, enc = encode, stdper = False):
    kids, ps = children(k)
    kk = kind(k)
    b = BASE.get(type(k).__name__) or kk
    p = {pname(x): enc(b, pname(x), x.values.ravel()[0] if hasattr(x, 'values') else float(x), stdper) for x in ps}
    if kk == 'B': return {'k': 'B', 'n': b, 'p': p}
    if kk in ('S', 'P'): return {'k': kk, 'c': [gk(x, enc, stdper) for x in kids]}
    return {'k': kk, 'l': gk(kids[0], enc, stdper), 'r': gk(kids[1], enc, stdper), 'p': p}

def lattice_weight(g):
    '''A bound on (value, denominator) of exact values of a kernel on the lattice: only for keeping within TLC's integers'''
    if g['k'] == 'B':
        v = abs(g['p'].get('variance', 1))
        if g['n'] == 'LIN': return v * 9, 4
        if g['n'] in ('S', 'Sr', 'SI', 'SIr'): return v, 576 if flags()['fixslope'] else 14400
        if g['n'] == 'SE': return v, 2 ** g['p'].get('lengthscale', 1)
        if g['n'] == 'PER': return v, max(2, 2 ** (2 * g['p'].get('lengthscale', 0)))
        return v, 1
    if g['k'] in ('S', 'P'):
        b, d = (0, 1) if g['k'] == 'S' else (1, 1)
        for x in g['c']:
            xb, xd = lattice_weight(x)
            b, d = (b + xb, math.lcm(d, xd)) if g['k'] == 'S' else (b * max(xb, 1), d * xd)
        return b, d
    (lb, ld), (rb, rd) = lattice_weight(g['l']), lattice_weight(g['r'])
    if 'shift_variance' in g['p']: lb = 2 * lb + g['p']['shift_variance']
    return lb + rb, math.lcm(ld, rd) * ((16 if g['k'] == 'CP' else 576) if flags()['fixslope'] else (144 if g['k'] == 'CP' else 14400))

def sigmoid(f): # A sigmoidal kernel by itself
    import numpy as np
    name, ps = f['n'], {k: v / 2 for k, v in f['p'].items()}
    from GPy_ABCD.Kernels import sigmoidalKernels as Sk
    cls = Sk.SigmoidalIndicatorKernel if name in ('SI', 'SIr') else Sk.SigmoidalKernel
    if 'slope' not in ps: ps['slope'] = .5
    fixed, variance = flags()['fixslope'], rng.randint(1, 3)
    if rng.random() < .5: k = cls(1, name.endswith('r'), variance, **ps, fixed_slope = fixed)
    else:
        k = cls(1, name.endswith('r'), slope = ps['slope'], fixed_slope = fixed)
        k.K(np.array([[0.], [.5]]))
        todo = [(p, float(variance) if pname(p) == 'variance' else ps[pname(p)]) for p in k.parameters]
        rng.shuffle(todo)
        for p, v in todo: p[:] = v
    return k

def gk_sigmoid(name, k): return {'k': 'B', 'n': name, 'p': {pname(p): near(float(p.values.ravel()[0]) * (1 if pname(p) == 'variance' else 2)) for p in k.parameters}}
