'''Replays generated changes on the synthetic data generators.'''
import sys
from common import *
import numpy as np

def enc(v):
    r = round(float(v) * 4)
    return r if abs(float(v) * 4 - r) < 1e-6 * max(1, abs(r)) else -99999

def main(inp, outp):
    import GPy_ABCD.Util.dataAndPlottingUtil as d
    out = Out(outp)
    for n, p in enumerate(read_lines(inp)):
        rng = random.Random(SEED * 7919 + n)
        xs = list(range(-1, 10)); rng.shuffle(xs); xs = xs[:rng.randint(1, 11)]
        weight, noise, seed = rng.choice((1, 2, -1)), rng.choice((0, 0.5, 3)), rng.randint(0, 99)
        style = rng.choice(('ints', 'floats', 'column')) if all(x % 2 == 0 for x in xs) else rng.choice(('floats', 'column', 'list'))
        r = {'p': p, 'xs': xs, 'weight': weight, 'noise': str(noise), 'style': style, 'exc': []}
        def fun(c, mixed): # As a user would write it: its values may be integers at some points
            def f(x):
                v = c[0] + c[1] * x + c[2] * x * x
                return int(v) if mixed and v == int(v) else v
            return f
        f1, f2 = fun(p['f1'], rng.random() < .5), fun(p['f2'], rng.random() < .5)
        s, e = p['s'] / 2, p['e'] / 2
        def given(xs):
            if style == 'ints': return [x // 2 for x in xs]
            a = np.array([x / 2 for x in xs])
            return a[:, None] if style == 'column' else list(a) if style == 'list' else a
        def gen(xs):
            np.random.seed(seed)
            if p['kind'] == 'CP': X, Y = d.generate_changepoint_data(given(xs), f1, f2, s, weight, noise, p['lined'])
            elif p['kind'] == 'CW': X, Y = d.generate_changewindow_data(given(xs), f1, f2, s, e, weight, noise, p['lined'])
            else: X, Y = d.generate_data(f1, given(xs), weight, noise)
            np.random.seed(seed)
            assert Y.shape == (len(xs), 1) and X.shape == (len(xs), 1), f'shapes {X.shape}, {Y.shape}'
            return X, Y - noise * np.random.randn(len(xs), 1)
        def obs(name, f):
            res, exc = attempt(f)
            if exc: r['exc'].append(name + ': ' + exc)
            r[name] = [] if exc else [res]
        if p['kind'] != 'one':
            mk = (lambda: d.cp_f_maker(f1, f2, s, p['lined'])) if p['kind'] == 'CP' else (lambda: d.cw_f_maker(f1, f2, s, e, p['lined']))
            obs('maker', lambda: [enc(v) for v in np.ravel(mk()(given(xs)))])
        else: r['maker'] = []
        obs('data', lambda: [enc(v) for v in gen(xs)[1].ravel()])
        obs('x', lambda: [[round(float(v) * 2) for v in row] for row in gen(xs)[0]])
        order = list(range(len(xs))); rng.shuffle(order)
        def shuffled():
            Y = gen([xs[j] for j in order])[1].ravel()
            return [enc(Y[order.index(j)]) for j in range(len(xs))]
        obs('shuffled', shuffled)
        out.put(r)
    out.close()

main(*sys.argv[1:])
