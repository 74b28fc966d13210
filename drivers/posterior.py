'''Predictions of models with chosen parameters: exact ones from one or two observations, and at generic points from several.'''
import sys
from statistics import NormalDist
import numpy as np
from gpk import *

def main(inp, outp):
    import GPy
    from GPy_ABCD.Models.model import GPModel
    fl = flags()
    out = Out(outp)
    K_SMALL = {1: 9000, 2: 140} # Of numerators, for the specification's integers

    def pick(b, n):
        if n in ('variance', 'shift_variance'): return rng.randint(1, 3)
        if n == 'lengthscale': return rng.randint(1, 2) if b == 'SE' else 0
        if n == 'period': return rng.choice((2, 4))
        if n in ('width', 'slope'): return rng.choice((1, 2))
        if n == 'offset': return rng.randint(-1, 3)
        return rng.choice((0, 1)) # location
    def generic(b, n):
        return {'variance': rng.uniform(.5, 2), 'shift_variance': rng.uniform(.5, 2), 'lengthscale': rng.uniform(.6, 1.5), 'period': rng.uniform(.9, 2.5), 'width': rng.uniform(.7, 1.5), 'slope': rng.uniform(.3, .8),
                'offset': rng.uniform(-.5, 2), 'location': rng.uniform(.1, 1.)}[n]
    state = {}
    def optimize(self, *a, **kw): # In place of the optimiser
        self.update_model(False)
        self.likelihood.variance = state['noise']
        for p, v in list(assign(self.kern, state['pick'])):
            p[:] = v if state['codes'] else state['pick'](None, pname(p))
        self.update_model(True)
    GPy.models.GPRegression.optimize_restarts = optimize
    def fitted(root, X, Y, noise, pick, codes): state.update(noise = noise, pick = pick, codes = codes); return GPModel(X, Y, root).fit(1)

    def ask(m, at, cols, lik, part, noise, full, noisy, quantiles):
        kw = {}
        if part: kw['kern'] = m.model.kern.parts[part - 1]
        if noise: kw['likelihood'] = GPy.likelihoods.Gaussian(variance = noise)
        if not noisy: kw['include_likelihood'] = False
        if full: kw['full_cov'] = True
        if quantiles != (2.5, 97.5) or rng.random() < .3: kw['quantiles'] = quantiles
        r = m.predict(at, **kw)
        z = [NormalDist().inv_cdf(v / 100) for v in quantiles]
        lo, hi, mean = r['low_quantile'], r['high_quantile'], r['mean']
        shape = mean.shape == lo.shape == hi.shape == (len(at), cols) and r['covariance'].shape == (len(at), len(at) if full else 1)
        sides = all(np.all(np.sign(x - mean) == np.sign(v)) for x, v in ((lo, z[0]), (hi, z[1])))
        squares = [[((x[a, c] - mean[a, c]) / v) ** 2 for x, v in ((lo, z[0]), (hi, z[1])) for c in range(cols)] for a in range(len(at))]
        return mean, r['covariance'], squares, bool(shape), bool(sides)
    I = lambda x: int(round(float(x) * 1e5))
    QS = ((2.5, 97.5), (5, 95), (10, 99), (16, 84), (60, 80))

    def exact(root, r):
        n, cols = rng.choice((1, 1, 2)), rng.choice((1, 1, 2))
        r['x'], r['at'] = [rng.choice((0, 1)) for _ in range(n)], rng.choice(([0, 1], [1, 0], [0], [1, 1]))
        r['y'], r['noise'] = [[rng.randint(-2, 3) for _ in range(cols)] for _ in r['x']], rng.choice((1, 2))
        X, Y, at = np.array(r['x'], float)[:, None] / 2, np.array(r['y'], float), np.array(r['at'], float)[:, None] / 2
        m = fitted(root, X, Y, r['noise'], pick, True)
        g = gk(m.model.kern)
        b, d = lattice_weight(g)
        if (b + r['noise']) * d > K_SMALL[n]: n = 1; r['x'], r['y'] = r['x'][:1], r['y'][:1]; X, Y = X[:1], Y[:1]; m = fitted(root, X, Y, r['noise'], pick, True); g = gk(m.model.kern); b, d = lattice_weight(g)
        if (b + r['noise']) * d > K_SMALL[n]: return
        r['g'] = [g]
        before = X.copy(), Y.copy(), at.copy(), m.model.param_array.copy()
        parts = [0] + (list(range(1, len(g['c']) + 1)) if g['k'] == 'S' else [])
        for _ in range(3):
            q = {'part': rng.choice(parts), 'noise': rng.choice((0, 0, 3)), 'full': rng.random() < .5, 'noisy': rng.random() < .6}
            mean, cov, squares, q['shape'], q['sides'] = ask(m, at, cols, None, q['part'], q['noise'], q['full'], q['noisy'], rng.choice(QS))
            q['mean'], q['cov'], q['quantiles'] = [[I(v) for v in row] for row in mean], [[I(v) for v in row] for row in cov], [[I(v) for v in row] for row in squares]
            r['asked'].append(q)
        r['kept'] = bool(all(np.array_equal(a, b) for a, b in zip(before, (X, Y, at, m.model.param_array))) and ser(root) == r['t'])

    def at_generic(root, r):
        n, cols = rng.randint(3, 8), rng.choice((1, 1, 2))
        X, Y = np.array([[rng.uniform(-1, 3)] for _ in range(n)]), np.array([[rng.uniform(-2, 2) for _ in range(cols)] for _ in range(n)])
        at = np.array([[rng.uniform(-1, 4)] for _ in range(rng.randint(1, 5))])
        if rng.random() < .3: at[0] = X[0]
        if rng.random() < .3: at = np.vstack((X[:1], np.array([[rng.uniform(-1, 4)] for _ in range(n - 2)]), X[-1:])) # As many as the data, with some in common
        whole = rng.choice((None, None, 'data', 'points')) # Numbers of one kind do not change the others
        if whole == 'data': X, Y = np.round(X + .1 * np.arange(n)[:, None]).astype(int), np.round(Y).astype(int)
        elif whole == 'points': at = np.round(at).astype(rng.choice((int, np.int32)))
        m = fitted(root, X, Y, .3, generic, False)
        parts = [0] + (list(range(1, len(m.model.kern.parts) + 1)) if kind(m.model.kern) == 'S' else [])
        A = m.model.kern.K(X) + .3 * np.eye(n)
        for part in parts:
            full, noisy = rng.random() < .5, rng.random() < .5
            k = m.model.kern if not part else m.model.kern.parts[part - 1]
            mean, cov, squares, shape, sides = ask(m, at, cols, None, part, 0, full, noisy, rng.choice(QS))
            cross = k.K(at, X)
            tm, tc = cross @ np.linalg.solve(A, Y), k.K(at) - cross @ np.linalg.solve(A, cross.T)
            tol = 1e-5 * max(1, np.abs(tc).max(), np.abs(k.K(at)).max())
            wanted = tc + (.3 * np.eye(len(at)) if noisy else 0)
            if not np.allclose(mean, tm, atol = tol): r['off'].append(f'mean, part {part}')
            if not np.allclose(cov, wanted if full else np.diag(wanted)[:, None], atol = tol): r['off'].append(f'covariance, part {part}')
            if not np.allclose(squares, np.repeat((np.diag(tc) + .3)[:, None], 2 * cols, 1), atol = 10 * tol): r['off'].append(f'quantiles, part {part}')
            if not (shape and sides): r['off'].append('shape or sides')
        one, two = m.predict(at), [m.predict(at[j:j + 1]) for j in range(len(at))] # Points do not influence each other
        for f in one:
            if not np.allclose(one[f], np.vstack([t[f] for t in two]), atol = 1e-6 * max(1, np.abs(A).max())): r['off'].append(f'one point at a time: {f}')

    for t in read_lines(inp):
        r = {'t': t, 'exc': '', 'g': [], 'x': [], 'y': [], 'at': [], 'noise': 1, 'asked': [], 'kept': True, 'off': []}
        def work():
            root = as_root(build(t))
            r['t'] = ser(root)
            exact(root, r)
            at_generic(root, r)
        _, r['exc'] = attempt(work)
        if r['exc']: r['asked'] = []
        out.put(r)
    out.close()

main(*sys.argv[1:])
