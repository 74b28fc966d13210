'''Evaluates the utility functions on given numbers, and scores fitted models of generated expressions.'''
import sys, contextlib
import numpy as np
from gpk import *

def minus_log_predictive(A, y):
    '''The mean over points and outputs of minus the log density of each given all others, by conditioning on these explicitly'''
    n, total = len(A), []
    for i in range(n):
        rest = [j for j in range(n) if j != i]
        w = np.linalg.solve(A[np.ix_(rest, rest)], A[rest, i])
        mean, var = w @ y[rest], A[i, i] - w @ A[rest, i]
        total += list(.5 * np.log(2 * np.pi * var) + .5 * (y[i] - mean) ** 2 / var)
    return sum(total) / len(total)

def main(inp, outp):
    import GPy
    from GPy_ABCD import BIC, AIC, AICc, fit_kex, fit_GPy_kern
    from GPy_ABCD.Util.modelUtil import LA_LOO
    from GPy_ABCD.Models.model import GPModel
    out = Out(outp)
    def judged(m, f, value, k, offset): return value == offset + k == m.cached_utility_function and m.cached_utility_function_type == f.__name__
    def optimize(self, *a, **kw):
        self.update_model(False)
        self.likelihood.variance = 1.5
        for p, _ in assign(self.kern, lambda b, n: 1): p[:] = {'variance': 1.3, 'lengthscale': 1.1, 'period': 2.3, 'offset': .4, 'location': .9, 'width': 1.2, 'slope': .7}[pname(p)]
        self.update_model(True)
    GPy.models.GPRegression.optimize_restarts = optimize
    GPy.models.GPRegression.plot = lambda self, *a, **kw: None

    for t in read_lines(inp):
        if 'll' in t:
            den = abs(t['n'] - t['k'] - 1) or 1
            r = {'kind': 'formula', **t, 'den': den, 'exc': '', 'aic': 0, 'aicc': [], 'bic': 0}
            def work():
                a = (t['ll'], t['n'], t['k']) if rng.random() < .5 else (float(t['ll']), t['n'], t['k'])
                r['aic'], r['bic'] = round(AIC(None, *a) * den), round(BIC(None, *a) * 1e6)
                if abs(AIC(None, *a) - r['aic'] / den) > 1e-9: r['aic'] = -10 ** 9
                if t['n'] > t['k'] + 1:
                    x = AICc(None, *a) * den
                    r['aicc'] = [round(x) if abs(x - round(x)) < 1e-6 else -10 ** 9]
            _, r['exc'] = attempt(work)
            out.put(r); continue
        r = {'kind': 'model', 't': t, 'exc': '', 'k': 0, 'n': 0, 'points': 0, 'll': False, 'loo': False, 'given': False, 'kept': False, 'fit': True}
        def work():
            root = as_root(build(t))
            r['t'] = ser(root)
            n = rng.randint(4, 9)
            xs, ys = sorted(rng.uniform(0, 4) for _ in range(n)), [rng.uniform(-2, 2) for _ in range(n)]
            cols = rng.choice((1, 1, 2))
            if cols == 2: ys = [[v, rng.uniform(-2, 2)] for v in ys]
            y = np.array(ys).reshape(n, cols)
            seen = []
            def probe(m, ll, n_, k): seen.append((m, ll, n_, k)); return 7. + k
            direct = rng.random() < .2 # Not through a model
            if direct:
                with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f): reg = fit_GPy_kern(xs if rng.random() < .5 else np.array(xs)[:, None], y if cols == 2 or rng.random() < .5 else ys, root.to_kernel(), 2, probe)
                r['fit'] = seen[-1][0] is reg and len(seen) == 1
                m = GPModel(np.array(xs)[:, None], y, root).fit(2)
                value = m.compute_utility(probe)
                r['fit'] = bool(r['fit'] and len(seen) == 2 and np.allclose(seen[0][1:], seen[1][1:]) and sorted(reg.parameter_names()) == sorted(m.model.parameter_names()))
                del seen[0]
            elif rng.random() < .3:
                with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f): m = fit_kex(xs if rng.random() < .5 else np.array(xs)[:, None], y if cols == 2 or rng.random() < .5 else ys, root, 2, probe)
                value = m.cached_utility_function
            else:
                m = GPModel(np.array(xs)[:, None], y, root).fit(2)
                value = m.compute_utility(probe)
            loo = LA_LOO(*m._ordered_score_ps())
            g, ll, r['n'], r['k'] = seen[-1]
            r['n'], r['k'], r['points'] = int(r['n']), int(r['k']), n
            A = m.model.kern.K(np.array(xs)[:, None]) + 1.5 * np.eye(n)
            true = -.5 * np.trace(y.T @ np.linalg.solve(A, y)) - .5 * cols * np.linalg.slogdet(A)[1] - .5 * cols * n * np.log(2 * np.pi)
            r['ll'] = bool(abs(true - ll) < 1e-4 * max(1, abs(true)))
            r['loo'] = bool(abs(loo - minus_log_predictive(A, y)) < 1e-6 * max(1, abs(loo)))
            r['given'] = bool(g is m.model)
            r['kept'] = judged(m, probe, value, r['k'], 7.) and len(seen) == 1
            other = lambda m, ll, n_, k: (seen.append((m, ll, n_, k)), 11. + k)[1] # Another function of the same name is no reason not to use it
            other.__name__ = 'probe'
            r['kept'] = bool(r['kept'] and judged(m, other, m.compute_utility(other), r['k'], 11.) and len(seen) == 2 and seen[0] == seen[1])
        _, r['exc'] = attempt(work)
        out.put(r)
    out.close()

main(*sys.argv[1:])
