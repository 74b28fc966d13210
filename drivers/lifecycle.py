'''Lives of a model: replays sequences of actions; parameters, hence answers, depend on the number of the attempt to fit.'''
import sys, io, contextlib, pickle
from copy import deepcopy
import numpy as np
from gpk import *

class Numerical(Exception): pass

def main(inp, outp):
    import GPy, re
    from GPy_ABCD.Models.model import GPModel
    from GPy_ABCD.Util.modelUtil import model_printout
    GPy.models.GPRegression.plot = lambda self, *a, **kw: None
    out = Out(outp)
    X, Y = np.array([[0.], [.5], [2.]]), np.array([[1.], [0.], [2.]])
    T = [{'k': 'S', 'b': ['SE'], 'c': []}, {'k': 'P', 'b': ['SE', 'LIN'], 'c': []}, {'k': 'S', 'b': ['LIN'], 'c': [{'k': 'P', 'b': ['SE', 'PER'], 'c': []}]},
         {'k': 'CP', 'l': {'k': 'B', 'n': 'LIN'}, 'r': {'k': 'B', 'n': 'SE'}}, {'k': 'S', 'b': ['WN', 'SE'], 'c': []}]
    now = {}
    def values(ker, v):
        for p, _ in assign(ker, lambda b, n: 1):
            p[:] = {'variance': 1. + v, 'lengthscale': 1. + .5 * v, 'period': 2. + v, 'offset': .5 * v, 'location': .5 + .1 * v}[pname(p)]
    def optimize(self, num_restarts = None, **kwargs):
        now['tries'] += 1
        now['restarts'] = num_restarts
        self.update_model(False)
        self.likelihood.variance = 1.
        values(self.kern, now['tries'])
        self.update_model(True)
        if not now['ok']: raise Numerical('did not converge')
    GPy.models.GPRegression.optimize_restarts = optimize

    def f1(m, ll, n, k): return 1000. + float(m.kern.param_array[0]) if True else 0
    def f2(m, ll, n, k): return 2000. + float(m.kern.param_array[0])

    P = np.array([[.25], [1.], [4.]])
    ref = {}
    def reference(kex, v):
        k = (key(kex), v)
        if k not in ref:
            ker = kex.to_kernel()
            values(ker, v)
            A = ker.K(X) + np.eye(len(X))
            Ks = ker.K(P, X)
            mean = Ks @ np.linalg.solve(A, Y)
            var = ker.Kdiag(P)[:, None] - np.sum(Ks * np.linalg.solve(A, Ks.T).T, axis = 1, keepdims = True) + 1.
            m = GPy.models.GPRegression(X, Y, ker)
            m.likelihood.variance = 1.
            first = ker.param_array[0]
            texts = []
            ref[k] = mean, var, float(first)
        return ref[k]

    for hist in read_lines(inp):
        r = {'hist': hist, 'exc': '', 'said': [], 'unchanged': True}
        root = as_root(build(rng.choice(T)))
        before = key(root)
        now.update(tries = 0, ok = True, restarts = None)
        ms = [GPModel(X, Y, root)]
        def which(test):
            '''The one attempt of which this is the answer'''
            vs = [v for v in range(1, now['tries'] + 1) if test(v)]
            return vs[0] if len(vs) == 1 else -1
        def sop_of(s):
            return which(lambda v: all(abs(float(np.ravel(d['lengthscale'])[0]) - (1 + .5 * v)) < 1e-6 for t in s.composite_terms for n, ds in t.parameters.items() for d in ds if 'lengthscale' in d))
        def text_of(s):
            ls = [float(x) for x in re.findall(r'(?:smooth function with|changes smoothly with) lengthscale (\d+\.\d\d)', s)]
            return which(lambda v: ls and all(abs(l - (1 + .5 * v)) < .01 for l in ls))
        for h in hist:
            act, m = h['act'], ms[h['on'] - 1]
            said = {'error': False, 'of': 0, 'agree': True, 'restarts': 0, 'scores': []}
            now['ok'], now['restarts'] = act.get('ok', True), None
            try:
                if act['a'] == 'fit':
                    res = m.fit(act['restarts'] or None) if rng.random() < .5 or not act['restarts'] else m.fit(restarts = act['restarts'])
                    said['of'] = which(lambda v: abs(float(m.model.kern.param_array[0]) - reference(root, v)[2]) < 1e-6)
                    said['agree'] = res is m
                elif act['a'] == 'copy':
                    ms.append(deepcopy(m) if act['how'] == 'deepcopy' else pickle.loads(pickle.dumps(m)))
                    said['agree'] = ms[-1] is not m and m.kernel_expression is not ms[-1].kernel_expression
                elif act['a'] == 'sop': said['of'] = sop_of(m.sum_of_prods_kex)
                elif act['a'] == 'interpret': said['of'] = text_of(m.interpret())
                elif act['a'] == 'print':
                    with contextlib.redirect_stdout(io.StringIO()) as text: model_printout(m)
                    text = text.getvalue()
                    said['of'] = text_of(text)
                    said['agree'] = bool(text.startswith(f'{root}\n') and re.search(f'^Log-Lik: {m.model.log_likelihood()}$', text, re.M) and text.rstrip().endswith(m.interpret().rstrip())
                                         and re.search(f'^{m.cached_utility_function_type}: {m.cached_utility_function}$', text, re.M))
                elif act['a'] == 'predict':
                    p = m.predict(P)
                    said['of'] = which(lambda v: np.allclose(p['mean'], reference(root, v)[0], atol = 1e-4) and np.allclose(p['covariance'], reference(root, v)[1], atol = 1e-4))
                    sd = np.sqrt(p['covariance'])
                    noiseless = m.predict(P, include_likelihood = False)
                    full = m.predict(P, full_cov = True)
                    q = m.predict(P, quantiles = (16, 84))
                    said['agree'] = bool(np.allclose(p['low_quantile'], p['mean'] - 1.959964 * sd, atol = 1e-3) and np.allclose(p['high_quantile'], p['mean'] + 1.959964 * sd, atol = 1e-3)
                                         and np.allclose(noiseless['covariance'] + 1, p['covariance'], atol = 1e-4) and np.allclose(np.diag(full['covariance'])[:, None], p['covariance'], atol = 1e-4)
                                         and np.allclose(q['high_quantile'] - q['mean'], .994458 * sd, atol = 1e-3) and np.allclose(q['low_quantile'] - q['mean'], -.994458 * sd, atol = 1e-3))
                elif act['a'] == 'score':
                    f = {'f1': f1, 'f2': f2}[act['f']]
                    x = m.compute_utility(f)
                    said['of'] = which(lambda v: abs(x - {'f1': 1000, 'f2': 2000}[act['f']] - reference(root, v)[2]) < 1e-6)
            except (Numerical, ValueError, AttributeError, TypeError): said['error'], said['of'] = True, 0
            except Exception as e: r['exc'] = f'{type(e).__name__}: {e}'[:200]
            said['restarts'] = now['restarts'] or 0
            for x in ms:
                base = {'f1': 1000, 'f2': 2000}.get(x.cached_utility_function_type, 0)
                said['scores'].append([] if x.cached_utility_function is None and x.cached_utility_function_type is None else
                    [x.cached_utility_function_type, which(lambda v: x.cached_utility_function is not None and abs(x.cached_utility_function - base - reference(root, v)[2]) < 1e-6)])
            r['said'].append(said)
        r['unchanged'] = bool(ms[0].kernel_expression is root and all(key(m.kernel_expression) == before and not any(m.kernel_expression.parameters.values()) and np.array_equal(m.X, X) and np.array_equal(m.Y, Y) for m in ms))
        out.put(r)
    out.close()

main(*sys.argv[1:])
