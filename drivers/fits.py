'''Fits lists of kernels under scripted failures of the optimiser, one by one, in series and in parallel processes.'''
import sys, tempfile
import numpy as np
from gpk import *

class Numerical(Exception): pass
class Singular(Numerical, np.linalg.LinAlgError): pass
class Invalid(Numerical, ValueError): pass
class Overflown(Numerical, OverflowError): pass
class Broken(Numerical, RuntimeError): pass

def main(inp, outp):
    import GPy
    import GPy_ABCD.Models.modelSearch as ms
    out = Out(outp)
    X, Y = np.array([[0.], [.5], [2.], [3.]]), np.array([[1.], [0.], [2.], [1.5]])
    TREES = [{'k': 'S', 'b': ['SE'], 'c': []}, {'k': 'CP', 'l': {'k': 'B', 'n': 'LIN'}, 'r': {'k': 'B', 'n': 'PER'}}, {'k': 'P', 'b': ['LIN', 'PER'], 'c': []},
             {'k': 'CW', 'l': {'k': 'B', 'n': 'C'}, 'r': {'k': 'S', 'b': ['SE', 'LIN'], 'c': []}}, {'k': 'S', 'b': ['WN', 'LIN'], 'c': []},
             {'k': 'P', 'b': ['SE'], 'c': [{'k': 'CP', 'l': {'k': 'B', 'n': 'C'}, 'r': {'k': 'B', 'n': 'LIN'}}]}]
    TREES += [{'k': 'S', 'b': ['PER'] * a + ['LIN'] * b + ['SE'] * d, 'c': []} for a in (1, 2, 3) for b in (0, 1, 2, 3) for d in (0, 1, 2) if a + b + d > 1]
    logf = tempfile.mktemp(dir = os.getcwd())

    current = {}

    def values(ker, v):
        '''Parameters which depend on the attempt'''
        for q, (p, _) in enumerate(assign(ker, lambda b, n: 1)): p[:] = .5 + .25 * v + .125 * (q % 3)

    def scripted(self, *args, **kwargs): # In place of the optimiser
        j = current['which'](self.kern)
        with open(logf) as f: a = sum(1 for l in f if l.split()[0] == str(j)) + 1
        num = args[0] if args else kwargs.get('num_restarts')
        opt = kwargs.get('optimizer')
        with open(logf, 'a') as f: f.write(f'{j} {num} {opt}\n')
        s = current['scripts'][j - 1]
        what = s[a - 1] if a <= len(s) else 'ok'
        self.update_model(False)
        self.likelihood.variance = 1.
        values(self.kern, a)
        self.update_model(True)
        if what == 'fail': raise (Numerical, Singular, Invalid, Overflown, Broken)[(j + 2 * a) % 5](f'{j} {a}')
        if what == 'stop': raise (KeyboardInterrupt if (j + a) % 2 or current['mode'] == 'parallel' else SystemExit)()
    GPy.models.GPRegression.optimize_restarts = scripted

    def sig(ker): return json.dumps(gk(ker, lambda b, n, v, s = False: 0), sort_keys = True)

    for t in read_lines(inp):
        n = len(t['scripts'])
        order = list(range(len(TREES)))
        if n <= 6: rng.shuffle(order := order[:8])
        kexs = [as_root(build(TREES[order[j]])) for j in range(n)]
        sigs = {sig(k.to_kernel()): j + 1 for j, k in enumerate(kexs)}
        restarts, opt = rng.randint(1, 9), rng.choice(ms.GPy_optimisers)
        current.update(which = lambda ker: sigs[sig(ker)], scripts = t['scripts'], mode = t['mode'])
        open(logf, 'w').close()
        r = {**t, 'exc': '', 'raised': [], 'models': [], 'version': [], 'warnings': 0, 'alive': True}
        before = [ser(k) for k in kexs]
        import time
        with warnings.catch_warnings(record = True) as ws:
            warnings.simplefilter('always')
            try:
                if t['mode'] == 'one': res = [ms.fit_one_model(X, Y, k, restarts, opt, t['retries']) for k in kexs]
                elif t['mode'] == 'serial': res = ms.fit_mods_not_parallel(X, Y, kexs, restarts, opt, t['retries'])
                else: res = ms.fit_mods_parallel_processes(X, Y, kexs, restarts, opt, t['retries'])
            except Numerical as e: r['exc'], r['raised'], res = 'error', [int(x) for x in str(e).split()], []
            except (KeyboardInterrupt, SystemExit): r['exc'], res = 'interrupt', []
            except Exception as e: r['exc'], res = f'{type(e).__name__}: {e}'[:200], []
        r['warnings'] = sum('Retry' in str(w.message) for w in ws)
        with open(logf) as f: lines = [l.split() for l in f]
        r['attempts'] = [sum(l[0] == str(j + 1) for l in lines) for j in range(n)]
        r['options'] = all(l[1:] == [str(restarts), opt] for l in lines)
        r['untouched'] = [ser(k) for k in kexs] == before
        for m in res:
            r['models'].append(next((j + 1 for j in range(n) if key(m.kernel_expression) == key(kexs[j])), 0))
            first = next(assign(m.model.kern, lambda b, n: 1))[0]
            r['version'].append(round((float(np.ravel(first)[0]) - .5) * 4))
            ok = True
            fresh = m.kernel_expression.to_kernel() # The model evaluates, and keeps evaluating, as its parameters say
            for v in (r['version'][-1], 7):
                if v == 7: m.model.update_model(False); values(m.model.kern, v); m.model.update_model(True)
                values(fresh, v)
                ok = ok and np.allclose(m.model.kern.K(X), fresh.K(X)) and np.allclose(m.model.predict_noiseless(X)[0], fresh.K(X, X.copy()) @ np.linalg.solve(fresh.K(X) + np.eye(len(X)), Y), atol = 1e-4)
            if os.environ.get('DEBUG') and not ok: print(key(m.kernel_expression), np.abs(m.model.kern.K(X) - fresh.K(X)).max(), m.model.predict_noiseless(X)[0].T, (fresh.K(X, X.copy()) @ np.linalg.solve(fresh.K(X) + np.eye(len(X)), Y)).T)
            ok = ok and np.array_equal(m.X, X) and np.array_equal(m.Y, Y) and m.restarts == restarts and m.kernel_expression._check_all_parents() and m.kernel_expression.root is m.kernel_expression
            r['alive'] = bool(r['alive'] and ok)
        out.put(r)
    os.path.exists(logf) and os.remove(logf)
    out.close()

main(*sys.argv[1:])
