'''Makes reports of all kinds: benchmark tables (under a clock of its own), sample curves, printed models and kernels.'''
import contextlib, io, re, shutil, sys, time
import numpy as np
from gpk import *

clock = [1000]
REAL = {f: getattr(time, f) for f in ('perf_counter', 'monotonic', 'process_time', 'time', 'sleep')}

def main(inp, outp):
    for f in ('perf_counter', 'monotonic', 'process_time', 'time'): setattr(time, f, lambda: float(clock[0])) # Before the import, which may take the functions themselves
    for f in ('perf_counter_ns', 'monotonic_ns', 'process_time_ns', 'time_ns'): setattr(time, f, lambda: clock[0] * 10 ** 9)
    time.sleep = lambda s: clock.__setitem__(0, clock[0] + 1000)
    from GPy_ABCD.Util import benchmarking as bm
    fake = {f: getattr(time, f) for f in REAL}
    def own_clock(on):
        for f in REAL: setattr(time, f, (fake if on else REAL)[f])
    own_clock(False)
    import GPy
    from matplotlib import pyplot as plt
    from GPy_ABCD import BIC, AIC, fit_GPy_kern, fit_kex
    from GPy_ABCD.Util.kernelUtil import sampleCurves, saveKernelSamples
    from GPy_ABCD.Util.modelUtil import model_printout, AICc, LA_LOO
    from GPy_ABCD.Models.model import GPModel
    out = Out(outp)
    I = lambda x: int(round(float(x) * 1e5))

    # ---- Benchmarks

    def bench(t):
        r = {'kind': 'bench', 'fs': t['fs'], 'exc': '', 'timed': [], 'called': True, 'tables': []}
        n, count = len(t['fs'][0]), {}
        def timed(j, args, kw):
            def f(*a, **k):
                if (a, k) != (args, kw): r['called'] = False
                clock[0] += t['fs'][j][count.setdefault(j, 0)]
                count[j] += 1
            return f
        def rows(df):
            return [{'f': int(str(x['f'])[1:]), 'mean': I(x['mean']), 'mean1': I(x['mean excl. 1st']), 'best': I(x['best mean ratio']), 'best1': I(x['best mean1 ratio']),
                     'next': I(x['next mean ratio']), 'next1': I(x['next mean1 ratio']), 't': [int(round(x[c])) for c in ('t0', 't1', 't2')]} for x in df.to_dict('records')]
        def compare(js):
            own = [j for j in js if rng.random() < .4]
            if len(own) == len(js): own = own[1:]
            args, kw = rng.choice(((None, None), ([3, 'a'], None), (None, {'p': 1}), ([2], {'q': 'b'})))
            fs = {f'f{j + 1}': timed(j, tuple(args or ()), kw or {}) for j in js if j not in own}
            others = {f'f{j + 1}': (timed(j, (j,), {'s': j}), [j], {'s': j}) for j in own}
            return bm.compare_implementations(fs, n, 1, False, others or None, args, kw)
        def work():
            js = list(range(len(t['fs'])))
            a, kw = rng.choice((((), {}), ((1,), {}), ((1,), {'z': 2})))
            r['timed'] = [int(x) for x in bm.timethis(timed(0, a, kw), n, *a, **kw)]
            r['called'] = r['called'] and count == {0: n}
            count.clear()
            r['tables'].append(rows(compare(js)))
            r['called'] = r['called'] and count == {j: n for j in js}
            if len(js) > 1:
                count.clear()
                cut = rng.randint(1, len(js) - 1)
                rng.shuffle(js)
                parts = [compare(js[:cut]), compare(js[cut:])]
                before = [p.copy() for p in parts]
                r['tables'].append(rows(bm.merge_bench_tables(*parts, verbose = False)))
                if not all(p.equals(b) for p, b in zip(parts, before)): r['called'] = False
        own_clock(True)
        try: _, r['exc'] = attempt(work)
        finally: own_clock(False)
        out.put(r)

    # ---- Sample curves

    def lines_of(plot):
        fig = plot.draw()
        try: return [np.array(l.get_xydata()) for ax in fig.axes for l in ax.lines] + [np.array(s) for ax in fig.axes for c in ax.collections if hasattr(c, 'get_segments') for s in c.get_segments()]
        finally: plt.close(fig)
    def normal_ish(ratio, d): # The Wilson-Hilferty deviate of a chi square over its degrees of freedom
        return abs((ratio ** (1 / 3) - (1 - 2 / (9 * d))) / (2 / (9 * d)) ** .5) < 7
    def compatible(ker, xs, ys):
        '''Whether curves are in the span of the kernel's covariance, and whether their coefficients there are those of independent standard normals'''
        at = np.linspace(0, len(xs) - 1, 40).round().astype(int)
        w, U = np.linalg.eigh(ker.K(xs[at][:, None]))
        big = w > 1e-6 * w.max()
        z = (ys[:, at] @ U[:, big]) / np.sqrt(w[big])
        rest = ((ys[:, at] @ U[:, ~big]) ** 2).sum() / len(ys)
        n, d = z.shape
        spread = all(normal_ish((z[:, c] ** 2).mean(), n) and abs(z[:, c].mean()) * n ** .5 < 7 for c in range(d)) and normal_ish((z ** 2).mean(), n * d)
        if n > 30: spread = spread and np.abs(np.corrcoef(z.T) - np.eye(d)).max() * n ** .5 < 8 if d > 1 else spread
        if n > 1: spread = spread and abs((z[1:] * z[:-1]).sum()) < 8 * ((n - 1) * d) ** .5 # Nor do curves depend on each other
        return bool(rest < 1e-3 * w.max()), bool(spread)
    def curves(t):
        named = {'LIN': 1, 'LIN LIN': 2} # Of which the parameters (where the curve is zero) can be seen
        r = {'kind': 'curves', **t, 'exc': '', 'lines': 0, 'points': False, 'vs': [], 'within': True, 'spread': True}
        def work():
            b = t['bases']
            ker = as_root(build(t['t'])).to_kernel()
            lims = rng.choice(((-3., 3.), (0., 4.), (-1, 2), [2.5, 7.5], (10, 11)))
            np.random.seed(rng.randrange(10 ** 6))
            n, same = t['n'], t['same']
            how = rng.randrange(3)
            if how == 0: p = sampleCurves(ker, lims, n, same)
            elif how == 1: p = sampleCurves(ker, xlims = lims, n_curves = n, same_kernel = same)
            else:
                kw = {'same_kernel': True} if same else {}
                if lims != (-3., 3.): kw['xlims'] = lims
                if n != 5: kw['n_curves'] = n
                p = sampleCurves(ker, **kw)
            ls = lines_of(p)
            r['lines'] = len(ls)
            if not ls or len({len(l) for l in ls}) != 1: return
            xs = ls[0][:, 0]
            r['points'] = bool(all(np.array_equal(l[:, 0], xs) for l in ls) and len(xs) >= 50 and np.allclose(xs, np.linspace(*lims, len(xs))))
            ys = np.array([l[:, 1] for l in ls])
            if b in named:
                seen = []
                for y in ys:
                    c = np.polyfit(xs - np.mean(lims), y, named[b])
                    s = c[1:] / (c[0] or 1e-9)
                    q = next((q for q, o in enumerate(seen) if np.allclose(s, o, rtol = 1e-3, atol = 1e-3)), len(seen))
                    if q == len(seen): seen.append(s)
                    r['vs'].append(q + 1)
            if same: r['within'], r['spread'] = compatible(ker, xs, ys)
            else: # The kernel is left with the parameters of one of the curves
                each = [compatible(ker, xs, ys[j:j + 1]) for j in range(len(ys))]
                r['within'] = any(a for a, _ in each)
                r['spread'] = any(a and s for a, s in each)
        _, r['exc'] = attempt(work)
        out.put(r)

    def saved(t):
        r = {'kind': 'saved', 'exc': '', 'files': [], 'names': [], 'strays': 0, 'images': True}
        base = tempfile.mkdtemp(dir = os.getcwd())
        def work():
            kers = [as_root(build(x)).to_kernel() for x in t['ts']]
            names = rng.sample(['a', 'WN + PER', 'CP(LIN, C)', 'kernel.1', 'Z_9'], len(kers))
            folder = os.path.join(base, rng.choice(('plots', 'some plots/of kernels')))
            os.makedirs(folder)
            seed, before = rng.randrange(10 ** 6), set(os.listdir(os.getcwd()))
            rest = rng.choice(((), ((-1., 2.),), ((0., 5.), 3), ((0., 5.), 2, True), ((-2., 2.), 3, False)))
            kw = dict(zip(('xlims', 'n_curves', 'same_kernel'), rest)) if rng.random() < .5 else {}
            np.random.seed(seed)
            saveKernelSamples(kers, names, folder, *(() if kw else rest), **kw)
            r['names'], r['files'] = sorted(f'{n}.png' for n in names), sorted(os.listdir(folder))
            r['strays'] = len(set(os.listdir(os.getcwd())) - before) + sum(len(f) for d, _, f in os.walk(base) if os.path.realpath(d) != os.path.realpath(folder))
            np.random.seed(seed)
            again = [as_root(build(x)).to_kernel() for x in t['ts']]
            for n, k in zip(names, again):
                other = os.path.join(base, 'other.png')
                sampleCurves(k, *rest).save(other, verbose = False)
                if r['files'] == r['names'] and not np.array_equal(plt.imread(other), plt.imread(os.path.join(folder, f'{n}.png'))): r['images'] = False
        try: _, r['exc'] = attempt(work)
        finally: shutil.rmtree(base, ignore_errors = True); plt.close('all')
        out.put(r)

    # ---- Printed models and kernels

    seen, plots = [], []
    def optimize(self, *a, **kw): # In place of the optimiser
        seen.append((self, a, dict(kw)))
        self.update_model(False)
        self.likelihood.variance = rng.uniform(.5, 2)
        for p, _ in assign(self.kern, lambda b, n: 1): p[:] = rng.uniform(.5, 2)
        self.update_model(True)
    def number(text, name):
        m = re.search(rf'^{re.escape(name)}: (\S+)$', text, re.M)
        return [I(m[1])] if m else []
    squeeze = lambda s: re.sub(r'\x1b\[[0-9;]*m', '', re.sub(r'\s+', ' ', str(s))).strip()
    def printed(t):
        r = {'kind': 'printed', 'how': t['how'], 't': t['t'], 'exc': '', 'said': {}, 'true': {}, 'plotted': False, 'options': True, 'kept': True}
        def work():
            root = as_root(build(t['t']))
            n = rng.randint(6, 9)
            X, Y = np.array(sorted(rng.uniform(0, 4) for _ in range(n)))[:, None], np.array([[rng.uniform(-2, 2)] for _ in range(n)])
            score, restarts = rng.choice((BIC, AIC, LA_LOO)), rng.randint(1, 7)
            opt = rng.choice(({}, {'optimizer': 'scg'}, {'robust': True}))
            seen.clear(); plots.clear()
            buf = io.StringIO()
            if t['how'] == 'model':
                with contextlib.redirect_stdout(io.StringIO()): m = GPModel(X, Y, root).fit(restarts) if rng.random() < .5 else fit_kex(X, Y, root, restarts, score)
                m.compute_utility(score)
                plots.clear()
                before = m.model.param_array.copy(), ser(m.kernel_expression), m.cached_utility_function
                with contextlib.redirect_stdout(buf): model_printout(m)
                g, text = m.model, buf.getvalue()
                r['kept'] = bool(np.array_equal(before[0], g.param_array) and before[1:] == (ser(m.kernel_expression), m.cached_utility_function) and m.model is seen[-1][0] and len(seen) == 1)
                r['options'] = bool((seen[0][1] or (seen[0][2].get('num_restarts'),))[0] == restarts and np.array_equal(g.X, X) and np.array_equal(g.Y, Y))
                r['said'] = {'expression': any(squeeze(l) == squeeze(root) for l in text.splitlines()), 'text': squeeze(m.interpret()) in squeeze(text), 'll': number(text, 'Log-Lik')}
            else:
                ker = root.to_kernel()
                with contextlib.redirect_stdout(buf): g = fit_GPy_kern(*rng.choice(((X, Y), (list(X[:, 0]), list(Y[:, 0])), (X[:, 0], Y))), ker, restarts, score, **opt)
                text = buf.getvalue()
                r['options'] = bool(len(seen) == 1 and g is seen[0][0] and (seen[0][1] or (seen[0][2].get('num_restarts'),))[0] == restarts and opt.items() <= seen[0][2].items()
                                    and np.array_equal(g.X, X) and np.array_equal(g.Y, Y) and gk(g.kern) == gk(ker))
                r['said'] = {'expression': True, 'text': True, 'll': number(text, 'Log-Likelihood')}
            r['said']['kernel'] = squeeze(g.kern) in squeeze(text)
            r['said']['score'] = [score.__name__, *s] if (s := number(text, score.__name__)) else []
            ll = float(g.log_likelihood())
            k = len(g.optimizer_array)
            true = {'BIC': lambda: -2 * ll + k * np.log(n), 'AIC': lambda: 2 * k - 2 * ll, 'LA_LOO': lambda: -float(np.mean(g.inference_method.LOO(g.kern, g.X, g.Y, g.likelihood, g.posterior)))}[score.__name__]()
            r['true'] = {'ll': I(ll), 'name': score.__name__, 'score': I(true)}
            r['plotted'] = any(p is g for p in plots)
        _, r['exc'] = attempt(work)
        if r['exc']: r['said'] = r['true'] = {}
        out.put(r)

    fit_functions = GPy.models.GPRegression.optimize_restarts, GPy.models.GPRegression.plot
    for t in read_lines(inp):
        if t['kind'] == 'bench': bench(t)
        elif t['kind'] == 'curves': curves(t)
        elif t['kind'] == 'saved': saved(t)
        else:
            GPy.models.GPRegression.optimize_restarts, GPy.models.GPRegression.plot = optimize, lambda self, *a, **kw: plots.append(self)
            printed(t)
            GPy.models.GPRegression.optimize_restarts, GPy.models.GPRegression.plot = fit_functions
    out.close()

import tempfile
main(*sys.argv[1:])
