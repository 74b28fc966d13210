'''Fits models of generated expressions with a stand-in optimiser which assigns chosen parameter values, and records
the fitted kernel, the expression with parameters, the sum-of-products form and the description.'''
import re, sys
import numpy as np
from gpk import *

TEXT = os.environ.get('MODE') == 'text'

def main(inp, outp):
    import GPy
    from GPy_ABCD.Models.model import GPModel
    from GPy_ABCD.KernelExpansion.kernelOperations import fit_ker_to_kex_with_params
    from copy import deepcopy
    SumKE, ProductKE, ChangeKE = K()
    fl = flags()
    stdper = fl['stdper']
    out = Out(outp)
    X = np.array([[0.], [.5], [2.]])
    Y = np.array([[1.], [0.], [2.]])

    def dec(b, n, c):
        if TEXT and n == 'lengthscale': return 60 / c ** .5 if b == 'SE' else c / 2
        return decode(b, n, c, stdper)
    def enc(b, n, v, sp = False):
        if TEXT and n == 'lengthscale': return near(3600 / float(v) ** 2) if b == 'SE' else near(2 * float(v))
        return encode(b, n, v, stdper)
    def pick(b, n):
        if TEXT and rng.random() < .1: # Now and then of another magnitude
            if n in ('variance', 'shift_variance'): return rng.choice((7, 25))
            if n == 'period': return rng.choice((25, 2015))
            if n == 'offset': return rng.choice((-2001, -46, 25, 9999))
            if n == 'lengthscale' and b == 'PER': return rng.choice((24, 2015))
            if n == 'location': return rng.choice((-12, 15))
            if n == 'width': return rng.choice((9, 14))
            if n == 'slope': return rng.choice((8, 21))
        if n in ('variance', 'shift_variance'): return rng.randint(1, 4)
        if n == 'lengthscale': return rng.choice((9, 16)) if TEXT and b == 'SE' else rng.randint(1, 9) if TEXT else rng.randint(1, 2) if b == 'SE' or stdper else 0
        if n == 'period': return rng.randint(1, 12) if TEXT else 4 if stdper else rng.choice((2, 3, 4, 6))
        if n == 'width': return rng.choice((1, 2, 3, 4))
        if n == 'slope': return rng.choice((1, 2, 3))
        if n == 'offset': return rng.randint(-3, 7)
        return rng.choice((-1, 0, 1, 2, 3)) # location

    def assigning(self, *args, **kwargs): # In place of the optimiser
        self.likelihood.variance = 1e6
        def walk(k):
            b = BASE.get(type(k).__name__) or kind(k)
            for p in k.parameters:
                if isinstance(p, GPy.kern.Kern): walk(p)
                else: p[:] = dec(b, pname(p), pick(b, pname(p)))
        walk(self.kern)
    GPy.models.GPRegression.optimize_restarts = assigning

    def params(b, d): return {p: enc(b, p, np.ravel(v)[0]) for p, v in d.items()}
    def ann(x): # An expression with parameters
        if isinstance(x, ChangeKE):
            side = lambda s, y: ann(y) if not isinstance(y, str) else {'k': 'B', 'n': y, 'p': params(y, [v for k, v in x.parameters.items() if k == (s, y)][0][0])}
            return {'k': x.CP_or_CW, 'p': params(x.CP_or_CW, x.parameters[x.CP_or_CW][0]), 'l': side('left', x.left), 'r': side('right', x.right)}
        r = {'k': 'S' if isinstance(x, SumKE) else 'P', 'names': sorted(x.base_terms.elements()), 'c': [ann(y) for y in x.composite_terms],
             'b': [{'k': 'B', 'n': n, 'p': params(n, d)} for n, ds in sorted(x.parameters.items()) if n != 'ProductKE' for d in ds]}
        if r['k'] == 'P': r['v'] = [near(float(np.ravel(d['variance'])[0])) for d in x.parameters.get('ProductKE', [])]
        return r
    def sop(s):
        terms = [{'v': near(float(np.ravel(t.parameters['ProductKE'][0]['variance'])[0])), 'names': sorted(t.base_terms.elements()),
                  'f': [{'n': n, 'p': params(n, d)} for n, ds in sorted(t.parameters.items()) if n != 'ProductKE' for d in ds]} for t in s.composite_terms]
        pure = isinstance(s, SumKE) and not sum(s.base_terms.values()) and all(isinstance(t, ProductKE) and not t.composite_terms and len(t.parameters['ProductKE']) == 1 for t in s.composite_terms)
        return {'terms': terms, 'pure': bool(pure)}

    for t in read_lines(inp):
        r = {'t': t, 'exc': '', 'g': [], 'e': [], 'sop': [], 'text': [], 'after': t, 'small': False, 'stable': True}
        def work():
            root = as_root(build(t))
            r['t'] = ser(root)
            m = GPModel(X, Y, root)
            m.fit(1)
            g = gk(m.model.kern, enc)
            r['g'] = [g]
            b, d = lattice_weight(g) if not TEXT else (1, 2 ** 31)
            r['small'] = bool(b * d < 2 ** 24)
            def e(): r['e'] = [ann(fit_ker_to_kex_with_params(m.model.kern, deepcopy(m.kernel_expression)))]
            def s(): r['sop'] = [sop(m.sum_of_prods_kex)]
            def d():
                head, *lines = m.interpret().split('\n\t')
                r['text'] = [{'header': head, 'lines': lines}]
            steps = [e, s, d]
            rng.shuffle(steps)
            for f in steps: f()
            old = r['sop'], r['text']
            for f in (d, s): f()
            r['stable'] = old == (r['sop'], r['text'])
            r['after'] = ser(m.kernel_expression)
        _, r['exc'] = attempt(work)
        out.put(r)
    out.close()

main(*sys.argv[1:])
