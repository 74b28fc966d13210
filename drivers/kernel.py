'''Builds the GPy kernel of generated expressions, assigns parameters, and records structure, exact values and numeric facts.'''
import sys
import numpy as np
from gpk import *

def main(inp, outp):
    from GPy_ABCD.KernelExpressions.all import KernelExpression
    from GPy_ABCD.KernelExpansion.kernelOperations import base_str_to_ker
    fl = flags()
    stdper = fl['stdper']
    out = Out(outp)

    def pick(b, n):
        if n in ('variance', 'shift_variance'): return rng.randint(1, 4)
        if n == 'lengthscale': return (rng.randint(1, 2) if b == 'SE' or stdper else 0)
        if n == 'period': return 4 if stdper else rng.choice((2, 3, 4, 6))
        if n == 'width': return rng.choice((1, 2))
        if n == 'slope': return rng.choice((1, 2))
        if n == 'offset': return rng.randint(-1, 3)
        return rng.choice((0, 1)) # location
    def generic(b, n):
        return {'variance': rng.uniform(.5, 2), 'shift_variance': rng.uniform(.5, 2), 'lengthscale': rng.uniform(.6, 1.5), 'period': rng.uniform(.9, 2.5), 'width': rng.uniform(.7, 1.5), 'slope': rng.uniform(.3, .8),
                'offset': rng.uniform(-.5, 2), 'location': rng.uniform(.1, 1.)}[n]

    L = np.array([[-1.], [1.], [2.5]])
    X, X2 = np.array([[0.], [.5]]), np.array([[.5], [0.]])
    G, G2 = np.array([[-1.3], [-.4], [.05], [.6], [1.1], [1.9], [2.7]]), np.array([[-.7], [.35], [2.2]])

    def second_sets():
        n = len(G)
        inner = G.copy(); inner[1:-1] += .17
        swapped = G.copy(); swapped[[2, 4]] = swapped[[4, 2]]
        return rng.sample([(G, inner), (G, swapped), (G, G[::-1]), (G, G.copy()), (G, G + .3), (G, G[:1]), (G, np.vstack((G, G2))), (G[:1], G2[:1]), (G, G[1:]),
            (np.arange(n)[:, None], G), (G, np.arange(n)[:, None]), (np.vstack((G, G[:1])), np.vstack((G2, G[:2])))], 4)

    def record(t, root):
        r = {'kind': 'kernel', 't': ser(root), 'exc': '', 'g': [], 'vals': [], 'facts': {}, 'dead': [], 'size': -1}
        def work():
            ker, other = root.to_kernel(), root.to_kernel()
            todo = list(assign(ker, pick, stdper))
            fresh = gk(other, raw_value)
            r['facts']['startable'] = bool(np.all(np.isfinite(other.optimizer_array)))
            if rng.random() < .5:
                for p, v in todo: p[:] = v
            else: # All at once, as optimisers do
                for p, v in todo: p.param_array[:] = v
                ker.param_array[:] = np.concatenate([np.ravel(v) for p, v in todo]) if len(todo) > 1 else todo[0][1]
                (ker._trigger_params_changed if hasattr(ker, '_trigger_params_changed') else ker.trigger_update)()
            g = gk(ker, stdper = stdper)
            r['g'] = [g]
            r['size'] = int(ker.size)
            r['transformed'] = int(ker._size_transformed())
            b, d = lattice_weight(g)
            kernels = [ker] if rng.random() < .7 else [ker.copy()]
            if b * d < 2 ** 31 and d < 2 ** 31:
                for ker2 in kernels:
                    for A, B, M in ((X, None, ker2.K(X)), (X, X2, ker2.K(X, X2))):
                        for i in range(2):
                            for j in range(2):
                                scaled = float(M[i, j]) * d
                                n = round(scaled)
                                r['vals'].append([round(2 * A[i, 0]), round(2 * (A if B is None else B)[j, 0]), B is None and i == j, n, d, abs(scaled - n) <= 1e-6 * max(1, b * d) and abs(scaled - n) < .4])
            # Generic parameters
            names = [(p, BASE.get(type(k).__name__) or kind(k)) for k in all_kernels(ker) for p in children(k)[1]]
            for p, bn in names: p[:] = generic(bn, pname(p))
            M = ker.K(G)
            tol = 1e-6 * max(1, np.abs(M).max())
            f = r['facts']
            f['symmetric'] = bool(np.allclose(M, M.T, atol = tol))
            f['diagonal'] = bool(np.allclose(np.diag(M), ker.Kdiag(G), atol = tol))
            f['psd'] = bool(np.linalg.eigvalsh((M + M.T) / 2).min() > -100 * tol)
            f['cross'] = bool(np.allclose(ker.K(G, G2), ker.K(G2, G).T, atol = tol))
            f['cross_part'] = bool(np.allclose(ker.K(G, G2), ker.K(np.vstack((G, G2)))[:len(G), len(G):], atol = tol))
            for A, B in second_sets(): # Whatever the second set has in common with the first
                J = ker.K(np.vstack((A, B)))
                f['cross_part'] &= bool(np.allclose(ker.K(A, B), J[:len(A), len(A):], atol = tol) and np.allclose(ker.K(B, A), J[len(A):, :len(A)], atol = tol))
            f['copy'] = bool(np.allclose(ker.copy().K(G), M, atol = tol))
            f['shifts'] = bool(np.allclose(ker.K(G + 3.7), M, atol = tol))
            for p, bn in names:
                old = p.values.copy()
                p[:] = old * 1.17 + .03
                if np.abs(ker.K(G) - M).max() <= 1e-9 * np.abs(M).max(): r['dead'].append(f'{bn}.{pname(p)}')
                p[:] = old
            f['independent'] = gk(other, raw_value) == fresh
            f['unchanged'] = ser(root) == r['t']
            f['restored'] = bool(np.allclose(ker.K(G), M, atol = tol))
        _, r['exc'] = attempt(work)
        out.put(r)
        if rng.random() < .3: unrefined(root)

    def unrefined(root):
        r = {'kind': 'unrefined', 't': ser(root), 'exc': '', 'g': [], 'vals': []}
        def work():
            ker = root.to_kernel_unrefined()
            for p, v in list(assign(ker, pick, stdper)): p[:] = v
            r['g'] = [gk(ker, stdper = stdper)]
            M = ker.K(X)
            b, d = lattice_weight(r['g'][0])
            if b * d < 2 ** 31 and d < 2 ** 31:
                for i in range(2):
                    for j in range(2): r["vals"].append([round(2 * X[i, 0]), round(2 * X[j, 0]), i == j, round(float(M[i, j]) * d), d, abs(float(M[i, j]) * d - round(float(M[i, j]) * d)) < .4])
        _, r['exc'] = attempt(work)
        out.put(r)

    def raw_value(b, n, v, stdper = False): return round(float(v), 6)

    def all_kernels(k):
        yield k
        for x in children(k)[0]: yield from all_kernels(x)

    def base_facts(n):
        '''Facts which identify the base kernels beyond the lattice'''
        k = base_str_to_ker(n)
        if n != 'PER' or stdper: return
        for code in (1, 3, 6, 9):
            l, p, v = (code * LN2) ** -.5, rng.choice((1., 2.5, 7.)), rng.choice((1., 3.))
            k.variance, k.period, k.lengthscale = v, p, l
            N = 24
            d = np.arange(N)[:, None] * p / N
            row = k.K(np.array([[0.]]), d)[0] / v
            ratio = (1 - row[N // 2]) / (1 - row[N // 4])
            out.put({'kind': 'per', 'code': code, 'ratio': round(float(ratio) * 2 ** code), 'exact': bool(abs(ratio * 2 ** code - round(float(ratio) * 2 ** code)) < 1e-3),
                     'one': bool(abs(row[0] - 1) < 1e-9), 'zero_mean': bool(abs(row.mean()) < 1e-5), 'even': bool(np.allclose(row[1:], row[1:][::-1])),
                     'periodic': bool(np.allclose(k.K(np.array([[0.]]), d + 3 * p)[0] / v, row)), 'exc': ''})

    insts = read_lines(inp)
    base_facts('PER')
    for t in insts:
        if 'factor' in t:
            r = {'kind': 'sig', 't': t['factor'], 'exc': '', 'g': [], 'vals': [], 'diagonal': False}
            def work():
                k = sigmoid(t['factor'])
                for A, B in ((X, None), (X2[:1], X), (L, None)):
                    M = k.K(A, B)
                    r['vals'] += [[round(2 * A[i, 0]), round(2 * (A if B is None else B)[j, 0]), B is None and i == j, round(float(M[i, j]) * 1e5)] for i in range(len(M)) for j in range(len(M[0]))]
                r['diagonal'] = bool(np.allclose(np.diag(k.K(G)), k.Kdiag(G)))
                r['g'] = [gk_sigmoid(t['factor']['n'], k)]
            _, r['exc'] = attempt(work)
            out.put(r); continue
        root, exc = attempt(lambda: as_root(build(t)))
        if root is None: out.put({'kind': 'kernel', 't': t, 'exc': exc, 'g': [], 'vals': [], 'facts': {}, 'dead': [], 'size': -1}); continue
        record(t, root)
    out.close()

main(*sys.argv[1:])
