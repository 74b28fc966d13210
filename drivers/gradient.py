'''Records the gradients which fitting follows for the kernels of generated expressions: exactly, at chosen parameters, for every
pair of lattice points; and compared with differences of the covariance at generic ones.'''
import sys
import numpy as np
from gpk import *

def main(inp, outp):
    from GPy_ABCD.Kernels import sigmoidalKernels as Sk
    fl = flags()
    out = Out(outp)

    def pick(b, n):
        if n in ('variance', 'shift_variance'): return rng.randint(1, 4)
        if n == 'lengthscale': return rng.randint(1, 2) if b == 'SE' else 0
        if n == 'period': return rng.choice((2, 4))
        if n == 'width': return rng.choice((1, 2))
        if n == 'slope': return rng.choice((1, 2))
        if n == 'offset': return rng.randint(-1, 3)
        return rng.choice((0, 1)) # location
    def generic(b, n):
        return {'variance': rng.uniform(.5, 2), 'shift_variance': rng.uniform(.5, 2), 'lengthscale': rng.choice((rng.uniform(.3, .5), rng.uniform(.6, 1.5), rng.uniform(3, 9))) if b == 'PER' else rng.uniform(.6, 1.5), 'period': rng.uniform(.9, 2.5),
                'width': rng.uniform(.7, 1.5), 'slope': rng.uniform(.3, .8), 'offset': rng.uniform(-.5, 2), 'location': rng.uniform(.1, 1.)}[n]
    def scale(b, n, value): # By how much the parameter changes with its code, in the units of the specification
        if n in ('variance', 'shift_variance'): return 1
        if n == 'lengthscale': return 0 if b == 'PER' else -value * (8 * value ** 2) / 2 # d l / d code = - l / (2 code), over ln 2
        return (.5 / math.pi if n == 'period' else .5)
    def nodes(k, path = ()):
        kids, ps = children(k)
        yield path, 'SIG' if isinstance(k, Sk.SigmoidalKernelBase) else BASE.get(type(k).__name__) or kind(k), ps
        for j, x in enumerate(kids): yield from nodes(x, path + (j + 1,))

    X, Y2 = np.array([[0.], [.5]]), np.array([[.5], [0.], [.5]])
    G = np.array([[-1.3], [.05], [.6], [1.9]])
    H = np.array([[-.4], [.6], [1.1]])

    def number(x):
        ok = bool(np.isfinite(x) and abs(x) < 20000)
        return {'ok': ok, 'v': round(float(x) * 1e5) if ok else 0}

    def record(root):
        r = {'t': ser(root) if not isinstance(root, dict) else root['f'], 'exc': '', 'g': [], 'exact': False, 'grads': [], 'off': [], 'again': True}
        def entry(path, bn, p, got, at):
            x = got * scale(bn, pname(p), float(p.values.ravel()[0]))
            r['grads'].append({'path': list(path), 'f': pname(p), 'at': at, **number(x)})
        def work():
            if isinstance(root, dict):
                ker = sigmoid(root['f'])
                g = gk_sigmoid(root['f']['n'], ker)
            else:
                ker = root.to_kernel()
                for p, v in list(assign(ker, pick)): p[:] = v
                g = gk(ker)
            r['g'] = [g]
            b, d = lattice_weight(g)
            f = 48 if fl['fixslope'] else 240 # What derivatives of sigmoids add to denominators
            r['exact'] = bool(d * f <= 10 ** 8 and b * d * f < 2 ** 30 and b < 500)
            pairs = [(0, 0), (0, 1), (1, 1)]
            rng.shuffle(pairs)
            seen = {}
            for i, j in pairs + pairs[:1]:
                W = np.zeros((2, 2))
                W[i, j] = W[j, i] = 1.
                ker.update_gradients_full(W, X, None)
                for path, bn, ps in nodes(ker):
                    for p in ps:
                        n, v = pname(p), float(p.values.ravel()[0])
                        got = float(np.ravel(p.gradient)[0])
                        if (path, n, i, j) in seen: r['again'] = r['again'] and seen[(path, n, i, j)] == got; continue
                        seen[(path, n, i, j)] = got
                        entry(path, bn, p, got, [2 * float(X[i, 0]), 2 * float(X[j, 0]), i == j, False])
            for i, j in rng.sample([(i, j) for i in range(2) for j in range(3)], 2):
                W = np.zeros((2, 3))
                W[i, j] = 1.
                ker.update_gradients_full(W, X, Y2)
                for path, bn, ps in nodes(ker):
                    for p in ps: entry(path, bn, p, float(np.ravel(p.gradient)[0]), [2 * float(X[i, 0]), 2 * float(Y2[j, 0]), False, True])
            for e in r['grads']: e['at'][:2] = [int(z) for z in e['at'][:2]]
            # Generic parameters, arbitrary weights
            for path, bn, ps in nodes(ker):
                for p in ps: p[:] = generic(bn, pname(p))
            other = H if rng.random() < .3 else None
            W = np.array([[rng.uniform(-1, 1) for _ in (G if other is None else H)] for _ in G])
            if other is None: W = W + W.T
            ker.update_gradients_full(W, G, other)
            got = [(path, bn, p, float(np.ravel(p.gradient)[0])) for path, bn, ps in nodes(ker) for p in ps]
            for path, bn, p, a in got:
                if bn in ('CP', 'CW') and pname(p) != 'shift_variance': continue
                v, h = float(p.values.ravel()[0]), 1e-5
                p[:] = v + h; up = float((W * ker.K(G, other)).sum())
                p[:] = v - h; down = float((W * ker.K(G, other)).sum())
                p[:] = v
                num = (up - down) / (2 * h)
                if not abs(num - a) <= 1e-5 * max(1, abs(num), np.abs(ker.K(G, other)).max()): r['off'].append(f'{bn}.{pname(p)} at {list(path)}: {a} instead of {num}')
        _, r['exc'] = attempt(work)
        if r['exc']: r['exact'] = False
        out.put(r)

    for t in read_lines(inp):
        if 'factor' in t: record({'f': t['factor']}); continue
        root, exc = attempt(lambda: as_root(build(t)))
        if root is None: out.put({'t': t, 'exc': exc, 'g': [], 'exact': False, 'grads': [], 'off': [], 'again': True})
        else: record(root)
    out.close()

main(*sys.argv[1:])
