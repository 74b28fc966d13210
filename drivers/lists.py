'''Replays all small inputs on the list utilities; elements are compared by value and cannot be hashed, as expressions.'''
import sys
from common import *

class E: # As kernel expressions: compared by value, hence not hashable
    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, E) and self.v == o.v
    def plus(self, n, k = 0): return self.v + n + k

def main(inp, outp):
    import GPy_ABCD.Util.genericUtil as u
    out = Out(outp)
    COND = {'all': lambda x: True, 'even': lambda x: x % 2 == 0, 'small': lambda x: x <= 1, 'none': lambda x: False}
    UPD = {'same': lambda acc, x, xs: xs, 'less': lambda acc, x, xs: [y - 1 for y in xs], 'drop': lambda acc, x, xs: [y for y in xs if y != x]}
    for r in read_lines(inp):
        if r['kind'] == 'graph':
            es = [(n, list(d)) for n, d in r['es']]
            res, exc = attempt(u.topological_sort, es)
            out.put({**r, 'res': [] if exc else [list(res)], 'error': exc.split(':')[0], 'after': [[n, d] for n, d in es]})
            continue
        if r['kind'] == 'interval':
            q = r['q']
            res, exc = attempt(u.interval_overlap, (q[0], q[1]), (q[2], q[3]))
            out.put({**r, 'res': [] if exc else [res]})
            continue
        xs, ys = list(r['xs']), list(r['ys'])
        X, Y = [E(v) for v in xs], [E(v) for v in ys]
        r['exc'] = []
        def obs(name, f):
            res, exc = attempt(f)
            if exc: r['exc'].append(name + ': ' + exc); r[name] = []
            else: r[name] = [res]
        V = lambda es: [e.v for e in es]
        obs('unique', lambda: V(u.unique(iter(X))))
        obs('diff', lambda: V(u.diff(X, Y)))
        obs('eq_elems', lambda: u.eq_elems(X, Y))
        obs('sets', lambda: [list(u.unique_h(xs)), u.eq_elems_h(xs, ys), list(u.diff_h(xs, ys))])
        obs('partition', lambda: [V(p) for p in u.partition(lambda e: e.v % 2 == 0, X)])
        obs('group_by', lambda: [[k, V(g)] for k, g in u.group_by(lambda e: e.v % 3, X).items()])
        obs('first', lambda: [u.first(lambda x: x > t, xs, 77) for t in (0, 1)])
        obs('chunk', lambda: [[list(c) for c in u.chunk(xs, n)] for n in (1, 2, 3)])
        obs('flatten', lambda: list(u.flatten([xs, ys, xs])))
        obs('unzip', lambda: [list(c) for c in u.unzip([xs, ys])])
        obs('unzip_lazy', lambda: [list(c) for c in u.unzip_lazy([xs, ys])])
        r['foldq'] = []
        for c in COND:
            for g in UPD:
                res, exc = attempt(u.foldq, lambda acc, x: acc + [x], UPD[g], COND[c], xs, [])
                strict, err = attempt(u.foldq_, lambda acc, x: acc + [x], UPD[g], COND[c], xs, [])
                r['foldq'].append({'c': c, 'g': g, 'res': [] if exc else [[list(res[0]), list(res[1])]], 'strict': [] if err else [strict], 'error': err.split(':')[0]})
        obs('zip_maps', lambda: [[k, list(v)] for k, v in u.zip_maps({x: x + 10 for x in xs}, {y: y + 20 for y in ys})])
        d0, d1 = {x: [x] for x in xs}, {y: [-y] for y in ys}
        obs('update', lambda: [[k, v] for k, v in u.update_dict_with(d0, d1, lambda a, b: a + b).items()])
        r['updsame'] = d1 == {y: [-y] for y in ys}
        obs('on', lambda: list(u.on(lambda *a: a, X, lambda e, n, k = 0: e.plus(n, k), 2, k = 3)))
        obs('on_m', lambda: list(u.on_m(lambda *a: a, X, 'plus', 3, k = 4)))
        obs('on_a', lambda: list(u.on_a(lambda *a: a, X, 'v')))
        r['after'] = [V(X), V(Y)] if (xs, ys) == (V(X), V(Y)) else [xs, ys]
        if (xs, ys) != (r['xs'], r['ys']): r['after'] = [xs, ys]
        out.put(r)
    out.close()

main(*sys.argv[1:])
