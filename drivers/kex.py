'''Replays generated raw expressions on constructors, simplification, equality, printing and queries.'''
import sys
from common import *

def near(p):
    '''Comparisons of two similar expressions, simplified as a whole and built bottom-up'''
    r = {**p, 'exc': [], 'eq': []}
    for how in (lambda t: build_raw(t, rng)._initialise(), lambda t: build(t, rng)):
        (x, e1), (y, e2) = attempt(how, p['x']), attempt(how, p['y'])
        r['exc'] += [e for e in (e1, e2) if e]
        if e1 or e2 or isinstance(x, str) or isinstance(y, str): continue
        got = [attempt(f) for f in (lambda: bool(x == y), lambda: bool(y == x), lambda: bool(x != y), lambda: bool(y != x))]
        r['exc'] += [e for _, e in got if e]
        r['eq'].append({'x': ser(x), 'y': ser(y), 'eq': got[0][0] is True, 'rev': got[1][0] is True, 'ne': got[2][0] is True, 'enr': got[3][0] is True})
    return r

def main(inp, outp):
    from copy import deepcopy
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE
    from GPy_ABCD.KernelExpansion.grammar import expand, make_simple_kexs
    from GPy_ABCD.Util.genericUtil import unique
    trees, out = read_lines(inp), Out(outp)
    pool, by_key, by_leaves = [], {}, {} # Expressions of earlier trees, for pairwise comparisons
    for i, t in enumerate(trees):
        r = {'raw': t, 'exc': []}
        if 'x' in t: out.put(near(t)); continue
        def obs(name, f):
            res, exc = attempt(f)
            if exc: r['exc'].append(name + ': ' + exc)
            return res
        a = obs('ctor', lambda: build(t))
        r['ctor'] = [ser(a)] if a is not None else []
        raw = obs('raw', lambda: build_raw(t))
        b = obs('init', lambda: raw._initialise())
        r['init'] = [ser(b)] if b is not None else []
        again = obs('again', lambda: deepcopy(b).simplify()) if b is not None else None
        r['again'] = [ser(again)] if again is not None else []
        c = obs('perm', lambda: build_raw(t, rng)._initialise())
        r['perm'] = [ser(c)] if c is not None else []
        d = obs('permctor', lambda: build(t, rng))
        r['permctor'] = [ser(d)] if d is not None else []
        # Equality: the different spellings of the same expression; and against earlier expressions, with whether their structures are the same
        r['eq'] = []
        if b is not None and not isinstance(b, str):
            ps = [('self', b, deepcopy(b))] + ([('perm', b, c)] if c is not None else [])
            kb = key(b)
            leaves = ''.join(ch for ch in sorted(kb) if ch.isalpha()) # Near misses: same leaves
            if pool: ps.append(('other', b, rng.choice(pool)))
            for group in (by_leaves.get(leaves, []), by_key.get(kb, [])):
                if group: ps.append(('near', b, rng.choice(group)))
            for kind, x, y in ps:
                e1, e2 = obs('eq', lambda: bool(x == y)), obs('eq', lambda: bool(y == x))
                r['eq'].append({'kind': kind, 'x': ser(x), 'y': ser(y), 'eq': e1 is True, 'rev': e2 is True, 'ne': obs('ne', lambda: bool(x != y)) is True})
            pool.append(b); by_key.setdefault(kb, []).append(b); by_leaves.setdefault(leaves, []).append(b)
            # Printed forms
            rep = obs('repr', lambda: repr(b))
            back = obs('eval repr', lambda: eval(rep, {'SumKE': SumKE, 'ProductKE': ProductKE, 'ChangeKE': ChangeKE})) if rep is not None else None
            r['repr'] = [ser(back)] if back is not None else []
            r['str'] = []
            for x in (b, c) if c is not None else (b,):
                text = obs('str', lambda: str(x))
                back = attempt(parse, text)[0] if text is not None else None
                r['str'].append({'text': text or '', 'back': [back] if back is not None else []})
            # Queries
            r['contains'] = {n: obs('contains', lambda: bool(b.contains_base(n))) is True for n in ('WN', 'C', 'LIN', 'SE', 'PER')}
            r['contains2'] = [{'ns': ns, 'res': obs('contains', lambda: bool(b.contains_base(list(ns)))) is True}
                              for ns in (['WN', 'SE'], ['PER', 'LIN'], ['C', 'PER'])]
            st = obs('stationary', lambda: bool(b.is_stationary()))
            r['stationary'] = st is True
            tr = obs('traverse', lambda: [ser(x) for x in b.traverse()])
            r['traverse'] = tr or []
            rd = obs('reduce', lambda: b.reduce(lambda node, acc: acc + [ser(node)], []))
            r['reduce'] = rd or []
        out.put(r)
    out.close()

main(*sys.argv[1:])
