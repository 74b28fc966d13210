'''Applies the operations on expressions to pairs of generated expressions; records results, and object graphs before and after.'''
import sys
from common import *

def main(inp, outp):
    from collections import Counter
    from copy import deepcopy
    from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE, KernelExpression
    from GPy_ABCD.KernelExpansion import kernelExpressionOperations as ops
    from GPy_ABCD.KernelExpansion.grammar import make_simple_kexs
    out = Out(outp)
    bases = ('WN', 'C', 'LIN', 'SE', 'PER')

    def as_list(r): return r if isinstance(r, list) else [r]
    def call(name, f, args, fresh = True, rooted = False, parented = False, results = True, sem = None, extra = None):
        '''sem: how the specification calls the operation; results False if f returns no expressions'''
        h = Heap()
        before = [h.nodes(a) for a in args]
        res, exc = attempt(lambda: as_list(f(*args)))
        after, e2 = attempt(lambda: [h.nodes(a) for a in args])
        sers, nodes, e3 = [], [], ''
        if results and not exc:
            sers, e3 = attempt(lambda: [ser(x) for x in res])
            if not e3: nodes, e3 = attempt(lambda: [h.nodes(x) for x in res if not isinstance(x, str)])
        out.put({'kind': 'heap', 'op': name, 'before': before, 'after': after or [], 'results': nodes or [], 'exc': exc or e2 or e3, 'fresh': fresh and results, 'rooted': rooted, 'parented': parented,
                 'sem': sem or '', 'args': [ser(a) for a in args] if sem else [], 'extra': extra or '', 'res': (sers or []) if sem else []})

    for inst in read_lines(inp):
        obj = [attempt(build, t)[0] for t in (inst['x'], inst['y'])]
        if any(o is None for o in obj): out.put({'kind': 'start', 't': inst['x'], 'exc': 'not built'}); continue
        for a in obj:
            if isinstance(a, KernelExpression): a.set_root()._set_all_parents()
        x, y = obj
        B = rng.choice(bases)
        ex = [o for o in obj if isinstance(o, KernelExpression)]
        strs = [o for o in obj if isinstance(o, str)]
        # Constructors, including on the very same object twice
        for name, cls in (('S', SumKE), ('P', ProductKE)):
            call('construct ' + name, lambda *a: cls([o for o in a if isinstance(o, str)], [o for o in a if not isinstance(o, str)]), [x, y], sem = 'construct', extra = name)
            if ex: call('construct twice ' + name, lambda a: cls([], [a, a]), ex[:1], sem = 'twice', extra = name)
        for kind in ('CP', 'CW'):
            call('construct ' + kind, lambda a, b: ChangeKE(kind, a, b), [x, y], sem = 'construct', extra = kind)
            call('construct twice ' + kind, lambda a: ChangeKE(kind, a, a), [x], sem = 'twice', extra = kind)
            call('one_change', lambda a, b: ops.one_change(a, kind, b), [x, y], sem = 'one_change', extra = kind)
        if strs != obj: # At least one of them an expression, as in all uses
            for nested in (True, False):
                call('add', lambda a, b: ops.add(a, b, nested), [x, y], sem = 'add' if nested else 'add1')
                call('multiply', lambda a, b: ops.multiply(a, b, nested), [x, y], sem = 'multiply' if nested else 'multiply1')
        call('both_changes', ops.both_changes, [x, y], sem = 'both_changes')
        for a in ex[:1]:
            call('both_changes alone', ops.both_changes, [a], sem = 'both_changes_alone')
            for b in bases: call('swap_base', lambda a: ops.swap_base(a, b), [a], sem = 'swap_base', extra = b)
            call('replace_node', lambda a: ops.replace_node(a, B), [a], sem = 'replace_node', extra = B)
            call('remove_a_term', ops.remove_a_term, [a], fresh = False, sem = 'remove_a_term')
            call('higher_curves', ops.higher_curves, [a], sem = 'higher_curves')
            # Observations, which must not modify anything
            call('str', str, [a], results = False)
            call('repr', repr, [a], results = False)
            call('traverse', lambda a: a.traverse(), [a], results = False)
            call('reduce', lambda a: a.reduce(lambda n, acc: acc + 1, 0), [a], results = False)
            call('contains_base', lambda a: a.contains_base(B), [a], results = False)
            call('contains_base of several', lambda a: a.contains_base([B, 'WN']), [a], results = False)
            call('is_stationary', lambda a: a.is_stationary(), [a], results = False)
            call('to_kernel', lambda a: a.to_kernel(), [a], results = False)
            call('deepcopy', deepcopy, [a], parented = True, rooted = True)
        call('equality', lambda a, b: [a == b, b == a, a != b][:0], [x, y])
        # Constructors given containers which the caller keeps
        for name, cls in (('S', SumKE), ('P', ProductKE)):
            for box in (Counter, list, tuple):
                given, comps = box(rng.choice(bases) for _ in range(rng.randint(1, 4))), list(ex)
                if box is Counter and rng.random() < .3: given[rng.choice(bases)] += 0
                h = Heap()
                kept = lambda: [h.nodes(a) for a in ex] + [[{'id': h.id(o), 'k': 'given', 'own': [str(n) for n in (sorted(o.elements()) if isinstance(o, Counter) else [n if isinstance(n, str) else h.id(n) for n in o])],
                                                             'kids': [], 'parent': 0, 'root': 0, 'boxes': [], 'params': ''}] for o in (given, comps)]
                before = kept()
                r, exc = attempt(lambda: cls(given, comps))
                res, e2 = attempt(lambda: [h.nodes(r)]) if r is not None else ([], '')
                out.put({'kind': 'heap', 'op': f'construct {name} from a {box.__name__}', 'before': before, 'after': kept(), 'results': res or [], 'exc': exc or e2, 'fresh': True, 'rooted': False, 'parented': False,
                         'sem': '', 'args': [], 'extra': '', 'res': []})
        if len(ex) == 2:
            # Replacement of an inner node of one by the other
            nodes = x.traverse()
            n = rng.choice(nodes)
            h = Heap()
            before = [h.nodes(x), h.nodes(y)]
            r, exc = attempt(lambda: n.new_tree_with_self_replaced(y))
            res, e2 = attempt(lambda: [h.nodes(r.root)]) if r is not None else ([], '')
            out.put({'kind': 'heap', 'op': 'replace an inner node', 'before': before, 'after': [h.nodes(x), h.nodes(y)], 'results': res or [], 'exc': exc or e2, 'fresh': True, 'rooted': True, 'parented': True,
                     'sem': '', 'args': [], 'extra': '', 'res': []})
        # Initialisation of a hand-written expression
        for t in (inst['x'], inst['y']):
            if t['k'] == 'B': continue
            for name, f in (('initialise', lambda e: e._initialise()), ('make_simple_kexs', lambda e: make_simple_kexs([e])[0])):
                e = build_raw(t)
                r, exc = attempt(f, e)
                res, e2 = attempt(lambda: [Heap().nodes(r)]) if r is not None else ([], '')
                out.put({'kind': 'heap', 'op': name, 'before': [], 'after': [], 'results': res or [], 'exc': exc or e2, 'fresh': True, 'rooted': True, 'parented': True, 'sem': '', 'args': [], 'extra': '', 'res': []})
    out.close()

main(*sys.argv[1:])
