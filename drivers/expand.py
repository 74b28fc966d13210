'''Follows generated expansion histories on real expression objects; records every expansion by every production rule.'''
import sys
from common import *

MODE = os.environ.get('MODE', 'sets') # sets: results of expansions; heap: object graphs

def main(inp, outp):
    from copy import deepcopy
    from GPy_ABCD.KernelExpansion import grammar
    from GPy_ABCD.KernelExpansion.grammar import expand, production_rules, make_simple_kexs
    from GPy_ABCD.KernelExpressions.all import KernelExpression
    rules = {n: f for group in grammar.production_rules_by_type.values() for n, f in group.items()}
    out = Out(outp)

    def step(obj, hist, only = None):
        '''Expand by every rule; returns the results by rule'''
        results = {}
        singles = {n: [f] for n, f in rules.items() if only is None or n in only}
        calls = dict(singles)
        if MODE == 'sets' and rng.random() < 0.25: calls.update({'@' + g: fs for g, fs in production_rules.items()})
        for name, fs in calls.items():
            before_t = ser(obj)
            if MODE == 'heap': h = Heap(); before = h.nodes(obj)
            res, exc = attempt(expand, obj, fs)
            res = res or []
            results[name] = res
            if MODE == 'sets':
                sers, e2 = attempt(lambda: [ser(x) for x in res])
                if name[0] == '@': out.put({'kind': 'group', 'hist': hist, 't': before_t, 'group': name[1:], 'names': [n for n, f in rules.items() if f in fs], 'res': sers or [], 'exc': exc or e2, 'flags': flags()})
                else: out.put({'kind': 'expand', 'hist': hist, 't': before_t, 'rule': name, 'res': sers or [], 'exc': exc or e2, 'flags': flags()})
            else:
                after = h.nodes(obj)
                chosen = res if len(res) <= 6 else rng.sample(res, 6)
                sers, e2 = attempt(lambda: [h.nodes(x) for x in chosen])
                e3 = ''
                if not exc and not e2:
                    ok, e3 = attempt(lambda: all(x.is_root() and x._check_all_parents() for x in chosen))
                    if not e3 and not ok: e3 = 'the expression does not consider itself well-formed'
                out.put({'kind': 'heap', 'op': name, 't': before_t, 'before': [before], 'after': [after], 'results': sers or [], 'exc': exc or e2 or e3, 'fresh': True, 'rooted': True, 'parented': True})
        return results

    if MODE == 'sets' and os.environ.get('VERIF_SHARD', '0') == '0':
        for g, kexs in sorted(grammar.start_kernels.items()):
            formed, exc = attempt(lambda: all(x.is_root() and x._check_all_parents() for x in kexs))
            out.put({'kind': 'starts', 'group': g, 'res': [ser(x) for x in kexs], 'formed': bool(formed), 'exc': exc})

    for i, inst in enumerate(read_lines(inp)):
        start, path = inst['start'], inst['path']
        obj, exc = attempt(lambda: make_simple_kexs([build(start) if start['k'] != 'B' else start['n']])[0])
        if obj is None: out.put({'kind': 'start', 't': start, 'exc': exc}); continue
        if MODE == 'heap' : out.put({'kind': 'heap', 'op': 'start', 't': start, 'before': [], 'after': [], 'results': [Heap().nodes(obj)], 'exc': '', 'fresh': True, 'rooted': True, 'parented': True})
        obj = grammar.roots([obj])[0] if hasattr(grammar, 'roots') else obj
        hist = 0
        for p in path:
            results = step(obj, hist, None if MODE == 'sets' else {p['rule']} | set(rng.sample(sorted(rules), 3)))
            nxt = [x for x in results.get(p['rule'], []) if key(x) == key(p['to'])]
            if not nxt: break # The set comparison reports it
            obj = nxt[0]; hist += 1
        else: step(obj, hist)
    out.close()

main(*sys.argv[1:])
