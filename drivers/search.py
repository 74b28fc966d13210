'''Runs the model search on generated problems in several ways, with a stand-in fitter; records the results by model number.'''
import contextlib, io, re, sys, zlib
import numpy as np
from common import *

def listed(text):
    '''The items of a printed list of expressions: separated by the commas outside of all brackets'''
    res, depth = [''], 0
    for ch in text.strip():
        depth += (ch == '(') - (ch == ')')
        if ch == ',' and depth == 0: res.append('')
        else: res[-1] += ch
    return [x for x in map(str.strip, res) if x]

def read_log(text):
    '''What a verbose search said: what it started from, per round the number of new models and the lists of best ones, and the best overall'''
    log = {'start': [], 'points': -1, 'restarts': -1, 'optimiser': '', 'utility': '', 'rounds': [], 'overall': []}
    if h := re.search(r'Testing (\d+) layers of model expansion on (\d+) datapoints, starting from: (.*)$', text, re.M): log['points'], log['start'] = int(h[2]), listed(h[3])
    if h := re.search(r'fitted with (\d+) random restarts \(with (.*?) optimiser\) and scored by (\S+)', text): log['restarts'], log['optimiser'], log['utility'] = int(h[1]), h[2], h[3]
    if h := re.search(r'^Best round-0 models \[(\d+) new.*?\]: ?(.*)$', text, re.M): log['rounds'].append({'r': 0, 'new': int(h[1]), 'best': listed(h[2]), 'sofar': listed(h[2]), 'open': listed(h[2])})
    for h in re.finditer(r'^Round-(\d+) models \[(\d+) new.*?\]:\n\s*Best new: ?(.*)\n\s*Best so far: ?(.*)\n\s*Best not-already-expanded: ?(.*)$', text, re.M):
        log['rounds'].append({'r': int(h[1]), 'new': int(h[2]), 'best': listed(h[3]), 'sofar': listed(h[4]), 'open': listed(h[5])})
    if h := re.search(r'^Best models overall: ?(.*)$', text, re.M): log['overall'] = listed(h[1])
    return log

def main(inp, outp):
    from GPy_ABCD.Models import modelSearch as ms
    from GPy_ABCD.Models.model import GPModel
    from GPy_ABCD.KernelExpansion.grammar import production_rules_by_type
    SumKE, ProductKE, ChangeKE = K()
    RULES = {k: v for d in production_rules_by_type.values() for k, v in d.items()}
    out = Out(outp)

    class Fit: # What a search needs of a fitted GPRegression
        def __init__(self, X, score): self.X, self.score = X, score
        def log_likelihood(self): return -float(self.score)
        def _size_transformed(self): return 3

    class Failure(Exception): pass

    # Abstract node j is the sum of WN and the composites of its bits, however it is written and in whichever order
    COMPS = [lambda: ProductKE(['PER', 'PER']), lambda: ProductKE(['PER'] * 3), lambda: ProductKE(['LIN', 'PER']), lambda: ChangeKE('CP', 'LIN', 'PER')]
    BITS = {key(f()): 1 << n for n, f in enumerate(COMPS)}
    def spell(j):
        comps = [f() for n, f in enumerate(COMPS) if j >> n & 1]
        rng.shuffle(comps)
        how = rng.randrange(4)
        if how == 0 or len(comps) < 2: return SumKE(['WN'], comps)
        if how == 1: return SumKE(['WN'], [SumKE([], comps)])
        if how == 2: return SumKE([], [SumKE(['WN'], comps[:1]), *comps[1:]])
        return SumKE([], [comps[0], SumKE(['WN'], [ProductKE([], [SumKE([], comps[1:])])])])
    def number(kex):
        if not isinstance(kex, SumKE) or dict(+kex.base_terms) != {'WN': 1}: return 0
        return sum(BITS.get(key(x), 1000) for x in kex.composite_terms)

    def solve(p):
        abstract, fitted = p['kind'] == 'abstract', p.get('fit', '')
        # Utilities may be of any sign or type, the worst ones infinite
        shift, top, unit = rng.choice((0, 0, -7, 2.5, -1e6)), rng.choice((None, None, max(p['score'] or [0]))), rng.choice((float, float, np.float64, int))
        if abstract and unit is int and (top or shift != int(shift)): unit = float
        def utility(m, ll, n, k): return unit(np.inf if top and -ll == top else -2 * ll + shift + 0 * n + 0 * k)
        def decode(v): return -99 if v is None else top if v == np.inf and top else round((v - shift) / 2) if np.isfinite(v) else -99
        if fitted: utility, decode = ms.BIC, None
        r = {**p, 'beam': p['rest']['beam'], 'isInt': p['rest']['isInt'], 'rounds': p['rest']['rounds'], 'runs': [], 'trees': []}
        del r['rest']
        index = {}
        def node(kex):
            if abstract: return number(kex)
            k = key(kex)
            if k not in index: index[k] = len(index) + 1; r['trees'].append(ser(kex))
            return index[k]
        def score_of(kex): return p['score'][node(kex) - 1] if abstract else zlib.crc32((key(kex) + str(p['salt'])).encode()) % 1000003
        given = []
        again = rng.random() < .5 # The same objects may be given to several searches
        def starts():
            if not given or not again: given[:] = [spell(j) for j in p['start']] if abstract else [build(t) for t in p['starts']]
            return list(given)
        if abstract:
            def split_rule(part):
                def rule(S):
                    if not node(S): return [] # A part of an expression
                    js = p['succ'][node(S) - 1]
                    return [[spell(j)._initialise() for j in js if j % 2 == part or j % 3 == 0]]
                return rule
            p_rules = [split_rule(0), split_rule(1)]
        else: p_rules = [RULES[n] for n in p['rules']]
        N, B, isInt, split, fail = p['rest']['rounds'], list(p['rest']['beam']), p['rest']['isInt'], p['rest']['split'], p['rest']['fail']
        beam = (lambda: B[0]) if isInt else (lambda: list(B))
        nth = lambda q: B[0] if isInt else B[min(q, len(B)) - 1]
        X, Y = [0., 1., 2., 4., 8.], [1., 3., 2., 5., 4.]
        XX, YY = np.array(X)[:, None], np.array(Y)[:, None]
        opts = (rng.randint(1, 9), rng.choice(ms.GPy_optimisers), rng.randint(0, 3)) if not fitted else (1, 'lbfgsb', 3)
        forms = [(X, Y), (np.array(X), np.array(Y)), (XX, YY), (XX, Y), (X, YY)]

        def run(how):
            x = {'how': how, 'exc': '', 'tested': [], 'sorted': [], 'expanded': [], 'notexp': [], 'kexs': [], 'models': [], 'options': True, 'untouched': True, 'printed': False, 'log': []}
            uid, models = {}, []
            calls = [0]
            failing = [how == 'retried' and fail > 0]
            counting = [False]
            def fitter(X_, Y_, kexs, restarts, optimiser, max_retries):
                if counting[0]:
                    calls[0] += 1
                    if failing[0] and calls[0] == fail: failing[0] = False; raise Failure('fitting failed')
                if not (np.array_equal(X_, XX) and np.array_equal(Y_, YY) and (restarts, optimiser, max_retries) == opts): x['options'] = False
                res = []
                if fitted: real = (ms.fit_mods_not_parallel if fitted == 'serial' else ms.fit_mods_parallel_processes)(X_, Y_, kexs, restarts, optimiser, max_retries)
                for j, kex in enumerate(kexs):
                    if fitted:
                        m = real[j]
                        models.append((m, node(kex), 0))
                        res.append(m)
                        continue
                    m = GPModel(X_, Y_, kex)
                    m.model = Fit(X_, score_of(kex))
                    uid[id(m)] = len(models) + 1
                    models.append((m, node(kex), score_of(kex)))
                    res.append(m)
                return res
            def explore(rounds, beam_):
                st, pr = starts(), list(p_rules)
                before = (len(st), list(pr), beam_ if isinstance(beam_, int) else list(beam_))
                res = ms.explore_model_space(*rng.choice(forms), st, pr, utility, rounds, beam_, opts[0], fitter, opts[1], opts[2], how == 'verbose')
                if before != (len(st), pr, beam_): x['untouched'] = False
                return res
            def state(a):
                return ([id(m) for m in a[0]], [[id(m) for m in l] for l in a[1]], [key(k) for k in a[2]], [id(m) for m in a[3]], [id(m) for m in a[4]],
                        [(key(m.kernel_expression), m.cached_utility_function) for m in a[0]])
            def go_on(res, rounds, beam_):
                before = state(res)
                counting[0] = True
                try: return ms.model_search_rounds(*rng.choice(forms), *res, fitter, list(p_rules), utility, rounds, beam_, *opts, how == 'verbose')
                finally:
                    if state(res) != before: x['untouched'] = False
            def whole():
                if how in ('whole', 'verbose'): return explore(N, beam())
                if how == 'stepwise':
                    res = explore(0, beam())
                    for q in range(1, N + 1): res = go_on(res, 1, rng.choice((nth(q), [nth(q)], [nth(q), 5])))
                    return res
                res = explore(split, beam())
                rest = [nth(q) for q in range(split + 1, N + 1)]
                arg = beam() if isInt and rng.random() < .5 else rest or [1]
                if how == 'retried':
                    was, n = res, len(models)
                    try: return go_on(was, N - split, arg)
                    except Failure:
                        del models[n:] # What was fitted in the failed attempt is no part of the search
                        return go_on(was, N - split, arg)
                return go_on(res, N - split, arg)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf): res, x['exc'] = attempt(whole)
            x['printed'] = bool(buf.getvalue().strip())
            if res is not None:
                uid = {id(m): k + 1 for k, (m, _, _) in enumerate(models)}
                u = lambda l: [uid.get(id(m), 0) for m in l]
                x['sorted'], x['tested'], x['expanded'], x['notexp'] = u(res[0]), [u(l) for l in res[1]], u(res[3]), u(res[4])
                x['kexs'] = [node(k) for k in res[2]]
                if how == 'verbose':
                    said = {str(m.kernel_expression): k + 1 for k, (m, _, _) in enumerate(models)}
                    nos = lambda l: [said.get(e, 0) for e in l]
                    log = read_log(buf.getvalue())
                    log['settings'] = log['points'] == len(X) and (log['restarts'], log['optimiser']) == opts[:2] and log['utility'] == utility.__name__
                    x['log'] = [{'settings': log['settings'], 'start': nos(log['start']), 'overall': nos(log['overall']), 'rounds': [{**l, **{f: nos(l[f]) for f in ('best', 'sofar', 'open')}} for l in log['rounds']]}]
                if fitted: # The scores themselves are those of the log-likelihoods; only their order matters
                    bics = [-2 * float(m.model.log_likelihood()) + m.model._size_transformed() * np.log(len(X)) for m, _, _ in models]
                    rank = {v: q + 1 for q, v in enumerate(sorted(set(bics)))}
                    models = [(m, n, rank[b]) for (m, n, _), b in zip(models, bics)]
                    ranks = {id(m): s if abs(m.cached_utility_function - b) < 1e-9 * (1 + abs(b)) else -99 for (m, _, s), b in zip(models, bics)}
                cached = lambda m: ranks[id(m)] if fitted else decode(m.cached_utility_function)
                x['models'] = [{'asked': n, 'node': node(m.kernel_expression), 'score': s, 'cached': cached(m)} for m, n, s in models]
                if how == 'retried' and failing[0]: return None # Did not fail
            return x
        if not abstract: r['start'] = [node(as_root(build(t))) for t in p['starts']]
        hows = ['whole', 'continued', 'verbose', 'stepwise'] + (['retried'] if 0 < fail <= N - split else [])
        if not abstract: hows = ['whole', rng.choice(['continued', 'stepwise', 'verbose'])]
        if p.get('only'): hows = [p['only']]
        if fitted: hows = ['verbose' if fitted == 'parallel' else 'continued'] # Fits are not repeatable
        r['runs'] = [x for x in map(run, hows) if x is not None]
        out.put(r)

    def utility(m, ll, n, k): return -2 * ll
    def bad_beams():
        for beam in ('3', 2.5, None, [], [1, 'a'], [2.5], ['1'], [None], (1, 2), {'a': 1}, [[1]]):
            for entry in ('explore', 'continue'):
                fits = [0]
                def fitter(X_, Y_, kexs, *a):
                    fits[0] += 1
                    res = [GPModel(X_, Y_, k) for k in kexs]
                    for m in res: m.model = Fit(X_, 1)
                    return res
                X, Y = np.array([[0.], [1.]]), np.array([[0.], [1.]])
                rule = RULES['plus_base']
                if entry == 'explore':
                    _, exc = attempt(ms.explore_model_space, X, Y, ['PER'], [rule], utility, 2, beam, 1, fitter, 'lbfgsb', 1, False)
                    fits[0] = 0 # Only whether it is refused
                else:
                    first = ms.explore_model_space(X, Y, ['PER'], [rule], utility, 0, 1, 1, fitter, 'lbfgsb', 1, False)
                    fits[0] = 0
                    _, exc = attempt(ms.model_search_rounds, X, Y, *first, fitter, [rule], utility, 2, beam, 1, 'lbfgsb', 1, False)
                out.put({'kind': 'badbeam', 'beam': repr(beam), 'entry': entry, 'exc': exc, 'fits': fits[0]})

    for p in read_lines(inp):
        if p['kind'] == 'badbeam': bad_beams()
        else: solve(p)
    out.close()

main(*sys.argv[1:])
