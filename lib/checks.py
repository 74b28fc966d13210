'''What each check explores; see DESIGN.md. Every function decides one property with the specification in spec/.'''
from vlib import TIER, SEED, CORES, Broken

QUICK = TIER == 'quick'
ALL = {'WN', 'C', 'LIN', 'SE', 'PER'}
COMPILED = {'NUMBA_DISABLE_JIT': '0'}
KEX = {'UseOffset': True, 'IncludeSE': True}
def q(quick, thorough): return quick if QUICK else thorough


# ---- Expressions

def trees(c, n, leaves, depth, names = ALL):
    return c.generate('GenKex', constants = {'MaxLeaves': leaves, 'LeafNames': names, 'MaxDepth': depth}, simulate = n, depth = 40)

def small_trees(c, leaves, names, depth = 3):
    c.exhaustive.append(f'every raw expression the builder reaches with up to {leaves} leaves from {sorted(names)} and depth {depth}')
    return c.generate('GenKex', constants = {'MaxLeaves': leaves, 'LeafNames': names, 'MaxDepth': depth})

def uniq(xs):
    import json
    seen, res = set(), []
    for x in xs:
        k = json.dumps(x, sort_keys = True)
        if k not in seen: seen.add(k); res.append(x)
    return res

def sample(xs, n):
    import random
    return random.Random(SEED).sample(xs, n) if len(xs) > n else xs

def wide_trees(c, terms, inside):
    c.exhaustive.append(f'every sum and product of up to {terms} terms of all kinds side by side' + (', alone and inside of other expressions' if inside else ''))
    return c.generate('GenWide', constants = {'MaxTerms': terms, 'Leaves': {'LIN', 'PER'}, 'Inside': inside})

def wide(c, n):
    ts = wide_trees(c, 3, True) + wide_trees(c, 4, False) if QUICK else wide_trees(c, 4, True)
    return sample(uniq(ts), n)

def design_kex(c, leaves, names):
    c.tlc('MCKex', constants = {**KEX, 'MaxLeaves': leaves, 'LeafNames': names},
          invariants = ['NFNormal', 'NFIdempotent', 'NFDen', 'NFFix', 'RootStd', 'NFSmaller'])

def kex_inputs(c):
    ts = small_trees(c, 2, ALL, 2) + trees(c, q(700, 12000), 5, 3) + trees(c, q(600, 12000), 8, 4)
    if not QUICK: ts += small_trees(c, 3, ALL, 2) + trees(c, 4000, 12, 5)
    return uniq(ts)

def kex_check(c):
    design_kex(c, q(2, 3), ALL)
    c.judge('TraceKex', c.drive('kex', kex_inputs(c)), 'expressions', constants = KEX)

C01 = C02 = kex_check

def C03(c):
    kex_check(c)
    ps = c.generate('GenNear', constants = {'MaxLeaves': q(6, 7), 'LeafNames': q({'WN', 'LIN', 'PER'}, ALL), 'MaxDepth': 3}, simulate = q(200, 3000), depth = 40, spec = 'NSpec', invariants = ['NEmit'])
    c.judge('TraceKex', c.drive('kex', sample(ps, q(4000, 60000))), 'similar expressions', constants = KEX, check = 'Near')


# ---- Grammar

GRAMMAR = {'UseOffset': True, 'IncludeSE': False}

def one_per_prefix(hs):
    import json, random
    groups = {}
    for h in hs: groups.setdefault(json.dumps([h['start'], h['path'][:-1]], sort_keys = True), []).append(h)
    r = random.Random(SEED)
    return [r.choice(g) for k, g in sorted(groups.items())]

def design_expand(c, leaves, rules = 'All'):
    c.tlc('MCExpand', constants = {**GRAMMAR, 'MaxLeaves': leaves, 'Rules': rules, 'Starts': 'Default'},
          invariants = ['ReachableNormal', 'ReachableBases', 'ReachableFix', 'NeverStuck', 'Bounded'])

def histories(c, n, steps, leaves, rules = 'All', starts = 'Default'):
    hs = c.generate('GenExpand', constants = {**GRAMMAR, 'MaxLeaves': leaves, 'Rules': rules, 'Starts': starts, 'MaxSteps': steps}, simulate = n, depth = steps + 2, spec = 'GSpec')
    return one_per_prefix(hs) # TLC evaluates the printing invariant on every candidate for the last step

def expand_inputs(c):
    hs = histories(c, q(60, 600), q(5, 8), q(7, 10)) + histories(c, q(20, 200), q(4, 7), 8, 'Default')
    ts = trees(c, q(150, 1500), 7, 3)
    return uniq(hs + [{'start': t, 'path': []} for t in ts])

def pairs(c, n):
    import random
    ts = small_trees(c, 2, ALL, 2) + trees(c, n, 6, 3)
    ts += [{'k': 'B', 'n': x} for x in sorted(ALL)] * (len(ts) // 20)
    r = random.Random(SEED)
    return [{'x': r.choice(ts), 'y': r.choice(ts)} for _ in range(n)]

def C04(c):
    design_expand(c, q(3, 4))
    c.judge('TraceExpand', c.drive('expand', expand_inputs(c)[::q(3, 1)], env = {'MODE': 'heap'}), 'expansions', constants = GRAMMAR)
    c.judge('TraceExpand', c.drive('ops', pairs(c, q(150, 3000))), 'operations', constants = GRAMMAR)

C05 = C04

def C06(c):
    design_expand(c, q(3, 4))
    c.judge('TraceExpand', c.drive('expand', expand_inputs(c)), 'expansions', constants = GRAMMAR)
    c.judge('TraceExpand', c.drive('ops', pairs(c, q(100, 3000))), 'operations', constants = GRAMMAR, check = 'Op')

def C07(c):
    design_expand(c, q(3, 4))
    design_expand(c, q(3, 4), 'Default')
    c.judge('TraceExpand', c.drive('expand', expand_inputs(c)), 'histories', constants = GRAMMAR)


# ---- Kernels and fitted parameters

SIGMOIDALS = {'S', 'Sr', 'SI', 'SIr'}
KERNEL = {'UseOffset': True, 'IncludeSE': True, 'FixedSlope': True, 'StdPer': False, 'ShiftedSides': False}

def design_kernel(c, leaves, names = ALL):
    c.tlc('MCKernel', constants = {**KERNEL, 'MaxLeaves': leaves, 'LeafNames': names}, invariants = ['SopSame', 'Symmetric', 'Counted', 'SopProducts'])

def sigmoids(c, slopes): return [{'factor': fs[0]} for fs in design_intervals(c, 1, q(3, 5), slopes, emit = True)]

def C08(c):
    design_kernel(c, 3)
    ts = uniq(small_trees(c, 2, ALL, 2) + trees(c, q(400, 6000), 5, 3) + trees(c, q(200, 4000), 8, 4) + wide(c, q(250, 5000)))
    c.judge('TraceKernel', c.drive('kernel', ts), 'kernels', constants = KERNEL)
    c.judge('TraceKernel', c.drive('kernel', sigmoids(c, False)), 'sigmoidal kernels', constants = KERNEL)
    c.judge('TraceKernel', c.drive('kernel', sample(ts, q(100, 1000)) + sigmoids(c, False), env = COMPILED, shards = q(4, None)), 'compiled kernels', constants = KERNEL)
    c.judge('TraceKernel', c.drive('kernel', sigmoids(c, True), config = {'fixslope': False}), 'sigmoidal kernels, fixslope=False', constants = {**KERNEL, 'FixedSlope': False})

def C23(c):
    c.tlc('MCGradient', constants = {**KERNEL, 'MaxLeaves': q(2, 3), 'LeafNames': ALL}, invariants = ['Differences', 'SymmetricD', 'Sigmoids'])
    c.tlc('MCGradient', constants = {**KERNEL, 'UseOffset': False, 'MaxLeaves': 2, 'LeafNames': ALL}, invariants = ['Differences', 'SymmetricD'])
    ts = uniq(small_trees(c, 2, ALL, 2) + trees(c, q(500, 6000), 5, 3) + trees(c, q(100, 4000), 8, 4) + wide(c, q(150, 4000)))
    c.judge('TraceGradient', c.drive('gradient', ts), 'gradients', constants = KERNEL)
    c.judge('TraceGradient', c.drive('gradient', sigmoids(c, False)), 'sigmoidal kernels', constants = KERNEL)
    c.judge('TraceGradient', c.drive('gradient', sample(ts, q(100, 1000)) + sigmoids(c, False), env = COMPILED, shards = q(4, None)), 'compiled kernels', constants = KERNEL)
    c.judge('TraceGradient', c.drive('gradient', sigmoids(c, True), config = {'fixslope': False}), 'sigmoidal kernels, fixslope=False', constants = {**KERNEL, 'FixedSlope': False})
    for v in ({'fixslope': False}, {'offset': False}):
        kernel = {**KERNEL, 'FixedSlope': v.get('fixslope', True), 'UseOffset': v.get('offset', True)}
        c.judge('TraceGradient', c.drive('gradient', ts[::q(3, 1)], config = v), f'gradients, {list(v)[0]}=False', constants = kernel)

def C24(c):
    c.tlc('MCPosterior', constants = {**KERNEL, 'MaxLeaves': q(2, 2), 'LeafNames': ALL}, invariants = ['OrderFree', 'SymmetricP', 'Shrinks', 'AtOnce', 'TermsAddUp'])
    ts = uniq(small_trees(c, 2, ALL, 2) + trees(c, q(400, 6000), 5, 3) + trees(c, q(100, 4000), 8, 4) + wide(c, q(100, 4000)))
    c.judge('TracePosterior', c.drive('posterior', ts), 'predictions', constants = KERNEL)
    c.judge('TracePosterior', c.drive('posterior', sample(ts, q(100, 1000)), env = COMPILED, shards = q(4, None)), 'predictions, compiled kernels', constants = KERNEL)
    c.judge('TracePosterior', c.drive('posterior', ts[::q(4, 1)], config = {'fixslope': False, 'offset': False}), 'predictions, fixslope=False offset=False', constants = {**KERNEL, 'FixedSlope': False, 'UseOffset': False})

def fitted(c, text):
    ts = uniq(small_trees(c, 2, ALL, 2) + trees(c, q(350, 5000), 5, 3) + trees(c, q(150, 4000), 7, 4) + wide(c, q(250, 5000)))
    return c.drive('fitted', ts, env = {'MODE': 'text' if text else 'lattice'})

def C09(c):
    design_kernel(c, q(2, 3))
    c.judge('TraceFit', fitted(c, False), 'fits', constants = KERNEL)

def C10(c):
    design_kernel(c, 3)
    c.judge('TraceFit', fitted(c, False), 'fits', constants = KERNEL)

def C11(c):
    design_kernel(c, q(2, 3))
    design_intervals(c, 2, 4)
    c.judge('TraceFit', fitted(c, True), 'descriptions', constants = KERNEL)

def design_intervals(c, factors, size, slopes = False, emit = False, kinds = SIGMOIDALS, simulate = None):
    kw = dict(constants = {'MaxFactors': factors, 'Size': size, 'Slopes': slopes, 'Kinds': kinds}, invariants = ['Exact'] + (['Emit'] if emit else []))
    if simulate: kw |= {'simulate': simulate, 'depth': factors + 1}
    else: c.exhaustive.append(f'all sequences of up to {factors} sigmoidal factors ({", ".join(sorted(kinds))}) with ends on a grid of {size + 1} points' + (' and two slopes' if slopes else ''))
    return c.generate('MCInterval', **kw) if emit else c.tlc('MCInterval', **kw)

def C12(c):
    fs = design_intervals(c, 3, q(3, 4), emit = True)
    fs += design_intervals(c, 3, q(5, 6), emit = True, kinds = {'SIr'}) + design_intervals(c, q(2, 3), 5, emit = True, kinds = {'SI', 'SIr'})
    fs += sample(design_intervals(c, q(4, 5), q(8, 10), emit = True, simulate = q(60, 1000)), q(1500, 30000))
    fs += sample(design_intervals(c, 4, 9, emit = True, kinds = {'SIr'}, simulate = q(60, 1000)), q(1500, 30000))
    if not QUICK: fs += design_intervals(c, 4, 2, emit = True) + design_intervals(c, 3, 5, emit = True, kinds = {'S', 'SI', 'SIr'})
    c.judge('TraceFit', c.drive('intervals', uniq(fs)), 'factors', constants = KERNEL)
    fs = design_intervals(c, 2, q(3, 4), True, emit = True)
    fs += sample(design_intervals(c, 4, 6, True, emit = True, simulate = q(40, 1000)), q(1000, 20000))
    c.judge('TraceFit', c.drive('intervals', fs, config = {'fixslope': False}), 'factors with slopes', constants = {**KERNEL, 'FixedSlope': False})


# ---- Searching

def design_search(c):
    c.exhaustive.append('the search machine on every graph of 3 expressions, every scoring with 2 or 3 levels (ties broken either way), every start and every beam up to 2')
    c.tlc('MCSearch', constants = {'N': 3, 'Levels': q(2, 3), 'MaxRounds': q(2, 3), 'MaxBeam': 2}, invariants = ['OnceOnly', 'Complete', 'Justified', 'Greedy', 'Reachable'])

SEARCH_RULES = ['plus_base', 'times_base', 'replace_base', 'change_same', 'change_point_linear', 'change_window_constant', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term', 'try_higher_curves']

def problems(c, n, real):
    import random
    ps = []
    for size, levels, share in ((3, 2, .2), (5, 9, .4), (7, 3, .2), (7, 99, .2)):
        got = c.generate('GenSearch', constants = {'N': size, 'Levels': levels, 'MaxRounds': q(4, 6), 'MaxBeam': 3}, simulate = int(n * share), depth = 2 * size + 4)
        by = {}
        for g in got: by.setdefault(str([g['succ'], g['score'], g['start']]), []).append(g) # One per simulated behaviour
        r = random.Random(SEED)
        ps += [{'kind': 'abstract', 'rules': [], **g} for k, gs in sorted(by.items()) for g in r.sample(gs, min(len(gs), 3))]
    r = random.Random(SEED)
    B = lambda n: {'k': 'B', 'n': n}
    starts = [B('WN'), B('C'), B('LIN'), B('PER'), {'k': 'P', 'b': ['LIN', 'LIN'], 'c': []}, {'k': 'S', 'b': ['PER', 'C'], 'c': []}, {'k': 'CP', 'l': B('LIN'), 'r': B('LIN')}, {'k': 'CW', 'l': B('LIN'), 'r': B('WN')},
              {'k': 'S', 'b': ['WN'], 'c': [{'k': 'P', 'b': ['PER', 'LIN'], 'c': []}]}, {'k': 'P', 'b': ['LIN'], 'c': [{'k': 'S', 'b': ['PER', 'WN'], 'c': []}, {'k': 'CP', 'l': B('LIN'), 'r': B('PER')}]}]
    for k in range(real):
        rounds = r.choice((1, 2, 2, 3))
        beam = [r.choice((1, 1, 2)) for _ in range(r.randint(1, 2))]
        isint = r.random() < .3
        ps.append({'kind': 'real', 'salt': k, 'starts': r.sample(starts, r.randint(1, 3)), 'rules': r.sample(SEARCH_RULES, r.randint(1, 3)), 'succ': [], 'score': [],
                   'rest': {'rounds': rounds, 'isInt': isint, 'beam': beam[:1] if isint else beam, 'split': r.randint(0, rounds), 'fail': 0}})
    for k in range(q(2, 8)): # Models fitted for real
        ps.append({'kind': 'real', 'fit': ('serial', 'parallel')[k % 2], 'salt': 0, 'starts': r.sample(starts[:5], 2), 'rules': [('replace_base', 'times_base')[k // 2 % 2]], 'succ': [], 'score': [],
                   'rest': {'rounds': 2, 'isInt': False, 'beam': [2, 1], 'split': 1, 'fail': 0}})
    return ps

def search_check(c):
    design_search(c)
    ps = problems(c, q(120, 1500), q(16, 160))
    if c.pid == 'C14': ps.append({'kind': 'badbeam'})
    c.judge('TraceSearch', c.drive('search', ps), 'searches', constants = GRAMMAR)

C13 = C14 = C15 = C16 = search_check


# ---- Fitting and models

def C17(c):
    import random
    FAILS = {'MaxKernels': q(2, 2), 'MaxScript': q(2, 3), 'MaxRetries': q(2, 3), 'Outcomes': {'ok', 'fail', 'stop'}}
    c.exhaustive.append(f'every script of outcomes: {FAILS}')
    gs = c.generate('MCFits', constants = FAILS, invariants = ['AsSpecified', 'NeverTooMany', 'SuccessUnless', 'Emit'])
    gs += c.generate('MCFits', constants = {'MaxKernels': 3, 'MaxScript': 2, 'MaxRetries': 1, 'Outcomes': {'fail'}}, invariants = ['AsSpecified', 'NeverTooMany', 'SuccessUnless', 'Emit'])
    gs = uniq(gs)
    r = random.Random(SEED)
    ins = [{**g, 'mode': 'one' if len(g['scripts']) == 1 and r.random() < .7 else 'serial'} for g in gs]
    if QUICK: ins = r.sample(ins, min(len(ins), 700))
    par = [g for g in gs if not any('stop' in s for s in g['scripts']) and g['scripts']]
    par = r.sample(par, min(len(par), q(24, 200)))
    for n in q((9, 17, 33), (8, 9, 15, 16, 17, 24, 31, 33, 40)):
        for retries in (0, 1):
            par.append({'scripts': [['fail'] * r.choice((0, 0, retries)) for _ in range(n)], 'retries': retries})
        par.append({'scripts': [['fail'] * (2 if j == n // 2 else 0) for j in range(n)], 'retries': 1})
    c.judge('TraceFits', c.drive('fits', ins), 'fits in series')
    c.judge('TraceFits', c.drive('fits', [{**g, 'mode': 'parallel'} for g in par], shards = 4), 'fits in parallel')

def C18(c):
    inv = ['Current', 'Consistent', 'Emit']
    n = q(3, 4)
    c.exhaustive.append(f'every sequence of {n} actions on a model, and on a model and its copies')
    hs = c.generate('MCLifecycle', constants = {'Steps': n, 'Models': 2}, invariants = inv, properties = ['Separate'])
    hs += uniq(c.generate('MCLifecycle', constants = {'Steps': n + 1, 'Models': 1}, invariants = inv))[::q(6, 2)]
    for models in (1, 3): hs += uniq(c.generate('MCLifecycle', constants = {'Steps': q(9, 14), 'Models': models}, invariants = inv, simulate = q(60, 600), depth = 20))[::q(4, 1)]
    if QUICK:
        import random
        hs = random.Random(SEED).sample(hs, min(len(hs), 8000))
    c.judge('TraceLifecycle', c.drive('lifecycle', uniq(hs)), 'lives of a model')

def C19(c):
    ins = c.generate('MCScore', constants = {**KERNEL, 'MaxK': q(12, 30), 'MaxLL': q(6, 30)}, invariants = ['Monotone', 'Harsher', 'Emit'])
    c.exhaustive.append('the score formulas on a grid of likelihoods, data sizes and parameter counts')
    c.judge('TraceScore', c.drive('score', ins), 'formulas', constants = KERNEL)
    ts = uniq(small_trees(c, 2, ALL, 1) + trees(c, q(250, 3000), 6, 3))
    c.judge('TraceScore', c.drive('score', ts), 'models', constants = KERNEL)


# ---- Utilities

def C21(c):
    k = {'MaxLen': 3, 'MaxVal': q(2, 3), 'MaxNodes': 2}
    c.exhaustive.append(f'all inputs of the list utilities within {k}')
    c.judge('TraceLists', c.drive('lists', c.generate('MCLists', constants = k, invariants = ['Laws', 'Emit'])), 'list utilities')
    ins = c.generate('MCLists', constants = {'MaxLen': 1, 'MaxVal': 1, 'MaxNodes': 3}, invariants = ['Laws', 'Emit'])
    c.judge('TraceLists', c.drive('lists', [x for x in ins if x['kind'] == 'graph']), 'graphs')

def C22(c):
    ins = c.generate('MCPiecewise', constants = {'Size': 5, 'Coeffs': q({0, 2}, {-1, 0, 2})}, invariants = ['Meets', 'Emit'])
    import random
    ins = random.Random(SEED).sample(ins, min(len(ins), q(2500, 20000)))
    c.judge('TracePiecewise', c.drive('piecewise', ins), 'data')

def C25(c):
    import random
    r = random.Random(SEED)
    design_search(c)
    ps = [{**p, 'only': 'verbose'} for p in problems(c, q(120, 1500), q(12, 120)) if p.get('fit') != 'serial']
    c.judge('TraceSearch', c.drive('search', ps), 'logs of searches', constants = GRAMMAR)
    inv = ['Shown', 'Never', 'Tables', 'Emit']
    gs = c.generate('MCReport', constants = {'Durations': {1, 2, 5}, 'Runs': 3, 'MaxFunctions': 2, 'MaxCurves': 4}, invariants = inv)
    gs += c.generate('MCReport', constants = {'Durations': {1, 3}, 'Runs': q(3, 4), 'MaxFunctions': 3, 'MaxCurves': 1}, invariants = inv)
    c.exhaustive.append('every benchmark of two functions run three times with durations 1, 2 or 5, and of three with durations 1 or 3')
    bench = uniq([g for g in gs if g['kind'] == 'bench'])
    c.judge('TraceReport', c.drive('reports', r.sample(bench, min(len(bench), q(600, 10000)))), 'benchmark tables')
    B = lambda *n: {'k': 'B', 'n': n[0]} if len(n) == 1 else {'k': 'P', 'b': list(n), 'c': []}
    CURVED = [('LIN', B('LIN')), ('LIN LIN', B('LIN', 'LIN')), ('C', B('C')), ('WN', B('WN')), ('PER', B('PER')), ('LIN PER', B('LIN', 'PER')), ('sum', {'k': 'S', 'b': ['WN', 'LIN'], 'c': []}),
              ('CP', {'k': 'CP', 'l': B('LIN'), 'r': B('C')}), ('CW', {'k': 'CW', 'l': B('WN'), 'r': B('PER')})]
    ins = []
    for bases, t in CURVED:
        ins += [{'kind': 'curves', 'n': n, 'same': True, 'bases': bases, 't': t} for n in (1, 2, r.choice((5, 17)), 200)]
        ins += [{'kind': 'curves', 'n': n, 'same': False, 'bases': bases, 't': t} for n in q((r.choice((1, 2, 3)), 5), (1, 2, 3, 4, 5, 12))]
    ins += [{'kind': 'saved', 'ts': [t for _, t in r.sample(CURVED, r.choice((1, 2, 3)))]} for _ in range(q(8, 40))]
    r.shuffle(ins)
    c.judge('TraceReport', c.drive('reports', ins), 'sample curves')
    ts = uniq(trees(c, q(150, 2000), 5, 3))
    c.judge('TraceReport', c.drive('reports', [{'kind': 'printed', 'how': ('model', 'kernel')[n % 3 == 2], 't': t} for n, t in enumerate(ts)]), 'printed models')

def C20(c):
    '''Every guarantee on expressions, kernels, fits and descriptions, under the other values of the configuration flags'''
    variants = [{'se': True}, {'offset': False}, {'fixslope': False}, {'stdper': True}, {'shifted': True}, {'se': True, 'offset': False, 'fixslope': False}]
    if not QUICK: variants += [{'se': True, 'offset': False}, {'se': True, 'fixslope': False, 'stdper': True}, {'offset': False, 'stdper': True}, {'se': True, 'offset': False, 'fixslope': False, 'stdper': True}, {'shifted': True, 'fixslope': False, 'offset': False}]
    ts = uniq(small_trees(c, 2, {'LIN', 'C', 'SE', 'PER'}, 2)[::q(3, 1)] + trees(c, q(150, 3000), 6, 3))
    small = uniq(trees(c, q(150, 2000), 5, 3))
    fs = [f for f in c.generate('MCInterval', constants = {'MaxFactors': 2, 'Size': 3, 'Slopes': True, 'Kinds': SIGMOIDALS}, invariants = ['Exact', 'Emit'])]
    for n, v in enumerate(variants):
        tag = ' '.join(f'{k}={x}' for k, x in v.items())
        se, offset, slope, std = v.get('se', False), v.get('offset', True), v.get('fixslope', True), v.get('stdper', False)
        grammar = {'UseOffset': offset, 'IncludeSE': se}
        kernel = {'UseOffset': offset, 'IncludeSE': True, 'FixedSlope': slope, 'StdPer': std, 'ShiftedSides': v.get('shifted', False)}
        if 'shifted' in v: # Not for the sum-of-products form, which has no term for the shift
            inv = {'MCKernel': ['Symmetric', 'Counted'], 'MCGradient': ['Differences', 'SymmetricD']}
            for m in inv: c.tlc(m, constants = {**kernel, 'MaxLeaves': 2, 'LeafNames': ALL}, invariants = inv[m])
            cw = [t for t in uniq(small + ts + trees(c, q(200, 2000), 4, 3)) if "'CW'" in str(t)][:q(400, 4000)]
            c.judge('TraceKernel', c.drive('kernel', cw, config = v), f'kernels, {tag}', constants = kernel)
            c.judge('TraceGradient', c.drive('gradient', cw[::q(2, 1)], config = v), f'gradients, {tag}', constants = kernel, check = 'C23')
            c.judge('TracePosterior', c.drive('posterior', cw[::q(3, 1)], config = v), f'predictions, {tag}', constants = kernel, check = 'C24')
            c.judge('TraceFit', c.drive('fitted', cw[::q(2, 1)], config = v, env = {'MODE': 'lattice'}), f'fits, {tag}', constants = kernel, check = 'C09')
            c.judge('TraceFit', c.drive('fitted', cw[::q(2, 1)], config = v, env = {'MODE': 'text'}), f'descriptions, {tag}', constants = kernel, check = 'C11')
            continue
        if not offset or not QUICK:
            c.tlc('MCKex', constants = {**KEX, 'UseOffset': offset, 'MaxLeaves': 2, 'LeafNames': ALL}, invariants = ['NFNormal', 'NFIdempotent', 'NFDen', 'NFFix', 'RootStd', 'NFSmaller'])
            rec = c.drive('kex', ts, config = v)
            for check in ('C01', 'C02', 'C03'): c.judge('TraceKex', rec, f'expressions, {tag}', constants = {**KEX, 'UseOffset': offset}, check = check)
        if not offset or se:
            c.tlc('MCExpand', constants = {**grammar, 'MaxLeaves': 3, 'Rules': 'Default', 'Starts': 'Default'}, invariants = ['ReachableNormal', 'ReachableBases', 'ReachableFix', 'NeverStuck', 'Bounded'])
            hs = one_per_prefix(c.generate('GenExpand', constants = {**grammar, 'MaxLeaves': 6, 'Rules': 'All', 'Starts': 'Default', 'MaxSteps': 3}, simulate = q(12, 200), depth = 5, spec = 'GSpec'))
            rec = c.drive('expand', uniq(hs + [{'start': t, 'path': []} for t in small[::q(5, 2)]]), config = v)
            for check in ('C06', 'C07'): c.judge('TraceExpand', rec, f'expansions, {tag}', constants = grammar, check = check)
        c.judge('TraceKernel', c.drive('kernel', small[n % 2::2] + ts[:q(30, 400)], config = v), f'kernels, {tag}', constants = kernel)
        rec = c.drive('fitted', ts, config = v, env = {'MODE': 'lattice'})
        for check in ('C09', 'C10'): c.judge('TraceFit', rec, f'fits, {tag}', constants = kernel, check = check)
        c.judge('TraceFit', c.drive('fitted', small[n % 2::2], config = v, env = {'MODE': 'text'}), f'descriptions, {tag}', constants = kernel, check = 'C11')
        if not std and (not slope or not offset or not QUICK): c.judge('TraceGradient', c.drive('gradient', small[n % 2::2] + ts[:q(40, 400)], config = v), f'gradients, {tag}', constants = kernel, check = 'C23')
        if not slope: c.judge('TraceFit', c.drive('intervals', fs[::q(2, 1)], config = v), f'factors, {tag}', constants = kernel, check = 'C12')
