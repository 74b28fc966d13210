'''Describes products of sigmoidal factors, recording the intervals in which they are said to apply.'''
import re, sys
from common import *

NUM = r'(-?\d+\.\d\d)'
def parse_where(s):
    res = []
    for part in re.split(r', (?:and )?', s):
        m = re.fullmatch(rf'(?:until {NUM}|from {NUM}|between {NUM} and {NUM})(?: \(with (?:change slope {NUM}|same change slopes {NUM}|change slopes {NUM} and {NUM})\))?', part)
        if not m: raise ValueError(f'not an interval: {part}')
        until, start, a, b, one, same, s1, s2 = [None if x is None else round(2 * float(x)) for x in m.groups()]
        opt = lambda x: [] if x is None else [x]
        if until is not None: v = {'s': [], 'e': [until], 'ss': [], 'es': opt(one)}
        elif start is not None: v = {'s': [start], 'e': [], 'ss': opt(one), 'es': []}
        else: v = {'s': [a], 'e': [b], 'ss': opt(same if s1 is None else s1), 'es': opt(same if s2 is None else s2)}
        res.append(v)
    return res

def main(inp, outp):
    SumKE, ProductKE, ChangeKE = K()
    out = Out(outp)
    for fs in read_lines(inp):
        r = {'fs': fs, 'exc': '', 'intervals': [], 'nowhere': False}
        def work():
            p = ProductKE([]).new_bases_with_parameters([('C', {'variance': 1.})] + [(f['n'], {k: v / 2 for k, v in f['p'].items()}) for f in fs])
            s = SumKE([])
            s.composite_terms.append(p)
            text = s.get_interpretation(sops = s)
            where = re.fullmatch(r'The fit kernel consists of 1 components:\n\tA constant; this component applies (.*), and it has overall variance 1.00', text, re.S)
            if not where: raise ValueError(f'unexpected description: {text}')
            if where.group(1) == 'nowhere': r['nowhere'] = True
            else: r['intervals'] = parse_where(where.group(1))
        _, r['exc'] = attempt(work)
        out.put(r)
    out.close()

main(*sys.argv[1:])
