#!/usr/bin/env python3
'''Nothing to build: checks that the tools are there and that every module of the specification parses.'''
import concurrent.futures as cf, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok = True)
def parse(m):
    p = subprocess.run(['tla-sany', m], cwd = SPEC, capture_output = True, text = True)
    return '' if p.returncode == 0 and '*** Errors' not in p.stdout else f'{m}:\n{p.stdout[-1500:]}{p.stderr[-500:]}'
with cf.ThreadPoolExecutor(os.cpu_count()) as ex: bad = [x for x in ex.map(parse, sorted(f for f in os.listdir(SPEC) if f.endswith('.tla'))) if x]
p = subprocess.run([os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python'), '-c', 'import GPy, numpy'], capture_output = True, text = True)
if p.returncode: bad.append(p.stderr[-1500:])
print('\n'.join(bad) or 'specification parses, environment present')
sys.exit(1 if bad else 0)
