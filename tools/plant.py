#!/usr/bin/env python3
'''plant.py DEFINITIONS.py [ids...]: turn definitions of planted bugs into /verif/seeded/<id>/ after confirming each in a scratch copy.
A definition: BUGS[id] = dict(property, needs, breaks, edits = [(file, old, new), ...], demo = "python source", checks = [ids])
plant.py --check ID...: run the checks named in each planted bug's meta.json (or CHECKS=C01,C02) against a patched scratch copy.'''
import json, os, shutil, subprocess, sys, tempfile, runpy, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
ENV = dict(os.environ, HOME = '/root', PYTHONDONTWRITEBYTECODE = '1', PYTHONHASHSEED = '0', MPLBACKEND = 'Agg')
DEMO = '''#!/bin/bash
# run from the repository's root
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''

def copy():
    d = tempfile.mkdtemp(prefix = 'plant_') + '/repo'
    subprocess.run(['cp', '-a', os.environ.get('PLANT_BASE', '/repo'), d], check = True)
    return d

def demo(d, folder):
    with tempfile.TemporaryDirectory() as t:
        for f in os.listdir(folder):
            if f.startswith('demo'): shutil.copy(os.path.join(folder, f), t)
        p = subprocess.run(['bash', t + '/demo.sh'], cwd = d, env = ENV, capture_output = True, text = True, timeout = 300)
        return p.returncode, (p.stdout + p.stderr)[-600:]

def tests(d):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-W', 'ignore::DeprecationWarning', '-o', 'junit_family=xunit2', f'--junitxml={t}/r.xml'], cwd = d, env = ENV, capture_output = True)
        subprocess.run(['python3', '/opt/vp/results.py', t + '/o.json', f'junit:{t}/r.xml'], capture_output = True)
        return stable - set(json.load(open(t + '/o.json'))['passed'])

def original_lines(d, edits_files, diff):
    '''The removed lines of the patch must come from the base commit'''
    base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd = d, capture_output = True, text = True).stdout.strip()
    bad, n = [], 0
    f = None; ln = 0
    for line in diff.splitlines():
        if line.startswith('--- a/'): f = line[6:]
        elif m := re.match(r'@@ -(\d+)', line): ln = int(m.group(1))
        elif line.startswith('-') and not line.startswith('---'):
            b = subprocess.run(['git', 'blame', '-l', '-s', '-L', f'{ln},{ln}', 'HEAD', '--', f], cwd = d, capture_output = True, text = True).stdout
            n += 1
            if not b.lstrip('^').startswith(base[:35]): bad.append((f, ln, line))
            ln += 1
        elif line.startswith(' '): ln += 1
    return n, bad

def plant(id, b):
    folder = os.path.join(SEEDED, id)
    d = copy()
    try:
        os.makedirs(folder, exist_ok = True)
        open(folder + '/demo.sh', 'w').write(DEMO); os.chmod(folder + '/demo.sh', 0o755)
        open(folder + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(folder + '/meta.json', 'w'), indent = 1)
        problems = []
        rc, out = demo(d, folder)
        if rc: problems.append(f'demo fails on the unchanged tree: {rc} {out}')
        for f, old, new in b['edits']:
            s = open(os.path.join(d, f)).read()
            if s.count(old) != 1: problems.append(f'{f}: {s.count(old)} occurrences of {old!r}'); continue
            open(os.path.join(d, f), 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd = d, capture_output = True, text = True).stdout
        open(folder + '/patch.diff', 'w').write(diff)
        n, bad = original_lines(d, None, diff)
        if n == 0: problems.append('no original line changed')
        if bad: problems.append(f'changes lines which are not original: {bad}')
        rc, out = demo(d, folder)
        if rc == 0: problems.append('demo passes with the patch')
        missing = tests(d)
        if missing: problems.append(f'tests fail: {sorted(missing)[:5]}')
        print(id, 'OK' if not problems else problems, '| demo:', rc, out.strip().splitlines()[-1:] , flush = True)
        if problems and not os.environ.get('KEEP'): shutil.rmtree(folder)
        return not problems
    finally: shutil.rmtree(os.path.dirname(d))

def check(id):
    folder = os.path.join(SEEDED, id)
    pid = json.load(open(folder + '/meta.json'))['property']
    d = copy()
    res = {}
    try:
        subprocess.run(['git', 'apply', folder + '/patch.diff'], cwd = d, check = True)
        for c in (os.environ['CHECKS'].split(',') if os.environ.get('CHECKS') else [pid]):
            p = subprocess.run(['python3', 'check.py', c], cwd = VERIF, env = dict(os.environ, VERIF_REPO = d, VERIF_TIER = os.environ.get('VERIF_TIER', 'quick'), VERIF_EVIDENCE = d + '_ev'), capture_output = True, text = True)
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            res[c] = 'caught' if p.returncode == 1 and any(f'property={c}' in l for l in v) else f'missed (rc {p.returncode}) ' + (p.stdout + p.stderr)[-300:] * (p.returncode not in (0, 1))
        print(id, res, flush = True)
    finally: shutil.rmtree(os.path.dirname(d))
    return res

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    if sys.argv[1] == '--check':
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as e: list(e.map(check, sys.argv[2:] or sorted(os.listdir(SEEDED))))
    else:
        B = runpy.run_path(sys.argv[1])['BUGS']
        with ThreadPoolExecutor(4) as e: list(e.map(lambda i: plant(i, B[i]), sys.argv[2:] or list(B)))
