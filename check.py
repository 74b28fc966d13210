#!/usr/bin/env python3
'''check.py <property id>: decide one property on the code in /repo; VERIF_TIER=quick|thorough, VERIF_SEED=<int>'''
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]

import vlib, checks

def main():
    pid = sys.argv[1]
    c = vlib.Check(pid)
    try:
        getattr(checks, pid)(c)
        return c.finish()
    except vlib.Broken as e:
        print(f'{pid}: no verdict: {e}', file = sys.stderr)
    except Exception: traceback.print_exc()
    finally:
        import shutil
        shutil.rmtree(c.dir, ignore_errors = True)
    return 2

sys.exit(main())
