#!/usr/bin/env python3
"""python run_check.py <PROPERTY> [--tier quick|thorough] [--driver NAME] [--replay FILE]

Runs the monitors of one property against the working tree of /repo (pure Python: importing it is the build)."""
import os
import sys
import shutil
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
_mpl = tempfile.mkdtemp(prefix='verif-mpl-')
os.environ['MPLCONFIGDIR'] = _mpl
sys.path[:0] = [HERE, REPO]


def main():
    import argparse
    import importlib
    import json
    import warnings
    warnings.simplefilter('ignore')
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--driver')
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from vlib import harness
    import fixedIncome
    if not os.path.realpath(fixedIncome.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print('INCONCLUSIVE: not importing from', REPO, fixedIncome.__file__)
        return 2
    try:
        module = importlib.import_module(f'vlib.checks.{a.property.lower()}')
    except Exception as e:      # the code under test does not even import: nothing about the property holds
        import traceback
        tb = traceback.format_exc()
        if harness._in_repo(e.__traceback__) or REPO in tb:
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            path = os.path.join(HERE, 'replays', f'{a.property}-import.json')
            json.dump({'property': a.property, 'traceback': tb}, open(path, 'w'))
            print(tb)
            print(f'VIOLATION property={a.property} replay={path}')
            return 1
        raise
    if a.replay:
        r = json.load(open(a.replay))
        drv = next(d for d in module.DRIVERS if d.name == r['driver'])
        c = harness.run_case(a.property, drv, r['index'], r['seed'], r['tier'], quiet=False)
        print(json.dumps({'violations': c.violations, 'known': c.known, 'events': c.events}, indent=1))
        return 1 if c.violations else 0
    return harness.run_check(a.property, module, a.tier, seed, a.driver)


if __name__ == '__main__':
    try:
        code = main()
    finally:
        shutil.rmtree(_mpl, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
