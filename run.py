"""Run a check:  run.py PROPERTY [quick|thorough] [--seed N] [--only SCENARIO,...] [--scale X] [--replay FILE]"""

import argparse
import glob
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from harness import core


def main():
    # What is printed about names which cannot be decoded is itself valid
    sys.stdout.reconfigure(errors='backslashreplace')
    sys.stderr.reconfigure(errors='backslashreplace')
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--only')
    p.add_argument('--scale', type=float, default=1.0)
    p.add_argument('--workers', type=int)
    p.add_argument('--replay')
    a = p.parse_args()
    for entry in (os.path.join(core.REPO, 'segpy-ext', 'segpy_numpy'), core.REPO):
        sys.path.insert(0, entry)
    name = a.property.lower()
    try:
        module = importlib.import_module('checks.' + name)
        import segpy
        if not os.path.realpath(segpy.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
            print('segpy was imported from {}, not {}'.format(segpy.__file__, core.REPO))
            return 2
    except Exception as e:
        if not os.path.exists(os.path.join(core.VERIF, 'checks', name + '.py')):
            raise
        # The code under test cannot even be imported
        import json, traceback
        traceback.print_exc()
        directory = os.path.join(core.EVIDENCE, 'replay')
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(directory, a.property + '-import.json')
        with open(path, 'w') as f:
            json.dump(dict(property=a.property, message=repr(e)), f)
        print('VIOLATION property={} replay={}'.format(a.property, path))
        return 1
    if a.replay:
        return core.replay(module, a.replay)
    return core.run_check(module, a.tier, a.seed, a.workers, a.only.split(',') if a.only else None, a.scale)


if __name__ == '__main__':
    sys.exit(main())
