"""Try the planted bugs: demo on both trees, the stable tests and the checks, in scratch copies.

Not a check.  Usage: try_seeds.py [--tests] [--checks own|all|C01,C02] [--jobs N] [ids...]
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = sorted(f[:3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f[0] == 'c' and f.endswith('.py'))


def stable_tests(copy, work):
    script = open('/opt/vp/test.sh').read().replace('/repo', copy).replace('-n 8', '-n 3')
    path = os.path.join(work, 'test.sh')
    with open(path, 'w') as f:
        f.write(script)
    out = os.path.join(work, 'tests.json')
    subprocess.run(['bash', path, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    passed = set(json.load(open(out))['passed'])
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]


def attempt(seed, args):
    d = os.path.join(HERE, 'seeded', seed)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    work = tempfile.mkdtemp(prefix='try-seed-')
    try:
        copy = os.path.join(work, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        demo = ['bash', os.path.join(d, 'demo.sh')]
        before = subprocess.run(demo, cwd=copy, capture_output=True, text=True).returncode
        subprocess.check_call(['git', '-C', copy, 'apply', os.path.join(d, 'patch.diff')])
        after = subprocess.run(demo, cwd=copy, capture_output=True, text=True).returncode
        missing = stable_tests(copy, work) if args.tests else '-'
        caught = {}
        checks = [meta['property']] if args.checks == 'own' else ALL if args.checks == 'all' else args.checks.split(',') if args.checks else []
        for check in checks:
            r = subprocess.run(['bash', os.path.join(HERE, 'check.sh'), check, 'quick', '--seed', str(args.seed)], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, SEGPY_REPO=copy, SEGPY_EVIDENCE=os.path.join(work, 'evidence')))
            line = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION property=' + check)]
            caught[check] = 'caught' if r.returncode == 1 and line else 'quiet' if r.returncode == 0 else 'error {}'.format(r.returncode)
        return seed, meta['property'], before, after, missing, caught
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('ids', nargs='*')
    p.add_argument('--tests', action='store_true')
    p.add_argument('--checks', default='own')
    p.add_argument('--jobs', type=int, default=3)
    p.add_argument('--seed', type=int, default=1)
    args = p.parse_args()
    ids = args.ids or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    with ThreadPoolExecutor(args.jobs) as pool:
        for seed, prop, before, after, missing, caught in pool.map(lambda i: attempt(i, args), ids):
            good = before == 0 and after != 0 and missing in ('-', [])
            own = caught.get(prop, '-')
            others = [c for c, v in caught.items() if v != 'quiet' and c != prop]
            print('{:4} {:45} {} own={} others={} {}'.format('ok' if good else 'BAD', seed, prop, own, others,
                                                           '' if good else (before, after, missing if missing == '-' else len(missing), list(missing)[:3])), flush=True)


if __name__ == '__main__':
    main()
