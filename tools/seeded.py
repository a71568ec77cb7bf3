#!/opt/venv/bin/python
"""Runs checks against the planted bugs: applies each patch to /repo, runs the quick check of its property, undoes it.

    /opt/venv/bin/python tools/seeded.py [ID...] [--all-checks C01,C02]
"""
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'tools', 'seeded.json')


def sh(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd=HERE)


def main():
    args = sys.argv[1:]
    checks = None
    if '--checks' in args:
        k = args.index('--checks')
        checks = args[k + 1].split(',')
        args = args[:k] + args[k + 2:]
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = os.path.dirname(m)
        i = os.path.basename(d)
        if args and i not in args:
            continue
        found = []
        for c in checks or [json.load(open(m))['property']]:
            assert sh(f'git -C /repo apply {d}/patch.diff').returncode == 0, i
            try:
                r = sh(f'/opt/venv/bin/python run.py {c} --tier quick')
            finally:
                sh('git -C /repo checkout -- .')
            print(i, c, 'rc', r.returncode, [x for x in r.stdout.split('\n') if x.startswith('VIOLATION')][:1],
                  r.stdout.strip().split('\n')[-1][:150], flush=True)
            if r.returncode == 1 and f'VIOLATION property={c}' in r.stdout:
                found.append(c)
        old = [] if checks is None else [c for c in res.get(i, '').split(', ') if c.startswith('C') and c not in checks]
        res[i] = ', '.join(sorted(set(found + old))) or 'missed'
        json.dump(res, open(OUT, 'w'), indent=1, sort_keys=True)
    json.dump({k: v for k, v in res.items() if os.path.exists(os.path.join(HERE, 'seeded', k))},
              open(OUT, 'w'), indent=1, sort_keys=True)


main()
