#!/usr/bin/env python3
"""Validate planted bugs in scratch copies of /repo: applies, passes the stable tests,
demo passes without and fails with the patch, and which check catches it.

  tools/seeded.py [ID...] [--nocheck] [--all-checks]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
ENV = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1')


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, timeout=timeout)
    return p.returncode, (p.stdout + p.stderr).decode(errors='replace')


def tests(copy):
    """stable tests of the copy, with the suite's own environment"""
    env = dict(ENV, SKIP_NETWORK='1', HOME='/root', PYTHONHASHSEED='0', PYTHONPATH=copy,
               GIT_AUTHOR_NAME='test', GIT_AUTHOR_EMAIL='t@e.x', GIT_COMMITTER_NAME='test',
               GIT_COMMITTER_EMAIL='t@e.x')
    rc, out = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                  '--timeout=300', '-x'], copy, env)
    return rc == 0, out[-600:]


def one(bid, check=True):
    d = os.path.join(SEEDED, bid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    work = tempfile.mkdtemp(prefix=f'seed-{bid}-')
    res = {'id': bid, 'property': meta['property']}
    try:
        copy = os.path.join(work, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        demo = os.path.join(work, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        env = dict(ENV, PYTHONPATH=copy)
        res['demo_clean'], o1 = sh(['bash', os.path.join(demo, 'demo.sh')], copy, env, 300)
        rc, o = sh(['git', 'apply', os.path.join(d, 'patch.diff')], copy)
        res['applies'] = rc == 0
        if rc:
            res['err'] = o[:300]
            return res
        res['tests'], o = tests(copy)
        if not res['tests']:
            res['err'] = o
        res['demo_bug'], o2 = sh(['bash', os.path.join(demo, 'demo.sh')], copy, env, 300)
        if res['demo_clean']:
            res['err'] = o1[-500:]
        if not res['demo_bug']:
            res['err'] = o2[-500:]
        if check:
            v = os.path.join(work, 'verif')
            shutil.copytree(VERIF, v, symlinks=True, ignore=shutil.ignore_patterns('seeded', '.git', 'replays'))
            os.makedirs(os.path.join(v, 'evidence'), exist_ok=True)
            env = dict(ENV, DST_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick')
            rc, o = sh(['./check', meta['property'], 'quick'], v, env)
            res['check'] = rc
            res['caught'] = rc == 1 and f'VIOLATION property={meta["property"]} ' in o
            res['out'] = ' | '.join(o.splitlines()[1:3])[:240]
    finally:
        shutil.rmtree(work)
    return res


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(SEEDED))
    ids = [i for i in ids if os.path.exists(os.path.join(SEEDED, i, 'patch.diff'))]
    bad = 0
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: one(b, '--nocheck' not in sys.argv), ids):
            good = r.get('applies') and r.get('tests') and r['demo_clean'] == 0 and r.get('demo_bug') != 0
            bad += not good
            print('ok ' if good else 'BAD', 'caught' if r.get('caught') else 'MISSED', json.dumps(r), flush=True)
    return bad


if __name__ == '__main__':
    sys.exit(main())
