"""Does every check report its fixed defects again when the repair is taken back?

refix.py [COMMIT...]   works in a scratch clone of /repo; prints one line per repair."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    want = sys.argv[1:]
    d = tempfile.mkdtemp(prefix='refix-', dir='/tmp')
    w = os.path.join(d, 'repo')
    subprocess.run(['git', 'clone', '-q', os.environ.get('REFIX_REPO', '/repo'), w], check=True)
    git = ['git', '-C', w, '-c', 'user.name=x', '-c', 'user.email=x@x']
    missed = []
    try:
        for l in json.load(open(os.path.join(HERE, 'known_findings.json')))['fixed']:
            pid, commit, what = re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups()
            if want and commit not in want and pid not in want:
                continue
            subprocess.run(git + ['reset', '-q', '--hard', 'origin/HEAD'], check=True)
            subprocess.run(git + ['clean', '-qfdx'], check=True)
            p = subprocess.run(git + ['revert', '--no-commit', commit], capture_output=True, text=True)
            if p.returncode:
                subprocess.run(git + ['revert', '--abort'], capture_output=True)
                print(pid, commit, 'CONFLICT', what, flush=True)
                continue
            p = subprocess.run([os.path.join(HERE, 'check'), pid], capture_output=True, text=True,
                               env=dict(os.environ, DST_REPO=w))
            v = [x for x in p.stdout.splitlines() if x.startswith('VIOLATION')]
            ok = p.returncode == 1 and bool(v)
            print(pid, commit, 'caught' if ok else f'MISSED rc={p.returncode}', what, flush=True)
            if not ok:
                missed.append(commit)
    finally:
        shutil.rmtree(d)
    return bool(missed)


sys.exit(main())
