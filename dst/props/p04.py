"""rmdirtree: only empty directories."""
import os

from ..lib import HOME, build, diff, gen_tree, kernel_params, short, under
from . import p03

ID = 'P04'
TITLE = 'rmdirtree removes exactly the directories that hold no files'
SEEDS = (330, 20000)
VARIANTS = (8, 14)
ROOT = HOME + '/w'
OUT = HOME + '/keep'
LISTS = ('ops', 'ext', 'fs')
FAULTS = p03.FAULTS
ASSUMPTIONS = []


def gen(rng, tier):
    fs = gen_tree(rng, OUT, rng.randint(2, 6), depth=2)
    outs = [e[1] for e in fs]
    tree = gen_tree(rng, ROOT, rng.randint(0, 22), depth=6, outside=outs)
    if rng.random() < 0.7:     # mostly directories
        tree = [e for e in tree if e[0] == 'd' or rng.random() < 0.35]
    fs += tree
    dirs = [e[1] for e in fs if e[0] == 'd' and e[1].startswith(ROOT)]
    inside = [e[1] for e in tree]
    if rng.random() < 0.2:
        for e in fs:
            if e[0] == 'd' and e[1] in dirs and len(e) == 2 and rng.random() < 0.3:
                e.append(rng.choice((0o555, 0o500, 0o300, 0)))
    ops = []
    for _ in range(rng.randint(1, 3)):
        p = ROOT if rng.random() < 0.6 else rng.choice(inside)
        ops.append({'p': p, 'cls': rng.choice(('AugmentedPath', 'LocalPath', 'RepoPath')),
                    'cwd': rng.choice([HOME, '/', '/home'] + dirs[:2]), 'rel': rng.random() < 0.3})
    plan = {'kernel': kernel_params(rng), 'fs': fs, 'ops': ops}
    if rng.random() < 0.3:
        plan['ext'] = p03.gen_ext(rng, len(ops), dirs)
    return plan


def hollow(snap, rel):
    """the directories at or below rel with nothing but directories below them"""
    out = set()
    sub = under(snap, rel)
    full = set()
    for p, v in sub.items():
        if v[0] != 'd':
            while p:
                p = os.path.dirname(p)
                full.add(p)
    for p, v in sub.items():
        if v[0] == 'd' and p not in full:
            out.add(p)
    return out


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if R.proc.dead:
            R.restart(reimport_=False)
        n = k.h_get(op['cwd'])
        cwd = op['cwd'] if n is not None and n.kind == 'd' else HOME
        k.cur.cwd = k.h_get(cwd)
        s = os.path.relpath(op['p'], cwd) if op['rel'] else op['p']
        path = getattr(R.aug, op['cls'])(s)
        before = k.snap('/', mode=True)
        fired = dict(k.fired)
        ext0, acted = R.probes.get('external', 0), len(R.acted)
        node = k.h_get(op['p'])
        out = R.op(i, path.rmdirtree)
        now = k.snap('/', mode=True)
        hit = {x: v for x, v in k.fired.items()
               if v != fired.get(x, 0) and not x.startswith('external')}
        external = R.probes.get('external', 0) - ext0
        rel = op['p'].lstrip('/')
        what = f'rmdirtree({s!r}) in {cwd!r}: {out!r}'
        may = hollow(before, rel) if node is not None and node.kind == 'd' else set()
        touched = set()
        if external:
            touched = {e['act'][1].lstrip('/') for e in plan['ext']}
        gone = {p for p in before if p not in now}
        R.check(gone <= may | touched, 'removed', lambda: what + f' removed {short(sorted(gone - may)[:4])}')
        new = {p for p in now if before.get(p) != now[p]}
        R.check(new <= touched, 'changed', lambda: what + f' changed {short(sorted(new)[:4])}')
        added = set()
        for a in R.acted[acted:]:
            (added.add if a[0] in 'fl' else added.discard)(a[1])
        for a in sorted(added):
            R.check(a.lstrip('/') in now, 'removed', lambda: what + f' removed {a!r}, which was added meanwhile')
        if node is not None and node.kind == 'l' and not hit:
            # (below a directory that may not be searched nobody can tell that it is a link)
            R.check(out.kind == 'err' and isinstance(out.exc, (NotADirectoryError, PermissionError)),
                    'followed', what)
        if out.kind == 'err':
            R.check(isinstance(out.exc, OSError), 'wrong_error', what)
        blocked = any(e[0] == 'd' and len(e) > 2 for e in plan['fs'])
        # '.' cannot be removed under that name
        dots = os.path.normpath(s) in ('.', '..') or s.endswith('/..')
        if not hit and not external and not blocked and not dots and node is not None \
           and node.kind == 'd':
            R.check(out.ok, 'failed', what)
            R.check(gone == may, 'left', lambda: what + f' left {short(sorted(may - gone)[:4])}')
            R.probe('removed', len(gone))
        R.probe('nontrivial')
