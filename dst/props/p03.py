"""rmtree: everything below, nothing else."""
import copy
import os

from ..lib import HOME, build, diff, gen_tree, kernel_params, missing, short, under

ID = 'P03'
TITLE = 'rmtree removes exactly what is below the path, or reports an error'
SEEDS = (330, 20000)
VARIANTS = (8, 14)
ROOT = HOME + '/w'
OUT = HOME + '/keep'
LISTS = ('ops', 'ext', 'fs')
FAULTS = ('errno', 'errno', 'errno', 'crash_before', 'crash_after', 'kbd')
ASSUMPTIONS = ['no other process replaces a directory of the tree by a symlink while rmtree runs '
               '(the documented race of the function)']


def gen(rng, tier):
    fs = gen_tree(rng, OUT, rng.randint(2, 6), depth=2)
    outs = [e[1] for e in fs] + [HOME, '/', '/etc/machine-id']
    fs += gen_tree(rng, ROOT, rng.randint(0, 22), depth=4, outside=outs, hard=True)
    for e in fs:
        if e[0] == 'f' and e[1].startswith(ROOT) and rng.random() < 0.05:
            # another name outside for a file inside
            fs.append(['h', OUT + f'/hard{len(fs)}', e[1]])
            break
    inside = [e[1] for e in fs if e[1].startswith(ROOT)]
    dirs = [e[1] for e in fs if e[0] == 'd' and e[1].startswith(ROOT)]
    if rng.random() < 0.2:
        for e in fs:
            if e[0] == 'd' and e[1] in dirs and len(e) == 2 and rng.random() < 0.3:
                e.append(rng.choice((0o555, 0o500, 0o300, 0)))
    ops = []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.6:
            p = ROOT if rng.random() < 0.5 else rng.choice(inside)
        elif r < 0.75:
            p = rng.choice(inside)
        elif r < 0.9:
            p = rng.choice(['/', '/home', '/tmp', HOME, '/etc', 'w', '.', '..', './w', '/home/',
                            '/var/home', '/home/other', ''])
        else:
            p = missing(rng.choice(inside))
        ops.append({'p': p, 'cls': rng.choice(('AugmentedPath', 'LocalPath', 'RepoPath')),
                    'cwd': rng.choice([HOME, HOME, '/'] + dirs[:4]) if rng.random() < 0.4 else HOME,
                    'ignore': rng.random() < 0.2, 'onerror': rng.random() < 0.3,
                    'dz': rng.choice((False, False, False, True, 1, 'yes'))})
        if ops[-1]['dz'] is True and not p.startswith(ROOT):
            ops[-1]['dz'] = False
    plan = {'kernel': kernel_params(rng), 'fs': fs, 'ops': ops}
    if rng.random() < 0.25:
        plan['ext'] = gen_ext(rng, len(ops), dirs)
    return plan


def gen_ext(rng, nops, dirs):
    ext = []
    for _ in range(rng.randint(1, 4)):
        d = rng.choice(dirs)
        act = rng.choice((['f', d + '/intruder', [3, 4], {}], ['d', d + '/newdir'],
                          ['l', d + '/newlink', OUT], ['rm', rng.choice(dirs)]))
        ext.append({'op': rng.randrange(nops), 'step': rng.randrange(40), 'act': act})
    return ext


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    # the parents of the tree must stay removable-from for the harness's own bookkeeping
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if R.proc.dead:
            R.restart(reimport_=False)
        n = k.h_get(op['cwd'])
        cwd = op['cwd'] if n is not None and n.kind == 'd' else HOME
        k.cur.cwd = k.h_get(cwd)
        one(R, i, op, cwd)


def one(R, i, op, cwd):
    k, plan = R.k, R.plan
    path = getattr(R.aug, op['cls'])(op['p'])
    s = os.fspath(path)
    before = k.snap('/', mode=True)
    fired = dict(k.fired)
    ext0 = R.probes.get('external', 0)
    calls = []

    def onerror(func, p, info):
        calls.append((getattr(func, '__name__', '?'), os.fspath(p), info[0]))
    node = k.h_get(s) if s.startswith('/') else None
    kw = {}
    if op['ignore']:
        kw['ignore_errors'] = True
    if op['onerror']:
        kw['onerror'] = onerror
    if op['dz'] is not False:
        kw['DANGERZONE'] = op['dz']
    out = R.op(i, path.rmtree, **kw)
    now = k.snap('/', mode=True)
    hit = {x: v for x, v in k.fired.items() if v != fired.get(x, 0) and not x.startswith('external')}
    external = R.probes.get('external', 0) - ext0
    rel = s.lstrip('/') if s.startswith('/') else None
    what = f'rmtree({s!r}, {kw}) in {cwd!r}: {out!r}'

    # 1. what must be refused
    parts = path.parts
    refuse = not s.startswith('/') or (op['dz'] is not True and (
        len(parts) <= 2 or (len(parts) <= 3 and 'home' in parts) or s == cwd))
    if refuse and out.kind not in ('crash', 'kbd'):
        R.check(out.kind == 'err' and (hit or isinstance(
            out.exc, R.aug.exceptions.WillNotRemovePathError)), 'not_refused', what)
        R.probe('refused')
    if refuse:
        R.check(now == before, 'refused_but_changed', lambda: what + ' ' + diff(before, now))
        return
    # 2. nothing outside, and below nothing but removal
    extp = [e['act'][1].lstrip('/') for e in plan.get('ext') or ()] if external else []

    def scope(snap, inside):
        return {p: v for p, v in snap.items()
                if (p == rel or p.startswith(rel + '/')) == inside and
                not any(p == x or p.startswith(x + '/') for x in extp)}
    b, n = scope(before, False), scope(now, False)
    R.check(b == n, 'outside', lambda: what + ' changed ' + diff(b, n))
    b, n = scope(before, True), scope(now, True)
    extra = {p: v for p, v in n.items() if b.get(p) != v}
    R.check(not extra, 'changed_below', lambda: what + f' {short(extra)}')
    # never the directory the process is in
    if op['dz'] is not True and not external:
        R.check(k.pathof(k.cur.cwd) is not None or out.kind == 'crash', 'cwd_removed', what)
    if out.kind in ('crash', 'kbd'):
        return
    # 3. silent success means it is gone
    left = under(now, rel)
    isdirlink = node is not None and node.kind == 'l' and (
        (t := k.h_get(s, follow=True)) is not None and t.kind == 'd')
    if out.ok and not op['ignore']:
        if left:
            R.check(calls, 'silent_failure', lambda: what + f' left {short(sorted(left)[:5])}')
        if node is None and not external:
            R.check(calls, 'missing_ok', lambda: what + ': the path did not exist')
    if isdirlink:
        R.check(left == under(before, rel), 'link_removed', what)
    for f, p, t in calls:
        R.check(p == s or p.startswith(s.rstrip('/') + '/'), 'onerror_outside', f'{what} {p!r}')
        R.check(issubclass(t, Exception), 'onerror_args', f'{what} {t!r}')
    if not hit and not external and not isdirlink and node is not None:
        blocked = any(e[0] == 'd' and len(e) > 2 for e in plan['fs'])
        cwd_below = cwd.startswith(s.rstrip('/') + '/') and op['dz'] is not True
        if not blocked and not cwd_below:
            R.check(out.ok and not left and not calls, 'failed',
                    lambda: what + f' failed without a cause, left {short(sorted(left)[:5])} {calls}')
            R.probe('removed', len(b))
    if op['ignore'] and out.kind == 'err':
        R.check(isinstance(out.exc, R.aug.exceptions.WillNotRemovePathError), 'raised', what)
    if op['onerror'] and not op['ignore'] and out.kind == 'err' and not hit and not external:
        blocked = any(e[0] == 'd' and len(e) > 2 for e in plan['fs'])
        R.check(blocked or isinstance(out.exc, R.aug.exceptions.WillNotRemovePathError),
                'raised', what)
    R.probe('nontrivial')
