"""Finding one's way in a project: its root, and the three views of one object."""
import os

from ..lib import HOME, kernel_params, short
from ..svc import (Binding, DIRS, DNAMES, DSIZES, FILES, FNAMES, ORG, ROOT, World, tracked)

ID = 'P30'
TITLE = 'from every path of a project its root and its remote object are found'
SEEDS = (420, 20000)
VARIANTS = (8, 14)
LISTS = ('ops', 'world', 'mine')
FAULTS = ('errno', 'errno', 'kbd', 'crash_before', 'crash_after')
ASSUMPTIONS = ['a relative path object is used in the directory it was made in',
               'the project mirrors the remote; nothing changes while it is asked',
               'links of the user point to existing files or directories']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)']
NAMES = DNAMES + ('proj', 'a', 'of mine', 'proj')
ASK = ('root', 'root', 'root', 'cache', 'cache', 'remote', 'back', 'parent', 'child', 'as_path', 'rback', 'fromremote', 'kids', 'rkids')


def gen(rng, tier):
    world, dirs = [], [ORG]
    for d in DIRS[:rng.randint(0, 3)]:
        world.append([d, rng.choice(NAMES), rng.choice(dirs + dirs[-1:]), None, 1000])
        dirs.append(d)
    for f in FILES[:rng.randint(1, 5)]:
        world.append([f, rng.choice(FNAMES + ('proj',)), rng.choice(dirs), [rng.randrange(10**6), rng.choice(DSIZES)], 1000])
    mine = []
    for _ in range(rng.randint(0, 4)):
        mine.append({'d': rng.randrange(12), 'how': rng.choice(('dir', 'dir', 'file', 'link')), 'n': rng.choice(('m', 'm1', 'm 2')),
                     't': rng.randrange(12), 'abs': rng.random() < 0.5})
    ops = []
    for _ in range(rng.randint(2, 7)):
        ops.append({'q': rng.choice(ASK), 'p': rng.randrange(40), 'cwd': rng.randrange(12), 'rel': rng.random() < 0.4,
                    'new': rng.choice(('', '', '', '', 'bare', 'again')), 'out': rng.random() < 0.08, 'keep': rng.random() < 0.4,
                    'dots': rng.random() < 0.1})
    return {'kernel': kernel_params(rng), 'world': world, 'mine': mine, 'fetch': rng.randrange(16), 'ops': ops}


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'])
    with R.calm():
        b = Binding(R, w)
        anchor = b.first()
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
        for j, ap in enumerate(sorted(p for p in tracked(k) if k.h_get(p).kind == 'l')):
            if plan['fetch'] >> j & 1:
                b.L(ap).cache.fetch(size_limit_mb=None)
    for m in plan['mine']:
        ds = [ROOT] + sorted(p for p, n in every(k) if n.kind == 'd')
        d = ds[m['d'] % len(ds)]
        ap = f'{d}/{m["n"]}'
        if k.h_get(ap) is not None:
            continue
        if m['how'] == 'dir':
            k.h_mkdir(ap)
        elif m['how'] == 'file':
            k.h_put(ap, b'mine')
        else:
            ts = [ROOT] + sorted(p for p, n in every(k) if n.kind in 'df')
            t = ts[m['t'] % len(ts)]
            k.h_link(ap, t if m['abs'] else os.path.relpath(t, d))
    ids = {ROOT if not w.path(i) else f'{ROOT}/{w.path(i)}': i for i in w.nodes}
    kept = {}
    snap = k.snap('/')
    anchored = True
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['new'] or R.proc.dead:
            R.restart()
            kept.clear()
            with R.calm():
                b = Binding(R, w)
                anchored = op['new'] != 'bare'
                if anchored:
                    anchor = b.again()
                else:
                    b.Rm.init(ORG)
        objs = sorted([(ROOT, k.h_get(ROOT))] + every(k))
        p, n = objs[op['p'] % len(objs)]
        if op['out']:
            p, n = (HOME, '/', '/home')[op['p'] % 3], None
        ds = [HOME, ROOT] + [q for q, m in objs if m.kind == 'd']
        cwd = ds[op['cwd'] % len(ds)]
        k.cur.cwd = k.h_get(cwd)
        s = p
        if op['rel']:
            s = os.path.relpath(p, cwd)
            if s.startswith('..') and op['q'] != 'root':
                s = p
        elif op['dots'] and op['q'] == 'root':
            s = f'{os.path.dirname(p)}/./{os.path.basename(p)}'
        if op['keep'] and (s, cwd) in kept and op['q'] != 'root':
            path = kept[s, cwd]
        else:
            path = kept[s, cwd] = b.L(s)
        ask(R, k, b, w, i, op, p, n, s, cwd, path, ids, anchored)
        now = k.snap('/')
        R.check(now == snap, 'changed', lambda: f'{op["q"]} of {s!r} in {cwd} changed '
                f'{[x for x in set(snap) | set(now) if snap.get(x) != now.get(x)]}')


def every(k):
    out = []

    def rec(n, p):
        for name, c in n.entries.items():
            if p == ROOT and name.startswith('.'):
                continue
            out.append((f'{p}/{name}', c))
            if c.kind == 'd':
                rec(c, f'{p}/{name}')
    rec(k.h_get(ROOT), ROOT)
    return out


def ask(R, k, b, w, i, op, p, n, s, cwd, path, ids, anchored):
    q = op['q']
    inside = p == ROOT or p.startswith(ROOT + '/')
    me = ids.get(p)
    up = p

    def full(v):
        return os.path.normpath(os.path.join(cwd, str(v)))

    def err(o):
        R.check(o.kind in ('crash', 'kbd') or R.hit, 'failed',
                lambda: f'{q} of {s!r} in {cwd!r} ({"" if anchored else "not "}anchored): {o!r:.300}')
    if n is not None and n.kind == 'l' and p not in ids and q != 'root':
        return                      # a link of the user
    R.probe('nontrivial')
    if q == 'root':
        if n is not None and n.kind == 'l' and p not in ids:
            R.probe('through_link')
        out = R.op(i, path.find_cache_root)
        if out.ok:
            got = None if out.value is None else full(out.value)
            R.check(got == (ROOT if inside else None) or R.hit and got is None, 'root',
                    lambda: f'find_cache_root of {s!r} in {cwd!r} is {out.value}, should be {ROOT if inside else None}')
            R.probe('root')
        else:
            err(out)
        return
    if q == 'cache' or me is None:
        out = R.op(i, lambda: (lambda c: None if c is None else c.id)(path.cache))
        if out.ok:
            R.check(out.value == me or R.hit and out.value is None, 'cache', lambda: f'cache of {s!r} in {cwd!r} has id {out.value}, should be {me}')
            R.probe('cache')
        else:
            err(out)
        return
    if not anchored and q not in ('back',):
        return
    d = w.nodes[me]
    if q == 'remote':
        out, want = R.op(i, lambda: path.remote.id), me
    elif q == 'back':
        out, want = R.op(i, lambda: full(path.cache.local)), p
    elif q == 'rback':
        out, want = R.op(i, lambda: full(path.remote.cache.local)), p
    elif q == 'fromremote':
        out, want = R.op(i, lambda: str(b.anchor.local / b.Rm(me).as_path())), p
    elif q == 'parent':
        if p == ROOT or s == '.':       # (the parent of . is . in pathlib)
            return
        out, want = R.op(i, lambda: (path.cache.parent.id, path.remote.parent.id)), (d['parent'],) * 2
    elif q == 'as_path':
        out, want = R.op(i, lambda: str(path.remote.as_path())), w.path(me) or '.'
    elif q in ('kids', 'rkids'):
        if n.kind != 'd':
            return
        attr = 'children' if q == 'kids' else 'rchildren'
        out = R.op(i, lambda: sorted((c.id, full(c.local)) for c in getattr(path.cache, attr)))
        want = sorted((c, ROOT + '/' + w.path(c)) for c in getattr(w, q)(me))
    else:
        if n.kind != 'd':
            return
        out = R.op(i, lambda: sorted((c.id, full((path.cache / c.name).local)) for c in path.remote.children))
        want = sorted((c, p + '/' + w.nodes[c]['name']) for c in w.kids(me))
    if out.ok:
        R.check(out.value == want, q, lambda: f'{q} of {s!r} in {cwd!r} is {out.value}, should be {want}')
        R.probe(q)
    else:
        err(out)
