"""Fetching by several threads or processes at the same time."""
import hashlib

from .. import sched
from ..lib import kernel_params, short
from ..svc import Binding, FNAMES, ORG, ROOT, World, canon, tracked

ID = 'P22'
TITLE = 'concurrent fetches all get the content and lose no metadata'
SEEDS = (150, 8000)
VARIANTS = (10, 16)
LISTS = ('actors', 'world')
FAULTS = ('crash_before', 'crash_after', 'errno', 'kbd', 'cut', 'flip')
ASSUMPTIONS = ['nothing else changes the files meanwhile']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)',
         'thread scheduler (a baton handed on at seeded system calls and lines)']
SZ = (0, 1, 100, 101, 250, 1000)


def gen(rng, tier):
    world, dirs = [], [ORG]
    if rng.random() < 0.5:
        world.append(['N:col:1', 'a', ORG, None, 1000])
        dirs.append('N:col:1')
    names = list(FNAMES[:3])
    nf = rng.randint(1, 3)
    for n in range(nf):
        world.append([f'N:pkg:{n}', names[n], rng.choice(dirs), [rng.randrange(10**6), rng.choice(SZ)], 1000])
    actors = []
    hot = rng.randrange(nf)
    for a in range(rng.randint(2, 3)):
        ops = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            ops.append({'op': 'fetch' if r < 0.7 else 'read' if r < 0.85 else 'meta',
                        'n': hot if rng.random() < 0.7 else rng.randrange(nf)})
        actors.append({'process': rng.random() < 0.5, 'ops': ops})
    return {'kernel': kernel_params(rng), 'world': world, 'actors': actors,
            'chunk': rng.choice((37, 100, 100, 4096))}


def place(rng, plan, steplog, n):
    import sys
    return sched.place(sys.modules[__name__], rng, plan, steplog, n)


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'])
    with R.calm():
        b = Binding(R, w, chunk=plan['chunk'])
        anchor = b.first()
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
        ids = tracked(k)
        paths = sorted(p for p, i in ids.items() if w.nodes[i]['data'] is not None)
        old = {p: canon(b.L(p).cache.meta) for p in paths}
    if not paths:
        return
    # the first fetch of a file replaces its placeholder, one more may write to it in place
    count = {}
    for spec in plan['actors']:
        for op in (spec['ops'] if spec else ()):
            if op is not None and op['op'] == 'fetch':
                p = paths[op['n'] % len(paths)]
                count[p] = count.get(p, 0) + 1
                if count[p] > 2:
                    op['op'] = 'meta'
    before = k.snap('/', mode=True)
    s = sched.Sched(R)
    first = None
    results = []
    for a, spec in enumerate(plan['actors']):
        if spec is None:
            continue
        if spec['process']:
            with R.calm():
                R.restart_modules()
                bb = Binding(R, w, chunk=plan['chunk'])
                bb.again()
            of = None
        else:
            bb, of = b, first

        def body(a=a, spec=spec, bb=bb):
            for i, op in enumerate(spec['ops']):
                if op is None:
                    continue
                p = paths[op['n'] % len(paths)]
                if op['op'] == 'fetch':
                    out = R.op(i, lambda: bb.L(p).cache.fetch(size_limit_mb=None))
                    n = k.h_get(p)
                    R.check(not out.ok or n is not None and n.kind == 'f', 'not_fetched',
                            lambda: f'{a}: fetch {p} returned, but there is no content')
                elif op['op'] == 'read':
                    out = R.op(i, lambda: b''.join(bb.L(p).data))
                else:
                    out = R.op(i, lambda: canon(bb.L(p).cache.meta))
                results.append((a, op['op'], p, out))
                if out.kind == 'crash':
                    return
        pr = s.thread(f'a{a}', body, of)
        if of is None and not spec['process']:
            first = pr
    fired = dict(k.fired)
    s.run()
    hit = {x for x in k.fired if k.fired[x] != fired.get(x, 0)} - {'switch'}
    R.hit = hit
    R.restart()
    with R.calm():
        b = Binding(R, w, chunk=plan['chunk'])
        b.again()
    if 'switch' in k.fired:
        R.probe('nontrivial')
    log = '; '.join(f'{a}: {op} {p[len(ROOT):]} {out!r}' for a, op, p, out in results)
    after = k.snap('/', mode=True)
    odd = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and '/' + p not in paths and
           '/.operations' not in p]
    R.check(not odd, 'side_effect', lambda: f'changed {odd}: {log}')
    for p in paths:
        node = w.nodes[ids[p]]
        n = k.h_get(p)
        R.check(n is not None, 'gone', lambda: f'{p}: {log}')
        with R.calm():
            c = b.L(p).cache
            now = canon(c.meta) if c is not None else None
        R.check(now is not None and all(f == 'errors' or now.get(f) == old[p].get(f) for f in {**now, **old[p]}),
                'metadata_lost', lambda: f'{p}: {short(old[p])} became {short(now)}: {log}')
        content = bytes(n.data) if n.kind == 'f' else None
        if not hit:
            R.check(not now.get('errors'), 'false_mismatch', lambda: f'{p}: {log}')
            if any(op == 'fetch' and q == p for _, op, q, _ in results):
                R.check(content == node['data'], 'wrong_content', lambda: f'{p}: {log}')
        elif n.kind == 'f' and sum(op == 'fetch' and q == p for _, op, q, _ in results) < 2:
            R.check(len(content) == len(node['data']) and
                    (content == node['data'] or 'net_corrupt' in hit), 'partial', lambda: f'{p}: {log}')
    fetches = {}
    for _, op, p, _ in results:
        if op == 'fetch':
            fetches[p] = fetches.get(p, 0) + 1
    for a, op, p, out in results:
        data = w.nodes[ids[p]]['data']
        what = f'{a}: {op} {p}: {out!r} ({log})'
        if out.kind == 'err':
            if op == 'read':
                continue
            R.check(hit, 'failed', what)
        elif out.ok and op == 'read' and fetches.get(p, 0) < 2 and 'net_corrupt' not in hit:
            R.check(out.value == data, 'partial_read', what)
        elif out.ok and op == 'meta':
            R.check(all(f == 'errors' or out.value.get(f) == old[p].get(f) for f in {**out.value, **old[p]}),
                    'wrong_metadata', what)
    if hit:
        # trying again gets there
        for p in paths:
            with R.calm():
                b.L(p).cache.fetch(size_limit_mb=None)
            n = k.h_get(p)
            R.check(n.kind == 'f' and bytes(n.data) == w.nodes[ids[p]]['data'], 'no_recovery', lambda: f'{p}: {log}')
    R.probe('fetches', sum(op == 'fetch' for _, op, _, _ in results))
