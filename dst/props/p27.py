"""Partial mirrors: only, skip, sparse."""
import os

from ..lib import HOME, kernel_params
from ..svc import Binding, DIRS, DNAMES, DSIZES, FILES, FNAMES, ORG, ROOT, World, remote_op, tracked

ID = 'P27'
TITLE = 'a partial mirror has what was asked for, and says that it is partial'
SEEDS = (300, 14000)
VARIANTS = (7, 12)
LISTS = ('ops', 'world')
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'crash_after', 'kbd')
ASSUMPTIONS = ['only and skip are given with an object below the root', 'the remote only adds objects',
               'the remote decides which files a sparse mirror includes']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)']
HOWS = ('all', 'all', 'sparse', 'sparse', 'sparse', 'skip', 'only', 'not_only', 'both', 'skip_sparse', 'sparse_only')


def gen(rng, tier):
    world, dirs = [], [ORG]
    for d in DIRS[:rng.randint(1, 3)]:
        world.append([d, rng.choice(DNAMES), rng.choice(dirs), None, 1000])
        dirs.append(d)
    for f in FILES[:rng.randint(2, 5)]:
        world.append([f, rng.choice(FNAMES), rng.choice(dirs), [rng.randrange(10**6), rng.choice(DSIZES)], 1000])
    ops = []
    for n in range(rng.randint(1, 5)):
        op = rng.choice(('boot', 'boot', 'boot', 'is', 'is', 'mark', 'clear', 'fetch'))
        ops.append({'op': op, 'n': rng.randrange(20), 'how': rng.choice(HOWS), 'rel': rng.random() < 0.4,
                    'cache': rng.random() < 0.4, 'new': rng.random() < 0.2, 'deep': rng.random() < 0.4, 'restart': rng.random() < 0.3,
                    'tries': rng.choice((1, 1, 2, 3)),
                    'more': [{'how': 'add', 'id': rng.randrange(8), 'parent': rng.randrange(4),
                              'name': rng.choice(FNAMES + DNAMES),
                              'data': [rng.randrange(10**6), rng.choice(DSIZES)], 't': 2000 + n}
                             for _ in range(rng.choice((0, 0, 1, 2)))] if n else []})
    return {'kernel': kernel_params(rng), 'world': world, 'ops': ops,
            'include': sorted(rng.sample(sorted(set(FNAMES)), rng.randint(0, 3)))}


def start(R, first):
    b = Binding(R, R.world)
    return b, (b.first() if first else b.again())


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'])
    w.include = set(plan['include'])
    with R.calm():
        b, anchor = start(R, True)
    here = {}           # id -> (must be there, may be there)
    marks = set()       # directories that are marked
    maybe = set()       # ... that may be: the call failed
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['restart']:
            R.restart()
            with R.calm():
                b, anchor = start(R, False)
            R.check(anchor is not None, 'anchor_lost', 'after a restart')
        for ch in op['more']:
            remote_op(w, ch)
        if op['op'] == 'boot':
            top = sorted(j for j in w.kids(ORG) if w.nodes[j]['data'] is None)
            if op.get('deep'):
                tr = tracked(k)
                top = sorted(j for j in w.rkids(ORG) if w.nodes[j]['data'] is None and
                             (w.nodes[j]['parent'] == ORG or tr.get(f'{ROOT}/{w.path(w.nodes[j]["parent"])}') == w.nodes[j]['parent']))
            if not top:
                continue
            d = top[op['n'] % len(top)]
            how = op['how']
            kw = {'all': {}, 'sparse': {'sparse': (d, 'N:col:9') if op['n'] % 3 == 1 else ('N:col:9', d)}, 'skip': {'skip': (d,)}, 'only': {'only': ('N:col:9', d)},
                  'not_only': {'only': ('N:col:9',)}, 'both': {'only': (d,), 'skip': ('N:col:9', d)},
                  'skip_sparse': {'skip': (d,), 'sparse': (d,)}, 'sparse_only': {'sparse': (d,), 'only': (d,)}}[how]
            dp = f'{ROOT}/{w.path(d)}'
            if k.h_get(dp) is None:
                with R.calm():
                    b.Rm(d).cache_init()
            here.setdefault(d, 1)
            allof = [d] + w.rkids(d)
            if how in ('skip', 'not_only', 'both', 'skip_sparse'):
                want = {d}
            elif how in ('sparse', 'sparse_only'):
                want = {j for j in allof if w.nodes[j]['data'] is None or w.nodes[j]['name'] in w.include}
            else:
                want = set(allof)
            before = {p: x for p, x in tracked(k).items()}
            for t in range(op['tries'] + 1):
                def f():
                    r = b.L(dp).cache.remote
                    return len(list(r.bootstrap(recursive=True, **kw)))
                out = R.op(i * 6 + t, f)
                R.probe('nontrivial')
                R.probe(f'{how}:{out.kind}')
                hit = R.hit
                got = tracked(k)
                allowed = set(before.values()) | want
                R.check(set(got.values()) <= allowed, 'brought_too_much',
                        lambda: f'op {i} ({how}, {w.include}): {out!r} brought '
                                f'{sorted((p, x) for p, x in got.items() if x not in allowed)}')
                lost = {p: x for p, x in before.items() if got.get(p) != x}
                R.check(not lost or hit or out.kind == 'crash', 'lost', lambda: f'op {i} ({how}): {out!r} lost {lost}')
                if how in ('sparse', 'sparse_only'):
                    maybe.add(dp)
                if out.kind == 'crash':
                    R.restart()
                    with R.calm():
                        b, anchor = start(R, False)
                    R.check(anchor is not None, 'anchor_lost', f'{out!r}')
                if out.ok:
                    break
                R.check(hit, 'failed', lambda: f'op {i} ({how}), try {t}: {out!r} without a cause')
            if not out.ok:
                out = R.op(i * 6 + 5, f)
                if R.hit:
                    return
                R.check(out.ok, 'no_recovery', lambda: f'op {i} ({how}) after failures: {out!r}')
            for j in want:
                here[j] = 1
            if how in ('sparse', 'sparse_only'):
                marks.add(dp)
                maybe.discard(dp)
            got = set(tracked(k).items())
            need = {(f'{ROOT}/{w.path(j)}', j) for j in here if j in want} | set(before.items())
            R.check(need <= got, 'not_mirrored', lambda: f'op {i} ({how}): missing {sorted(need - got)}')
        elif op['op'] in ('mark', 'clear'):
            ps = [ROOT] + [p for p in sorted(tracked(k)) if k.h_get(p).kind == 'd']
            if op['op'] == 'clear' and marks and op['n'] % 3:
                ps = sorted(marks)
            p = ps[op['n'] % len(ps)]
            with R.calm():
                q = b.L(p)
                if op['cache']:
                    q = q.cache
            m = getattr(q, '_mark_sparse' if op['op'] == 'mark' else '_clear_sparse', None)
            if m is None:
                continue
            out = R.op(i * 6, m)
            R.check(out.ok or R.hit, 'failed', lambda: f'op {i}: {op["op"]} {p!r}: {out!r}')
            maybe.add(p)
            if out.ok:
                (marks.add if op['op'] == 'mark' else marks.discard)(p)
                maybe.discard(p)
            if out.kind == 'crash':
                R.restart()
                with R.calm():
                    b, anchor = start(R, False)
        elif op['op'] == 'fetch':
            ps = [p for p, x in sorted(tracked(k).items()) if k.h_get(p).kind == 'l']
            if ps:
                with R.calm():
                    b.L(ps[op['n'] % len(ps)]).cache.fetch(size_limit_mb=None)
        else:
            if not ask(R, b, k, i, op, marks, maybe):
                return
    with R.calm():
        for p in [ROOT, HOME, '/'] + sorted(tracked(k)):
            for q in (b.L(p), b.L(p).cache if p.startswith(ROOT) else None):
                if q is not None:
                    judge(R, p, R.capture(q.is_sparse), marks, maybe, f'{q!r}', False)


def ask(R, b, k, i, op, marks, maybe):
    ps = [ROOT, HOME, '/'] + sorted(tracked(k)) * 3
    p = ps[op['n'] % len(ps)]
    n = k.h_get(p)
    if op['new'] and n is not None and n.kind == 'd':
        p = p + '/not here'
    cwd = HOME
    with R.calm():
        q = b.L(p)
        if op['cache'] and q.cache is not None:
            q = q.cache
        elif op['rel'] and p.startswith(ROOT):
            up = p if n is not None and n.kind == 'd' and p == (q.as_posix()) and k.h_get(p) is n and op['n'] % 2 \
                and not op['new'] else os.path.dirname(p)
            if up and k.h_get(up) is not None:
                os.chdir(up)
                cwd = up
                q = b.L(os.path.relpath(p, up))
    out = R.op(i * 6, q.is_sparse)
    R.probe('asked')
    judge(R, p, out, marks, maybe, f'op {i}: {type(q).__name__}({str(q)!r}) in {cwd!r}', R.hit)
    if out.kind == 'crash':
        return False
    with R.calm():
        os.chdir(HOME)
    return True


def judge(R, p, out, marks, maybe, what, hit):
    def below(ms):
        return any(p == m or p.startswith(m + '/') for m in ms)
    if out.kind in ('crash', 'kbd'):
        return
    R.check(out.ok or hit, 'failed', lambda: f'{what}.is_sparse(): {out!r}')
    if not out.ok:
        return
    if below(maybe) and not below(marks - maybe):
        return      # whether a call that failed marked it is open
    R.check(bool(out.value) == below(marks), 'wrong_answer',
            lambda: f'{what}.is_sparse() is {out.value!r}, marked are {sorted(marks)}')
