"""Mirroring a remote into an anchored directory."""
from ..lib import blob, kernel_params, short
from ..svc import (Binding, DIRS, DNAMES, DSIZES, FILES, FNAMES, ORG, ROOT, World, canon, gen_cyphers, gen_world, remote_op,
                   tracked)

ID = 'P16'
TITLE = 'bootstrap makes the directory mirror the remote, also after failures'
SEEDS = (260, 14000)
VARIANTS = (7, 12)
LISTS = ('ops', 'world')
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'crash_after', 'kbd', 'cut', 'short', 'torn')
ASSUMPTIONS = ['between two runs the remote adds objects, changes content and renames, moves and deletes directories; '
               'renames and deletions of single files are pulled by refresh',
               'two directories that have to go where the other is may be refused', 'the user adds files and directories under other names only']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)']


def gen(rng, tier):
    ops, dirs = [], rng.random() < 0.35
    for n in range(rng.randint(1, 4)):
        more = []
        for _ in range(rng.randint(0, 2)):
            more.append({'how': rng.choice(('add', 'add', 'content')), 'id': rng.randrange(8),
                         'parent': rng.randrange(4), 'name': rng.choice(FNAMES + DNAMES),
                         'data': [rng.randrange(10**6), rng.choice(DSIZES)], 't': 2000 + n})
        if dirs:
            for _ in range(rng.randint(1, 2)):
                more.append({'how': rng.choice(('rename', 'rename', 'reparent', 'delete')), 'dir': rng.randrange(3),
                             'parent': rng.randrange(4), 'name': rng.choice(DNAMES), 't': 2000 + n})
        ops.append({'more': more if n else [], 'fetch': rng.random() < 0.4, 'n': rng.randrange(5),
                    'mine': rng.choice((0, 0, 0, 1, 2)), 'restart': rng.random() < 0.3, 'tries': rng.choice((1, 1, 2, 3))})
    return {'kernel': kernel_params(rng), 'world': gen_world(rng), 'ops': ops, 'cyphers': gen_cyphers(rng)}


def start(R, first):
    b = Binding(R, R.world)
    return b, (b.first() if first else b.again())


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'], plan.get('cyphers'))
    with R.calm():
        b, anchor = start(R, True)
    was = {}

    def pull():
        return [(c.id, c.as_posix()) for c in anchor.bootstrap(anchor.remote.meta, recursive=True)]
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        for ch in op['more']:
            if 'dir' not in ch:
                remote_op(w, ch)
            else:
                ids, own = sorted(i for i in w.nodes if i != ORG), sorted(i for i in w.nodes if i in DIRS)
                if own and remote_op(w, dict(ch, id=ids.index(own[ch['dir'] % len(own)]))):
                    R.probe('dir_' + ch['how'])
        if op['mine']:
            # something of the user's own, not tracked
            d = sorted(p for p, x in tracked(k).items() if k.h_get(p).kind == 'd') + [ROOT]
            ap = d[op['n'] % len(d)] + '/of mine'
            if k.h_get(ap) is None:
                k.h_mkdir(ap)
                if op['mine'] == 2:
                    k.h_put(ap + '/notes', b'mine')
                    k.h_mkdir(ap + '/more')
        for t in range(op['tries']):
            out = R.op(i * 4 + t, pull)
            R.probe('nontrivial')
            R.probe(f'{out.kind}')
            if out.kind == 'crash' or op['restart']:
                R.restart()
                with R.calm():
                    b, anchor = start(R, False)
                R.check(anchor is not None, 'anchor_lost', f'{out!r}')
            if out.ok:
                break
            if tangled(w, was) and isinstance(out.exc, OSError):
                R.probe('tangled')          # each is in the way of another
                return
            R.check(R.hit, 'failed', lambda: f'bootstrap {i}, try {t}: {out!r} without a cause')
        if not out.ok:
            # the faults are over: once more has to do
            out = R.op(i * 4 + 3, pull)
            if R.hit or not out.ok and out.kind != 'err' or tangled(w, was) and isinstance(out.exc, OSError):
                return
            R.check(out.ok, 'no_recovery', lambda: f'bootstrap {i} after failures: {out!r}')
            R.probe('recovered')
        compare(R, b, w, f'bootstrap {i}')
        was = {j: w.path(j) for j in DIRS if j in w.nodes}
        want = sorted((i, canon_path(w, i)) for i in w.nodes)
        R.check(sorted(out.value) == want, 'wrong_answer', lambda: f'bootstrap {i} gave {sorted(out.value)}, not {want}')
        snap = k.snap('/')
        with R.calm():
            list(anchor.bootstrap(anchor.remote.meta, recursive=True))
        now = k.snap('/')
        R.check(snap == now, 'not_idempotent',
                lambda: f'a second bootstrap changed {[p for p in set(snap) | set(now) if snap.get(p) != now.get(p)]}')
        if op['fetch']:
            ps = [p for p, x in sorted(tracked(k).items()) if k.h_get(p).kind == 'l']
            if ps:
                with R.calm():
                    b.L(ps[op['n'] % len(ps)]).cache.fetch(size_limit_mb=None)


def tangled(w, was):
    """two directories have to go where the other is, or where it is in"""
    now = {j: w.path(j) for j in was if j in w.nodes}
    return any(now[a] != was[a] and (now[a] + '/').startswith(was[b] + '/') and now[b] != was[b]
               for a in now for b in now if a != b)


def canon_path(w, i):
    return f'{ROOT}/{w.path(i)}'.rstrip('/')


def compare(R, b, w, what):
    k = R.k
    got = tracked(k)
    want = {ROOT if not w.path(i) else f'{ROOT}/{w.path(i)}': i for i in w.nodes if i != ORG}
    R.check(got == want, 'not_mirrored', lambda: f'{what}: only here {sorted(set(got.items()) - set(want.items()))}, '
            f'missing {sorted(set(want.items()) - set(got.items()))}')
    for ap, i in sorted(want.items()):
        n = k.h_get(ap)
        d = w.nodes[i]['data']
        R.check((n.kind == 'd') == (d is None), 'wrong_kind', f'{what}: {ap!r} is {n.kind}')
        with R.calm():
            have = canon(b.L(ap).cache.meta)
        ref = canon(R.aug.PathMeta(**w.meta_fields(i)))
        R.check({f: v for f, v in have.items() if f not in ('errors', 'old_id')} == ref, 'wrong_metadata',
                lambda: f'{what}: {ap!r} has {short(have)}, the remote {short(ref)}')
        if n.kind == 'f':
            R.check(bytes(n.data) == d or 'checksum-mismatch' in have.get('errors', ()), 'stale_content',
                    lambda: f'{what}: {ap!r} was fetched and is not what the remote has')
    R.probe('mirrored')
