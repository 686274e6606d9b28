"""Extended attributes as a store."""
from ..lib import HOME, blob, build, diff, gen_tree, kernel_params, missing, short

ID = 'P10'
TITLE = 'extended attributes store and return exactly the bytes given'
SEEDS = (420, 20000)
VARIANTS = (8, 14)
ROOT = HOME + '/w'
LISTS = ('ops', 'fs')
FAULTS = ('errno', 'errno', 'errno', 'crash_before', 'crash_after', 'kbd')
ASSUMPTIONS = ['no other process changes the attributes meanwhile', 'files, directories and links to them on POSIX']
KEYS = ('k', 'sim.id', 'a.b.c', 'ü', 'with space', 'K', 'k2', 'n' * 240, 'n' * 300, 'sim.name', 'x\ny', 'user.k')


def gen(rng, tier):
    fs = gen_tree(rng, ROOT, rng.randint(2, 10), depth=3, xattr_p=0.6, hard=True)
    have = [e[1] for e in fs]
    if rng.random() < 0.2:
        for e in fs:
            if e[0] == 'd' and len(e) == 2 and e[1] != ROOT and rng.random() < 0.2:
                e.append(0o500)
    ops = []
    for _ in range(rng.randint(2, 8)):
        p = rng.choice(have)
        if rng.random() < 0.05:
            p = missing(p)
        op = {'p': p, 'cls': rng.choice(('LocalPath', 'EatPath')),
              'how': rng.choice(('set', 'set', 'get', 'get', 'del', 'all', 'sets', 'mark', 'clear', 'sparse',
                                 'restart', 'badvalue')),
              'k': rng.choice(KEYS[:6] if rng.random() < 0.7 else KEYS),
              'bytes': rng.random() < 0.4, 'fail': rng.random() < 0.4,
              'v': [rng.randrange(10**6), rng.choice((0, 0, 1, 5, 40, 3000, 65536, 65537))],
              'ks': rng.sample(KEYS[:7], rng.randint(0, 4))}
        if rng.random() < 0.1:
            op['v'] = [0, -rng.randint(1, 3)]     # NUL bytes
        ops.append(op)
    return {'kernel': kernel_params(rng), 'fs': fs, 'ops': ops}


def val(v):
    return bytes(-v[1]) if v[1] < 0 else blob(v)


def enc(s):
    return s.encode('utf-8', 'surrogateescape')


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    k.cur.cwd = k.h_get(ROOT)
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if R.proc.dead or op['how'] == 'restart':
            R.restart(cwd=ROOT)
        one(R, i, op)


def one(R, i, op):
    k, aug = R.k, R.aug
    p = op['p']
    path = getattr(aug, op['cls'])(p)
    node = k.h_get(p, follow=True)
    old = dict(node.xattrs) if node is not None else {}
    before = k.snap('/')
    how, key = op['how'], op['k']
    full = b'user.' + enc(key)
    v = val(op['v'])
    karg = enc(key) if op['bytes'] else key
    new = dict(old)
    marker = b'user.' + (path._sparse_key if isinstance(path._sparse_key, bytes) else enc(path._sparse_key)) \
        if hasattr(path, '_sparse_key') else None
    if how in ('mark', 'clear', 'sparse') and (marker is None or not hasattr(path, 'is_sparse')):
        return
    partial = None
    if how == 'set':
        out = R.op(i, path.setxattr, karg, v)
        new[full] = v
    elif how == 'badvalue':
        bad = (None, 'text', 7)[op['v'][0] % 3]
        out = R.op(i, path.setxattr, karg, bad)
        R.check(out.kind == 'err' and isinstance(out.exc, TypeError), 'type', f'setxattr {bad!r}: {out!r}')
    elif how in ('get', 'restart'):
        out = R.op(i, path.getxattr, karg)
    elif how == 'del':
        out = R.op(i, path.delxattr, karg, fail=op['fail'])
        new.pop(full, None)
    elif how == 'all':
        out = R.op(i, path.xattrs)
    elif how == 'sets':
        d = {}
        for j, kk in enumerate(op['ks']):
            d[enc(kk) if (op['bytes'] and j % 2) else kk] = val([op['v'][0] + j, op['v'][1]])
        partial = {b'user.' + (kk if isinstance(kk, bytes) else enc(kk)): vv for kk, vv in d.items()}
        new.update(partial)
        out = R.op(i, path.setxattrs, d)
    elif how == 'mark':
        out = R.op(i, path._mark_sparse)
        new[marker] = b'1'
    elif how == 'clear':
        out = R.op(i, path._clear_sparse)
        new.pop(marker, None)
    else:
        out = R.op(i, path.is_sparse)
    what = f'{how} {short(karg, 40)} on {short(p, 60)}: {short(out, 160)}'
    got = dict(node.xattrs) if node is not None else {}
    now = k.snap('/')
    mine = {q for q, x in before.items() if node is not None and x[1] == node.ino}
    b = {q: x for q, x in before.items() if q not in mine}
    n = {q: x for q, x in now.items() if q not in mine}
    R.check(b == n, 'side_effect', lambda: what + ' changed ' + diff(b, n))
    for q in mine:
        R.check(before[q][:-1] == now.get(q, ())[:-1], 'side_effect', lambda: what + ' changed more than attributes')
    hit = R.hit
    R.probe('nontrivial')
    writes = how in ('set', 'del', 'sets', 'mark', 'clear')
    if not writes:
        R.check(got == old, 'read_changed', what)
    if out.ok:
        if writes:
            R.check(node is not None or partial == {}, 'no_file', what)
            R.check(got == new, 'stored', lambda: what + f': {short(old, 100)} became {short(got, 100)}')
            if how == 'del' and op['fail']:
                R.check(full in old, 'fail_ignored', what)
            R.probe('stored')
        elif how in ('get', 'restart'):
            R.check(full in old and out.value == old[full], 'value', what)
        elif how == 'all':
            want = {x[5:]: y for x, y in old.items() if x.startswith(b'user.')}
            R.check(out.value == want, 'listing', lambda: what + f' expected {short(want, 160)}')
        elif how == 'sparse':
            want, q = False, p
            while q != '/':
                m = k.h_get(q, follow=True)
                if m is not None and marker in m.xattrs:
                    want = True
                    break
                q = q.rsplit('/', 1)[0] or '/'
            R.check(bool(out.value) == want, 'sparse', what)
        return
    if writes:
        if partial is not None:
            for q in set(old) | set(got) | set(partial):
                R.check(got.get(q) == old.get(q) or (q in partial and got.get(q) == partial[q]),
                        'partial', lambda: what + f': {q!r} is {short(got.get(q), 60)}')
        else:
            R.check(got in (old, new), 'partial', what)
            if out.kind == 'err':
                R.check(got == old, 'error_but_done', what)
    if out.kind != 'err' or how == 'badvalue':
        return
    missing = isinstance(out.exc, aug.exceptions.NoStreamError)
    if how in ('get', 'restart'):
        R.check(not missing or (full not in old), 'called_missing',
                lambda: what + ', but the attribute exists')
        R.check(missing or isinstance(out.exc, OSError), 'wrong_error', what)
        R.probe('missing' if missing else 'error_reported')
        if not hit and node is not None and full not in old and len(full) <= 255 and k._may(k.cur, node, 4):
            R.check(missing, 'wrong_error', what)
        if hit:
            return
        R.check(full not in old or not reach(R, p), 'failed', what)
        return
    R.check(isinstance(out.exc, OSError), 'wrong_error', what)
    if hit:
        R.probe('error_reported')
        return
    why = node is None or not reach(R, p) or len(full) > 255 or len(v) > 65536 or \
        not k._may(k.cur, node, 2) or not k._may(k.cur, node, 4) or \
        (how == 'del' and op['fail'] and full not in old)
    R.check(why, 'failed', what + ' without a cause')


def reach(R, p):
    """may the process look at p?"""
    k = R.k
    n = k.h_get(p, follow=True)
    return n is not None and k._may(k.cur, n, 4) and not any(
        e[0] == 'd' and len(e) > 2 for e in R.plan['fs'])
