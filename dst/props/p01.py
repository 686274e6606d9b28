"""swap: one atomic exchange."""
import os

from ..lib import HOME, build, diff, gen_tree, kernel_params, missing, short

ID = 'P01'
TITLE = 'swap exchanges two paths in one atomic step, or changes nothing'
SEEDS = (420, 20000)
VARIANTS = (5, 10)
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'kbd')
LISTS = ('ops', 'fs')
ROOT = HOME + '/w'
ASSUMPTIONS = ['renameat2(RENAME_EXCHANGE) itself is atomic (kernel contract)',
               'a crash ends the process between or inside system calls; completed calls are durable']


def gen_paths(rng, fs, extra):
    """absolute paths to name objects, some through symlinks or missing"""
    have = [e[1] for e in fs[1:] if e[0] != 'm']
    p = rng.choice(have + extra) if have else extra[0]
    r = rng.random()
    if r < 0.06:
        p = missing(p)
    elif r < 0.1:
        p = p + '/below'
    return p


def gen(rng, tier):
    fs = gen_tree(rng, ROOT, rng.randint(3, 14), depth=3)
    extra = [ROOT + '/z']
    fs.append(['f', ROOT + '/z', [1, 10], {}])
    if rng.random() < 0.2:
        fs += [['m', ROOT + '/mnt', 7], ['f', ROOT + '/mnt/other', [2, 5], {}]]
        extra.append(ROOT + '/mnt/other')
    # a directory symlink to reach things through
    if rng.random() < 0.5:
        fs.append(['l', HOME + '/via', 'w'])
    dirs = [e[1] for e in fs if e[0] == 'd']
    ops = []
    for _ in range(rng.randint(1, 4)):
        a, b = gen_paths(rng, fs, extra), gen_paths(rng, fs, extra)
        ops.append({'a': a, 'b': b, 'cwd': rng.choice([HOME, '/'] + dirs),
                    'ra': rng.random() < 0.4, 'rb': rng.random() < 0.4,
                    'via': rng.random() < 0.2,
                    'cls': rng.choice(('AugmentedPath', 'LocalPath', 'RepoPath'))})
    return {'kernel': kernel_params(rng), 'fs': fs, 'ops': ops}


def spell(p, op, relative, cwd):
    if op['via'] and p.startswith(ROOT + '/'):
        p = HOME + '/via' + p[len(ROOT):]
    r = os.path.relpath(p, cwd) if relative else p
    # '.' and 'x/..' cannot be renamed under that name
    return p if r.rsplit('/', 1)[-1] in ('.', '..') else r


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    loop(plan, R, one)


def loop(plan, R, one):
    k = R.k
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if R.proc.dead:
            R.restart(reimport_=False)
        # a directory may be gone from its place after an earlier swap
        cwd = op['cwd'] if (n := k.h_get(op['cwd'])) is not None and n.kind == 'd' else HOME
        k.cur.cwd = k.h_get(cwd)
        cls = getattr(R.aug, op['cls'])
        sa, sb = spell(op['a'], op, op['ra'], cwd), spell(op['b'], op, op['rb'], cwd)
        one(R, i, cls, sa, sb, cwd)


def resolve(k, s, cwd):
    """(directory inode, name, inode) that a spelling names, like the kernel does"""
    path = s if s.startswith('/') else cwd.rstrip('/') + '/' + s
    try:
        return k.h_walk(path)
    except OSError:
        return None


def one(R, i, cls, sa, sb, cwd):
    k = R.k
    ra, rb = resolve(k, sa, cwd), resolve(k, sb, cwd)
    before = k.snap('/')
    fired = dict(k.fired)
    both = ra is not None and rb is not None and ra[2] is not None and rb[2] is not None \
        and ra[1] not in ('', '.', '..') and rb[1] not in ('', '.', '..')
    after = None
    if both:
        (da, na, A), (db, nb, B) = ra, rb
        inside = nested(k, A, B)
        seen = []

        def observe(call):
            x, y = da.entries.get(na), db.entries.get(nb)
            if not ((x is A and y is B) or (x is B and y is A)):
                seen.append((call, x and x.ino, y and y.ino))
        k.observers.append(observe)
    a, b = cls(sa), cls(sb)
    out = R.op(i, a.swap, b)
    k.observers.clear()
    now = k.snap('/')
    hit = {x: v for x, v in k.fired.items() if v != fired.get(x, 0)}
    if both:
        R.check(not seen, 'not_atomic', lambda: f'{sa!r} swap {sb!r}: after {seen[0][0]} the names '
                f'were bound to {seen[0][1:]}, not to {A.ino},{B.ino} in one order or the other')
        x, y = da.entries.get(na), db.entries.get(nb)
        swapped = x is B and y is A
        same = x is A and y is B
        R.check(swapped or same, 'lost', 'the names are bound to other objects')
    else:
        swapped, same = False, True
    if out.ok:
        R.check(both, 'success_without_object', f'{sa!r} swap {sb!r} succeeded, but a name is missing')
        R.check(swapped, 'not_swapped', f'{sa!r} swap {sb!r} returned, but nothing was exchanged')
        R.probe('swapped')
    elif out.kind == 'err':
        # different devices are reported as ValueError
        R.check(isinstance(out.exc, (OSError, ValueError)), 'wrong_error',
                lambda: f'swap raised {out!r}')
        R.check(same, 'swapped_and_failed', f'{out!r}, yet the names are exchanged')
        if both and not hit:
            R.check(inside or may_refuse(k, sa, sb, cwd, da, db, A, B),
                    'refused', lambda: f'{sa!r} swap {sb!r} failed without a cause: {out!r}')
            R.probe('refused')
    if same:
        R.check(now == before, 'side_effect', lambda: f'swap {out.kind}: ' + diff(before, now))
    elif both:
        # exactly the two bindings moved; contents and attributes are untouched
        da.entries[na], db.entries[nb] = A, B
        undo = k.snap('/')
        da.entries[na], db.entries[nb] = B, A
        R.check(undo == before, 'side_effect', lambda: diff(before, undo))
    R.probe('nontrivial')


def may_refuse(k, sa, sb, cwd, da, db, A, B):
    """broken symlinks do not exist in the sense of exists(); and everything that
    involves a second device may be refused"""
    devs = {da.dev, db.dev, A.dev, B.dev}
    for s in (sa, sb):
        path = s if s.startswith('/') else cwd.rstrip('/') + '/' + s
        n = k.h_get(path, follow=True)
        if n is None:
            return True
        devs.add(n.dev)
    return len(devs) > 1


def nested(k, A, B):
    def below(x, y):
        while y is not k.root and y is not None:
            if y is x:
                return True
            y = y.parent
        return False
    out = A is B
    for x, y in ((A, B), (B, A)):
        if x.kind != 'd':
            continue
        if y.kind == 'd':
            out = out or below(x, y)
        else:
            out = out or any(n is y for n in walk(x))
    return out


def walk(d):
    for n in d.entries.values():
        yield n
        if n.kind == 'd':
            yield from walk(n)
