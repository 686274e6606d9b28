"""Working directories: contexts and the directory stack."""
import contextlib
import io
import os

from ..lib import HOME, kernel_params
from ..svc import Binding, ORG, ROOT, World

ID = 'P26'
TITLE = 'contexts and the directory stack return to where they were entered from'
SEEDS = (900, 40000)
VARIANTS = (6, 12)
LISTS = ('ops',)
FAULTS = ('errno',)
ASSUMPTIONS = ['one thread: the working directory belongs to the process',
               'directories that are to be returned to are not renamed meanwhile']
DIRS = ['a', 'a/a', 'a/b', 'a/a/a', 'b', 'b/a', 'x y', 'ü', 'a/b/c']
OTHER = ['f', 'nope', 'la', 'lf', 'lx', 'a/f', '.', '..', '/', HOME, ROOT, 'closed', '']


class Body(Exception):
    pass


def gen_ops(rng, depth, budget):
    out = []
    for _ in range(rng.randint(1, 4)):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        r = rng.random()
        p = rng.choice(DIRS if rng.random() < 0.75 else OTHER)
        o = {'p': p, 'abs': rng.random() < 0.4, 'keep': rng.random() < 0.5,
             'cls': rng.choice(('AugmentedPath', 'LocalPath', 'RepoPath', 'cache'))}
        if r < 0.45 and depth < 5:
            o.update(op='with', raises=rng.random() < 0.25, body=gen_ops(rng, depth + 1, budget))
        elif r < 0.65:
            o['op'] = 'pushd'
        elif r < 0.85:
            o.update(op='popd', n=rng.choice((0, 0, 0, 1, 2, 5)))
        elif r < 0.95:
            o['op'] = 'chdir'
        else:
            o['op'] = 'rmcwd'
        out.append(o)
    return out


def gen(rng, tier):
    return {'kernel': kernel_params(rng), 'proj': rng.random() < 0.3, 'ops': gen_ops(rng, 0, [rng.randint(3, 24)])}


class M:
    """what should be"""


def run(plan, R):
    k = R.k
    b = None
    if plan['proj']:                   # the directories are those of a remote
        ids = {'': ORG}
        world = []
        for j, d in enumerate(DIRS):
            ids[d] = f'N:col:{j}'
            world.append([ids[d], os.path.basename(d), ids[os.path.dirname(d)], None, 1000])
        with R.calm():
            b = Binding(R, World(world))
            anchor = b.first()
            list(anchor.bootstrap(anchor.remote.meta, recursive=True))
    else:
        k.h_mkdir(ROOT)
        for d in DIRS:
            k.h_mkdir(f'{ROOT}/{d}')
    for f in ('f', 'a/f'):
        k.h_put(f'{ROOT}/{f}', b'')
    k.h_mkdir(ROOT + '/closed', mode=0, uid=0)
    for n, t in (('la', 'a/a'), ('lf', 'f'), ('lx', 'nope')):
        k.h_link(f'{ROOT}/{n}', t)
    k.cur.cwd = k.h_get(ROOT)
    m = M()
    m.stack = []
    m.i = 0
    m.kept = {}
    m.b = b
    m.active = set()
    try:
        prog(plan['ops'], R, m)
        while m.stack:               # what is left on it
            n = len(m.stack)
            popd(R, m, 0)
            if len(m.stack) == n:    # (the directory is gone)
                return
    except Stop:
        return
    out = op(R, m, R.aug.AugmentedPath.popd)
    R.check(out.kind == 'ok' and out.value is None or R.hit, 'stack', lambda: f'not empty: {out!r}')


class Stop(Exception):
    pass


def here(R):
    return R.k.pathof(R.k.cur.cwd)


def op(R, m, fn, *a):
    m.i += 1

    def f():
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a)
    return R.op(m.i, f)


def target(R, s):
    """the directory it leads to, None"""
    with R.k.quiet():
        try:
            n = R.k._lookup(R.k.cur, s)
        except OSError:
            return None
    if n.kind != 'd' or not R.k._may(R.k.cur, n, 1):
        return None
    return R.k.pathof(n)


def popd(R, m, n):
    was, before = here(R), list(m.stack)
    out = op(R, m, lambda: R.aug.AugmentedPath.popd(n))
    what = f'popd({n}) in {was} with the stack {before}: {out!r}, now in {here(R)}'
    if not before:
        R.check(out.ok and out.value is None and here(R) == was or R.hit, 'empty', what)
        return
    if n >= len(before):
        R.check(out.kind == 'err' and isinstance(out.exc, IndexError) and here(R) == was or R.hit, 'index', what)
        return
    to = before[-(n + 1)]
    if out.ok:
        R.check(here(R) == to and str(out.value) == to, 'popped', what)
    else:
        R.check(R.hit or target(R, to) is None, 'failed', what)
        if here(R) == was and not (R.hit and was == to):
            return
        R.check(here(R) == to, 'lost', what)
        if R.hit and was == to:
            raise Stop                     # (cannot tell)
    del m.stack[-(n + 1)]
    R.probe('popped')


def prog(ops, R, m):
    k = R.k
    for o in ops:
        if o is None:
            continue
        if o['op'] == 'rmcwd':
            w = k.cur.cwd
            p = here(R)
            if p is not None and p != ROOT and p.startswith(ROOT) and not w.entries and p not in m.stack and \
               p not in m.active:
                k.h_rm(p)
                k.note('rmcwd', p)
            continue
        if o['op'] == 'popd':
            popd(R, m, o['n'])
            continue
        s = o['p'] if o['p'].startswith('/') or not o['abs'] or not o['p'] else f'{ROOT}/{o["p"]}'
        if o['cls'] == 'cache' and o['op'] != 'with':
            continue
        key = o['cls'], s
        if o['keep'] and key in m.kept:
            path = m.kept[key]
        elif o['cls'] == 'cache':
            path = None
            if m.b is not None and target(R, s) is not None:
                s = target(R, s)
                with R.calm():
                    path = m.b.L(s).cache
            if path is None:
                continue
            m.kept[key] = path
        else:
            path = m.kept[key] = getattr(R.aug, o['cls'])(s)
        to = target(R, str(path))
        was = here(R)
        gone = was is None                 # (there is no way back)
        what = f'{o["op"]} {s!r} in {was} with the stack {m.stack}'
        if o['op'] == 'chdir':
            out = op(R, m, path.chdir)
            if out.ok:
                R.check(here(R) == to, 'chdir', lambda: f'{what}: now in {here(R)}')
            else:
                R.check(here(R) == was and (R.hit or to is None), 'chdir', lambda: f'{what}: {out!r}, in {here(R)}')
        elif o['op'] == 'pushd':
            out = op(R, m, path.pushd)
            if out.ok:
                R.check(here(R) == to and not gone, 'pushd', lambda: f'{what}: now in {here(R)}')
                m.stack.append(was)
                R.probe('pushed')
            else:
                R.check(R.hit or to is None or gone, 'failed', lambda: f'{what}: {out!r}')
                if here(R) != was:
                    # the directory was changed, so it has to be on the stack too
                    R.check(R.hit, 'pushd', lambda: f'{what}: {out!r}, now in {here(R)}')
                    m.stack.append(was)
                elif R.hit and to == was:
                    raise Stop
        else:
            with_(R, m, o, path, to, was, what)


def with_(R, m, o, path, to, was, what):
    k = R.k

    def enter():
        return path.__enter__()
    is_dir = to is not None
    if not is_dir:
        # files: nothing to do with the working directory
        node = None
        with k.quiet():
            try:
                node = k._lookup(k.cur, str(path))
            except OSError:
                pass
        if node is None or node.kind != 'd':
            return
    out = op(R, m, enter)
    if not out.ok:
        R.check(R.hit or not is_dir or was is None, 'failed', lambda: f'{what}: {out!r}')
        R.check(here(R) == was, 'entered', lambda: f'{what}: {out!r}, but now in {here(R)}')
        return
    R.check(here(R) == to and out.value is path, 'entered', lambda: f'{what}: now in {here(R)}, {out!r}')
    R.probe('nontrivial')
    fresh = was not in m.active
    m.active.add(was)
    prog(o['body'], R, m)
    at = here(R)
    e = Body() if o['raises'] else None
    out = op(R, m, lambda: path.__exit__(type(e) if e else None, e, None))
    if fresh:
        m.active.discard(was)
    if out.ok:
        R.check(here(R) == was, 'returned', lambda: f'leaving {what}: now in {here(R)}, was in {at}')
        R.check(not out.value, 'swallowed', lambda: f'leaving {what}')
        R.probe('returned')
    else:
        R.check(R.hit or target(R, was) is None, 'failed', lambda: f'leaving {what}: {out!r}')
        R.check(here(R) in (at, was), 'elsewhere', lambda: f'leaving {what}: {out!r}, now in {here(R)}')
