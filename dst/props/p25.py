"""Listing directories."""
import os

from ..lib import HOME, build, gen_tree, kernel_params, short
from ..svc import Binding, ROOT, World, gen_world, tracked

ID = 'P25'
TITLE = 'a listing has everything that is there, once, and nothing else'
SEEDS = (600, 30000)
VARIANTS = (8, 14)
LISTS = ('ops', 'ext', 'fs', 'world')
FAULTS = ('errno', 'errno', 'kbd', 'crash_before')
ASSUMPTIONS = ['below the top, directories that cannot be read are left out (by the standard library)',
               'a symbolic link in an anchored directory that points to another directory is not judged']
TOP = ('.git', '.operations', '.git.txt', '.operations.bak', '.gitignore', '.sparse', '.sparse.x', 'x.git', '.g', 'git',
       'operations', '.augpath')


def gen(rng, tier):
    proj = rng.random() < 0.5
    top = ROOT if proj else HOME + '/w'
    fs = gen_tree(rng, top, rng.randint(1, 16), depth=4, links=True)
    dirs = [e[1] for e in fs if e[0] == 'd']
    world = gen_world(rng) if proj else []
    if proj:
        w = World(world)
        known = [f'{ROOT}/{w.path(i)}' for i, n in w.nodes.items() if n['data'] is None and n['parent']]
        dirs += known + known
    hot = rng.choice(known if proj and known else dirs)
    for n in rng.sample(TOP, rng.randint(0, 6)):
        d = rng.choice((top, top, hot, hot, rng.choice(dirs)))
        fs.append(rng.choice((['f', f'{d}/{n}', [1, 1], {}], ['d', f'{d}/{n}'])))
        if fs[-1][0] == 'd':
            fs.append(['f', f'{d}/{n}/in', [1, 1], {}])
            dirs.append(f'{d}/{n}')
    inside = [e[1] for e in fs] + dirs
    ops = []
    for _ in range(rng.randint(1, 5)):
        p = rng.choice((top, top, hot, hot, rng.choice(dirs), rng.choice(inside)))
        ops.append({'op': rng.choice(('children', 'rchildren', 'rchildren')), 'p': p,
                    'cwd': rng.choice([HOME] + dirs[:3]), 'rel': rng.random() < 0.25})
    plan = {'kernel': kernel_params(rng), 'proj': proj, 'fs': fs, 'ops': ops,
            'world': world}
    if rng.random() < 0.3:
        plan['ext'] = [{'op': rng.randrange(len(ops)), 'step': rng.randrange(12),
                        'act': rng.choice((['rm', rng.choice(inside)],
                                           ['f', rng.choice(dirs) + f'/new{j}', [1, 1]],
                                           ['d', rng.choice(dirs) + f'/newd{j}']))}
                       for j in range(rng.randint(1, 4))]
    return plan


def below(k, p, deep):
    """the paths there, links not followed (but p itself may be one)"""
    n = k.h_get(p, follow=True)
    out = []

    def rec(n, p):
        for name, c in n.entries.items():
            out.append(f'{p}/{name}')
            if c.kind == 'd' and deep:
                rec(c, f'{p}/{name}')
    if n is not None and n.kind == 'd':
        rec(n, p)
    return out


def run(plan, R):
    k = R.k
    top = ROOT if plan['proj'] else HOME + '/w'
    b = None
    ignore = ()
    if plan['proj']:
        w = World(plan['world'])
        with R.calm():
            b = Binding(R, w)
            anchor = b.first()
            list(anchor.bootstrap(anchor.remote.meta, recursive=True))
        ignore = ('.git', '.operations') + tuple(getattr(type(anchor), 'cache_ignore', ()))
    build(k, [e for e in plan['fs'] if k.h_get(e[1]) is None])
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if R.proc.dead:
            R.restart()
            if plan['proj']:
                with R.calm():
                    b = Binding(R, w)
                    b.again()
        n = k.h_get(op['cwd'])
        cwd = op['cwd'] if n is not None and n.kind == 'd' else HOME
        k.cur.cwd = k.h_get(cwd)
        s = os.path.relpath(op['p'], cwd) if op['rel'] and not plan['proj'] else op['p']
        deep = op['op'] == 'rchildren'
        path = (b.L if plan['proj'] else R.aug.LocalPath)(s)

        def want():
            ps = below(k, op['p'], deep)
            if plan['proj'] and op['p'] == ROOT:
                ps = [p for p in ps if p[len(ROOT) + 1:].split('/')[0] not in ignore]
            return set(ps)
        before = want()
        n = k.h_get(op['p'])
        if n is not None and n.kind == 'l' and plan['proj']:
            continue
        if plan['proj'] and op['p'] == ROOT and any(
                c.kind == 'l' and (k.h_get(f'{ROOT}/{x}', follow=True) or c).kind == 'd'
                for x, c in k.h_get(ROOT).entries.items()):
            continue
        out = R.op(i, lambda: [str(p) for p in getattr(path, op['op'])])
        what = f'{op["op"]} of {s!r} in {cwd!r}: {out!r}'
        R.probe('nontrivial')
        if out.kind in ('crash', 'kbd'):
            continue
        if out.kind == 'err':
            R.check(R.hit or R.ext, 'failed', what)
            R.check(isinstance(out.exc, OSError), 'error', what)
            continue
        got = [os.path.normpath(os.path.join(cwd, p)) for p in out.value]
        R.check(len(set(got)) == len(got), 'twice', lambda: what + short(sorted(p for p in got if got.count(p) > 1)))
        got = set(got)
        after = want()
        extra = got - before - after
        R.check(not extra, 'not_there', lambda: what + f' lists {short(sorted(extra))}')
        left = (before & after) - got
        if 'errno' in R.hit and (deep or 'EACCES' in R.hit):
            continue
        if left and R.ext:           # below something that was removed and made again
            continue
        R.check(not left, 'left_out', lambda: what + f' leaves out {short(sorted(left))}')
        R.probe('listed', len(got))
