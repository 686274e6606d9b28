"""What a path is: existence, kind, link target, resolution."""
import errno
import os
import pathlib
import stat

from ..lib import HOME, build, gen_tree, kernel_params
from . import p03

ID = 'P24'
TITLE = 'whether and what a path is, is answered as the kernel would, or not at all'
SEEDS = (800, 40000)
VARIANTS = (8, 14)
ROOT = HOME + '/w'
LISTS = ('ops', 'ext', 'fs')
FAULTS = ('errno', 'errno', 'kbd', 'crash_before')
ASSUMPTIONS = ['resolve and access are not judged when a system call of theirs fails: the standard library '
               'takes some of these errors for an answer']
KINDS = ('exists', 'is_file', 'is_dir', 'is_symlink', 'is_broken_symlink', 'exists_not_symlink', 'readlink', 'access',
         'resolve')
NO = (errno.ENOENT, errno.ENOTDIR, errno.EBADF, errno.ELOOP)


def gen(rng, tier):
    tree = gen_tree(rng, ROOT, rng.randint(2, 16), depth=4, hard=True)
    inside = [e[1] for e in tree]
    dirs = [e[1] for e in tree if e[0] == 'd']
    for n in range(rng.randint(1, 5)):        # more links: loops, chains, to below themselves, through links
        d = rng.choice(dirs)
        name = f'ln{n}'
        t = rng.choice((name, name + '/x', name + '/.fake/id', '.', '..', '../' * 9, f'ln{rng.randrange(5)}',
                        rng.choice(inside), os.path.relpath(rng.choice(inside), d), rng.choice(inside) + '/nope',
                        rng.choice(dirs) + f'/ln{rng.randrange(5)}/..', '/', 'x' * 300, '/home/user'))
        tree.append(['l', f'{d}/{name}', t])
        inside.append(f'{d}/{name}')
    if rng.random() < 0.25:
        for e in tree:
            if e[0] == 'd' and len(e) == 2 and rng.random() < 0.3:
                e.append(rng.choice((0o555, 0o600, 0o300, 0)))
    ops = []
    for _ in range(rng.randint(3, 12)):
        p = rng.choice(inside)
        r = rng.random()
        if r < 0.25:
            p += rng.choice(('/..', '/nope', '/.', '/../nope', '/a', '/../' + os.path.basename(rng.choice(inside))))
        elif r < 0.3:
            p = rng.choice(('/', ROOT + '/' + 'n' * 256, ROOT + '/' + 'd/' * 2100, ''))
        ops.append({'op': rng.choice(KINDS), 'p': p, 'cls': rng.choice(('AugmentedPath', 'LocalPath', 'RepoPath')),
                    'cwd': rng.choice([HOME, '/'] + dirs[:3]), 'rel': rng.random() < 0.3,
                    'mode': rng.choice(('read', 'write', 'execute')), 'follow': rng.random() < 0.7,
                    'raw': rng.random() < 0.5, 'again': rng.random() < 0.3})
    plan = {'kernel': kernel_params(rng), 'fs': tree, 'ops': ops}
    if rng.random() < 0.2:
        plan['ext'] = [{'op': rng.randrange(len(ops)), 'step': 0,
                        'act': rng.choice((['rm', rng.choice(inside)], ['f', rng.choice(dirs) + '/nope', [1, 1]]))}
                       for _ in range(3)]
    return plan


def st(k, s, follow):
    """a stat result, or the error"""
    with k.quiet():
        try:
            return k.stat(s, follow=follow)
        except OSError as e:
            return e


def truth(k, op, s):
    """-> value, or an exception when it cannot be known"""
    def ask(follow, f):
        r = st(k, s, follow)
        if isinstance(r, OSError):
            return False if r.errno in NO else r
        return f(r.st_mode)
    o = op['op']
    if o == 'exists':
        return ask(True, lambda m: True)
    if o == 'is_file':
        return ask(True, stat.S_ISREG)
    if o == 'is_dir':
        return ask(True, stat.S_ISDIR)
    link = ask(False, stat.S_ISLNK)
    if o == 'is_symlink':
        return link
    there = ask(True, lambda m: True)
    if o == 'is_broken_symlink':
        return link if link is not True else there if isinstance(there, OSError) else not there
    if o == 'exists_not_symlink':
        return there if there is not True else link if isinstance(link, OSError) else not link
    if o == 'readlink':
        with k.quiet():
            try:
                return k.readlink(s)
            except OSError as e:
                return e
    if o == 'access':
        with k.quiet():
            try:
                return bool(k.access(s, {'read': os.R_OK, 'write': os.W_OK, 'execute': os.X_OK}[op['mode']],
                                     follow=op['follow']))
            except OSError:
                return False
    if o == 'resolve':
        with k.quiet():
            try:
                parent, name, n = k._walk(k.cur, s)
                if n is None:
                    return OSError(errno.ENOENT, s)
                return k.pathof(n) if n.kind == 'd' else k.pathof(parent).rstrip('/') + '/' + name
            except OSError as e:
                return e


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    kept = {}
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if R.proc.dead:
            R.restart(reimport_=False)
            kept = {}
        n = k.h_get(op['cwd'])
        cwd = op['cwd'] if n is not None and n.kind == 'd' else HOME
        k.cur.cwd = k.h_get(cwd)
        s = os.path.relpath(op['p'], cwd) if op['rel'] and op['p'] else op['p']
        key = op['cls'], s
        path = kept[key] if op['again'] and key in kept else getattr(R.aug, op['cls'])(s)
        kept[key] = path
        want = truth(k, op, str(path))
        o = op['op']
        if o == 'readlink':
            out = R.op(i, lambda: path.readlink(raw=op['raw']))
        elif o == 'access':
            out = R.op(i, lambda: path.access(op['mode'], follow_symlinks=op['follow']))
        else:
            out = R.op(i, getattr(path, o))
        if out.kind in ('crash', 'kbd'):
            continue
        later = truth(k, op, str(path)) if R.ext else want
        what = f'{o} of {str(path)!r:.200} in {cwd!r}: {out!r}, should be {want!r:.200}'
        R.probe('nontrivial')
        if R.ext and o in ('is_broken_symlink', 'exists_not_symlink', 'resolve'):
            continue
        if o in ('access', 'resolve') and R.hit:
            continue
        wants = [want, later]
        if o == 'resolve':
            if isinstance(want, OSError):
                if want.errno == errno.ELOOP:
                    R.check(out.kind == 'err' and isinstance(out.exc, RuntimeError) or out.ok, 'loop', what)
                elif out.ok:
                    R.check(out.value.is_absolute(), 'relative', what)
                continue
        if out.ok:
            v = out.value
            if o == 'readlink':
                R.check(isinstance(v, str) == op['raw'], 'type', what)
                v = str(v)
                if not op['raw']:
                    wants = [str(pathlib.PurePath(w)) if isinstance(w, str) else w for w in (want, later)]
            elif o == 'resolve':
                v = str(v)
            else:
                R.check(v is True or v is False, 'type', what)
            bad = [w for w in wants if isinstance(w, OSError) and w.errno != errno.ENAMETOOLONG]
            R.check(v in wants or (v is False and any(isinstance(w, OSError) and w.errno == errno.ENAMETOOLONG
                                                      for w in wants)), 'answer', lambda: what + f' {bad}')
            R.probe(f'{o}_{v if isinstance(v, bool) else "path"}')
        else:
            R.check(R.hit or any(isinstance(w, OSError) for w in wants), 'failed', what)
            R.check(isinstance(out.exc, OSError), 'error', what)
            R.probe('unknown')
