"""Shared generators: names, trees, contents.  Everything is plain JSON."""
import os
import random

HOME = '/home/user'

NAMES = ['a', 'b', 'c', 'data', 'file.txt', 'sub', 'x', 'y z', 'dir.d', 'ü', 'naïve name',
         '.hidden', '-dash', "q'uote", 'dq"uote', 'new\nline', 'tab\tname', '$(id)', '#hash',
         'star*', 'q?', '[br]', 'semi;colon', 'per%cent', 'back\\slash', '日本', 'a' * 200,
         'n' * 255, 'bad\udcffbyte', '~', 'CAPS', '..dots', 'trail ']
PLAIN = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'data', 'sub']
SIZES = (0, 1, 2, 7, 100, 4095, 4096, 4097, 10000)


def blob(spec):
    """[seed, size] -> bytes"""
    seed, size = spec
    if size == 0:
        return b''
    return random.Random(f'blob{seed}').randbytes(size)


def gen_name(rng, used=(), weird=0.35):
    for _ in range(100):
        n = rng.choice(NAMES if rng.random() < weird else PLAIN)
        if rng.random() < 0.15:
            n = (n[:200] + str(rng.randrange(10)))
        if n not in used:
            return n
    return f'n{rng.randrange(10**6)}'


def missing(p):
    """the path of something that is not there, beside p"""
    d, n = p.rsplit('/', 1)
    return f'{d}/{n[:60]}-missing'


def gen_tree(rng, root, size, depth=4, links=True, weird=0.35, sizes=SIZES, xattr_p=0.2,
             hard=False, outside=()):
    """A random tree below root (which is included).  -> list of entries
    ['d', path, mode] / ['f', path, [seed, size], {xattr: [seed, size]}] / ['l', path, target] /
    ['h', path, existing] (hard link)"""
    out = [['d', root]]
    dirs = [(root, 0)]
    used = {root: set()}
    paths = []
    for _ in range(size):
        d, dep = rng.choice(dirs)
        name = gen_name(rng, used[d], weird)
        p = f'{d}/{name}'
        if len(os.fsencode(p)) > 1200:
            continue
        used[d].add(name)
        k = rng.random()
        if k < 0.4 and dep < depth:
            out.append(['d', p])
            dirs.append((p, dep + 1))
            used[p] = set()
        elif k < 0.75 or not links:
            xa = {}
            if rng.random() < xattr_p:
                for _ in range(rng.randint(1, 2)):
                    xa[rng.choice(['user.k', 'user.sim.id', 'user.other.name'])] = \
                        [rng.randrange(10**6), rng.choice((0, 1, 5, 40))]
            out.append(['f', p, [rng.randrange(10**6), rng.choice(sizes)], xa])
        elif hard and paths and k > 0.95:
            cand = [x for x in out if x[0] == 'f']
            if cand:
                out.append(['h', p, rng.choice(cand)[1]])
            continue
        else:
            r = rng.random()
            if r < 0.35 and paths:
                t = rng.choice(paths)
            elif r < 0.5:
                t = rng.choice(['.', '..', 'missing', '/nowhere/at/all', name])
            elif r < 0.75 and outside:
                t = rng.choice(outside)
            elif paths:
                t = os.path.relpath(rng.choice(paths), d)
            else:
                t = 'missing'
            out.append(['l', p, t])
        paths.append(p)
    return out


def build(k, fs):
    """Put a generated tree into the kernel; entries whose parent is gone (after
    minimisation) are skipped."""
    for e in fs or ():
        try:
            if e[0] == 'd':
                n = k.h_mkdir(e[1])
                if len(e) > 2 and e[2] is not None:
                    n.mode = e[2]
            elif e[0] == 'f':
                old = k.h_get(e[1])
                if old is not None and old.kind != 'f':
                    continue
                xa = {n.encode('utf-8', 'surrogateescape'): blob(v)
                      for n, v in (e[3] if len(e) > 3 else {}).items()}
                k.h_put(e[1], blob(e[2]), xattrs=xa)
            elif e[0] == 'l':
                if k.h_get(e[1]) is None:
                    k.h_link(e[1], e[2])
            elif e[0] == 'h':
                n = k.h_get(e[2])
                parent, name, old = k.h_walk(e[1])
                if n is not None and old is None:
                    k._link_in(parent, name, n)
                    n.nlink += 1
            elif e[0] == 'm':
                k.h_mount(e[1], e[2])
        except (OSError, AttributeError):
            continue


def kernel_params(rng):
    return {'salt': rng.randrange(10**6), 'blksize': rng.choice((512, 4096, 4096, 65536)),
            'tick_ns': rng.choice((1, 1000, 1_000_003, 250_000_000))}


def under(snap, rel):
    """entries of a snapshot at or below rel"""
    if rel == '':
        return dict(snap)
    return {k: v for k, v in snap.items() if k == rel or k.startswith(rel + '/')}


def rel(path):
    return path.lstrip('/')


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def diff(a, b, n=6):
    """human-readable difference of two snapshots"""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(f'{k!r}: {short(a.get(k), 80)} -> {short(b.get(k), 80)}')
    return '; '.join(out[:n]) + (f' (+{len(out) - n} more)' if len(out) > n else '')
