"""Reads, whole and by ranges."""
import os

from ..lib import HOME, blob, build, kernel_params, short

ID = 'P07'
TITLE = 'reads yield exactly the bytes of the file, whole or by ranges'
SEEDS = (420, 20000)
VARIANTS = (8, 14)
ROOT = HOME + '/w'
LISTS = ('ops', 'fs')
FAULTS = ('errno', 'errno', 'short', 'short', 'short', 'eintr', 'kbd')
ASSUMPTIONS = ['the file is not written while it is read']
SZ = (0, 1, 2, 7, 100, 4095, 4096, 4097, 8192, 10000, 70000)


def gen(rng, tier):
    fs = [['d', ROOT]]
    sizes = {}
    for n in ('a', 'b'):
        s = rng.choice(SZ) if rng.random() < 0.7 else rng.randrange(20000)
        sizes[n] = s
        fs.append(['f', f'{ROOT}/{n}', [rng.randrange(10**6), s], {}])
    fs += [['l', ROOT + '/link', 'a'], ['l', ROOT + '/dang', 'nothing'], ['d', ROOT + '/dir']]
    sizes['link'] = sizes['a']
    ops = []
    for _ in range(rng.randint(1, 4)):
        p = rng.choice(('a', 'a', 'b', 'b', 'link', 'dang', 'dir', 'missing'))
        size = sizes.get(p, 10)
        cs = rng.choice((1, 2, 3, 7, 100, 512, 4096, 4096, 5000, 65536, max(1, size), size + 1))
        if cs < 50 and size > 5000:
            cs = 997
        ranges = []
        for _ in range(rng.randint(1, 3)):
            a = rng.choice((0, 0, 1, size // 2, max(0, size - 1), size, rng.randrange(size + 1)))
            b = rng.choice((None, a, size, size, a + cs, a + 2 * cs, rng.randrange(a, size + 2),
                            size + 10))
            if b is not None and b < a:
                b = a
            if rng.random() < 0.2 and size:
                a = -rng.randint(1, size)
                b = rng.choice((None, None, min(0, a + rng.randint(0, 10))))
            ranges.append([a, b])
        ops.append({'p': p, 'cs': cs, 'ranges': ranges,
                    'how': rng.choice(('data', 'ranges', 'ranges', 'two', 'part')), 'order': rng.randrange(2**30)})
    return {'kernel': kernel_params(rng), 'fs': fs, 'ops': ops}


def cut(content, ranges):
    out = b''
    n = len(content)
    for a, b in ranges:
        lo = a if a >= 0 else n + a
        hi = n if b is None else (b if a >= 0 else n + b)
        out += content[lo:max(lo, hi)]
    return out


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    for i, op in enumerate(plan['ops']):
        if op is not None:
            one(R, i, op)


def one(R, i, op):
    k, aug = R.k, R.aug
    path = aug.LocalPath(f'{ROOT}/{op["p"]}')
    node = k.h_get(os.fspath(path), follow=True)
    content = bytes(node.data) if node is not None and node.kind == 'f' else None
    before = k.snap('/')
    got = []
    how = op['how']
    if how == 'ranges' and not hasattr(path, '_data'):
        how = 'data'
    path.chunksize = op['cs']
    want = [content]
    if how == 'data':
        def fn():
            for c in path.data:
                got.append(c)
    elif how == 'part':
        # stop early, then read again
        def fn():
            for c in path.data:
                break
            for c in path.data:
                got.append(c)
    elif how == 'two':
        import random
        rng = random.Random(op['order'])
        a, b = [], []
        want = [content, content]

        def fn():
            its = [(iter(path.data), a), (iter(path.data), b)]
            while its:
                j = rng.randrange(len(its))
                try:
                    its[j][1].append(next(its[j][0]))
                except StopIteration:
                    del its[j]
            got.append(b''.join(a))
            got.append(b''.join(b))
    else:
        ranges = tuple((a, b) for a, b in op['ranges'])
        want = [cut(content, ranges)] if content is not None else [None]

        def fn():
            for c in path._data(ranges, op['cs']):
                got.append(c)
    out = R.op(i, fn)
    what = f'{how} of {op["p"]!r} ({len(content) if content is not None else None} bytes, chunks of {op["cs"]}' \
           f'{", " + repr(op["ranges"]) if how == "ranges" else ""}): {out.kind} {out.exc!r}'
    R.check(k.snap('/') == before, 'side_effect', what)
    fds = len(k.cur.fds)
    if content is None:
        R.check(not out.ok, 'read_nothing', what + ' yielded ' + short(got, 60))
        return
    full = b''.join(want)
    data = b''.join(got)
    if out.ok:
        R.check(data == full, 'content', lambda: what + f': got {len(data)} bytes, expected {len(full)}')
        R.probe('read')
        if R.hit:
            R.probe('read_despite_faults')
    else:
        # what came before the error was right
        if how != 'two':
            R.check(full.startswith(data), 'content', lambda: what + ': wrong bytes before the error')
        if not R.hit:
            R.check(False, 'failed', what + ' without a cause')
        R.probe('error_reported')
    R.probe('nontrivial')
