"""checksum and etag."""
import hashlib
import os
import random

from ..lib import HOME, blob, build, kernel_params, short

ID = 'P08'
TITLE = 'checksums and etags depend on the bytes alone'
SEEDS = (420, 20000)
VARIANTS = (8, 14)
ROOT = HOME + '/w'
LISTS = ('ops', 'fs')
FAULTS = ('errno', 'errno', 'short', 'short', 'short', 'eintr', 'kbd')
ASSUMPTIONS = ['the file is not written while it is read']
SZ = (0, 1, 2, 7, 100, 4095, 4096, 4097, 8192, 10000, 40000)
ALGOS = ('sha256', 'blake2b', 'md5', 'sha1')


def gen(rng, tier):
    fs = [['d', ROOT], ['d', ROOT + '/dir']]
    for n in ('a', 'b'):
        fs.append(['f', f'{ROOT}/{n}', [rng.randrange(10**6), rng.choice(SZ) if rng.random() < 0.6
                                        else rng.randrange(9000)], {}])
    fs.append(['l', ROOT + '/link', 'a'])
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append({'p': rng.choice(('a', 'b', 'b', 'link', 'dir', 'missing')),
                    'cs': rng.choice((100, 512, 4096, 4097, 65536)),
                    'ecs': rng.choice((1000, 4096, 4096, 5000, 64, 2**20, 97)),
                    'how': rng.choice(('checksum', 'extra', 'etag', 'etag', 'stream', 'stream')),
                    'algo': rng.choice(ALGOS), 'extra': [rng.choice(ALGOS) for _ in range(rng.choice((1, 2, 2, 3)))],
                    'order': rng.randrange(2**30)})
    return {'kernel': kernel_params(rng), 'fs': fs, 'ops': ops}


def ref_etag(content, cs):
    parts = [hashlib.md5(content[j:j + cs]).digest() for j in range(0, len(content), cs)]
    return hashlib.md5(b''.join(parts)).digest(), len(parts)


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    for i, op in enumerate(plan['ops']):
        if op is not None:
            one(R, i, op)


def one(R, i, op):
    k, aug = R.k, R.aug
    path = aug.LocalPath(f'{ROOT}/{op["p"]}')
    path.chunksize = op['cs']
    node = k.h_get(os.fspath(path), follow=True)
    content = bytes(node.data) if node is not None and node.kind == 'f' else None
    how = op['how']
    c = content
    h = getattr(hashlib, op['algo'])
    if how == 'checksum':
        fn, args, kw = path.checksum, (h,), {}
        want = None if c is None else h(c).digest()
    elif how == 'extra':
        ex = tuple(getattr(hashlib, e) for e in op['extra'])
        fn, args, kw = path.checksum, (h,), {'extra_cyphers': ex}
        want = None if c is None else (h(c).digest(),) + tuple(e(c).digest() for e in ex)
    elif how == 'etag':
        fn, args, kw = path.etag, (op['ecs'],), {}
        want = None if c is None else ref_etag(c, op['ecs'])
    else:
        args, kw = (), {}
        want = None if c is None else ref_etag(c, op['ecs'])
        rng = random.Random(op['order'])

        def fn():
            if not path.is_file():
                return None
            m = aug.utils.etag(op['ecs'])
            seen = b''
            for chunk in path.data:
                # any split of the same bytes, looked at any number of times
                while chunk:
                    n = rng.choice((0, 1, 7, len(chunk), op['ecs'], op['ecs'] - 1, op['ecs'] + 1, 3 * op['ecs']))
                    piece, chunk = chunk[:n], chunk[n:]
                    m.update(piece)
                    seen += piece
                    if rng.random() < 0.2:
                        d = m.digest()
                        R.check(d == ref_etag(seen, op['ecs']), 'early',
                                lambda: f'etag of the first {len(seen)} bytes is wrong')
                        if rng.random() < 0.5:
                            R.check(m.hexdigest() == f'{d[0].hex()}-{d[1]}', 'early', 'hexdigest')
            return m.digest()
    out = R.op(i, fn, *args, **kw)
    what = f'{how} of {op["p"]!r} ({len(c) if c is not None else None} bytes, chunks {op["cs"]}/{op["ecs"]}, ' \
           f'{op["algo"]} {op["extra"]}): {out!r}'
    if out.ok:
        R.check(out.value == want, 'wrong', lambda: what + f' expected {short(want, 120)}')
        R.probe('computed')
        if R.hit and c is not None:
            R.probe('right_despite_faults')
    else:
        R.check(R.hit, 'failed', what + ' without a cause')
        R.probe('error_reported')
    R.probe('nontrivial')
