"""Streamed writes."""
import os

from ..lib import HOME, blob, build, diff, kernel_params, short

ID = 'P06'
TITLE = 'a streamed write stores exactly the stream, or reports an error'
SEEDS = (400, 20000)
VARIANTS = (8, 14)
ROOT = HOME + '/w'
LISTS = ('ops', 'fs')
FAULTS = ('errno', 'errno', 'short', 'short', 'eintr', 'crash_before', 'crash_after', 'torn', 'torn', 'kbd')
ASSUMPTIONS = ['a crash ends the process; data handed to the kernel survives it']
SZ = (0, 0, 1, 3, 100, 4095, 4096, 4097, 9000)


class SourceError(Exception):
    pass


def gen(rng, tier):
    fs = [['d', ROOT]]
    for n in ('a', 'b', 'ü d'):
        if rng.random() < 0.7:
            fs.append(['f', f'{ROOT}/{n}', [rng.randrange(10**6), rng.choice(SZ)],
                       {'user.k': [1, 3], 'user.sim.id': [2, 9]} if rng.random() < 0.6 else {}])
    if rng.random() < 0.3:
        fs.append(['l', ROOT + '/link', rng.choice(('a', 'target'))])
    if rng.random() < 0.2:
        fs.append(['d', ROOT + '/dir'])
    ops = []
    for _ in range(rng.randint(1, 4)):
        n = rng.choice((0, 0, 1, 1, 2, 3, 6))
        ops.append({'p': rng.choice(['a', 'b', 'ü d', 'link', 'new', 'dir', 'no/such']),
                    'chunks': [[rng.randrange(10**6), rng.choice(SZ)] for _ in range(n)],
                    'die': rng.choice((None, None, None, 0, 0, 1, 2)),
                    'how': rng.choice(('data', 'data', 'pass', 'append')),
                    'rel': rng.random() < 0.3,
                    'nospace': rng.choice((None,) * 8 + (0, 100, 5000))})
    return {'kernel': kernel_params(rng), 'fs': fs, 'ops': ops}


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    k.cur.cwd = k.h_get(ROOT)
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if R.proc.dead:
            R.restart(reimport_=False, cwd=ROOT)
        one(R, i, op)


def one(R, i, op):
    k, aug = R.k, R.aug
    ap = f'{ROOT}/{op["p"]}'
    path = aug.LocalPath(op['p'] if op['rel'] else ap)
    chunks = [blob(c) for c in op['chunks']]
    pulled = []

    def source():
        for j, c in enumerate(chunks):
            if op['die'] == j:
                raise SourceError()
            pulled.append(c)
            yield c
        if op['die'] is not None and op['die'] >= len(chunks):
            raise SourceError()
    append = op['how'] == 'append'
    passed = []
    if op['how'] == 'data' or not hasattr(path, '_data_setter'):
        append = False

        def fn():
            path.data = source()
    else:
        def fn():
            for c in path._data_setter(source(), append=append):
                passed.append(c)
    dn, node = k.h_get(ap), k.h_get(ap, follow=True)
    old = bytes(node.data) if node is not None and node.kind == 'f' else None
    oldx = dict(node.xattrs) if node is not None else {}
    oldmode = node.mode if node is not None else None
    before = k.snap('/')
    k.nospace = op['nospace']
    out = R.op(i, fn)
    k.nospace = None
    now = k.snap('/')
    hit = R.hit
    what = f'{op["how"]} {len(chunks)} chunks, {sum(map(len, chunks))} bytes to {op["p"]!r}: {out!r}'
    after = k.h_get(ap, follow=True)
    want = (old or b'' if append else b'') + b''.join(chunks)
    # nothing else changes
    allowed = {p for s in (before, now) for p, v in s.items()
               if (node is not None and v[1] == node.ino) or (after is not None and v[1] == after.ino)
               or '/' + p == ap}
    b = {p: v for p, v in before.items() if p not in allowed}
    n = {p: v for p, v in now.items() if p not in allowed}
    R.check(b == n, 'side_effect', lambda: what + ' changed ' + diff(b, n))
    dies = op['die'] is not None
    if out.ok:
        R.check(not dies, 'error_swallowed', what + ': the source had failed')
        R.check(after is not None and after.kind == 'f', 'no_file', what)
        got = bytes(after.data)
        R.check(got == want, 'content', lambda: what + f': the file has {len(got)} bytes, '
                f'{len(want)} were written')
        if op['how'] != 'data' and passed:
            R.check(b''.join(passed) == b''.join(chunks), 'passed_on', what)
        R.probe('written')
    else:
        got = bytes(after.data) if after is not None and after.kind == 'f' else None
        if out.kind == 'err' and not hit:
            if dies and not isinstance(out.exc, OSError):
                R.check(isinstance(out.exc, SourceError), 'wrong_error', what)
            elif not dies:
                hard = (node is not None and node.kind == 'd') or op['p'] in ('no/such', 'link')
                R.check(hard, 'failed', what + ' without a cause')
        if op['die'] == 0:
            R.check(b == n and (got == old), 'target_destroyed',
                    lambda: what + ': the source failed before its first byte')
            R.check(after is node, 'target_destroyed', what)
            R.probe('source_failed_first')
        # what is there is the old content or a beginning of the new
        if old is not None or got:
            ok = got == old or (got is not None and want.startswith(got) and
                                (not append or len(got) >= len(old or b'')))
            R.check(ok, 'mixed', lambda: what + f': {short(got, 60)} is neither the old content '
                    'nor a beginning of the new')
    if node is not None and node.kind == 'f' and after is not None and out.ok:
        R.check(dict(after.xattrs) == oldx, 'xattrs_lost', lambda: what + f' {oldx} -> {after.xattrs}')
        R.check(after.mode == oldmode, 'mode_lost', what)
    R.probe('nontrivial')
