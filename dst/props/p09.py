"""Metadata of local files: as fresh as the file."""
import datetime
import hashlib
import os

from ..lib import HOME, blob, build, kernel_params, short
from .p08 import ref_etag

ID = 'P09'
TITLE = 'metadata read from a local path is that of the file as it is now'
SEEDS = (380, 20000)
VARIANTS = (8, 14)
ROOT = HOME + '/w'
LISTS = ('ops', 'ext', 'fs')
FAULTS = ('errno', 'errno', 'short', 'eintr', 'kbd')
ASSUMPTIONS = ['two different states of one file differ in inode, size, mtime or ctime (clock ticks of '
               '1 microsecond or more)',
               'what another process changes while the metadata is being computed shows at the next look']
SZ = (0, 1, 7, 100, 4096, 5000)
NAMES = ('a', 'b', 'link', 'dir', 'missing')


def gen(rng, tier):
    fs = [['d', ROOT], ['d', ROOT + '/dir'], ['l', ROOT + '/link', rng.choice(('a', 'b', 'nothing'))]]
    for n in ('a', 'b'):
        if rng.random() < 0.9:
            fs.append(['f', f'{ROOT}/{n}', [rng.randrange(10**6), rng.choice(SZ)], {}])
    ops = []
    for _ in range(rng.randint(3, 10)):
        p = rng.choice(('a', 'a', 'a', 'b', 'link', 'dir', 'missing'))
        if rng.random() < 0.55:
            how = rng.choice(('meta', 'meta', 'meta', 'nosum', 'etag'))
            ops.append({'p': p, 'how': how, 'obj': rng.choice((0, 0, 0, 1)),
                        'cs': rng.choice((64, 1000, 4096))})
        else:
            ops.append({'p': p, 'how': rng.choice(('same_size', 'same_size', 'write', 'replace', 'swapped',
                                                   'chmod', 'chown', 'utime', 'keep_mtime', 'rm', 'tolink',
                                                   'todir', 'jump')),
                        'arg': rng.randrange(10**6), 'size': rng.choice(SZ)})
    kp = kernel_params(rng)
    kp['tick_ns'] = rng.choice((1000, 1_000_003, 250_000_000))
    plan = {'kernel': kp, 'fs': fs, 'ops': ops}
    if rng.random() < 0.3:
        plan['ext'] = [{'op': rng.randrange(len(ops)), 'step': rng.randrange(12),
                        'act': ['f', f'{ROOT}/{rng.choice("ab")}', [rng.randrange(10**6), rng.choice(SZ)], {}]}
                       for _ in range(rng.randint(1, 3))]
    return plan


def change(k, op):
    """Somebody else changes the file."""
    ap = f'{ROOT}/{op["p"]}'
    n = k.h_get(ap, follow=True)
    how, arg = op['how'], op['arg']
    k.now += k.tick
    if how == 'jump':
        k.now += (-3600, 3600, -1, 10)[arg % 4] * 1_000_000_000
        return
    if how == 'rm':
        if k.h_get(ap) is not None and k.h_get(ap).kind != 'd':
            k.h_rm(ap)
        return
    if how in ('tolink', 'todir') and op['p'] in ('a', 'b'):
        if k.h_get(ap) is not None and k.h_get(ap).kind != 'd':
            k.h_rm(ap)
        if k.h_get(ap) is None:
            if how == 'todir':
                k.h_mkdir(ap)
            else:
                k.h_link(ap, 'b' if op['p'] == 'a' else 'a')
        return
    if n is None or n.kind != 'f':
        if n is None and k.h_get(ap) is None and how in ('write', 'replace') and op['p'] != 'dir':
            k.h_put(ap, blob([arg, op['size']]))
        return
    if how in ('same_size', 'keep_mtime'):
        m = n.mtime
        n.data[:] = blob([arg, len(n.data)])
        n.mtime = n.ctime = k.now
        if how == 'keep_mtime':
            n.mtime = m
    elif how == 'write':
        n.data[:] = blob([arg, op['size']])
        n.mtime = n.ctime = k.now
    elif how == 'replace' and op['p'] in ('a', 'b') and k.h_get(ap) is n:
        size, m = len(n.data), n.mtime
        k.h_rm(ap)
        new = k.h_put(ap, blob([arg, size]))
        if arg % 2:
            new.mtime = m
    elif how == 'swapped':
        # another inode with the same size and times
        if k.h_get(ap) is n and op['p'] in ('a', 'b'):
            size, m, c = len(n.data), n.mtime, n.ctime
            k.h_rm(ap)
            new = k.h_put(ap, blob([arg, size]))
            new.mtime, new.ctime = m, c
    elif how == 'chmod':
        n.mode = (0o644, 0o600, 0o640, 0o755)[arg % 4]
        n.ctime = k.now
    elif how == 'chown':
        n.gid = 1000 + arg % 3
        n.ctime = k.now
    elif how == 'utime':
        n.mtime = (arg * 1_000_000_000) + arg
        n.ctime = k.now


def run(plan, R):
    k = R.k
    build(k, plan['fs'])
    objs = {}
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['how'] not in ('meta', 'nosum', 'etag'):
            change(k, op)
            continue
        key = (op['p'], op['obj'])
        if key not in objs:
            objs[key] = R.aug.LocalPath(f'{ROOT}/{op["p"]}')
        one(R, i, op, objs[key])


def ts(ns):
    return datetime.datetime.fromtimestamp(ns / 1e9, tz=datetime.timezone.utc)


def one(R, i, op, path):
    k = R.k
    ap = f'{ROOT}/{op["p"]}'
    how = op['how']
    before = k.snap('/', times=True, mode=True)
    if how == 'etag' and not hasattr(path, '_meta_maker'):
        how = 'meta'
    if how == 'meta':
        out = R.op(i, lambda: path.meta)
    elif how == 'nosum':
        out = R.op(i, lambda: path.meta_no_checksum)
    else:
        out = R.op(i, lambda: path._meta_maker(chunksize=op['cs']))
    what = f'{how} of {op["p"]!r}: {out!r}'
    R.probe('nontrivial')
    if R.ext:
        R.probe('changed_meanwhile')
        return
    R.check(k.snap('/', times=True, mode=True) == before, 'side_effect', what)
    n = k.h_get(ap, follow=True)
    if not out.ok:
        R.check(R.hit, 'failed', what + ' without a cause')
        if out.kind == 'err':
            R.check(isinstance(out.exc, OSError), 'wrong_error', what)
        R.probe('error_reported')
        return
    m = out.value
    want = {'name': op['p'], 'id': R.aug.LocalPath.sysid + ':' + ap}
    fields = ('name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize',
              'parent_id', 'id', 'file_id', 'user_id', 'gid', 'mode')
    if n is not None and not (k.h_get(ap).kind == 'l' and 'errno' in R.hit):
        # (stat(1), the fallback for a failing stat, does not follow links)
        c = bytes(n.data) if n.kind == 'f' else None
        want.update(size=n.size, file_id=n.ino, user_id=n.uid, gid=n.gid, mode=oct(n.st_mode),
                    parent_id=R.aug.LocalPath.sysid + ':' + ROOT)
        if c is not None and how != 'nosum':
            want['checksum'] = hashlib.blake2b(c).digest()
        if c is not None and how == 'etag':
            want['etag'] = ref_etag(c, op['cs'])
        want['created'], want['updated'] = ts(n.mtime), ts(n.ctime)
    elif n is not None:
        return
    got = {f: getattr(m, f) for f in fields}
    for f in fields:
        if f in ('checksum_cypher', 'chunksize'):
            continue
        g, w = got[f], want.get(f)
        if f in ('created', 'updated') and g is not None and w is not None:
            same = abs((g - w).total_seconds()) < 2e-6
        else:
            same = g == w
        R.check(same, 'stale' if f in ('checksum', 'etag') else 'field_' + f,
                lambda: f'{how} of {op["p"]!r}: {f} is {short(g, 90)}, the file has {short(w, 90)}')
    R.probe('meta_checked')
