"""Fetching the content of a file."""
import hashlib

from ..lib import blob, kernel_params, short
from ..svc import Binding, digest, FNAMES, ORG, ROOT, World, gen_cyphers, canon, tracked

ID = 'P14'
TITLE = 'a fetch yields the remote content or says it did not'
SEEDS = (300, 16000)
VARIANTS = (9, 14)
LISTS = ('ops', 'world')
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'kbd', 'cut', 'cut', 'flip', 'flip', 'short', 'torn')
ASSUMPTIONS = ['the remote reports the size, and unless noted the checksum, of its files',
               'a file already known to have a mismatch is not checked again']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)']
SZ = (0, 1, 99, 100, 101, 250, 1000, 5000)
MB = 2 ** 20


def gen(rng, tier):
    world, dirs = [], [ORG]
    if rng.random() < 0.5:
        world.append(['N:col:1', 'a', ORG, None, 1000])
        dirs.append('N:col:1')
    names = list(FNAMES[:3]) + ['h.dat', 'ü']
    flags = {}
    for n in range(rng.randint(1, 3)):
        world.append([f'N:pkg:{n}', names[n], rng.choice(dirs), [rng.randrange(10**6), rng.choice(SZ)], 1000])
        r = rng.random()
        if r < 0.15:
            flags[f'N:pkg:{n}'] = 'nosum'
        elif r < 0.27:
            flags[f'N:pkg:{n}'] = 'lazy'
        elif r < 0.5:
            flags[f'N:pkg:{n}'] = 'err'
        elif r < 0.57:
            flags[f'N:pkg:{n}'] = 'etag'
    ops = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.65:
            ops.append({'op': 'fetch', 'n': rng.randrange(4), 'stored': rng.choice((0, 0, 0, 1, 10**6)),
                        'limit': rng.choice(('none', 'none', 'default', 0, 99,
                                                                                  100, 250, 10**6))})
        elif r < 0.75:
            ops.append({'op': 'validate', 'n': rng.randrange(4)})
        elif r < 0.87:
            ops.append({'op': 'stale', 'n': rng.randrange(4), 'data': [rng.randrange(10**6), rng.choice(SZ)],
                        'same': rng.random() < 0.5})
        else:
            ops.append({'op': 'scribble', 'n': rng.randrange(4), 'data': [rng.randrange(10**6), rng.choice(SZ)]})
    return {'kernel': kernel_params(rng), 'world': world, 'flags': flags, 'ops': ops,
            'chunk': rng.choice((1, 100, 100, 4096)) if rng.random() < 0.5 else 100, 'cyphers': gen_cyphers(rng)}


def start(R, first):
    b = Binding(R, R.world, chunk=R.plan['chunk'] if R.plan['chunk'] > 1 else 37)
    anchor = b.first() if first else b.again()
    return b, anchor


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'], plan.get('cyphers'))
    for i, f in plan['flags'].items():
        if i in w.nodes:
            if f == 'etag':
                w.nodes[i]['etag'] = 300
                continue
            w.nodes[i][{'nosum': 'nosum', 'lazy': 'nofid', 'err': 'errors'}[f]] = ('odd-name',) if f == 'err' else True
    with R.calm():
        b, anchor = start(R, True)
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
    for n in w.nodes.values():
        n.pop('nofid', None)
    paths = sorted(p for p, i in tracked(k).items() if w.nodes[i]['data'] is not None)
    ids = tracked(k)
    for i, op in enumerate(plan['ops']):
        if op is None or not paths:
            continue
        ap = paths[op['n'] % len(paths)]
        node = w.nodes[ids[ap]]
        if op['op'] == 'stale':
            # the remote changes, the metadata here does not
            if op['same']:
                node['data'] = blob([op['data'][0], len(node['data'])])
            else:
                node['data'] = blob(op['data'])
            continue
        if op['op'] == 'scribble':
            n = k.h_get(ap)
            if n.kind == 'f':
                n.data[:] = blob(op['data'])
                k.now += 10**9
                n.mtime = n.ctime = k.now
            continue
        try:
            b, anchor = one(R, b, anchor, i, op, ap, ids[ap], node)
        except Stop:
            return


class Stop(Exception):
    pass


def without_errors(c):
    return {f: v for f, v in (c or {}).items() if f != 'errors'}


def one(R, b, anchor, i, op, ap, id, node):
    k = R.k
    with R.calm():
        cache = b.L(ap).cache
        meta = cache.meta if cache is not None else None
    R.check(meta is not None and meta.id == id, 'id_lost', lambda: f'{ap!r} has no metadata before operation {i}')
    old = canon(meta)
    if op.get('stored'):
        # an object of this name from a fetch before
        d = ROOT + '/.operations/objects'
        if k.h_get(d) is not None and k.h_get(f'{d}/{id}-{meta.file_id}') is None:
            k.h_put(f'{d}/{id}-{meta.file_id}', bytes(node['data'])[:op['stored'] - 1])
    before = k.snap('/', mode=True)
    n = k.h_get(ap)
    was = bytes(n.data) if n.kind == 'f' else None
    if op['op'] == 'validate':
        if was is None:
            return b, anchor
        out = R.op(i, lambda: cache.validate_file())
        limit = None
    else:
        limit = op['limit']
        if limit == 'default':
            out = R.op(i, lambda: cache.fetch())
            limit = 2 * MB
        elif limit == 'none':
            out = R.op(i, lambda: cache.fetch(size_limit_mb=None))
            limit = None
        else:
            out = R.op(i, lambda: cache.fetch(size_limit_mb=limit / MB))
    what = f'{op["op"]} (limit {limit}) of {ap!r}: {out!r}'
    R.probe('nontrivial')
    R.probe(f'{op["op"]}_{out.kind}')
    if out.kind == 'crash':
        R.restart()
        with R.calm():
            b, anchor = start(R, False)
    after = k.snap('/', mode=True)
    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    odd = [p for p in changed if p != ap[1:] and '/.operations' not in p]
    R.check(not odd, 'side_effect', lambda: what + f' changed {odd}')
    n = k.h_get(ap)
    if n is None and 'file_id' not in old and out.kind == 'crash':
        # killed while the metadata itself was being updated (another property)
        raise Stop
    R.check(n is not None and n.kind in 'fl', 'gone', what)
    with R.calm():
        cache = b.L(ap).cache
        now = canon(cache.meta) if cache is not None else None
    R.check(now is not None and now.get('id') == id, 'id_lost', lambda: what + f': metadata is {short(now)}')
    is_lazy = 'file_id' not in old
    if not is_lazy:
        # the rest of the metadata is as before; only the verdict may be added
        if not ('errno' in R.hit or 'kbd' in R.hit or out.kind == 'crash'):
            R.check(without_errors(now) == without_errors(old), 'metadata_changed',
                    lambda: what + f': {short(old)} became {short(now)}')
        else:
            for f in set(now) | set(old):
                R.check(f == 'errors' or now.get(f) == old.get(f), 'metadata_changed',
                        lambda: what + f': {f} {old.get(f)!r} became {now.get(f)!r}')
    bad = 'checksum-mismatch' in now.get('errors', ())
    was_bad = 'checksum-mismatch' in old.get('errors', ())
    content = bytes(n.data) if n.kind == 'f' else None
    ref = now
    if op['op'] == 'validate':
        if out.ok and not R.hit and 'checksum' in ref:
            wrong = digest(ref['checksum_cypher'], content) != ref['checksum']
            R.check(bad == (wrong or was_bad), 'wrong_verdict', lambda: what + f': wrong={wrong} recorded={bad}')
            R.probe('verdict_bad' if wrong else 'verdict_good')
        elif not R.hit and 'etag' in ref:
            R.check(out.ok and not changed, 'failed', what)
        elif not R.hit and 'size' in ref:
            R.check(out.ok == (len(content) == ref['size']), 'wrong_verdict', lambda: what + f': {len(content)} bytes, {ref["size"]} recorded')
            R.probe('size_verdict')
        return b, anchor
    size = old.get('size')
    if limit is not None and not is_lazy and (size is None or size > limit):
        if out.ok:
            R.check(content == was and not changed, 'over_limit_fetched', what)
            R.probe('over_limit')
        return b, anchor
    if out.ok:
        R.check(content is not None, 'nothing_fetched', what)
        if 'checksum' in ref:
            wrong = digest(ref['checksum_cypher'], content) != ref['checksum']
            R.check(not wrong or bad, 'wrong_content_unnoticed',
                    lambda: what + f': {len(content)} bytes that are not what the metadata says')
            if not R.hit:
                R.check(wrong or bad == was_bad, 'false_mismatch', what)
        if 'size' in ref:
            R.check(len(content) == ref['size'], 'wrong_size_unnoticed', lambda: what + f': {len(content)} bytes')
        if not any(x.startswith('net_') or x in ('flip', 'short_read') for x in R.hit):
            R.check(content == node['data'], 'not_the_remote_content', what)
            R.probe('fetched')
        return b, anchor
    if not R.hit:
        # the only reason to fail on its own is that the content is not the announced size
        R.check(out.kind == 'err' and size is not None and len(node['data']) != size, 'failed', what)
        R.probe('size_mismatch')
        return b, anchor
    # stopped halfway: what was a placeholder is still one, or has all of the content
    if was is None and not is_lazy and len(node['data']) == size:
        R.check(content is None or len(content) == size and (content == node['data'] or 'net_corrupt' in R.hit),
                'partial_content', lambda: what + f': left {len(content)} of {size} bytes as if they were the file')
        R.probe('all_or_placeholder')
    # trying again gets there
    if 'size' in now and len(node['data']) != now['size'] or is_lazy:
        return b, anchor
    with R.calm():
        b.L(ap).cache.fetch(size_limit_mb=None)
    n = k.h_get(ap)
    R.check(n.kind == 'f' and bytes(n.data) == node['data'], 'no_recovery', what)
    R.probe('recovered')
    return b, anchor
