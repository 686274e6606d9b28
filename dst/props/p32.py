"""Is what is here still what was fetched?"""
from datetime import timedelta

from ..lib import blob, kernel_params, short
from ..svc import (Binding, CYPHERS, DSIZES, ORG, ROOT, World, canon, digest, gen_cyphers, gen_world, tracked)

ID = 'P32'
TITLE = 'an edited file is told from an unedited one'
SEEDS = (300, 15000)
VARIANTS = (6, 10)
LISTS = ('ops', 'world')
FAULTS = ('errno', 'errno', 'short', 'eintr', 'kbd', 'cut')
ASSUMPTIONS = ['the file is not written while it is read', 'where no checksum is recorded the remote is asked']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)']


def gen(rng, tier):
    ops, t = [], 2000
    for _ in range(rng.randint(3, 9)):
        t += 1000
        r = rng.random()
        if r < 0.35:
            ops.append({'op': 'edit', 'n': rng.randrange(10), 'data': [rng.randrange(10**6), rng.choice(DSIZES)],
                        'how': rng.choice(('write', 'write', 'size', 'size', 'byte', 'byte', 'touch', 'replace', 'back', 'append',
                                           'chmod')), 'mtime': rng.choice(('now', 'now', 'keep', 'past', 'remote')),
                        'at': rng.randrange(1000)})
        elif r < 0.45:
            ops.append({'op': 'remote', 'n': rng.randrange(10), 'data': [rng.randrange(10**6), rng.choice(DSIZES)],
                        'how': rng.choice(('content', 'content', 'delete')), 't': t})
        if r > 0.25 or rng.random() < 0.5:
            n = ops[-1]['n'] if r < 0.35 else rng.randrange(10)
            ops.append({'op': 'ask', 'n': n, 'how': rng.choice((
                'different', 'different', 'different', 'meta', 'remote', 'checksum', 'validate')), 'kept': rng.random() < 0.5, 'sum': rng.random() < 0.7,
                'placeholder': rng.random() < 0.06})
    return {'kernel': kernel_params(rng), 'world': gen_world(rng), 'pick': rng.randrange(256),
            'plain': rng.sample(range(6), rng.choice((0, 0, 1, 2))), 'cyphers': gen_cyphers(rng),
            'cls': rng.choice(('sha256', 'sha256', 'blake2b')), 'ops': ops,
            'errs': rng.choice((0, 0, rng.randrange(64)))}


def start(R):
    import hashlib
    return Binding(R, R.world, cypher=getattr(hashlib, R.plan['cls']))


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'], plan['cyphers'])
    for n, i in enumerate(sorted(w.nodes)):
        if n in plan['plain'] and w.nodes[i]['data'] is not None:
            w.nodes[i]['nosum'] = True
        if plan.get('errs', 0) >> n % 6 & 1 and w.nodes[i]['data'] is not None:
            w.nodes[i]['errors'] = ['deleted']
    with R.calm():
        b = start(R)
        anchor = b.first()
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
        for n, ap in enumerate(sorted(tracked(k))):
            if k.h_get(ap).kind == 'l' and (n % 4 or not plan['pick'] & 3):
                b.L(ap).cache.fetch(size_limit_mb=None)
    orig = {ap: bytes(k.h_get(ap).data) for ap in tracked(k) if k.h_get(ap).kind == 'f'}
    st = {'kept': {}, 'b': b, 'orig': orig}
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['op'] == 'edit':
            edit(k, op, orig, w)
        elif op['op'] == 'remote':
            ids = sorted(j for j in w.nodes if w.nodes[j]['data'] is not None)
            if ids:
                j = ids[op['n'] % len(ids)]
                w.content(j, op['data'], op['t']) if op['how'] == 'content' else w.delete(j)
        else:
            ask(R, st, i, op, w)


def edit(k, op, orig, w):
    aps = sorted(p for p in tracked(k) if k.h_get(p).kind == 'f')
    if not aps:
        return
    k.now += 1_000_000_000
    ap = aps[op['n'] % len(aps)]
    n = k.h_get(ap)
    how = op['how']
    m = n.mtime
    d = bytes(n.data)
    if how == 'write':
        d = blob(op['data'])
    elif how == 'size':
        d = blob([op['data'][0], len(d)])
    elif how == 'byte' and d:
        j = op['at'] % len(d)
        d = d[:j] + bytes([d[j] ^ 1]) + d[j + 1:]
    elif how == 'append':
        d += b'\n'
    elif how == 'back':
        d = orig[ap]
    elif how == 'replace':
        # by another inode, which takes the metadata along like an editor does
        x = dict(n.xattrs)
        k.h_rm(ap)
        k.h_put(ap, d)
        n = k.h_get(ap)
        n.xattrs.update(x)
    n.data[:] = d
    there = w.nodes.get(tracked(k)[ap])
    n.mtime = {'remote': there['t'] * 1_000_000_000 if there else m, 'now': k.now, 'keep': m, 'past': max(0, m - 5_000_000_000)}[op['mtime']]
    n.ctime = k.now


def ask(R, st, i, op, w):
    k, b = R.k, st['b']
    tr = tracked(k)
    aps = sorted(p for p in tr if k.h_get(p).kind == ('l' if op['placeholder'] else 'f'))
    if not aps:
        return
    ap = aps[op['n'] % len(aps)]
    id = tr[ap]
    node = k.h_get(ap)
    data = bytes(node.data) if node.kind == 'f' else None
    there = w.nodes.get(id)
    with R.calm():
        path = st['kept'].get(ap) if op['kept'] else None
        if path is None:
            path = st['kept'][ap] = b.L(ap)
        cache = path.cache
        meta = cache.meta
        rec, cyp = meta.checksum, meta.checksum_cypher
    how = op['how']
    R.probe('nontrivial')
    before = k.snap('/')
    what = f'{how} of {ap!r}'
    if how == 'validate':
        if data is not None:
            validate(R, st, i, ap, cache, canon(meta), data)
        return
    if how == 'different':
        if rec:
            want = data is not None and digest(cyp, data) != rec
        elif data is None:
            want = None
        elif there is None:
            want = LookupError
        else:
            want = data != there['data']
        out = R.op(i, path.content_different)
    elif how == 'meta':
        # the metadata of the two, when they have the same sort of checksum, or none
        if rec and op.get('sum', True):
            with R.calm():
                ours = path.meta
            if ours.checksum_cypher != cyp:
                return
            want = digest(cyp, data) != rec if data is not None else None
            out = R.op(i, lambda: path.meta.content_different(meta))
        else:
            # any sign that it changed: another size, or theirs is later
            if data is None:
                return
            with R.calm():
                ours = path.meta_no_checksum
                other = R.aug.PathMeta(id='N:x', size=len(data) + (op['n'] % 3 == 0),
                                       updated=ours.updated + timedelta(seconds=(-1, 0, 0, 1, 10**6)[op['n'] % 5]))
            want = op['n'] % 3 == 0 or op['n'] % 5 > 2
            out = R.op(i, lambda: ours.content_different(other))
    elif how == 'remote':
        want = LookupError if there is None else None if data is None else digest(R.plan['cls'], there['data'])
        if data is None:
            want = None
        out = R.op(i, lambda: cache.checksum())
    else:
        want = None if data is None else digest(R.plan['cls'], data)
        out = R.op(i, lambda: path.checksum())
    what += f': {out!r}'
    R.probe(f'{how}_{out.kind}')
    after = k.snap('/')
    R.check(after == before, 'changed', lambda: f'{what} changed {[p for p in after if after.get(p) != before.get(p)]}')
    if 'net_cut' in R.hit and how in ('different', 'remote'):
        return       # (what came is what there is)
    if data is None:
        return       # (a placeholder has nothing to compare)
    if out.ok:
        if want is LookupError:
            R.fail('answer_without_remote', what)
        if want is None and how in ('different', 'meta'):
            return
        R.check(out.value == want, 'wrong_answer', lambda: f'{what}, not {short(want)}; recorded {cyp} {rec.hex() if rec else None}')
        R.probe(f'{how}_{want if isinstance(want, bool) else "sum"}')
    elif not R.hit:
        R.check(want is LookupError or want is None and data is None, 'failed', what)


def validate(R, st, i, ap, cache, old, data):
    """A mismatch is noted in what is recorded."""
    k = R.k
    node = k.h_get(ap)
    before = k.snap('/')
    attrs = {a: v for a, v in node.xattrs.items() if not a.endswith(b'.errors')}
    rec = old.get('checksum')
    differs = digest(old['checksum_cypher'], data) != rec if rec else len(data) != old['size']
    out = R.op(i, cache.validate_file)
    what = f'validation of {ap!r}, {"" if differs else "not "}edited: {out!r}'
    after = k.snap('/')
    odd = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and '/' + p != ap]
    node = k.h_get(ap)
    R.check(not odd and node is not None and node.kind == 'f' and bytes(node.data) == data, 'changed', lambda: f'{what}: {odd}')
    R.check({a: v for a, v in node.xattrs.items() if not a.endswith(b'.errors')} == attrs or R.hit, 'changed', what)
    with R.calm():
        now = canon(st['b'].L(ap).cache.meta)
    errors, had = now.get('errors', ()), old.get('errors', ())
    R.check(set(had or ()) <= set(errors or ()), 'changed', lambda: f'{what}: {had} became {errors}')
    if rec:
        R.check(out.ok or R.hit, 'failed', what)
        if out.ok:
            R.check(('checksum-mismatch' in errors) == (differs or 'checksum-mismatch' in had), 'wrong_verdict', lambda: f'{what}: {errors}')
        R.check(differs or errors == had, 'wrong_verdict', lambda: f'{what}: {had} became {errors}')
    else:
        R.check(R.hit or out.ok != differs, 'wrong_verdict', lambda: f'{what}: {len(data)} bytes, recorded are {old["size"]}')
        R.check(not out.ok or not differs, 'wrong_verdict', what)
        R.check(errors == had, 'changed', lambda: f'{what}: {had} became {errors}')
    R.probe(f'validate_{"differs" if differs else "same"}_{out.kind}')
