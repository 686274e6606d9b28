"""Nothing the user wrote is lost when a changed remote is pulled in."""
from ..lib import blob, kernel_params, short
from ..svc import (Binding, digest, DNAMES, DSIZES, FNAMES, ORG, ROOT, World, contents, gen_remote, gen_cyphers, gen_world, remote_op,
                   tracked)

ID = 'P13'
TITLE = 'pulling remote changes never loses what the user wrote locally'
SEEDS = (260, 12000)
VARIANTS = (6, 10)
LISTS = ('ops', 'world')
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'kbd', 'cut', 'flip', 'short', 'torn')
ASSUMPTIONS = ['the remote reports checksums of its files', 'nobody edits a file while it is being pulled',
               'local files are not fetched over on explicit request (fetch)', 'a deleted remote id is not reused']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)']


def gen(rng, tier):
    world = gen_world(rng)
    ops, t = [], 2000
    for _ in range(rng.randint(3, 9)):
        t += 1000
        r = rng.random()
        if r < 0.34:
            ops.append(gen_remote(rng, t))
        elif r < 0.44:
            ops.append({'op': 'clash', 'n': rng.randrange(10), 'data': [rng.randrange(10**6), rng.choice(DSIZES[1:])],
                        'rdata': [rng.randrange(10**6), rng.choice(DSIZES[1:])], 't': t, 'same': rng.random() < 0.5,
                        'touch': rng.random() < 0.3})
        elif r < 0.66:
            ops.append({'op': 'edit', 'how': rng.choice(('write', 'write', 'write', 'replace', 'untracked',
                                                         'untracked', 'rm', 'mv', 'folder')),
                        'n': rng.randrange(10), 'data': [rng.randrange(10**6), rng.choice(DSIZES[1:])],
                        'name': rng.choice(FNAMES + DNAMES)})
        else:
            ops.append({'op': rng.choice(('refresh', 'refresh', 'refresh', 'refresh_data', 'update', 'bootstrap')),
                        'n': rng.randrange(10), 'pair': rng.random() < 0.5})
    return {'kernel': kernel_params(rng), 'world': world, 'fetch': rng.choice((0, 1, 1, 2)), 'ops': ops, 'cyphers': gen_cyphers(rng)}


FAULT_OPS = None


def start(R, first):
    b = Binding(R, R.world)
    anchor = b.first() if first else b.again()
    return b, anchor


def local_files(k):
    out = []

    def rec(n, p):
        for name, c in sorted(n.entries.items()):
            if p == ROOT and name.startswith('.'):
                continue
            if c.kind == 'd':
                rec(c, f'{p}/{name}')
            elif c.kind == 'f':
                out.append(f'{p}/{name}')
    rec(k.h_get(ROOT), ROOT)
    return out


def local_dirs(k):
    out = [ROOT]

    def rec(n, p):
        for name, c in sorted(n.entries.items()):
            if not (p == ROOT and name.startswith('.')) and c.kind == 'd':
                out.append(f'{p}/{name}')
                rec(c, f'{p}/{name}')
    rec(k.h_get(ROOT), ROOT)
    return out


def edit(R, op, mine):
    k = R.k
    k.now += 1_000_000_000
    how, data = op['how'], b'mine ' + blob(op['data'])
    files = local_files(k)
    if how in ('untracked', 'folder'):
        d = local_dirs(k)
        if how == 'folder':
            # a directory of the user's own
            ap = d[op['n'] % len(d)] + '/' + op['name']
            if k.h_get(ap) is None:
                k.h_mkdir(ap)
                d = [ap]
        ap = d[op['n'] % len(d)] + '/' + op['name']
        if k.h_get(ap) is None:
            k.h_put(ap, data)
            mine[data] = True
        return
    if not files:
        return
    ap = files[op['n'] % len(files)]
    n = k.h_get(ap)
    old = bytes(n.data)
    if how == 'write':
        n.data[:] = data
        n.mtime = n.ctime = k.now
        mine[data] = True
    elif how == 'replace':
        k.h_rm(ap)
        k.h_put(ap, data)
        mine[data] = True
    elif how == 'rm':
        k.h_rm(ap)
    elif how == 'mv':
        to = ap.rsplit('/', 1)[0] + '/' + op['name']
        if k.h_get(to) is None:
            src, dst = k.h_walk(ap), k.h_walk(to)
            k._link_in(dst[0], dst[1], k._link_out(src[0], src[1]))
        return
    # the user overwrote it: that one the user gave up
    if how in ('write', 'replace', 'rm') and old in mine and old not in contents(k):
        del mine[old]


def tracked_files(k):
    return sorted(p for p in tracked(k) if k.h_get(p).kind == 'f')


def clash(R, op, mine, w):
    """The same file is edited here and changed at the remote, possibly with the same size."""
    k = R.k
    files = tracked_files(k)
    if not files:
        return
    ap = files[op['n'] % len(files)]
    id = tracked(k)[ap]
    data = blob(op['data'])
    k.now += 1_000_000_000
    n = k.h_get(ap)
    if bytes(n.data) in mine:
        del mine[bytes(n.data)]
    n.data[:] = data
    if not op['touch']:
        n.mtime = k.now
    n.ctime = k.now
    mine[data] = True
    if id in w.nodes and w.nodes[id]['data'] is not None:
        w.content(id, [op['rdata'][0], len(data)] if op['same'] else op['rdata'], op['t'])


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'], plan.get('cyphers'))
    with R.calm():
        b, anchor = start(R, True)
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
        for ap in sorted(tracked(k)):
            n = k.h_get(ap)
            if n.kind == 'l' and plan['fetch'] and (plan['fetch'] == 2 or len(ap) % 2):
                b.L(ap).cache.fetch(size_limit_mb=None)
    mine = {}
    seen = {bytes(n['data']) for n in w.nodes.values() if n['data'] is not None}
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['op'] == 'remote':
            remote_op(w, op)
            seen |= {bytes(n['data']) for n in w.nodes.values() if n['data'] is not None}
            continue
        if op['op'] == 'edit':
            edit(R, op, mine)
            continue
        if op['op'] == 'clash':
            clash(R, op, mine, w)
            seen |= {bytes(n['data']) for n in w.nodes.values() if n['data'] is not None}
            op = {'op': 'refresh', 'n': op['n'], 'files': True}
        b, anchor = one(R, b, anchor, i, op, mine, seen, w)
        if anchor is None:
            return


def taken(k, w, id, mine):
    n = k.h_get(f'{ROOT}/{w.path(id)}') if id in w.nodes else None
    return n is not None and n.kind == 'f' and bytes(n.data) in mine


def one(R, b, anchor, i, op, mine, seen, w):
    k = R.k
    before = contents(k)
    must = [c for c in mine if c in before and c not in seen]
    tr = tracked(k)
    paths = tracked_files(k) if op.get('files') else sorted(tr)
    ap = paths[op['n'] % len(paths)] if paths else None
    if op['op'] != 'bootstrap' and ap is None:
        return b, anchor
    node = k.h_get(ap) if ap else None
    local = bytes(node.data) if node is not None and node.kind == 'f' else None
    meta = None
    if op['op'] == 'bootstrap':
        out = R.op(i, lambda: list(anchor.bootstrap(anchor.remote.meta, recursive=True)))
    else:
        with R.calm():
            cache = b.L(ap).cache
            meta = cache.meta if cache is not None else None
        if cache is None:
            return b, anchor
        if op['op'] == 'refresh':
            out = R.op(i, lambda: cache.refresh())
        elif op['op'] == 'refresh_data' and not (local in mine) and not taken(k, w, tr[ap], mine):
            # (this overwrites the local file on request)
            out = R.op(i, lambda: cache.refresh(update_data=True))
        else:
            out = R.op(i, lambda: cache.remote.update_cache())
    what = f'{op["op"]} of {ap!r}: {out!r}'
    R.probe('nontrivial')
    R.probe(f'{op["op"]}_{out.kind}' + ('_' + type(out.exc).__name__ if out.kind == 'err' and not R.hit else ''))
    if must:
        R.probe('user_content_at_stake')
    after = contents(k)
    for c in must:
        R.check(c in after, 'lost', lambda: what + f': what the user wrote to {before[c]} is nowhere any more')
    if local is not None and meta is not None and meta.checksum is not None and op['op'] != 'bootstrap':
        r = w.nodes.get(tr[ap])
        changed_here = digest(meta.checksum_cypher, local) != meta.checksum
        if changed_here and local in mine and r is not None and r['data'] is not None and r['data'] != local:
            # edited on both sides or only here: the file stays what the user made it
            R.probe('edited_locally')
            here = [p for p in after.get(local, ()) if '/.operations/' not in p]
            ok = here or not out.ok and out.kind != 'ok' and R.hit
            R.check(ok, 'edit_taken_away', lambda: what + f': {ap!r} was edited, now only in {after.get(local)}')
            R.check(not (out.ok and digest(meta.checksum_cypher, r['data']) != meta.checksum
                         and k.h_get(ap) is not None and k.h_get(ap).kind == 'f'
                         and bytes(k.h_get(ap).data) != local), 'edit_replaced', what)
        elif not changed_here and op['op'] != 'refresh_data' and r is not None and r['data'] is not None:
            # a failed pull leaves the content that was there, or the new one
            R.probe('clean_file')
            pl = [p for p, j in tracked(k).items() if j == tr[ap]]
            if out.kind in ('err', 'kbd') and 'net_corrupt' not in R.hit and sum(v for f, v in R.hit.items() if f in ('errno', 'kbd')) <= 1:
                R.check(any(k.h_get(p).kind == 'f' and bytes(k.h_get(p).data) in (local, r['data']) for p in pl),
                        'not_rolled_back', lambda: what + f': {ap!r} is at {pl}, with neither the old nor the new '
                        f'content, hits {R.hit}')
    if out.kind == 'crash':
        R.restart()
        with R.calm():
            b, anchor = start(R, False)
    return b, anchor
