"""One object is refreshed after the remote changed: it is followed to its new place."""
from ..lib import blob, kernel_params, short
from ..svc import (Binding, digest, DNAMES, DSIZES, FNAMES, ORG, ROOT, World, canon, contents, gen_remote, gen_cyphers, gen_world, remote_op,
                   emptied, tracked)

ID = 'P31'
TITLE = 'a refreshed object is where and what the remote has now'
SEEDS = (300, 15000)
VARIANTS = (6, 10)
LISTS = ('ops', 'world')
FAULTS = ('errno', 'errno', 'errno', 'crash_before', 'crash_after', 'kbd', 'cut')
ASSUMPTIONS = ['the remote does not change during a refresh', 'parents are refreshed before what is in them',
               'ids are not used again']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)']
HOWS = ('refresh', 'refresh', 'update', 'update', 'nofetch', 'given', 'both')


def gen(rng, tier):
    ops, t = [], 2000
    for _ in range(rng.randint(2, 7)):
        t += 1000
        r = rng.random()
        if r < 0.45:
            ops.append(gen_remote(rng, t))
        elif r < 0.55:
            ops.append({'op': 'edit', 'n': rng.randrange(10), 'data': [rng.randrange(10**6), rng.choice(DSIZES)],
                        'name': rng.choice(FNAMES + DNAMES), 'how': rng.choice(('write', 'write', 'beside'))})
        if r >= 0.35:
            ops.append({'op': 'pull', 'n': rng.randrange(10), 'how': rng.choice(HOWS), 'cur': rng.random() < 0.8,
                        'changed': rng.random() < 0.7, 'notrash': rng.random() < 0.1})
    fetch = rng.choice((0, 1, 1, 2))
    if rng.random() < 0.04:             # more than the default limit of fetches
        fetch = 2
        big = dict(gen_remote(rng, 1500), how='content')
        big['data'] = [big['data'][0], 2_500_000]
        ops[:0] = [big, {'op': 'pull', 'n': rng.randrange(10), 'how': rng.choice(('refresh', 'update')), 'cur': True, 'changed': True}]
    return {'kernel': kernel_params(rng), 'world': gen_world(rng), 'fetch': fetch,
            'pick': rng.randrange(64), 'ops': ops, 'cyphers': gen_cyphers(rng)}


def start(R, first):
    b = Binding(R, R.world)
    return b, (b.first() if first else b.again())


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'], plan.get('cyphers'))
    with R.calm():
        b, anchor = start(R, True)
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
        for ap in sorted(tracked(k)):
            if k.h_get(ap).kind == 'l' and plan['fetch'] and (plan['fetch'] == 2 or plan['pick'] >> (len(ap) + ord(ap[-1])) % 6 & 1):
                b.L(ap).cache.fetch(size_limit_mb=None)
    st = {'b': b, 'anchor': anchor, 'fid': {i: (n['fid'], n['t']) for i, n in w.nodes.items()}, 'bad': False}
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['op'] == 'remote':
            remote_op(w, op)
        elif op['op'] == 'edit':
            k.now += 1_000_000_000
            st['edits'] = True
            files = sorted(p for p in tracked(k) if k.h_get(p).kind == 'f')
            if op['how'] == 'write' and files:
                n = k.h_get(files[op['n'] % len(files)])
                n.data[:] = b'mine ' + blob(op['data'])
                n.mtime = n.ctime = k.now
            elif op['how'] == 'beside':
                d = sorted(p for p in tracked(k) if k.h_get(p).kind == 'd') + [ROOT]
                ap = f'{d[op["n"] % len(d)]}/{op["name"]}'
                if k.h_get(ap) is None:
                    k.h_put(ap, b'mine ' + blob(op['data']))
        else:
            pull(R, st, i, op, w)
        if st['anchor'] is None or st['bad']:
            return


def dest(w, id):
    return f'{ROOT}/{w.path(id)}'


def shape(node, top=False):
    if node is None:
        return None
    if node.kind == 'd':
        return ('d', {n: shape(c) for n, c in node.entries.items()}, () if top else sorted(node.xattrs.items()))
    if node.kind == 'l':
        return ('l', node.target.split('/', 1)[-1] if top else node.target)
    return ('f', bytes(node.data))


def pull(R, st, i, op, w):
    k, b = R.k, st['b']
    tr = tracked(k)
    ids = sorted(set(tr.values()))
    if not ids:
        return
    if op['changed']:
        # prefer what is not in step
        off = [j for j in ids if j not in w.nodes or dest(w, j) not in tr or tr[dest(w, j)] != j
               or st['fid'].get(j) != (w.nodes[j]['fid'], w.nodes[j]['t'])]
        ids = off or ids
    id = ids[op['n'] % len(ids)]
    at = [p for p, j in tr.items() if j == id]
    if len(at) > 1:
        return
    if op.get('notrash'):
        emptied(k)
    one(R, st, i * 3, op, w, id, at[0])


def refresh(b, cache, how, id):
    if how == 'refresh':
        return cache.refresh()
    if how == 'given':
        return b.Rm(id).update_cache(cache=cache)
    if how == 'both':
        return cache.remote.update_cache(cache=cache)
    return cache.remote.update_cache(fetch=how != 'nofetch')


def one(R, st, i, op, w, id, ap, again=False):
    k, b = R.k, st['b']
    how = op['how']
    tr = tracked(k)
    with R.calm():
        if how not in ('refresh', 'given') and id not in w.nodes:
            how = 'refresh'
        cache = b.L(ap).cache
        meta = cache.meta if cache is not None else None
    if meta is None:
        return
    node = k.h_get(ap)
    kind = node.kind
    gone = id not in w.nodes
    to = None if gone else dest(w, id)
    insync, lack = True, []
    if not gone:
        p = w.nodes[id]['parent']
        while p != ORG:
            # the directories above it are here, or not here yet
            if p not in tr.values() and k.h_get(dest(w, p)) is None:
                lack.append(p)
            else:
                insync = insync and tr.get(dest(w, p)) == p and list(tr.values()).count(p) == 1
            p = w.nodes[p]['parent']
    else:
        q = ap.rsplit('/', 1)[0]
        insync = q == ROOT or q in tr
    if to is not None and (to + '/').startswith(ap + '/') and to != ap:
        insync = False
    occupied = to is not None and to != ap and k.h_get(to) is not None
    ref = None if gone else canon(R.aug.PathMeta(**w.meta_fields(id)))
    content = bytes(node.data) if kind == 'f' else None
    have = canon(meta)
    differs = not gone and any(have.get(f) is not None and have[f] != ref.get(f) for f in ('created', 'updated', 'size', 'checksum', 'file_id'))
    edited = kind == 'f' and have.get('checksum') is not None and digest(have['checksum_cypher'], content) != have['checksum']
    mixed = kind == 'd' and not gone and w.nodes[id]['data'] is not None or kind == 'f' and not gone and w.nodes[id]['data'] is None
    old = shape(node, True)
    before = k.snap('/')
    out = R.op(i, lambda: refresh(b, cache, how, id))
    what = f'{how}{" again" if again else ""} of {id} at {ap!r}' + (f', now {to!r}' if to != ap else '') + f': {out!r}'
    R.probe('nontrivial')
    if out.kind == 'crash':
        R.restart()
        with R.calm():
            st['b'], st['anchor'] = b, _ = start(R, False)
        R.check(st['anchor'] is not None, 'anchor_lost', what)
    if not insync or mixed:
        R.probe('not_in_step')
        if R.hit:
            st['bad'] = True
        return
    if R.hit and not out.ok:
        R.probe('failed')
        if again:
            st['bad'] = True
            return
        return recover(R, st, i, op, w, id, what)
    after = k.snap('/')
    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}

    def near(p, q):
        return q is not None and (p == q[1:] or p.startswith(q[1:] + '/'))

    if how in ('given', 'both'):
        # a cache object is given along with a remote that has one, or has another name
        if how == 'both' or gone or to != ap:
            R.probe('refused')
            R.check(not out.ok, 'not_refused', what)
            R.check(not changed, 'refused_but_changed', lambda: f'{what}: {sorted(changed)}')
            return
    if gone:
        R.check(out.ok, 'failed', what)
        R.probe('gone')
        R.check(k.h_get(ap) is None, 'still_there', what)
        trash = ROOT + '/.operations/trash/'
        R.check(any(shape(n, True) == old for n in below(k, trash)), 'not_in_trash', lambda: f'{what}: {short(old)} is not in the trash')
        odd = [p for p in changed if not near(p, ap) and not near(p, trash[:-1]) and p != ROOT[1:] + '/.operations']
        R.check(not odd, 'side_effect', lambda: f'{what}: {odd}')
        return
    if edited and differs and how != 'nofetch' and content != w.nodes[id]['data'] and (
            have.get('checksum') != ref.get('checksum') or out.kind == 'err'):
        # (if something else about it has changed, that is an error too)
        R.probe('edited_on_both_sides')
        R.check(not out.ok, 'edit_not_reported', what)
        R.check(not changed, 'refused_but_changed', lambda: f'{what}: {sorted(changed)}')
        return
    if occupied:
        R.probe('occupied')
        n = k.h_get(to)
        R.check(n is not None, 'occupant_gone', what)
        R.check(out.ok or k.h_get(ap) is not None, 'gone', what)
        odd = [p for p in changed if not near(p, ap) and not near(p, to) and not near(p, ROOT + '/.operations')]
        R.check(not odd, 'side_effect', lambda: f'{what}: {odd}')
        if not out.ok:
            R.check(before.get(to[1:]) == after.get(to[1:]), 'occupant_changed', lambda: f'{what}: {before.get(to[1:])} {after.get(to[1:])}')
        st['bad'] = True
        return
    R.check(out.ok, 'failed', what)
    n = k.h_get(to)
    R.check(n is not None and tracked(k).get(to) == id, 'not_there', what)
    R.check(to == ap or k.h_get(ap) is None, 'old_name_left', what)
    R.check(n.kind == kind, 'wrong_kind', lambda: f'{what}: {kind} became {n.kind}')
    with R.calm():
        c = b.L(to).cache
        now = canon(c.meta) if c is not None else None
    R.check(now is not None and {f: v for f, v in now.items() if f not in ('errors', 'old_id')} == ref, 'wrong_metadata',
            lambda: f'{what}: has {short(now)}, the remote {short(ref)}')
    for p in lack:
        R.probe('with_parents')
        R.check(tracked(k).get(dest(w, p)) == p and k.h_get(dest(w, p)).kind == 'd', 'parent_not_there', lambda: f'{what}: {dest(w, p)!r}')
        with R.calm():
            got, pref = canon(b.L(dest(w, p)).cache.meta), canon(R.aug.PathMeta(**w.meta_fields(p)))
        R.check(got == pref, 'wrong_metadata', lambda: f'{what}: {dest(w, p)!r} has {short(got)}, the remote {short(pref)}')
    if kind == 'f':
        fetched = differs and how != 'nofetch' and (have.get('checksum') != ref.get('checksum') or not edited)
        want = w.nodes[id]['data'] if fetched else content
        if not (edited and fetched):
            R.check(bytes(n.data) == want or 'net_corrupt' in R.hit, 'wrong_content',
                lambda: f'{what}: has {short(bytes(n.data))}, not {short(want)}')
        R.probe('fetched' if fetched else 'kept')
    else:
        R.check(kind == 'l' or shape(n, True) == old, 'children_changed', lambda: f'{what}: {short(old)} became {short(shape(n, True))}')
    R.check(how in ('refresh',) or out.value == differs, 'wrong_answer', lambda: f'{what}: {out.value!r}, differs: {differs}')
    if how == 'refresh':
        with R.calm():
            R.check(out.value is not None and out.value.id == id, 'wrong_answer', what)
    odd = [p for p in changed if not near(p, ap) and not near(p, to) and not near(p, ROOT + '/.operations')
           and '/' + p not in [dest(w, q) for q in lack] and '/.unlink-' not in p]      # (left over from a process that was killed)
    R.check(not odd, 'side_effect', lambda: f'{what}: {odd}')
    R.probe('followed' if to != ap else 'in_place')
    st['fid'][id] = w.nodes[id]['fid'], w.nodes[id]['t']
    if not again and how != 'nofetch':
        one(R, st, i + 1, dict(op, how='refresh'), w, id, to, True)


def below(k, top):
    out = []

    def rec(n):
        for c in n.entries.values():
            out.append(c)
            if c.kind == 'd':
                rec(c)
    n = k.h_get(top.rstrip('/'))
    if n is not None and n.kind == 'd':
        rec(n)
    return out


def recover(R, st, i, op, w, id, what):
    """The faults are over: doing it again leads there."""
    k, b = R.k, st['b']
    tr = tracked(k)
    at = [p for p, j in tr.items() if j == id]
    R.probe(f'left_at_{len(at)}')
    st['bad'] = True
    if len(at) == 1:
        one(R, st, i + 2, dict(op, how='refresh'), w, id, at[0], True)
    elif not at and id in w.nodes:
        out = R.op(i + 2, lambda: len(list(st['anchor'].bootstrap(st['anchor'].remote.meta, recursive=True))))
        if st.get('edits') and type(out.exc).__name__ in ('LocalChangesError', 'PathExistsError'):
            R.probe('stopped_at_an_edit')       # another object's
        elif not R.hit:
            R.check(tracked(k).get(dest(w, id)) == id, 'not_recovered', lambda: f'{what}, then bootstrap: {out!r}')
    elif len(at) == 2:
        for p in at:
            with R.calm():
                cache = b.L(p).cache
            R.op(i + 2, lambda: cache.refresh())
        at = [p for p, j in tracked(k).items() if j == id]
        R.check(at == [dest(w, id)], 'not_recovered', lambda: f'{what}, then refreshed: at {at}')
