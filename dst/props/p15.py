"""Moving a cached file, placeholder or directory to where the remote has it."""
from ..lib import blob, kernel_params, short
from ..svc import (Binding, DNAMES, DSIZES, FNAMES, ORG, ROOT, World, canon, contents, gen_world, remote_op, tracked)

ID = 'P15'
TITLE = 'a move changes the name only and loses neither content nor identity'
SEEDS = (330, 16000)
VARIANTS = (7, 12)
LISTS = ('ops', 'world')
FAULTS = ('errno', 'errno', 'errno', 'crash_before', 'crash_after', 'kbd')
ASSUMPTIONS = ['nobody else changes the two paths during the move']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)']


def gen(rng, tier):
    world = gen_world(rng)
    ops = []
    for n in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.45:
            ops.append({'op': 'follow', 'n': rng.randrange(10), 'how': rng.choice(('rename', 'reparent', 'rename')),
                        'name': rng.choice(FNAMES + DNAMES), 'parent': rng.randrange(5), 'via': rng.choice('rt'),
                        't': 2000 + n})
        elif r < 0.75:
            ops.append({'op': 'target', 'n': rng.randrange(10), 'dir': rng.randrange(5),
                        'name': rng.choice(FNAMES + DNAMES), 'cast': rng.random() < 0.5,
                        'known': rng.random() < 0.5})
        else:
            ops.append({'op': 'user', 'dir': rng.randrange(5), 'name': rng.choice(FNAMES + DNAMES),
                        'data': [rng.randrange(10**6), rng.choice(DSIZES)], 'how': rng.choice('fffdlc'),
                        'n': rng.randrange(10)})
    return {'kernel': kernel_params(rng), 'world': world, 'fetch': rng.choice((0, 1, 1, 1, 2)), 'pick': rng.randrange(64), 'ops': ops}


def start(R, first):
    b = Binding(R, R.world, static_anchor=True)
    anchor = b.first() if first else b.again()
    return b, anchor


def dirs_below(k):
    out = [ROOT]

    def rec(n, p):
        for name, c in sorted(n.entries.items()):
            if not (p == ROOT and name.startswith('.')) and c.kind == 'd':
                out.append(f'{p}/{name}')
                rec(c, f'{p}/{name}')
    rec(k.h_get(ROOT), ROOT)
    return out


def user(R, op):
    k = R.k
    d = dirs_below(k)
    ap = f'{d[op["dir"] % len(d)]}/{op["name"]}'
    if k.h_get(ap) is not None:
        return
    if op['how'] == 'f':
        k.h_put(ap, b'mine ' + blob(op['data']))
    elif op['how'] == 'd':
        k.h_mkdir(ap)
        if op['n'] % 2:
            k.h_put(ap + '/inside', b'mine ' + blob(op['data']))
    elif op['how'] == 'l':
        k.h_link(ap, 'nothing')
    elif op['how'] == 'c':
        # a copy of the same content under another name
        files = [c[0] for c in sorted(contents(k).values()) if not c[0].startswith(ROOT + '/.')]
        if files:
            k.h_put(ap, bytes(k.h_get(files[op['n'] % len(files)]).data))


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'])
    with R.calm():
        b, anchor = start(R, True)
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
        for ap in sorted(tracked(k)):
            if k.h_get(ap).kind == 'l' and plan['fetch'] and (plan['fetch'] == 2 or plan['pick'] >> (len(ap) + ord(ap[-1])) % 6 & 1):
                b.L(ap).cache.fetch(size_limit_mb=None)
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['op'] == 'user':
            user(R, op)
            continue
        b, anchor = one(R, b, anchor, i, op, w)
        if anchor is None:
            return


def whole(k):
    """ids anywhere below the root, trash included"""
    out = {}
    for p, i in tracked(k).items():
        out.setdefault(i, []).append(p)
    trash = ROOT + '/.operations'
    for p, i in tracked(k, trash).items():
        out.setdefault(i, []).append(p)

    def rec(n, p):
        for name, c in n.entries.items():
            j = c.xattrs.get(b'user.sim.old_id')
            if j:
                out.setdefault(j.decode(), []).append(f'{p}/{name} (as old_id)')
            if c.kind == 'd':
                rec(c, f'{p}/{name}')
    rec(k.h_get(ROOT), ROOT)
    return out


def shape(node):
    """content and attributes of a subtree, without names' own metadata"""
    if node is None:
        return None
    if node.kind == 'd':
        return ('d', {n: shape(c) for n, c in node.entries.items()})
    if node.kind == 'l':
        return ('l', node.target.split('/', 1)[-1])
    return ('f', bytes(node.data))


def one(R, b, anchor, i, op, w):
    k = R.k
    tr = tracked(k)
    paths = sorted(tr)
    if not paths:
        return b, anchor
    ap = paths[op['n'] % len(paths)]
    id = tr[ap]
    if list(tr.values()).count(id) > 1:
        return b, anchor
    with R.calm():
        cache = b.L(ap).cache
        meta = cache.meta if cache is not None else None
    if meta is None:
        return b, anchor
    if op['op'] == 'follow':
        ch = {'how': op['how'], 'id': sorted(x for x in w.nodes if x != ORG).index(id) if id in w.nodes else 0,
              'name': op['name'], 'parent': op['parent'], 't': op['t']}
        if id not in w.nodes or not remote_op(w, ch):
            return b, anchor
        target = f'{ROOT}/{w.path(id)}'
        via = op['via']
    else:
        d = dirs_below(k)
        target = f'{d[op["dir"] % len(d)]}/{op["name"]}'
        if op['known']:
            target = paths[(op['n'] * 7 + op['dir']) % len(paths)]
        via = 't'
    src_node, t_node = k.h_get(ap), k.h_get(target)
    if target == ap or target.startswith(ap + '/'):
        R.probe('onto_itself')
        if target != ap:
            return b, anchor
    with R.calm():
        newmeta = b.aug.PathMeta(**w.meta_fields(id)) if id in w.nodes and op['op'] == 'follow' else meta
    before_c = contents(k)
    before_i = whole(k)
    snap = k.snap('/', mode=True)
    src, tgt = shape(src_node), shape(t_node)
    up = k.h_get(target.rsplit('/', 1)[0])
    parent_there = up is not None and up.kind == 'd'
    if via == 'r':
        out = R.op(i, lambda: cache.move(remote=cache.remote))
    else:
        with R.calm():
            to = b.L(target).cache if t_node is not None and target in tr and not op.get('cast', True) else None
        if to is not None:
            R.probe('target_is_a_cache')
        out = R.op(i, lambda: cache.move(target=b.L(target) if to is None else to, meta=newmeta))
    what = f'move ({via}) of {ap!r} to {target!r}: {out!r}'
    R.probe('nontrivial')
    R.probe(f'{src_node.kind}_to_{t_node.kind if t_node else "nothing"}_{out.kind}'
            + (f'_{type(out.exc).__name__}' if out.kind == 'err' and not R.hit else ''))
    if out.kind == 'crash':
        R.restart()
        with R.calm():
            b, anchor = start(R, False)
            if anchor is None:
                R.fail('anchor_lost', what)
    after_c, after_i = contents(k), whole(k)
    for c in before_c:
        if all('/.operations/' in p for p in before_c[c]):
            continue     # (of one id the trash keeps the latest only)
        R.check(c in after_c, 'lost', lambda: what + f': the content of {before_c[c]} is nowhere any more')
    # the number of files cannot shrink unless equal content met
    for c in before_c:
        if len([p for p in before_c[c] if '/.operations/' not in p]) > len(after_c.get(c, ())):
            R.check(target in before_c[c] and ap in before_c[c], 'lost_copy',
                    lambda: what + f': {before_c[c]} became {after_c[c]}')
    for j in before_i:
        if j == tr.get(target) and (R.hit or tgt == ('d', {})):
            continue
        if all('(as old_id)' in p or '/.operations' in p for p in before_i[j]):
            continue     # (an empty directory has nothing to lose; otherwise, what is there is given a new id, field by field)
        R.check(j in after_i, 'id_lost', lambda: what + f': {j!r} was at {before_i[j]}, now nowhere')
    changed = {p for p in set(snap) | set(k.snap('/', mode=True)) if snap.get(p) != k.snap('/', mode=True).get(p)}
    odd = [p for p in changed if not any(p == q[1:] or p.startswith(q[1:] + '/') for q in (ap, target))
           and '/.operations' not in p and not target[1:].startswith(p + '/')
           and not p.endswith('/.unlink-' + target.rsplit('/', 1)[-1])]
    R.check(not odd, 'side_effect', lambda: what + f' changed {odd}')
    s, t = k.h_get(ap), k.h_get(target)
    if target == ap:
        R.check(out.kind == 'crash' or s is not None, 'gone', what)
    elif out.ok:
        if t_node is None:
            R.check(s is None and shape(t) == src if src_node.kind != 'l' else s is None, 'not_moved',
                    lambda: what + f': {short(src)} became {short(shape(t))}, at the old name {short(shape(s))}')
            R.check(tracked(k).get(target) == id, 'id_not_moved', lambda: what + f': id is {tracked(k).get(target)}')
            R.probe('moved')
        else:
            R.check(s is None or t_node.kind == 'd', 'not_moved', what)
            R.check(target in tr or t_node.kind == src_node.kind, 'took_over', lambda: what + f': {target!r} is {t.kind}, id {tracked(k).get(target)}')
            R.probe('moved_onto')
    elif not R.hit:
        R.probe('refused')
        R.check(shape(s) == src, 'refused_but_changed', lambda: what + f': {short(src)} became {short(shape(s))}')
        R.check(not changed, 'refused_but_changed', lambda: what + f': changed {sorted(changed)}')
        # (after an interrupted operation metadata can be incomplete)
        R.check(R.faulted() or not isinstance(out.exc, AttributeError), 'failed', what)
        R.check(R.faulted() or t_node is not None or not parent_there, 'failed', what)
    else:
        R.check(out.kind == 'crash' or s is not None or t is not None, 'gone', what)
        R.probe('failed_halfway')
    return b, anchor
