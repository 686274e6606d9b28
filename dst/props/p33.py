"""A directory that is made on the remote through a local path."""
from ..lib import kernel_params, short
from ..svc import Binding, DNAMES, FNAMES, HOME, ORG, ROOT, World, canon, gen_remote, gen_world, remote_op, tracked

ID = 'P33'
TITLE = 'a directory made on the remote is here too, as that one, and once'
SEEDS = (300, 15000)
VARIANTS = (6, 10)
LISTS = ('ops', 'world')
FAULTS = ('errno', 'errno', 'errno', 'crash_before', 'crash_after', 'kbd')
ASSUMPTIONS = ['the service refuses a second directory of one name, or this side knows what is there', 'nobody else makes a directory meanwhile']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)',
         'remote service, making directories included (a table in the harness)']
NEW = ('n', 'new dir', 'a', 'b', 'f.txt', 'ü', 'dir.d')


def gen(rng, tier):
    ops, t = [], 2000
    for _ in range(rng.randint(1, 5)):
        t += 1000
        r = rng.random()
        if r < 0.15:
            ops.append(gen_remote(rng, t))
        elif r < 0.35:
            ops.append({'op': 'mine', 'n': rng.randrange(10), 'kind': rng.choice('ddf'), 'name': rng.choice(NEW + DNAMES)})
        if r > 0.2:
            ops.append({'op': 'make', 'n': rng.randrange(10), 'parts': [rng.choice(NEW) for _ in range(rng.choice((1, 1, 1, 2, 2, 3)))],
                        'parents': rng.random() < 0.6, 'from': rng.choice(('in', 'in', 'in', 'in', 'in', 'same', 'out', 'file')),
                        'kept': rng.random() < 0.2, 'retry': rng.random() < 0.5})
    return {'kernel': kernel_params(rng), 'world': gen_world(rng), 'ops': ops, 'twins': rng.random() < 0.4}


def start(R, first):
    b = Binding(R, R.world)
    return b, (b.first() if first else b.again())


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'])
    with R.calm():
        b, anchor = start(R, True)
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
    st = {'b': b, 'anchor': anchor, 'bad': False}
    w.twins = bool(plan.get('twins'))
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['op'] == 'remote':
            if op['how'] not in ('rename', 'reparent', 'twin', 'both'):
                remote_op(w, op)
        elif op['op'] == 'mine':
            d = sorted(p for p in tracked(k) if k.h_get(p).kind == 'd') + [ROOT]
            ap = f'{d[op["n"] % len(d)]}/{op["name"]}'
            if k.h_get(ap) is None:
                k.h_mkdir(ap) if op['kind'] == 'd' else k.h_put(ap, b'mine')
        else:
            make(R, st, i, op, w)
        if st['anchor'] is None or st['bad']:
            return


def there(w):
    return {j: (n['name'], n['parent'], n['data'], n['t'], n['fid']) for j, n in w.nodes.items()}


def make(R, st, i, op, w):
    k = R.k
    tr = tracked(k)
    dirs = sorted(p for p in tr if k.h_get(p).kind == 'd') + [ROOT]
    others = sorted(p for p in tr if k.h_get(p).kind != 'd')
    base = dirs[op['n'] % len(dirs)]
    if op['from'] == 'same':
        ap = base
        if ap == ROOT:
            return
    elif op['from'] == 'out':
        ap = '/'.join([HOME + '/elsewhere'] + op['parts'])
        if k.h_get(HOME + '/elsewhere') is None:
            k.h_mkdir(HOME + '/elsewhere')
    elif op['from'] == 'file' and others:
        ap = others[op['n'] % len(others)]
    else:
        ap = '/'.join([base] + op['parts'])
    attempt(R, st, i * 4, op, w, ap, op['retry'])


def attempt(R, st, i, op, w, ap, retry):
    k, b = R.k, st['b']
    tr = dict(tracked(k))
    tr[ROOT] = ORG
    # the tracked directory it is in, and what is between
    have, missing = ap, []
    while have not in tr and have not in ('', '/'):
        have, _, n = have.rpartition('/')
        missing.insert(0, n)
    inside = have in tr
    before, world = k.snap('/'), there(w)
    if w.twins and inside and missing and any(x[1] == tr[have] and x[0] == missing[0] for x in world.values()):
        return              # nobody here knows
    with R.calm():
        path = b.L(ap)
    parents = op['parents']
    out = R.op(i, lambda: path.mkdir_remote(parents=parents))
    what = f'mkdir_remote of {ap!r}{" with parents" if parents else ""}: {out!r}'
    R.probe('nontrivial')
    if out.kind == 'crash':
        R.restart()
        with R.calm():
            st['b'], st['anchor'] = b, _ = start(R, False)
        R.check(st['anchor'] is not None, 'anchor_lost', what)
    after, now = k.snap('/'), there(w)
    changed = {'/' + p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    R.check(all(now.get(j) == x for j, x in world.items()), 'remote_changed', what)
    made = {j: now[j] for j in now if j not in world}

    # what may become of it
    steps = []
    p = have
    for n in missing:
        p += '/' + n
        steps.append(p)
    wrong = None
    if not missing:
        if tr[ap] not in w.nodes:
            R.probe('gone')
            st['bad'] = True
            return
        wrong = 'it is there'
    elif not inside:
        wrong = 'it is in no project'
    elif len(missing) > 1 and not parents:
        wrong = 'its parent is not there'
    elif k.h_get(have).kind != 'd' and have in tr:
        wrong = 'it is below a file'
    elif tr[have] not in world:
        wrong = 'its parent is gone'
    elif any(x[1] == tr[have] and x[0] == missing[0] for x in world.values()):
        wrong = 'the remote has one'
    else:
        for p in steps:
            x = before.get(p[1:])
            if x is not None and x[0] != 'd':
                wrong = f'{p!r} is a file'
    if wrong is not None:
        R.probe('refused')
        if not R.hit:
            R.check(out.kind == 'err' and isinstance(out.exc, Exception), 'not_refused', f'{what}, but {wrong}')
        R.check(not out.ok, 'not_refused', f'{what}, but {wrong}')
        R.check(not made, 'refused_but_made', lambda: f'{what}, since {wrong}: {short(made)}')
        R.check(not changed, 'refused_but_changed', lambda: f'{what}, since {wrong}: {sorted(changed)}')
        return

    # what was made is a beginning of the chain
    parent, chain = tr[have], []
    for n in missing:
        new = [j for j, x in made.items() if x[0] == n and x[1] == parent and x[2] is None]
        if not new:
            break
        chain.append(new[0])
        parent = new[0]
    R.check(len(made) == len(chain), 'made_something_else', lambda: f'{what}: {short(made)}')
    odd = [p for p in changed if p not in steps]
    R.check(not odd, 'side_effect', lambda: f'{what}: {odd}')
    t2 = tracked(k)
    for p, j in zip(steps, chain + [None] * len(steps)):
        if p in t2:
            R.check(t2[p] == j, 'another_id', lambda: f'{what}: {p!r} is {t2[p]}, not {j}')
    if out.ok:
        R.check(len(chain) == len(steps), 'not_made', what)
        for p, j in zip(steps, chain):
            R.check(t2.get(p) == j, 'not_here', lambda: f'{what}: {p!r} is {t2.get(p)}, not {j}')
            with R.calm():
                got = canon(b.L(p).cache.meta)
            ref = canon(R.aug.PathMeta(**w.meta_fields(j)))
            R.check(got == ref, 'wrong_metadata', lambda: f'{what}: {p!r} has {short(got)}, not {short(ref)}')
        with R.calm():
            r = out.value
            R.check(r is not None and r.id == chain[-1], 'wrong_answer', what)
            R.check(r.cache is not None and r.cache.id == chain[-1] and str(r.local) == ap, 'not_connected', what)
            R.check(path.cache is not None and path.cache.id == chain[-1] and path.remote.id == chain[-1], 'not_connected', what)
        R.probe(f'made_{len(chain)}')
        return
    R.check(bool(R.hit) or out.kind == 'crash', 'failed', what)
    R.probe('failed')
    if not chain and retry:
        return attempt(R, st, i + 1, op, w, ap, False)
    # it is there or not; a pull leads there
    with R.calm():
        anchor = st['anchor']
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
    t2 = tracked(k)
    for p, j in zip(steps, chain):
        if f'{ROOT}/{w.path(j)}' != p:
            R.probe('in_what_moved')
            continue
        R.check(t2.get(p) == j, 'not_recovered', lambda: f'{what}, then pulled: {p!r} is {t2.get(p)}, not {j}')
    R.probe('recovered')
