"""A tree that an earlier version of the program left is used by this one."""
from ..lib import kernel_params, short
from ..svc import Binding, ORG, ROOT, World, canon, gen_cyphers, gen_remote, gen_world, remote_op, tracked
from . import p11, p31

ID = 'P34'
TITLE = 'what earlier versions recorded is read as that, and can be worked with'
SEEDS = (300, 15000)
VARIANTS = (6, 10)
LISTS = ('ops', 'world')
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'kbd', 'cut')
ASSUMPTIONS = p31.ASSUMPTIONS + ['earlier versions could not store an id or a parent with a period in it']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)',
         'the earlier versions (their formats, written down in the harness)']
HEAD = ('file_id', 'size', 'created', 'updated', 'checksum')
TAIL = ('old_id', 'gid', 'user_id', 'mode')
# what each version wrote, in this order
FORMATS = {
    'meta': HEAD + TAIL + ('errors',),
    'mdv1': HEAD + ('chunksize',) + TAIL + ('errors',),
    'mdv2': HEAD + ('etag', 'chunksize') + TAIL + ('errors',),
    'mdv3': HEAD + ('etag', 'chunksize', 'parent_id') + TAIL + ('name', 'errors'),
    'mdv4': HEAD + ('checksum_cypher', 'etag', 'chunksize', 'parent_id') + TAIL + ('name', 'errors'),
    'mdv5': HEAD + ('checksum_cypher', 'etag', 'chunksize', 'parent_id') + TAIL + ('name', 'errors'),
    'mdv6': HEAD + ('checksum_cypher', 'etag', 'chunksize', 'multi', 'parent_id') + TAIL + ('name', 'errors'),
}
VERSIONS = sorted(FORMATS)
# attributes that came later
LATER = (b'checksum_cypher', b'parent_id', b'name', b'multi', b'etag', b'chunksize')


def gen(rng, tier):
    ops, t = [], 2000
    for _ in range(rng.randint(1, 5)):
        t += 1000
        r = rng.random()
        if r < 0.35:
            ops.append(gen_remote(rng, t))
        elif r < 0.6:
            m = p11.gen_meta(rng, False)
            if rng.random() < 0.3:          # what is nothing special in a version, or now
                m[rng.choice(('id', 'name', 'mode'))] = rng.choice(('a!b', '!', 'N:x!y', 'a;b', '-', '%2E', 'x#'))
            ops.append({'op': 'read', 'ver': rng.choice(VERSIONS), 'meta': m, 'bare': rng.random() < 0.2,
                        'name': rng.choice(('ph', 'p.h', 'ü x'))})
        elif r < 0.7:
            ops.append({'op': 'all'})
        else:
            ops.append({'op': 'pull', 'n': rng.randrange(10), 'how': rng.choice(('refresh', 'update', 'update', 'nofetch')),
                        'cur': True, 'changed': rng.random() < 0.5})
    return {'kernel': kernel_params(rng), 'world': gen_world(rng), 'fetch': rng.choice((0, 0, 1, 2)), 'pick': rng.randrange(64),
            'ops': ops, 'cyphers': gen_cyphers(rng), 'bare': rng.random() < 0.2,
            'vers': [rng.choice(VERSIONS) for _ in range(4)]}


def text(field, v, ver):
    """A field of a placeholder."""
    if v is None:
        return '#'
    if field == 'errors':
        return ';'.join(v)
    if field == 'checksum':
        return v.hex()
    if field == 'etag':
        return f'{v[0].hex()}-{v[1]}'
    if field in ('created', 'updated'):
        return v.isoformat().replace('.', ',').replace('+00:00', 'Z')
    v = str(int(v) if field == 'size' else v)
    if ver < 'mdv5' or ver == 'meta':
        return v.replace('.', '|') if field == 'name' else v.replace('/', '|')
    return v.replace('/', '|').replace('.', '!')


def able(meta, ver):
    for f in ('id', 'parent_id', 'old_id', 'user_id', 'mode', 'name', 'checksum_cypher'):
        v = getattr(meta, f)
        if isinstance(v, str) and (v in ('', '#') or set(v) & set('|!' if ver >= 'mdv5' and ver != 'meta' else '|') or '.' in v and f != 'name' or f == 'name' and '/' in v):
            return False
    return meta.id is not None


def link(meta, ver, name):
    """The target of a placeholder for meta."""
    fields = [text(f, getattr(meta, f), ver) for f in FORMATS[ver]]
    hr = '#' if meta.size is None else str(int(meta.size))
    return (name + '/' if name else '') + text('id', meta.id, ver) + '/.' + '.'.join([ver] + fields + [hr])


def holds(meta, ver):
    """What of it such a placeholder holds."""
    return {f: v for f, v in canon(meta).items() if f in FORMATS[ver] or f == 'id'}


def start(R, first):
    b = Binding(R, R.world)
    return b, (b.first() if first else b.again())


def run(plan, R):
    k = R.k
    R.world = w = World(plan['world'], plan.get('cyphers'))
    with R.calm():
        b, anchor = start(R, True)
        list(anchor.bootstrap(anchor.remote.meta, recursive=True))
        for ap in sorted(tracked(k)):
            if k.h_get(ap).kind == 'l' and plan['fetch'] and (plan['fetch'] == 2 or plan['pick'] >> (len(ap) + ord(ap[-1])) % 6 & 1):
                b.L(ap).cache.fetch(size_limit_mb=None)
    recorded = {}
    for j, (ap, id) in enumerate(sorted(tracked(k).items())):
        n, ver = k.h_get(ap), plan['vers'][j % len(plan['vers'])]
        if n.kind == 'l':
            meta = R.aug.PathMeta(**w.meta_fields(id))
            name = ap.rsplit('/', 1)[1]
            k.h_rm(ap)
            k.h_link(ap, link(meta, ver, None if plan['bare'] else name))
            recorded[id] = holds(meta, ver)
        else:
            late = LATER[:{'mdv6': 0, 'mdv5': 0, 'mdv4': 0}.get(ver, 3)] if n.kind == 'd' else ()
            for f in late:
                n.xattrs.pop(b'user.sim.' + f, None)
            with R.calm():
                recorded[id] = canon(b.L(ap).cache.meta)
    R.restart()
    with R.calm():
        b, anchor = start(R, False)
    R.check(anchor is not None, 'anchor_lost', 'of an old tree')
    st = {'b': b, 'anchor': anchor, 'fid': {i: (n['fid'], n['t']) for i, n in w.nodes.items()}, 'bad': False}
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['op'] == 'remote':
            remote_op(w, op)
        elif op['op'] == 'read':
            read(R, st, i * 3, op)
        elif op['op'] == 'all':
            everything(R, st, i * 3, recorded)
        else:
            before = raw(k)
            p31.pull(R, st, i, op, w)
            after = raw(k)
            for id in [j for j in recorded if after.get(j) != before.get(j)]:
                del recorded[id]        # is as in a tree of this version
        if st['anchor'] is None or st['bad']:
            return
    everything(R, st, 1000, recorded)


def raw(k):
    return {id: (ap, n.kind, n.target if n.kind == 'l' else sorted(n.xattrs.items()))
            for ap, id in tracked(k).items() for n in (k.h_get(ap),)}


def everything(R, st, i, recorded):
    k, b = R.k, st['b']
    for ap, id in sorted(tracked(k).items()):
        if id not in recorded:
            continue
        with R.calm():
            cache = b.L(ap).cache
            got = canon(cache.meta) if cache is not None else None
            R.check(cache is not None and cache.id == id, 'wrong_id', lambda: f'{ap!r} is {None if cache is None else cache.id}, not {id}')
        R.probe('nontrivial')
        R.check(p11.same(got, recorded[id], True), 'misread', lambda: f'{ap!r}: {short(got)}, recorded was {short(recorded[id])}: {k.h_get(ap).target if k.h_get(ap).kind == "l" else ""}')


def read(R, st, i, op):
    k, b = R.k, st['b']
    try:
        meta = p11.make(R.aug, op['meta'])
    except (TypeError, ValueError):
        return
    if not able(meta, op['ver']) or meta.file_id == 0:
        return
    ap = f'{ROOT}/{op["name"]}'
    if k.h_get(ap) is not None:
        return
    target = link(meta, op['ver'], None if op['bare'] else op['name'])
    k.h_link(ap, target)
    want = holds(meta, op['ver'])
    what = f'{target!r}'
    try:
        def ask():
            c = b.L(ap).cache
            return None if c is None else canon(c.meta)
        before = k.snap('/')
        out = R.op(i, ask)
        R.probe('nontrivial')
        if out.kind == 'crash':
            R.restart()
            with R.calm():
                st['b'], st['anchor'] = b, _ = start(R, False)
            R.check(st['anchor'] is not None, 'anchor_lost', what)
        R.check(k.snap('/') == before, 'changed_by_reading', what)
        if out.ok and not (R.hit and out.value is None):
            R.probe('read_' + op['ver'])
            R.check(p11.same(out.value, want, True), 'misread', lambda: f'{what}: {short(out.value)}, recorded was {short(want)}')
        elif not R.hit:
            R.check(False, 'not_read', lambda: f'{what}: {out!r}')
    finally:
        if k.h_get(ap) is not None:
            k.h_rm(ap)
