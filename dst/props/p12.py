"""Updating the metadata in a placeholder link."""
from datetime import datetime, timezone

from ..lib import kernel_params, short
from ..svc import Binding, ORG, ROOT, World, canon, emptied
from . import p11

ID = 'P12'
TITLE = 'a placeholder update replaces metadata only by newer, and loses none'
SEEDS = (420, 20000)
VARIANTS = (8, 14)
LISTS = ('ops',)
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'kbd')
ASSUMPTIONS = ['one writer at a time', 'only the latest superseded metadata of one id is kept']
NAMES = ('ph', 'p.h', 'ü x', 'deep/er')
IDS = ('N:package:1', 'N:package:2', 'a/b', 'i' * 250, 'i' * 300)


def gen_meta(rng):
    m = {'id': rng.choice(IDS[:2] if rng.random() < 0.75 else IDS)}
    if rng.random() < 0.85:
        m['updated'] = [rng.choice((1000, 1000, 2000, 3000)), 0, 0]
    if rng.random() < 0.75:
        m['created'] = [rng.choice((500, 500, 600)), 0, 0]
    if rng.random() < 0.7:
        m['size'] = rng.choice((0, 5, 5, 77))
    if rng.random() < 0.3:
        m['checksum'] = [rng.randrange(4), 32]
        m['checksum_cypher'] = 'sha256'
    if rng.random() < 0.3:
        m['file_id'] = rng.choice((1, 2))
    if rng.random() < 0.2:
        m['name'] = rng.choice(('a', 'b.c'))
    if rng.random() < 0.1:
        m['old_id'] = rng.choice(('bad!id', 'fine'))
    return m


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(3, 9)):
        ops.append({'n': rng.choice((0, 0, 0, 1, 2, 3)), 'meta': gen_meta(rng),
                    'how': rng.choice(('direct', 'primary')), 'restart': rng.random() < 0.2,
                    'again': rng.random() < 0.15, 'notrash': rng.random() < 0.15})
    return {'kernel': kernel_params(rng), 'ops': ops}


def decide(old, new):
    """The reference: 'new' / 'keep' / 'refuse' for two metadata objects."""
    if dict(old.items()) == dict(new.items()):
        return 'keep'
    if old.id != new.id:
        if old.updated is None and new.updated is None:
            return 'keep'
        if old.updated is None or new.updated is None:
            return 'refuse'
        if old.updated > new.updated:
            return 'keep'
        if old.updated == new.updated:
            if old.created is not None and new.created is not None:
                if old.created >= new.created:
                    return 'keep'
            elif old.created is not None:
                return 'keep'
            elif new.created is not None:
                return 'refuse'
            else:
                return 'keep'
    if old.size is not None and new.size is None:
        return 'keep'
    return 'new'


def links(k, top=ROOT):
    """target -> paths of the links below top"""
    out = {}

    def rec(n, p):
        for name, c in n.entries.items():
            if c.kind == 'd':
                rec(c, f'{p}/{name}')
            elif c.kind == 'l':
                out.setdefault(c.target, []).append(f'{p}/{name}')
    rec(k.h_get(top), top)
    return out


def start(R, first):
    class S:
        pass
    s = S()
    s.b = Binding(R, R.world)
    s.anchor = s.b.first() if first else s.b.again()
    s.Sym = R.aug.SymlinkCache
    return s


def run(plan, R):
    k = R.k
    R.world = World(())
    for i in IDS:
        R.world.nodes[i] = dict(name='n', parent=ORG, data=b'', t=1, fid=1)
    with R.calm():
        s = start(R, True)
    k.h_mkdir(ROOT + '/deep')
    last = None
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        spec = last if op['again'] and last else op['meta']
        last = op['meta']
        s = one(R, s, i, op, spec)
        if op['restart']:
            R.restart()
            with R.calm():
                s = start(R, False)


def cache_at(s, path):
    """a cache object for the path of a placeholder that may not exist yet"""
    c = s.b.L(path).cache
    return c


def one(R, s, i, op, spec):
    k = R.k
    name = NAMES[op['n']]
    ap = f'{ROOT}/{name}'
    new = p11.make(R.aug, spec)
    node = k.h_get(ap)
    if op.get('notrash'):
        emptied(k)
    before = k.snap('/', mode=True)
    if node is None:
        # the first placeholder
        try:
            with R.calm():
                target = str(new.as_symlink(local_name=name.split('/')[-1]))
        except ValueError:
            return s
        k.h_link(ap, target)
        with R.calm():
            got = s.b.L(ap).cache
            R.check(got is not None and p11.same(canon(got.meta), canon(new), True), 'first', f'{name} {spec}')
        return s
    raw = node.target
    with R.calm():
        cache = s.b.L(ap).cache
        old = cache.meta
        try:
            newraw = str(new.as_symlink(local_name=name.split('/')[-1]))
        except ValueError:
            newraw = None
    if newraw is not None and newraw == raw:
        new_is = 'keep'
    else:
        new_is = decide(old, new) if newraw is not None else 'refuse'
    if op['how'] == 'direct':
        out = R.op(i, lambda: s.Sym(cache, meta=new) and None)
    else:
        out = R.op(i, lambda: cache._meta_setter(new))
    what = f'{op["how"]} update of {name!r} from {short(canon(old))} to {short(canon(new))}: {out!r}'
    R.probe('nontrivial')
    R.probe('model_' + new_is)
    if out.kind == 'crash':
        R.restart()
        with R.calm():
            s = start(R, False)
    after = k.snap('/', mode=True)
    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    rel = ap[1:]
    R.check(all(p == rel or '/trash' in p for p in changed), 'side_effect', lambda: what + f' changed {sorted(changed)}')
    node = k.h_get(ap)
    now = None if node is None else node.target
    where = links(k)
    if newraw is not None and now == newraw and raw != newraw:
        R.check(new_is == 'new', 'wrong_update', lambda: what + f', the rule says {new_is}')
        R.check(raw in where, 'old_lost', lambda: what + ': the old metadata is nowhere')
        R.check(all('trash' in p for p in where[raw]), 'old_not_in_trash', lambda: what + f': {where[raw]}')
        with R.calm():
            got = canon(s.b.L(ap).cache.meta)
        R.check(p11.same(got, canon(new), True), 'not_stored', lambda: what + f': reads back {short(got)}')
        R.probe('replaced')
        return s
    if now == raw:
        R.check(not (out.ok and new_is == 'new' and not R.hit), 'not_updated', what)
        R.check(not (out.ok and new_is == 'new'), 'silently_not_updated', what)
        R.check(out.ok or R.hit or new_is == 'refuse', 'failed', what + ' without a cause')
        if new_is != 'new':
            # (the trash is made when a process starts)
            R.check(changed <= {ROOT[1:] + '/.operations/trash'}, 'side_effect', lambda: what + f' changed {sorted(changed)}')
        if out.kind != 'ok':
            R.probe('kept_after_failure')
        return s
    # neither: only a process that was killed, or failed twice, may leave this
    R.check(now is None, 'mangled', lambda: what + f': the link is {now!r}')
    R.check(raw in where, 'old_lost', lambda: what + ': the old metadata is nowhere')
    twice = sum(v for f, v in R.hit.items() if f in ('errno', 'kbd')) > 1
    R.check(out.kind == 'crash' or (twice and out.kind != 'ok'), 'left_without',
            lambda: what + ': the placeholder is gone')
    R.probe('old_in_trash')
    # the user puts it back
    k.h_link(ap, raw)
    return s
