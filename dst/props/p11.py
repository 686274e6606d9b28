"""Cached metadata survives its storage: extended attributes and symlink placeholders."""
import copy
import pickle
from datetime import datetime, timedelta, timezone

from ..lib import blob, kernel_params, short
from ..svc import Binding, ROOT, World, canon

ID = 'P11'
TITLE = 'stored metadata reads back the same after a restart, or is refused'
SEEDS = (360, 20000)
VARIANTS = (8, 14)
LISTS = ('ops',)
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'kbd')
ASSUMPTIONS = ['None and empty values mean not set; file_id 0 is not set in a placeholder; a user id of '
               'digits is a number', 'one writer at a time']

TZ = (timezone.utc, timezone.utc, timezone(timedelta(hours=-7)), timezone(timedelta(hours=5, minutes=45)))
STR = ['N:package:1234-abcd', 'a', 'with space', 'ü日本', 'dot.in.it', 'N:collection:9f', '0', '007', 'None']
HARD = ['a/b', '/lead', 'trail/', 'a|b', 'a!b', '#', 'a;b', '..', '.', '', 'new\nline', 'a.', '.a', 'a//b',
        '-5', '1.5', 'x' * 60]
ERR = ['checksum-mismatch', 'file-deleted', 'deleted', 'not there', 'odd ']
# what other programs keep next to it
OTHERS = {b'id': b'1', b'size': b'2', b'x.a.b.id': b'3', b'a.bc.checksum': b'4', b'x.a.b.gid': b'5', b'a.old_id': b'6',
          b'b.a.name': b'7'}
STORED = 'metastore', 'prefix', 'among'
HARDERR = ['a;b', '', 'a/b', '.', 'a.b', '#', '|', '!']


def some(rng, hard, p=0.25):
    return rng.choice(HARD) if hard and rng.random() < p else rng.choice(STR)


def gen_meta(rng, hard):
    m = {'id': some(rng, hard)}
    if rng.random() < 0.6:
        m['name'] = some(rng, hard, 0.35)
    if rng.random() < 0.7:
        m['size'] = rng.choice((0, 1, 1023, 4096, 2**31, 2**53 + 1))
    for f in ('created', 'updated'):
        if rng.random() < 0.7:
            m[f] = [rng.randrange(0, 4 * 10**9), rng.choice((0, 0, 1, 500000, 999999)), rng.randrange(len(TZ))]
    if rng.random() < 0.6:
        m['checksum'] = [rng.randrange(10**6), rng.choice((16, 20, 32, 64))]
        m['checksum_cypher'] = rng.choice(('sha256', 'blake2b', 'md5'))
    if rng.random() < 0.3:
        m['etag'] = [[rng.randrange(10**6), 16], rng.choice((1, 2, 10000))]
        m['chunksize'] = rng.choice((1, 5 * 1024**2))
    if rng.random() < 0.2:
        m['multi'] = rng.choice((0, 1))
    for f in ('parent_id', 'old_id'):
        if rng.random() < 0.4:
            m[f] = some(rng, hard)
    if rng.random() < 0.6:
        m['file_id'] = rng.choice((1, 7, 123456789, 2**40)) if not hard else rng.choice((0, 1, 99, '12', 'f:1'))
    if rng.random() < 0.3:
        m['gid'] = rng.choice((0, 1, 1000))
    if rng.random() < 0.4:
        m['user_id'] = rng.choice((0, 1000, 'N:user:1', '17'))
    if rng.random() < 0.3:
        m['mode'] = rng.choice(('0o100644', 'rw', '0o40755', '0644'))
    if rng.random() < 0.4:
        m['errors'] = [rng.choice(HARDERR if hard and rng.random() < 0.3 else ERR)
                       for _ in range(rng.randint(1, 2))]
    return m


def make(aug, spec):
    kw = dict(spec)
    for f in ('created', 'updated'):
        if f in kw:
            s, us, z = kw[f]
            kw[f] = datetime.fromtimestamp(s, tz=TZ[z]).replace(microsecond=us)
    if 'checksum' in kw:
        kw['checksum'] = blob(kw['checksum'])
    if 'etag' in kw:
        kw['etag'] = blob(kw['etag'][0]), kw['etag'][1]
    if 'errors' in kw:
        kw['errors'] = tuple(kw['errors'])
    return aug.PathMeta(**kw)


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(2, 7)):
        hard = rng.random() < 0.4
        ops.append({'t': rng.choice(('f', 'f', 'd', 'g', 'p', 'p', 'c')), 'meta': gen_meta(rng, hard), 'hard': hard,
                    'name': rng.choice(('ph', 'p.h', 'name with space', 'ü', 'x' * 40)) if rng.random() < 0.5 else 'ph',
                    'restart': rng.random() < 0.3, 'look': rng.choice(('no', 'same', 'moved', 'moved', 'elsewhere', 'anyway')),
                    'to': rng.choice(('other', 'case', 'less', 'more', 'stem', 'hidden'))})
    return {'kernel': kernel_params(rng), 'ops': ops}


def same(a, b, placeholder):
    if a is None or b is None:
        return a == b
    a, b = dict(a), dict(b)
    for m in (a, b):
        if placeholder:
            for f in ('file_id',):
                if m.get(f) == 0:
                    m.pop(f)
        for f in ('user_id',):
            if isinstance(m.get(f), str):
                try:
                    m[f] = int(m[f])
                except ValueError:
                    pass
        for f in ('file_id', 'gid', 'size', 'multi', 'chunksize'):
            if isinstance(m.get(f), str) and m[f].isdigit():
                m[f] = int(m[f])
    return a == b


class State:
    pass


def start(R, first):
    s = State()
    s.b = Binding(R, s_world(R))
    s.anchor = s.b.first() if first else s.b.again()
    s.Sym = R.aug.SymlinkCache
    s.Sym._local_class = R.aug.AugmentedPath
    return s


def s_world(R):
    if not hasattr(R, 'world'):
        R.world = World(())
    return R.world


def run(plan, R):
    k = R.k
    with R.calm():
        s = start(R, True)
    k.h_put(ROOT + '/f', b'content of f')
    k.h_put(ROOT + '/g', b'content of g')
    k.h_mkdir(ROOT + '/d')
    stored = {}
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        try:
            meta = make(R.aug, op['meta'])
        except (TypeError, ValueError):
            R.probe('no_such_metadata')
            continue
        if op['t'] == 'c':
            dead = convert(R, i, op, meta)
        elif op['t'] == 'p':
            dead = placeholder(R, s, i, op, meta, stored)
        else:
            dead = attributes(R, s, i, op, meta, stored)
        if dead or op['restart']:
            R.restart()
            with R.calm():
                s = start(R, False)
            for name, want in sorted(stored.items()):
                kind = name[0]
                got = canon(read(R, s, name))
                R.check(same(got, want, kind == 'p'), 'lost_by_restart',
                        lambda: f'{name}: {short(got)} after the restart, stored was {short(want)}')


def read(R, s, name):
    kind, name = name.split(':', 1)
    with R.calm():
        if kind == 'p':
            return s.Sym(s.b.L(f'{ROOT}/{name}')).meta
        c = s.b.L(f'{ROOT}/{name}').cache
        return None if c is None else c.meta


def refused(out):
    return out.kind == 'err' and isinstance(out.exc, (ValueError, TypeError, LookupError)) \
        and not isinstance(out.exc, OSError) or out.kind == 'err' and isinstance(out.exc, OSError)


def attributes(R, s, i, op, meta, stored):
    k = R.k
    name, key = op['t'], 'x:' + op['t']
    path = s.b.L(f'{ROOT}/{name}')
    want = canon(meta)
    with R.calm():
        old = canon(path.cache.meta) if path.cache is not None else None
    before = k.snap('/', mode=True)
    if old is None:
        out = R.op(i, lambda: path.cache_init(meta))
    else:
        out = R.op(i, lambda: path.cache._meta_setter(meta))
    what = f'metadata {short(op["meta"])} of {name!r}: {out!r}'
    R.probe('nontrivial')
    after = k.snap('/', mode=True)
    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    R.check(changed <= {f'{ROOT[1:]}/{name}'}, 'side_effect', lambda: what + f' changed {sorted(changed)}')
    node = k.h_get(f'{ROOT}/{name}')
    R.check(node.kind == 'd' or bytes(node.data) == b'content of ' + name.encode(), 'content', what)
    if out.ok:
        got = canon(read(R, s, key))
        R.check(same(got, want, False), 'not_stored',
                lambda: what + f': reads back as {short(got)}, was {short(want)}')
        stored[key] = got
        R.probe('stored')
        return False
    if not R.hit:
        R.check(op['hard'] and refused(out), 'failed', what + ' without a cause')
        got = canon(read(R, s, key))
        R.check(same(got, old, False), 'refused_but_changed', lambda: what + f': {short(old)} became {short(got)}')
        R.probe('refused')
        return False
    # stopped halfway: each field is the old or the new one
    if out.kind == 'crash':
        R.restart()
        with R.calm():
            n = start(R, False)
            s.__dict__.update(n.__dict__)
    got = canon(read(R, s, key)) or {}
    for f in set(got) | set(want) | set(old or {}):
        g = {f: got[f]} if f in got else {}
        a = {f: old[f]} if old and f in old else {}
        b = {f: want[f]} if f in want else {}
        R.check(same(g, a, False) or same(g, b, False), 'mangled_field',
                lambda: what + f': {f} is {short(g)}, was {short(a)}, should become {short(b)}')
    if got:
        stored[key] = got
    else:
        stored.pop(key, None)
    R.probe('interrupted')
    return False


def placeholder(R, s, i, op, meta, stored):
    k = R.k
    name, key = op['name'], 'p:' + op['name']
    path = s.b.L(f'{ROOT}/{name}')
    want = canon(meta)
    if k.h_get(f'{ROOT}/{name}') is not None:
        # updates of placeholders are another property
        k.h_rm(f'{ROOT}/{name}')
        stored.pop(key, None)
    before = k.snap('/', mode=True)
    out = R.op(i, lambda: s.Sym(path, meta=meta))
    what = f'placeholder {short(op["meta"])} at {name!r}: {out!r}'
    R.probe('nontrivial')
    after = k.snap('/', mode=True)
    changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    R.check(changed <= {f'{ROOT[1:]}/{name}'}, 'side_effect', lambda: what + f' changed {sorted(changed)}')
    if out.kind == 'crash':
        R.restart()
        with R.calm():
            n = start(R, False)
            s.__dict__.update(n.__dict__)
    if out.ok or k.h_get(f'{ROOT}/{name}') is not None:
        got = canon(read(R, s, key))
        R.check(same(got, want, True), 'placeholder_not_stored',
                lambda: what + f': reads back as {short(got)}, was {short(want)}')
        stored[key] = got
        R.probe('stored')
        if op.get('look', 'no') != 'no' and not R.hit:
            return look(R, s, i, op, name, got)
    elif not R.hit:
        R.check(op['hard'] and refused(out), 'failed', what + ' without a cause')
        R.probe('refused')
    else:
        R.probe('interrupted')
    return False


def convert(R, i, op, meta):
    """To what another process or a database is given, and back."""
    want = canon(meta)
    for how, fn in (('pickle', lambda: pickle.loads(pickle.dumps(meta))), ('copy', lambda: copy.copy(meta)),
                    ('deepcopy', lambda: copy.deepcopy(meta)), ('mapping', lambda: R.aug.PathMeta(**meta)),
                    ('items', lambda: R.aug.PathMeta(**dict(meta.items()))),
                    ('metastore', lambda: R.aug.PathMeta.from_metastore(meta.as_metastore())),
                    ('prefix', lambda: R.aug.PathMeta.from_metastore(meta.as_metastore('a.b'), 'a.b')),
                    ('among', lambda: R.aug.PathMeta.from_xattrs({**OTHERS, **meta.as_xattrs('a.b')}, 'a.b'))):
        out = R.op(i, fn)
        what = f'{how} of {short(op["meta"])}: {out!r}'
        R.probe('nontrivial')
        if out.ok:
            got = canon(out.value)
            R.check(same(got, want, False), 'converted_to_different', lambda: what + f': {short(got)}, was {short(want)}')
            if how not in STORED:
                with R.calm():
                    R.check(out.value == meta and bool(out.value) == bool(meta), 'not_equal', what)
        elif out.kind == 'crash':
            return True
        elif not R.hit:
            R.check(op['hard'] and refused(out) and how in STORED, 'failed', what + ' without a cause')
    with R.calm():
        R.check(all(getattr(meta, f) == meta[f] for f in meta) and set(meta) == set(meta.keys()) and set(want) <= set(meta),
                'wrong_item', lambda: f'{short(op["meta"])}: {sorted(meta)}')
        for bad in ('nosuch', ''):
            try:
                meta[bad]
            except KeyError:
                continue
            R.check(False, 'wrong_item', f'{bad!r}')
    return False


def look(R, s, i, op, name, want):
    """Metadata straight from the link; one that was given another name is noticed."""
    k = R.k
    at = f'{ROOT}/{name}'
    if op['look'] == 'elsewhere':
        k.h_mkdir(f'{ROOT}/Sub')
        k.h_mkdir(f'{ROOT}/Sub/dir')
        at = f'{ROOT}/Sub/dir/{name}'
        k.h_link(at, k.h_get(f'{ROOT}/{name}').target)
    elif op['look'] != 'same':
        to = {'other': 'other name', 'case': name.swapcase(), 'less': name[:-1], 'more': name + 'x', 'stem': name + '.h',
              'hidden': '.' + name}[op.get('to', 'other')]
        at = f'{ROOT}/{to}'
        if k.h_get(at) is not None:
            return False
        k.h_link(at, k.h_get(f'{ROOT}/{name}').target)
    path = s.b.L(at)
    if op['look'] == 'anyway':
        out = R.op(i + 100, lambda: R.aug.PathMeta.from_symlink(path, match_name=False))
    else:
        out = R.op(i + 100, lambda: R.aug.PathMeta.from_symlink(path))
    what = f'metadata of {at!r}, {op["look"]}: {out!r}'
    if out.ok:
        R.check(op['look'] != 'moved', 'name_not_noticed', what)
        got = canon(out.value)
        R.check(same(got, want, True), 'link_reads_different', lambda: what + f': {short(got)}, not {short(want)}')
    elif not R.hit:
        R.check(op['look'] == 'moved' and out.kind == 'err' and isinstance(out.exc, Exception), 'failed', what)
    R.probe(f'look_{op["look"]}')
    if op['look'] != 'same':
        k.h_rm(f'{ROOT}/Sub' if op['look'] == 'elsewhere' else at)
    return out.kind == 'crash'
