"""Anchoring a directory to a remote."""
import os

from ..lib import HOME, blob, kernel_params
from ..svc import Binding, ORG, World, gen_world, tracked

ID = 'P28'
TITLE = 'anchoring takes only a directory that is free or already its own'
SEEDS = (700, 30000)
VARIANTS = (8, 14)
LISTS = ('ops', 'world', 'sites')
FAULTS = ('errno', 'errno', 'crash_before', 'crash_after', 'crash_after', 'kbd')
ASSUMPTIONS = ['the anchor property of the cache class is None while the class is not anchored',
               'remote and cache class weigh anchor together']
STUBS = ['kernel file system, clock, random source, pyxattr (simulated)', 'remote service (a table in the harness)']
SITES = (HOME + '/s0', HOME + '/s1', HOME + '/s 2')
WHAT = ('none', 'none', 'none', 'empty', 'files', 'hidden', 'dirs', 'broken', 'file', 'link', 'dangling', 'own', 'own', 'own_bare', 'other',
        'other_bare')
KEY = b'user.sim.id'


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 6)):
        ops.append({'op': rng.choice(('smart', 'smart', 'smart', 'drop', 'drop', 'to', 'weigh', 'restart', 'here', 'objects', 'objects')),
                    'n': rng.randrange(3) if rng.random() < 0.4 else 0, 'cwd': rng.random() < 0.3,
                    'create': rng.random() < 0.6})
    return {'kernel': kernel_params(rng), 'world': gen_world(rng), 'ops': ops,
            'sites': [rng.choice(WHAT) for _ in SITES], 'end': rng.random() < 0.7}


def setup(k, what, site):
    p = site + '/proj'
    k.h_mkdir(site)
    if what in ('empty', 'own', 'own_bare', 'other', 'other_bare', 'files', 'hidden', 'dirs', 'broken'):
        k.h_mkdir(p)
    if what in ('own', 'own_bare'):
        k.h_get(p).xattrs[KEY] = ORG.encode()
    if what in ('other', 'other_bare'):
        k.h_get(p).xattrs[KEY] = b'N:org:9'
    if what in ('own', 'other'):
        k.h_mkdir(p + '/.operations')
        k.h_mkdir(p + '/.operations/objects')
        k.h_mkdir(p + '/.operations/trash')
        k.h_put(p + '/.operations/objects/kept', b'object')
        k.h_put(p + '/mine', b'my data')
    if what == 'files':
        k.h_put(p + '/mine', b'my data')
    if what == 'hidden':
        k.h_put(p + '/.hidden', b'my data')
    if what == 'dirs':
        k.h_mkdir(p + '/work')
    if what == 'broken':
        k.h_link(p + '/work', 'not/there')
    if what == 'file':
        k.h_put(p, b'my file')
    if what == 'link':
        k.h_mkdir(site + '/elsewhere')
        k.h_put(site + '/elsewhere/mine', b'my data')
        k.h_link(p, 'elsewhere')
    if what == 'dangling':
        k.h_link(p, 'no/where')


def strip(snap, rel, adopted):
    """without what the library makes in a directory it may take"""
    out = dict(snap)
    if adopted:
        for p in list(out):
            if p == rel or p == rel + '/.operations' or p in (rel + '/.operations/objects', rel + '/.operations/trash'):
                del out[p]
    out.pop(os.path.dirname(rel), None)
    return out


def run(plan, R):
    k = R.k
    w = World(plan['world'])
    for s, what in zip(SITES, plan['sites']):
        setup(k, what or 'none', s)
    st = {}

    def bind():
        b = Binding(R, w)
        with R.calm():
            def anchor(self):
                return getattr(self, '_anchor', None)
            b.C.anchor = property(anchor)
            b.Rm.init(ORG)
        st['b'] = b
        st['at'] = None
    with R.calm():
        bind()

    def free(p):
        """what anchoring may do with the path: 'new', 'own' or ''"""
        n = k.h_get(p)
        if n is None:
            return 'new'
        if n.kind == 'l':
            n = k.h_get(p, follow=True)
            if n is None or n.kind != 'd':
                return ''
        if n.kind != 'd':
            return ''
        x = n.xattrs.get(KEY)
        if x is not None:
            return 'own' if x == ORG.encode() else ''
        return '' if n.entries else 'new'

    def attempt(i, how, n, cwd, create):
        b = st['b']
        site = SITES[n]
        p = site + '/proj'
        with R.calm():
            os.chdir(site if cwd else HOME)
        at = st['at']
        can = free(p)
        if how == 'to':
            with R.calm():
                q = b.L(p)
        fs = k.snap('/')
        was = k.h_get(p) is not None and k.h_get(p).xattrs.get(KEY) is not None
        xa = dict(k.h_get(p).xattrs) if was else None
        if how == 'smart':
            f = (lambda: b.Rm.smartAnchor()) if cwd else (lambda: b.Rm.smartAnchor(b.L(site)))
            want = can if at is None else (p == at)
        elif how == 'drop':
            f = (lambda: b.Rm.dropAnchor()) if cwd else (lambda: b.Rm.dropAnchor(b.L(site)))
            want = can == 'new' and at is None
        elif how == 'to':
            f = lambda: b.Rm.anchorTo(q, create=create)
            want = at is None and (can == 'own' or can == 'new' and create)
        else:
            x = k.h_get(p)
            if x is None or x.kind != 'd' or KEY not in x.xattrs:
                return None, False
            f = lambda: b.L(p).cache.anchorClassHere(remote_init=False)
            want = at is None and can == 'own'
        out = R.op(i, f)
        R.probe('nontrivial')
        R.probe(f'{how}:{can or "no"}:{out.kind}')
        what = f'op {i}: {how} at {p!r} ({can or "not free"}, anchored to {at}): {out!r}'
        if out.ok:
            R.check(want, 'took_it', lambda: f'{what}')
            st['at'] = p
            if how != 'here':
                with R.calm():
                    got = (out.value.id, out.value.local.absolute().as_posix())
                R.check(got == (ORG, p), 'wrong_anchor', lambda: f'{what}: {got}')
            n_ = k.h_get(p, follow=True)
            R.check(n_ is not None and n_.kind == 'd' and n_.xattrs.get(KEY) == ORG.encode(), 'not_a_mirror',
                    lambda: f'{what}: {n_ and n_.xattrs}')
            d = k.h_get(p + '/.operations/objects', follow=True)
            R.check(d is not None and d.kind == 'd', 'no_data_directory', lambda: what)
        elif out.kind == 'err':
            R.check(not want or R.hit, 'refused', lambda: f'{what} without a cause')
        now = k.snap('/')
        rel = p.lstrip('/')
        mine = bool(want) or at == p or was
        a, c = strip(fs, rel, mine), strip(now, rel, mine)
        R.check(a == c, 'changed', lambda: f'{what} changed {[x for x in set(a) | set(c) if a.get(x) != c.get(x)]}')
        if was:
            R.check(k.h_get(p).xattrs == xa, 'marked', lambda: f'{what}: {xa} is now {k.h_get(p).xattrs}')
        if out.kind == 'crash':
            R.restart()
            with R.calm():
                bind()
        return out, bool(want)

    def objects(i, n):
        """keep the objects somewhere else"""
        b = st['b']
        store = f'{HOME}/d{n}/store'
        if k.h_get(store) is None:
            k.h_mkdir(os.path.dirname(store))
            k.h_mkdir(store)
            k.h_put(store + '/o', b'object')
        at = st['at']
        lod = at + '/.operations/objects'
        for t in (0, 1):
            x = k.h_get(lod)
            want = x is None or (x.target == store if x.kind == 'l' else not x.entries)
            fs = k.snap('/')
            with R.calm():
                c = b.L(st['at']).cache
                to = b.L(store)
            out = R.op(i + t, lambda: c.local_data_dir_init(symlink_objects_to=to))
            R.probe(f'objects:{bool(want)}:{out.kind}')
            now = k.snap('/')
            what = f'op {i + t}: objects to {store!r}: {out!r}'
            rel = lod.lstrip('/')
            R.check(out.ok == bool(want) or R.hit or out.kind == 'crash', 'objects', lambda: what)
            if out.ok:
                x = k.h_get(lod)
                R.check(want and x is not None and x.kind == 'l' and x.target == store, 'objects', lambda: what)
            up = os.path.dirname(rel)
            free = {up, up + '/trash'} | ({rel} if want else set())
            bad = [p for p in set(fs) | set(now) if fs.get(p) != now.get(p) and p not in free]
            R.check(not bad, 'changed', lambda: f'{what} changed {bad}')
            if out.kind == 'crash':
                R.restart()
                with R.calm():
                    bind()
                with R.calm():
                    st['b'].Rm.smartAnchor(st['b'].L(os.path.dirname(at)))
                st['at'] = at
                b = st['b']
            if out.kind != 'crash' and (out.ok or not want or not R.hit):
                break

    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        if op['op'] == 'restart':
            R.restart()
            with R.calm():
                bind()
        elif op['op'] == 'weigh':
            with R.calm():
                st['b'].Rm.weighAnchor()
                st['b'].C.weighAnchor()
            st['at'] = None
        elif op['op'] == 'objects':
            if st['at'] is not None:
                objects(i * 2, op['n'])
        else:
            out, want = attempt(i * 2, op['op'], op['n'], op['cwd'], op['create'])
            if out is not None and want and not out.ok:
                # again, this time the way that does not mind what is there
                out, want = attempt(i * 2 + 1, 'smart', op['n'], op['cwd'], False)
                if R.hit:
                    return
                R.check(out.ok, 'no_recovery', lambda: f'op {i}: {op}: {out!r}')
                R.probe('recovered')
    if not plan['end'] or st['at'] is None:
        return
    with R.calm():
        os.chdir(HOME)
        b = st['b']
        c = b.L(st['at']).cache
        list(c.bootstrap(c.remote.meta, recursive=True))
        for j, n in sorted(w.nodes.items()):
            p = f"{st['at']}/{w.path(j)}"
            if n['data'] is not None:
                b.L(p).cache.fetch(size_limit_mb=None)
                x = k.h_get(p)
                R.check(x.kind == 'f' and bytes(x.data) == n['data'], 'does_not_work', lambda: f'{p!r} after a fetch')
                R.probe('used')
