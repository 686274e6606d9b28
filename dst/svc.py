"""A simulated remote service and the three path classes bound to it.

The service is a stub in the harness (a table of nodes); LocalPath, the caches and
RemotePath's own logic are the real code.  Every request is a step of the simulated
kernel, so requests fail, stall the process to death, are cut off or corrupted like
any other call.
"""
import hashlib
import re
from datetime import datetime, timezone

from .lib import HOME, blob

ORG = 'N:org:0'
ROOT = HOME + '/proj'


def digest(cypher, data):
    return hashlib.new(cypher or 'sha256', data).digest()


class World:
    """nodes: id -> dict(name, parent, data (bytes or None), t, fid, extra)"""

    def __init__(self, spec, cyphers=None):
        self.cyphers = cyphers or {}
        self.nodes = {ORG: dict(name='proj', parent=None, data=None, t=1000, fid=None)}
        self.nextfid = 1
        self.requests = self.made = 0
        self.twins = False          # a directory can be made beside one of the same name
        for e in spec or ():
            self.add(*e)

    def add(self, id, name, parent, data, t=1000):
        if parent not in self.nodes or self.nodes[parent]['data'] is not None or id in self.nodes:
            return False
        if not self.twins and any(n['parent'] == parent and n['name'] == name for n in self.nodes.values()):
            return False
        fid = None
        if data is not None:
            fid, self.nextfid = self.nextfid, self.nextfid + 1
        self.nodes[id] = dict(name=name, parent=parent, fid=fid, t=t,
                              data=None if data is None else blob(data))
        return True

    def path(self, id):
        """relative to the root directory"""
        out = []
        while id is not None and id != ORG:
            n = self.nodes[id]
            out.append(n['name'])
            id = n['parent']
        return '/'.join(reversed(out))

    def kids(self, id):
        return [i for i, n in self.nodes.items() if n['parent'] == id]

    def rkids(self, id):
        out = []
        for i in self.kids(id):
            out.append(i)
            out += self.rkids(i)
        return out

    def meta_fields(self, id):
        n = self.nodes[id]
        t = datetime.fromtimestamp(n['t'], tz=timezone.utc)
        kw = dict(id=id, name=n['name'], parent_id=n['parent'], created=t, updated=t)
        if n['data'] is not None:
            c = self.cyphers.get(id, 'sha256')
            kw.update(size=len(n['data']), checksum=digest(c, n['data']), checksum_cypher=c, file_id=n['fid'])
            if n.get('errors'):
                kw['errors'] = n['errors']
            if n.get('nofid'):
                kw.pop('file_id')
            if n.get('nosum') or n.get('etag'):
                kw.pop('checksum')
                kw.pop('checksum_cypher')
            if n.get('etag'):
                cs = n['etag']
                parts = [digest('md5', n['data'][j:j + cs]) for j in range(0, len(n['data']), cs)]
                kw.update(etag=(digest('md5', b''.join(parts)), len(parts)), chunksize=cs)
        return kw

    def rename(self, id, name=None, parent=None, t=None):
        n = self.nodes.get(id)
        if n is None or id == ORG:
            return False
        name, parent = name or n['name'], parent or n['parent']
        if parent not in self.nodes or self.nodes[parent]['data'] is not None:
            return False
        p = parent
        while p is not None:
            if p == id:
                return False
            p = self.nodes[p]['parent']
        if any(m['parent'] == parent and m['name'] == name for i, m in self.nodes.items() if i != id):
            return False
        n['name'], n['parent'] = name, parent
        if t:
            n['t'] = t
        return True

    def content(self, id, data, t):
        n = self.nodes.get(id)
        if n is None or n['data'] is None:
            return False
        n['data'] = blob(data)
        n['t'] = t
        n['fid'], self.nextfid = self.nextfid, self.nextfid + 1
        return True

    def delete(self, id):
        if id == ORG or id not in self.nodes:
            return False
        for i in self.rkids(id) + [id]:
            del self.nodes[i]
        return True


class NoSuchRemote(Exception):
    pass


class Binding:
    """The classes of one process."""

    def __init__(self, R, world, chunk=100, cypher=hashlib.sha256, static_anchor=False):
        self.static_anchor = static_anchor
        aug = R.aug
        k = R.k
        self.R, self.world, self.aug = R, world, aug
        from importlib import import_module
        caches = import_module('augpathlib.caches')
        svc = self

        class L(aug.LocalPath):
            @property
            def cache_id(self):
                c = self.cache
                return None if c is None else c.id
        L._bind_flavours()

        class C(caches.PrimaryCache, caches.EatCache):
            xattr_prefix = 'sim'
            _backup_cache = None
            _not_exists_cache = caches.SymlinkCache

            @property
            def anchor(self):
                return self._anchor

            @property
            def trash(self):
                return self.local_data_dir / 'trash'

            @property
            def cache_key(self):
                return f'{self.id}-{self.meta.file_id}'

            @property
            def data(self):
                yield from self.remote.data

            def _meta_is_root(self, meta):
                return meta.id == ORG

            def _sparse_include(self):
                return False
        C.cypher = cypher
        C._bind_flavours()

        class Rm(aug.RemotePath):
            class _api_class:
                def __init__(self, id):
                    self.root = id

            def __init__(self, thing, cache=None):
                super().__init__(thing, cache=cache)
                self._errors = []

            def __hash__(self):
                # (not the address, which differs between runs)
                return int.from_bytes(hashlib.sha256(self.id.encode()).digest()[:7], 'big')

            def _node(self, what):
                k.net('net_' + what, self.id)
                world.requests += 1
                try:
                    return world.nodes[self.id]
                except KeyError:
                    raise aug.exceptions.NoRemoteFileWithThatIdError(self.id) from None

            def is_dir(self):
                return self._node('kind')['data'] is None

            def is_file(self):
                return self._node('kind')['data'] is not None

            @property
            def name(self):
                return self._node('name')['name']

            @property
            def anchor(self):
                return self._cache_anchor.remote

            @property
            def parent(self):
                p = self._node('parent')['parent']
                return self.__class__(p) if p else None

            @property
            def meta(self):
                self._node('meta')
                return aug.PathMeta(**world.meta_fields(self.id))

            def exists(self):
                k.net('net_exists', self.id)
                world.requests += 1
                return self.id in world.nodes

            def _mkdir_child(self, child_name):
                if self._node('mkdir')['data'] is not None:
                    raise NotADirectoryError(self.id)
                if not world.twins and any(world.nodes[i]['name'] == child_name for i in world.kids(self.id)):
                    raise aug.exceptions.RemotePathExistsError(child_name)
                world.made += 1
                new = f'N:col:made-{world.made}'
                world.add(new, child_name, self.id, None, 5000 + world.made)
                k.net('net_made', new)          # (the answer can get lost)
                return self.__class__(new)

            @property
            def children(self):
                self._node('list')
                for i in world.kids(self.id):
                    yield self.__class__(i)

            def _rchildren(self, create_cache=True, sparse=False):
                for c in self.children:
                    yield c
                    if world.nodes[c.id]['data'] is None:
                        yield from c._rchildren()

            @property
            def data(self):
                d = self._node('get')['data']
                if d is None:
                    raise IsADirectoryError(self.id)
                for i in range(0, len(d), chunk):
                    f = k.net('net_data', self.id, i)
                    c = d[i:i + chunk]
                    if f is not None and f['kind'] == 'cut':
                        k.fire('net_cut')
                        return
                    if f is not None and f['kind'] == 'flip':
                        k.fire('net_corrupt')
                        j = f.get('n', 0) % len(c)
                        c = c[:j] + bytes([c[j] ^ 0x55]) + c[j + 1:]
                    yield c

            def _sparse_include(self):
                return self._node('include')['name'] in getattr(world, 'include', ())

            def refresh(self, update_cache=False, update_data=False, update_data_on_cache=False,
                        size_limit_mb=2, force=False):
                if self.id not in world.nodes:
                    k.net('net_meta', self.id)
                    return None
                if update_cache or update_data:
                    self.update_cache()      # (this fetches what exists and is out of date)
                    if update_data and self.is_file():
                        self.cache.fetch(size_limit_mb=None)
                return self.cache

        self.L, self.C = L, C
        self.Rm = Rm._new(L, C)

    def first(self):
        """An empty project directory, anchored."""
        self.Rm.init(ORG)
        self.anchor = self.Rm.dropAnchor(self.L(HOME))
        if self.static_anchor:
            self.C.anchor = self.anchor
        return self.anchor

    def again(self):
        """The same after a restart."""
        self.Rm.init(ORG)
        self.anchor = self.L(ROOT).cache
        if self.anchor is None:
            return None
        self.anchor.anchorClassHere(remote_init=False)
        if self.static_anchor:
            self.C.anchor = self.anchor
        return self.anchor

    def local(self, rel):
        return self.L(ROOT if not rel else f'{ROOT}/{rel}')


def contents(k, top=ROOT):
    """every file content below top -> list of paths"""
    out = {}
    node = k.h_get(top)

    def rec(n, p):
        for name, c in n.entries.items():
            if c.kind == 'd':
                rec(c, f'{p}/{name}')
            elif c.kind == 'f':
                out.setdefault(bytes(c.data), []).append(f'{p}/{name}')
    if node is not None and node.kind == 'd':
        rec(node, top)
    return out


FIELDS = ('name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'multi',
          'parent_id', 'id', 'file_id', 'old_id', 'gid', 'user_id', 'mode', 'errors')


def canon(meta):
    """What of a metadata object has to survive storage: empty means not set."""
    if meta is None:
        return None
    out = {}
    for f in FIELDS:
        v = getattr(meta, f)
        if v is None or (hasattr(v, '__len__') and len(v) == 0):
            continue
        if isinstance(v, datetime):
            v = ('t', v.timestamp() if v.tzinfo is not None else v.isoformat(), v.tzinfo is not None)
        elif f == 'errors':
            v = tuple(v)
        elif isinstance(v, int) and not isinstance(v, bool):
            v = int(v)
        out[f] = v
    return out


# -- shared scenario pieces: a remote that changes, a user who edits -----------------

DIRS = ('N:col:1', 'N:col:2', 'N:col:3')
FILES = ('N:pkg:1', 'N:pkg:2', 'N:pkg:3', 'N:pkg:4', 'N:pkg:5')
DNAMES = ('proj', 'a', 'b', 'dir.d')
FNAMES = ('f.txt', 'g', 'h.dat', 'a', 'x y')
CYPHERS = ('blake2b', 'md5', 'sha512')
DSIZES = (0, 1, 50, 250, 1000)


def gen_world(rng):
    out, dirs = [], [ORG]
    if rng.random() < 0.2:          # directories of one name
        a, b = rng.sample(DNAMES[1:], 2)
        out = [[DIRS[0], a, ORG, None, 1000], [DIRS[1], b, ORG, None, 1000], [DIRS[2], a, DIRS[1], None, 1000]]
        dirs = list(DIRS[::2])
    else:
        for d in DIRS[:rng.randint(0, 3)]:
            out.append([d, rng.choice(DNAMES), rng.choice(dirs), None, 1000])
            dirs.append(d)
    for f in FILES[:rng.randint(1, 4)]:
        out.append([f, rng.choice(FNAMES), rng.choice(dirs), [rng.randrange(10**6), rng.choice(DSIZES)], 1000])
    return out


def gen_cyphers(rng):
    """most remotes use one, some keep another for some of their files"""
    if rng.random() < 0.6:
        return {}
    return {f: rng.choice(CYPHERS) for f in FILES if rng.random() < 0.5}


def gen_remote(rng, t):
    how = rng.choice(('rename', 'rename', 'content', 'content', 'content', 'reparent', 'twin', 'twin', 'into', 'delete',
                      'add', 'touch', 'both'))
    return {'op': 'remote', 'how': how, 'id': rng.randrange(8), 'parent': rng.randrange(4),
            'name': rng.choice(FNAMES + DNAMES), 'data': [rng.randrange(10**6), rng.choice(DSIZES)], 't': t}


def remote_op(w, op):
    """Somebody changes the remote; True if it applied."""
    ids = sorted(i for i in w.nodes if i != ORG)
    how = op['how']
    if how == 'add':
        free = [i for i in FILES + DIRS if i not in w.nodes and i not in getattr(w, 'gone', ())]
        parents = sorted(i for i, n in w.nodes.items() if n['data'] is None)
        if not free:
            return False
        new = free[op['id'] % len(free)]
        return w.add(new, op['name'], parents[op['parent'] % len(parents)],
                     None if new in DIRS else op['data'], op['t'])
    if not ids:
        return False
    i = ids[op['id'] % len(ids)]
    parents = sorted(j for j, n in w.nodes.items() if n['data'] is None)
    p = parents[op['parent'] % len(parents)]
    if how == 'rename':
        return w.rename(i, name=op['name'], t=op['t'])
    if how == 'into':
        # to a new directory, or one in another
        for deep in range((1, 2, 1, 4)[op['t'] // 1000 % 4]):
            free = [j for j in DIRS + ('N:col:4', 'N:col:5', 'N:col:6') if j not in w.nodes and j not in getattr(w, 'gone', ())]
            if free and w.add(free[0], op['name'], p, None, op['t']):
                p = free[0]
        how = 'reparent'
    if how == 'twin':
        # to another directory of the same name
        twins = [(a, b) for a in ids for b in parents if w.nodes[a]['parent'] not in (None, b) and
                 w.nodes[b]['name'] == w.nodes[w.nodes[a]['parent']]['name']]
        if twins:
            i, p = twins[op['id'] % len(twins)]
        how = 'reparent'
    if how == 'reparent':
        return w.rename(i, parent=p, t=op['t'])
    if how == 'both':
        return w.rename(i, name=op['name'], parent=p, t=op['t']) and w.content(i, op['data'], op['t'])
    if how == 'content':
        return w.content(i, op['data'], op['t'])
    if how == 'touch':
        w.nodes[i]['t'] = op['t']
        return True
    if how == 'delete':
        w.gone = getattr(w, 'gone', set()) | set(w.rkids(i)) | {i}
        return w.delete(i)


def tracked(k, top=ROOT, prefix=b'user.sim.id'):
    """path below top -> id, for everything that carries one (data dir left out)"""
    out = {}

    def rec(n, p):
        for name, c in sorted(n.entries.items()):
            if p == top and name.startswith('.'):
                continue
            ap = f'{p}/{name}'
            if c.kind == 'l':
                parts = re.split(r'/\.(?:mdv|meta\.)', c.target)
                if len(parts) == 2:
                    out[ap] = parts[0].split('/', 1)[-1].replace('|', '/').replace('!', '.')
            elif prefix in c.xattrs:
                out[ap] = c.xattrs[prefix].decode()
            if c.kind == 'd':
                rec(c, ap)
    node = k.h_get(top)
    if node is not None and node.kind == 'd':
        rec(node, top)
    return out


def emptied(k):
    """The user removes the trash."""
    n = k.h_get(ROOT + '/.operations/trash')
    if n is not None and not n.entries:
        k.h_rm(ROOT + '/.operations/trash')
