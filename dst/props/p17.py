"""Paths on a remote host, reached through a shell."""
import hashlib
import shlex

from .. import rshell
from ..lib import blob, kernel_params
from ..run import HarnessError

ID = 'P17'
TITLE = 'answers about a remote path are those of that path, or an error'
SEEDS = (1200, 20000)
VARIANTS = (7, 12)
LISTS = ('ops', 'tree')
FAULTS = ('late', 'late', 'late', 'eof', 'cut', 'errno', 'kbd')
ASSUMPTIONS = ['the login shell is bash >= 4 with GNU coreutils, one user who is not root',
               'nothing on the remote host changes while one question is being answered']
STUBS = ['remote host: file system, shell, coreutils, terminal (simulated)', 'pxssh session and `ssh host command`',
         'local kernel file system, clock']
BASE = '/data/base'
NAMES = ['a', 'b', 'f.txt', 'sub', 'x y', 'x  y', ' lead', 'trail ', '-rf', '--help', '~', '#h', '.hid', '*', '?', '[ab]',
         "q'q", 'd"q', 'back\\slash', '\\', '$HOME', '${HOME}', '$(pwned)', '`pwned`', ';pwned', '|pwned', '&pwned',
         '>pwned', "';pwned;'", '";pwned;"', "$'x'", '!pwned', '!!', "it's!x", '{a,b}', '(pwned)', 'a=b', 'ü', '日本',
         '%n', 'x:y', 'directory', 'regular file', 'No such file or directory', 'Permission denied', 'Is a directory',
         'n\npwned', 't\tb', 'r\rpwned', '\x03', '\x04pwned', 'L' * 60, 'M' * 70, 'N' * 80, 'O' * 90, 'P' * 100, 'Q' * 140,
         '0  1', 'x  1  2  3  4  5  6', '\udcff']
SZ = (0, 0, 1, 100, 4096, 4097, 9000)
TIMES = (0, 1_600_000_000_123_456_789, 1_234_567_890_000_000_000, 1_700_000_000_500_000_000, -1_500_000_000, 5)
ASK = ('stat', 'stat', 'exists', 'is_file', 'is_dir', 'checksum', 'checksum', 'sha256', 'data', 'data', 'meta', 'access',
       'children', 'rpath')


def gen_node(rng, parent):
    kind = rng.choice('fffffd' if rng.random() < 0.9 else 'l')
    e = {'kind': kind, 'in': parent, 'name': rng.choice(NAMES), 'mt': rng.choice(TIMES), 'ct': rng.choice(TIMES[:4])}
    if kind == 'f':
        e['data'] = [rng.randrange(10**6), rng.choice(SZ)]
        if rng.random() < 0.2:
            e['fill'] = rng.choice((' ', '\n', '\0', '\r\n'))
    if kind == 'l':
        e['to'] = rng.choice(('a', 'f.txt', 'nowhere', 'sub'))
    if rng.random() < 0.25:
        e['mode'] = rng.choice((0o000, 0o077, 0o700, 0o707, 0o070, 0o400, 0o007, 0o755, 0o644, 0o040))
        e['uid'] = rng.choice((1000, 1000, 0, 2000))
        e['gid'] = rng.choice((1000, 27, 0))
    return e


def gen(rng, tier):
    tree = []
    for _ in range(rng.randint(2, 7)):
        tree.append(gen_node(rng, rng.randrange(5)))
    ops = []
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        if r < 0.15:
            ops.append({'op': 'change', 'n': rng.randrange(8), 'how': rng.choice(('write', 'write', 'rm', 'touch', 'chmod',
                                                                                  'todir', 'samesize')),
                        'data': [rng.randrange(10**6), rng.choice(SZ)], 'mode': rng.choice((0, 0o644, 0o200, 0o077))})
        else:
            o = {'op': 'ask', 'n': rng.randrange(8), 'q': rng.choice(ASK), 'how': rng.choice(
                ('abs', 'abs', 'host', 'rel', 'join', 'parent', 'same', 'same', 'with_name'))}
            if rng.random() < 0.12:
                o['below'] = rng.choice(NAMES)
            if o['q'] == 'access':
                o['mode'] = rng.choice(('read', 'write', 'execute', 4, 2, 1))
            ops.append(o)
    return {'kernel': kernel_params(rng), 'tree': tree, 'ops': ops,
            'winch': rng.choice(('ok', 'ok', 'ok', 'late', 'none'))}


class Setup:
    def __init__(self, R):
        from importlib import import_module
        import pexpect.pxssh
        k = R.k
        self.rem = rem = rshell.Remote('far')
        rem.mkdir(BASE)
        self.session = None

        def pxssh(*a, **kw):
            self.session = rshell.Session(k, rem, R.plan['winch'])
            return self.session
        pexpect.pxssh.pxssh = pxssh
        k.popen = lambda args, *a, **kw: rshell.Child(k, rem, args, *a, **kw)
        aug = R.aug
        remotes, caches = import_module('augpathlib.remotes'), import_module('augpathlib.caches')

        class P(aug.LocalPath):
            pass
        P._bind_flavours()

        class C(caches.SshCache):
            pass
        C._bind_flavours()
        self.S = remotes.SshRemote._new(P, C)
        k.h_mkdir('/home/user/proj')
        P('/home/user/proj').cache_init('far:' + BASE, anchor=True)
        if self.session is None:
            raise HarnessError('the library did not use pexpect.pxssh.pxssh')


def build(R, rem):
    """-> list of paths below BASE (the first is BASE itself)"""
    dirs, paths = [BASE], [BASE]
    for e in R.plan['tree']:
        if e is None:
            continue
        up = dirs[e['in'] % len(dirs)]
        p = f'{up}/{e["name"]}'
        if p in paths:
            continue
        kw = {'mtime': e['mt'], 'ctime': e['ct']}
        if e['kind'] == 'd':
            n = rem._add(p, rshell.RNode('d', **kw))
            dirs.append(p)
        elif e['kind'] == 'l':
            n = rem.link(p, e['to'])
        else:
            d = blob(e['data'])
            if 'fill' in e:
                d = (e['fill'].encode() * 5000 + d)
            n = rem.put(p, d, **kw)
        if e['mt'] == 5:
            n.birth = 1_500_000_000_250_000_000
        if 'mode' in e and e['kind'] != 'l':
            n.mode, n.uid, n.gid = e['mode'], e['uid'], e['gid']
        paths.append(p)
    return paths


def change(R, rem, p, op):
    n = rem.find(p, links=False)
    up = rem.find(p.rsplit('/', 1)[0], links=False) if p != BASE else None
    if not isinstance(up, rshell.RNode) or not isinstance(n, rshell.RNode):
        return
    name = p.rsplit('/', 1)[1].encode('utf-8', 'surrogateescape')
    how = op['how']
    R.k.now += 1_000_000_001
    if how in ('write', 'samesize') and n.kind == 'f':
        n.data = blob(op['data'] if how == 'write' else [op['data'][0], len(n.data)])
        n.mtime = n.ctime = R.k.now
    elif how == 'rm':
        del up.entries[name]
    elif how == 'touch':
        n.ctime = R.k.now
    elif how == 'chmod' and n.kind != 'l':
        n.mode = op['mode']
        n.ctime = R.k.now
    elif how == 'todir' and n.kind == 'f':
        del up.entries[name]
        rem._add(p, rshell.RNode('d', mtime=R.k.now, ctime=R.k.now))


def plain(p):
    """every question about such a path has to be answerable"""
    try:
        n = len(shlex.quote(p).encode())
    except UnicodeEncodeError:
        return False
    return n <= 70 and not any(ord(c) < 32 or ord(c) == 127 for c in p)


def make(S, p, how, kept):
    rel = p[len(BASE) + 1:]
    if how == 'same' and p in kept:
        return kept[p]
    if how == 'host':
        r = S('far:' + p)
    elif how == 'rel' and rel:
        r = S(rel)
    elif how == 'join' and rel:
        r = S(BASE)
        for part in rel.split('/'):
            r = r / part
    elif how == 'parent':
        r = S(p + '/child').parent
    elif how == 'with_name' and rel:
        r = S(p.rsplit('/', 1)[0] + '/other').with_name(p.rsplit('/', 1)[1])
    else:
        r = S(p)
    kept[p] = r
    return r


def close(a, ns):
    return abs(a - ns / 10**9) < 2e-6


def run(plan, R):
    with R.calm():
        env = Setup(R)
    rem = env.rem
    paths = build(R, rem)
    kept = {}
    del rem.executed[:]
    for i, op in enumerate(plan['ops']):
        if op is None:
            continue
        p = paths[op['n'] % len(paths)]
        if op['op'] == 'change':
            change(R, rem, p, op)
            continue
        if 'below' in op:
            p = f'{p}/{op["below"]}'
        ask(R, env, i, op, p, kept)


def ask(R, env, i, op, p, kept):
    rem, q = env.rem, op['q']

    def question():
        r = make(env.S, p, op['how'], kept)
        if q == 'sha256':
            return r.checksum(hashlib.sha256)
        if q == 'access':
            return r.access(op['mode'])
        if q == 'data':
            return b''.join(r.data)
        v = getattr(r, q)
        return v() if q in ('stat', 'exists', 'is_file', 'is_dir', 'checksum') else v
    closed = env.session.closed
    out = R.op(i, question)
    what = f'{q} of {p!r} ({op["how"]}): {out!r}'
    R.probe('nontrivial')
    R.probe(f'{q}_{out.kind}')
    for argv in rem.executed:
        R.check(b'pwned' not in (argv[0], argv[-1] if argv[0] == b'redirect' else b''), 'injection',
                lambda: what + f': the remote host ran {argv}')
        R.check(argv[0] != b'redirect', 'injection', lambda: what + f': the remote host wrote to {argv}')
    del rem.executed[:]
    n = rem.find(p, links=False)
    there = isinstance(n, rshell.RNode)
    if out.kind in ('crash', 'kbd'):
        return
    if not out.ok:
        if R.hit or closed or not plain(p):
            return
        # which questions have no answer
        none = {'stat': not there, 'exists': not there and n != 'No such file or directory',
                'checksum': not there or n.kind != 'f' or not rem.may(n, 4),
                'data': not there or n.kind != 'f' or not rem.may(n, 4),
                'meta': not there or n.kind != 'f' or not rem.may(n, 4),
                'access': not there, 'is_file': not there, 'is_dir': not there, 'children': True, 'rpath': False}
        none['sha256'] = none['checksum']
        R.check(none[q], 'no_answer', what)
        if there and n.kind == 'l':
            return
        want = {'No such file or directory': FileNotFoundError, 'Permission denied': PermissionError}.get(n)
        if q == 'stat' and want:
            R.check(isinstance(out.exc, want), 'wrong_error', lambda: what + f': but it is {n}')
        return
    v = out.value
    judge(R, rem, q, p, n, there, v, what, op)
    R.probe('answers')


def judge(R, rem, q, p, n, there, v, what, op):
    if q == 'rpath':
        R.check(v == p, 'other_path', what)
        return
    if q == 'exists':
        R.check(bool(v) == there, 'wrong_answer', what)
        return
    if q in ('is_file', 'is_dir'):
        if there and n.kind == 'l':
            return
        R.check(bool(v) == (there and n.kind == q[3]), 'wrong_answer', what)
        return
    if q == 'access':
        if there and n.kind == 'l':
            return
        want = {'read': 4, 'write': 2, 'execute': 1}.get(op['mode'], op['mode'])
        R.check(bool(v) == (there and rem.may(n, want)), 'wrong_answer', what)
        return
    if q == 'children':
        if v is None:
            R.check(not there or n.kind != 'd', 'wrong_answer', what)
            return
        R.check(there and n.kind in 'dl', 'wrong_answer', what)
        d = rem.find(p)
        stats, sums = v
        for name, st in stats.items():
            c = d.entries.get(name.encode())
            R.check(c is not None and st.st_ino == c.ino, 'wrong_children', lambda: what + f': {name!r}')
        for name, s in sums.items():
            c = d.entries.get(name.encode())
            R.check(c is not None and s == hashlib.blake2b(c.data).digest(), 'wrong_children',
                    lambda: what + f': {name!r}')
        return
    if q == 'meta':
        if not there:
            R.check(v.size is None and not v.checksum, 'wrong_answer', lambda: what + f': {v!r}')
            return
        f = n if n.kind != 'l' else rem.find(p)
        R.check(v.size == len(n.data) and v.file_id == n.ino and v.gid == n.gid and v.user_id == n.uid
                and v.mode == oct(rshell.S_IFMT[n.kind] | n.mode), 'wrong_answer', lambda: what + f': {v!r}')
        R.check(close(v.updated.timestamp(), n.ctime) and close(v.created.timestamp(), n.mtime), 'wrong_time',
                lambda: what + f': {v!r} is not {n.ctime} {n.mtime}')
        R.check(isinstance(f, rshell.RNode) and v.checksum == hashlib.blake2b(f.data).digest(), 'wrong_checksum', what)
        R.check(v.id == 'far:' + p, 'other_path', lambda: what + f': {v.id!r}')
        R.check(v.name == p.rsplit('/', 1)[1], 'other_path', lambda: what + f': {v.name!r}')
        return
    R.check(there, 'answer_for_nothing', what)
    if q == 'stat':
        size = 4096 if n.kind == 'd' else len(n.data)
        R.check((v.st_ino, v.st_size, v.st_uid, v.st_gid, v.st_mode) ==
                (n.ino, size, n.uid, n.gid, rshell.S_IFMT[n.kind] | n.mode), 'wrong_answer',
                lambda: what + f': {v.__dict__}')
        R.check(close(v.st_mtime, n.mtime) and close(v.st_ctime, n.ctime) and close(v.st_atime, n.atime), 'wrong_time',
                lambda: what + f': {v.__dict__} is not {n.mtime} {n.ctime} {n.atime}')
        if n.birth:
            R.check(close(v.st_birthtime, n.birth), 'wrong_time', lambda: what + f': {v.__dict__} is not {n.birth}')
        return
    f = n if n.kind != 'l' else rem.find(p)
    ok = isinstance(f, rshell.RNode) and f.kind == 'f' and rem.may(f, 4)
    R.check(ok, 'answer_for_nothing', what)
    if q == 'data':
        R.check(v == f.data, 'wrong_data', lambda: what + f': {len(v)} of {len(f.data)} bytes')
    else:
        h = hashlib.sha256 if q == 'sha256' else hashlib.blake2b
        R.check(v == h(f.data).digest(), 'wrong_checksum', what)
