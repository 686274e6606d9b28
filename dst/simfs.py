"""A simulated POSIX kernel: file system, processes, clock, faults.

Everything the code under test can do to storage goes through `Kernel`, one
method per system call.  Every call is a *step*: the scheduler may switch
tasks there, the fault plan may fail it, and a crash may end the calling
process before, after or in the middle of it.  There is no other source of
nondeterminism: directory order, inode numbers, timestamps, random names and
the file system's block size are all derived from the run's parameters.
"""
import errno as E
import hashlib
import os as _os
import stat as S

MAXSYMLINKS = 40
NAME_MAX = 255
PATH_MAX = 4096
FD_BASE = 1000000
AT_FDCWD = -100
RENAME_NOREPLACE = 1
RENAME_EXCHANGE = 2

# system calls that change durable state
MUTATING = frozenset((
    'mkdir', 'rmdir', 'unlink', 'rename', 'exchange', 'link', 'symlink',
    'open_creat', 'open_trunc', 'write', 'truncate', 'setxattr',
    'removexattr', 'chmod', 'chown', 'utime', 'sendfile'))
DATA_READ = frozenset(('read',))
DATA_WRITE = frozenset(('write', 'sendfile'))


class SimCrash(BaseException):
    """The simulated process died.  Everything it does afterwards raises this
    again, so no handler of the dead process can touch durable state."""


class SimEscape(BaseException):
    """The code under test tried to change something outside the simulation."""


class SimBudget(BaseException):
    """Step budget of the run exhausted (livelock)."""


def oserr(code, path=None, path2=None):
    if path is None:
        return OSError(code, _os.strerror(code))
    if path2 is None:
        return OSError(code, _os.strerror(code), path)
    return OSError(code, _os.strerror(code), path, None, path2)


class Inode:
    __slots__ = ('ino', 'kind', 'mode', 'uid', 'gid', 'nlink', 'data',
                 'entries', 'target', 'xattrs', 'atime', 'mtime', 'ctime',
                 'dev', 'parent', 'name', 'serial', 'blksize')

    def __init__(self, ino, kind, mode, uid, gid, dev, now):
        self.ino = ino
        self.kind = kind
        self.mode = mode
        self.uid = uid
        self.gid = gid
        self.dev = dev
        self.nlink = 1
        self.data = bytearray() if kind == 'f' else None
        self.entries = {} if kind == 'd' else None
        self.target = None
        self.xattrs = {}
        self.atime = self.mtime = self.ctime = now
        self.parent = None
        self.name = None

    @property
    def st_mode(self):
        t = {'f': S.S_IFREG, 'd': S.S_IFDIR, 'l': S.S_IFLNK}[self.kind]
        return t | self.mode

    @property
    def size(self):
        if self.kind == 'f':
            return len(self.data)
        if self.kind == 'l':
            return len(_os.fsencode(self.target))
        return 4096


class Handle:
    __slots__ = ('inode', 'flags', 'pos', 'path')

    def __init__(self, inode, flags, path):
        self.inode = inode
        self.flags = flags
        self.pos = 0
        self.path = path


class Proc:
    """A simulated process (one task of the scheduler)."""

    def __init__(self, kernel, name, uid=1000, gid=1000, cwd='/'):
        self.name = name
        self.uid = uid
        self.gid = gid
        self.cwd = kernel.root
        self.fds = {}
        self.dead = False
        self.umask = 0o022
        self.op = 0          # index of the running operation
        self.opstep = 0      # step within that operation
        self.opline = 0      # line of the library within that operation (see sched)
        self.group = []      # the threads of the process
        self.quiet = 0       # >0: harness access, no faults / no steps
        if cwd != '/':
            self.cwd = kernel._lookup(self, cwd)


class Fault:
    """kind: an errno name, or short / crash_before / crash_after / torn /
    kbd / eintr; `span`: stay active for that many steps (errno only)."""


class HarnessError(Exception):
    pass


KINDS = ('crash_before', 'crash_after', 'torn', 'kbd', 'eintr', 'short', 'flip', 'cut',
         'late', 'eof')


class Kernel:
    def __init__(self, salt=0, blksize=4096, tick_ns=1_000_003, start_ns=1_700_000_000_000_000_000,
                 max_steps=200000):
        self.salt = salt
        self.blksize = blksize
        self.tick = tick_ns
        self.now = start_ns
        self.t0 = start_ns
        self.simtime = 0
        self.nextino = 2
        self.nextfd = FD_BASE
        self.steps = 0
        self.max_steps = max_steps
        self.trace = hashlib.blake2b(digest_size=16)
        self.log = None           # optional list of human-readable events
        self.faults = {}          # (proc, op, step) -> dict
        self.active = []          # persistent faults: [remaining, dict]
        self.fired = {}           # kind -> count
        self.counts = {}          # syscall -> count
        self.step_log = None      # list of (proc, op, step, syscall) when recording
        self.on_step = None       # changes by others
        self.sched = None         # see sched
        self.switches = {}        # (proc, op, step) or (proc, op, ('l', line)) -> proc
        self.observers = []       # called after every mutating call
        self.rand = 0
        self.violations = []      # raised by observers
        self.clock_jumps = {}     # (proc, op) -> delta ns
        self.read_only_devs = set()
        self.no_exchange_devs = set()
        self.nospace = None       # bytes left when set
        self.in_observer = False
        self.procs = {}
        self.root = Inode(1, 'd', 0o755, 0, 0, 1, self.now)
        self.root.parent = self.root
        self.root.name = ''
        self.root.nlink = 2
        self.cur = Proc(self, 'boot', uid=0, gid=0)

    # -- bookkeeping ------------------------------------------------------
    def note(self, *parts):
        r = repr(parts)
        self.trace.update(r.encode('utf-8', 'surrogatepass'))
        if self.log is not None:
            self.log.append(r)

    def digest(self):
        return self.trace.hexdigest()

    def urandom(self, n):
        out = b''
        while len(out) < n:
            self.rand += 1
            out += hashlib.blake2b(f'{self.salt}:{self.rand}'.encode(), digest_size=32).digest()
        return out[:n]

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def begin_op(self, i, proc=None):
        p = proc or self.cur
        p.op = i
        p.opstep = 0
        p.opline = 0
        j = self.clock_jumps.get((p.name, i))
        if j:
            self.now += j
            self.fire('clock_jump')
            self.note('clock', j)

    def quiet(self):
        return _Quiet(self)

    def crash(self, proc=None):
        p = proc or self.cur
        for q in p.group or (p,):
            q.dead = True
        p.fds.clear()
        self.note('crash', p.name)
        raise SimCrash(p.name)

    def step(self, name, *args, paths=()):
        """Account for one system call; returns an active fault dict for data
        calls (short/torn/crash_after), raises for error faults."""
        p = self.cur
        if p.dead:
            raise SimCrash(p.name)
        if p.quiet or self.in_observer:
            return None
        if self.sched is not None:
            self.sched.point(p)
            if p.dead:
                raise SimCrash(p.name)
        if self.on_step is not None:
            self.on_step(name)
            p = self.cur
            if p.dead:
                raise SimCrash(p.name)
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimBudget(self.steps)
        n = p.opstep
        p.opstep += 1
        self.now += self.tick
        self.simtime += self.tick
        self.counts[name] = self.counts.get(name, 0) + 1
        self.note(p.name, p.op, n, name, args)
        if self.step_log is not None:
            self.step_log.append((p.name, p.op, n, name))
        f = self.faults.get((p.name, p.op, n))
        if f is None:
            for a in self.active:
                if a[0] > 0 and a[1]['proc'] == p.name and a[1]['op'] == p.op \
                   and name in a[1]['calls']:
                    a[0] -= 1
                    f = a[1]
                    break
        elif f.get('span'):
            self.active.append([f['span'], dict(f, proc=p.name, op=p.op, calls=(name,))])
        if f is None:
            return None
        return self._apply(p, f, name, paths)

    def _apply(self, p, f, name, paths):
        k = f['kind']
        if k in ('crash_before', 'crash_after', 'torn'):
            if k == 'crash_before' or (k == 'torn' and name not in DATA_WRITE):
                self.fire('crash_before')
                self.crash(p)
            return f
        if k == 'kbd':
            self.fire('kbd')
            raise KeyboardInterrupt('simulated')
        if k == 'eintr':
            if name in DATA_READ or name in DATA_WRITE:
                self.fire('eintr')
                raise InterruptedError(E.EINTR, 'Interrupted system call')
            return None
        if k in ('short', 'flip'):
            return f if (name in DATA_READ or name in DATA_WRITE or
                         (k == 'flip' and name == 'net_data')) else None
        if k == 'cut':
            return f if name in ('net_data', 'ssh_data') else None
        if k in ('late', 'eof'):
            return f if name == 'ssh_prompt' else None
        code = getattr(E, k)
        self.fire('errno')
        self.fire(k)
        self.note('fault', k)
        raise oserr(code, *paths)

    def net(self, name, *args):
        """One exchange with a remote service."""
        return self.step(name, *args)

    def done(self, name, f=None):
        """After the effect of a call: observers, crash_after."""
        p = self.cur
        if self.observers and not p.quiet and not self.in_observer and name in MUTATING:
            self.in_observer = True
            try:
                for ob in self.observers:
                    ob(name)
            finally:
                self.in_observer = False
        if f is not None and f['kind'] == 'crash_after':
            self.fire('crash_after')
            self.crash(p)

    # -- inodes and lookup --------------------------------------------------
    def _new(self, kind, mode, parent):
        p = self.cur
        ino = self.nextino
        self.nextino += 1
        return Inode(ino, kind, mode, p.uid, p.gid, parent.dev, self.now)

    def _may(self, p, node, want):
        if p.uid == 0:
            return True
        if p.uid == node.uid:
            bits = node.mode >> 6
        elif p.gid == node.gid:
            bits = node.mode >> 3
        else:
            bits = node.mode
        return (bits & want) == want

    def _start(self, p, path, dir_fd):
        if path.startswith('/'):
            return self.root
        if dir_fd is not None and dir_fd != AT_FDCWD:
            h = p.fds.get(dir_fd)
            if h is None:
                raise oserr(E.EBADF, path)
            if h.inode.kind != 'd':
                raise oserr(E.ENOTDIR, path)
            return h.inode
        return p.cwd

    def _walk(self, p, path, dir_fd=None, follow=True, entry=False, creat=False):
        """-> (parent inode, last name, inode or None).
        Raises like the kernel.  `follow`: follow a symlink in last position; `entry`: the
        last name is that of an entry, whatever slashes follow; `creat`: it may be created."""
        if path == '':
            raise oserr(E.ENOENT, path)
        if '\0' in path:
            raise ValueError('embedded null byte')
        if len(_os.fsencode(path)) >= PATH_MAX:
            raise oserr(E.ENAMETOOLONG, path)
        depth = [0]
        node = self._start(p, path, dir_fd)
        parts = [x for x in path.split('/') if x]
        mustdir = path.endswith('/') and not entry
        if not parts:
            return node.parent, '', node
        cur = node
        i = 0
        parts = list(parts)
        while i < len(parts):
            name = parts[i]
            last = i == len(parts) - 1
            if cur.kind != 'd':
                raise oserr(E.ENOTDIR, path)
            if not self._may(p, cur, 1):
                raise oserr(E.EACCES, path)
            if len(_os.fsencode(name)) > NAME_MAX:
                raise oserr(E.ENAMETOOLONG, path)
            if name == '.':
                if last:
                    return cur.parent, '.', cur
                i += 1
                continue
            if name == '..':
                if last:
                    return cur.parent, '..', cur.parent
                cur = cur.parent
                i += 1
                continue
            if last and creat and mustdir:
                raise oserr(E.EISDIR, path)
            child = cur.entries.get(name)
            if child is None:
                if last:
                    return cur, name, None
                raise oserr(E.ENOENT, path)
            if child.kind == 'l' and (not last or follow or mustdir):
                depth[0] += 1
                if depth[0] > MAXSYMLINKS:
                    raise oserr(E.ELOOP, path)
                t = child.target
                rest = parts[i + 1:]
                tparts = [x for x in t.split('/') if x]
                if t.startswith('/'):
                    cur = self.root
                if last and t.endswith('/'):
                    mustdir = True
                parts = tparts + rest
                i = 0
                if not parts:
                    return cur.parent, '', cur
                continue
            if last:
                if mustdir and child.kind != 'd':
                    raise oserr(E.ENOTDIR, path)
                return cur, name, child
            cur = child
            i += 1
        raise AssertionError

    def _lookup(self, p, path, dir_fd=None, follow=True):
        parent, name, node = self._walk(p, path, dir_fd, follow)
        if node is None:
            raise oserr(E.ENOENT, path)
        return node

    def _wparent(self, p, parent, path, sticky_node=None):
        if not self._may(p, parent, 3):
            raise oserr(E.EACCES, path)
        if parent.dev in self.read_only_devs:
            raise oserr(E.EROFS, path)

    def _touch_dir(self, d):
        d.mtime = d.ctime = self.now

    def _link_in(self, parent, name, node):
        parent.entries[name] = node
        if node.kind == 'd':
            node.parent = parent
            node.name = name
            parent.nlink += 1
        self._touch_dir(parent)

    def _link_out(self, parent, name):
        node = parent.entries.pop(name)
        if node.kind == 'd':
            parent.nlink -= 1
        self._touch_dir(parent)
        node.ctime = self.now
        return node

    def pathof(self, node):
        """Absolute path of a directory inode, None when unlinked."""
        out = []
        while node is not self.root:
            if node.parent is None or node.parent.entries is None or \
               node.parent.entries.get(node.name) is not node:
                return None
            out.append(node.name)
            node = node.parent
        return '/' + '/'.join(reversed(out))

    # -- system calls ---------------------------------------------------------
    def stat(self, path, dir_fd=None, follow=True):
        self.step('stat' if follow else 'lstat', path, paths=(path,))
        return self._lookup(self.cur, path, dir_fd, follow)

    def fstat(self, fd):
        self.step('fstat', paths=())
        return self._h(fd).inode

    def access(self, path, mode, dir_fd=None, follow=True):
        self.step('access', path, paths=(path,))
        node = self._lookup(self.cur, path, dir_fd, follow)
        if mode and not self._may(self.cur, node, mode):
            raise oserr(E.EACCES, path)
        return True

    def mkdir(self, path, mode=0o777, dir_fd=None):
        f = self.step('mkdir', path, paths=(path,))
        p = self.cur
        parent, name, node = self._walk(p, path, dir_fd, follow=False, entry=True)
        if node is not None:
            raise oserr(E.EEXIST, path)
        self._wparent(p, parent, path)
        node = self._new('d', mode & ~p.umask & 0o7777, parent)
        node.nlink = 2
        self._link_in(parent, name, node)
        self.done('mkdir', f)

    def rmdir(self, path, dir_fd=None):
        f = self.step('rmdir', path, paths=(path,))
        p = self.cur
        parent, name, node = self._walk(p, path, dir_fd, follow=False, entry=True)
        if node is None:
            raise oserr(E.ENOENT, path)
        if name == '.':
            raise oserr(E.EINVAL, path)
        if name == '..':
            raise oserr(E.ENOTEMPTY, path)
        if name == '' or node is self.root:
            raise oserr(E.EBUSY, path)
        if node.kind != 'd':
            raise oserr(E.ENOTDIR, path)
        self._wparent(p, parent, path)
        if node.entries:
            raise oserr(E.ENOTEMPTY, path)
        if node.dev != parent.dev:
            raise oserr(E.EBUSY, path)
        self._link_out(parent, name)
        node.nlink = 0
        self.done('rmdir', f)

    def unlink(self, path, dir_fd=None):
        f = self.step('unlink', path, paths=(path,))
        p = self.cur
        parent, name, node = self._walk(p, path, dir_fd, follow=False, entry=True)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.kind == 'd':
            raise oserr(E.EISDIR, path)
        if path.endswith('/'):
            raise oserr(E.ENOTDIR, path)
        self._wparent(p, parent, path)
        self._link_out(parent, name)
        node.nlink -= 1
        self.done('unlink', f)

    def rename(self, old, new, old_dir_fd=None, new_dir_fd=None, flags=0):
        call = 'exchange' if flags & RENAME_EXCHANGE else 'rename'
        f = self.step(call, old, new, paths=(old, new))
        p = self.cur
        op, on, o = self._walk(p, old, old_dir_fd, follow=False, entry=True)
        np, nn, n = self._walk(p, new, new_dir_fd, follow=False, entry=True)
        if op.dev != np.dev:
            raise oserr(E.EXDEV, old, new)
        if on in ('.', '..', ''):
            raise oserr(E.EBUSY, old, new)
        if nn in ('.', '..', ''):
            raise oserr(E.EEXIST if flags & RENAME_NOREPLACE else E.EBUSY, old, new)
        if o is None:
            raise oserr(E.ENOENT, old, new)
        if n is not None and flags & RENAME_NOREPLACE:
            raise oserr(E.EEXIST, old, new)
        if flags & RENAME_EXCHANGE and n is None:
            raise oserr(E.ENOENT, old, new)
        if flags & RENAME_EXCHANGE and n.kind != 'd' and new.endswith('/'):
            raise oserr(E.ENOTDIR, old, new)
        if o.kind != 'd' and (old.endswith('/') or not flags & RENAME_EXCHANGE and new.endswith('/')):
            raise oserr(E.ENOTDIR, old, new)
        if flags & RENAME_EXCHANGE and op.dev in self.no_exchange_devs:
            raise oserr(E.EINVAL, old, new)
        self._wparent(p, op, old)
        self._wparent(p, np, new)
        if o.kind == 'd' and (np is o or self._isanc(o, np)):
            raise oserr(E.EINVAL, old, new)
        if flags & RENAME_EXCHANGE and n.kind == 'd' and (op is n or self._isanc(n, op)):
            raise oserr(E.EINVAL, old, new)
        if o is n:
            self.done(call, f)
            return
        if flags & RENAME_EXCHANGE:
            self._link_out(op, on)
            self._link_out(np, nn)
            self._link_in(np, nn, o)
            self._link_in(op, on, n)
            self.done('exchange', f)
            return
        if n is not None:
            if n.kind == 'd' and self._isanc(n, op):
                raise oserr(E.ENOTEMPTY, old, new)
            if o.kind == 'd' and n.kind != 'd':
                raise oserr(E.ENOTDIR, old, new)
            if o.kind != 'd' and n.kind == 'd':
                raise oserr(E.EISDIR, old, new)
            if n.kind == 'd' and n.entries:
                raise oserr(E.ENOTEMPTY, old, new)
            self._link_out(np, nn)
            n.nlink -= 1
            if n.kind == 'd':
                n.nlink = 0
        self._link_out(op, on)
        self._link_in(np, nn, o)
        self.done('rename', f)

    def _isanc(self, a, b):
        while b is not self.root:
            if b is a:
                return True
            b = b.parent
        return a is self.root

    def link(self, src, dst, src_dir_fd=None, dst_dir_fd=None, follow=False):
        f = self.step('link', src, dst, paths=(src, dst))
        p = self.cur
        o = self._lookup(p, src, src_dir_fd, follow)
        np, nn, n = self._walk(p, dst, dst_dir_fd, follow=False, entry=True)
        if n is not None:
            raise oserr(E.EEXIST, src, dst)
        if dst.endswith('/'):
            raise oserr(E.ENOENT, src, dst)
        if o.kind == 'd':
            raise oserr(E.EPERM, src, dst)
        if o.dev != np.dev:
            raise oserr(E.EXDEV, src, dst)
        self._wparent(p, np, dst)
        o.nlink += 1
        o.ctime = self.now
        self._link_in(np, nn, o)
        self.done('link', f)

    def symlink(self, target, path, dir_fd=None):
        f = self.step('symlink', target, path, paths=(target, path))
        p = self.cur
        if target == '':
            raise oserr(E.ENOENT, target, path)
        if len(_os.fsencode(target)) >= PATH_MAX:
            raise oserr(E.ENAMETOOLONG, target, path)
        parent, name, node = self._walk(p, path, dir_fd, follow=False, entry=True)
        if node is not None:
            raise oserr(E.EEXIST, target, path)
        if path.endswith('/'):
            raise oserr(E.ENOENT, target, path)
        self._wparent(p, parent, path)
        node = self._new('l', 0o777, parent)
        node.target = target
        self._link_in(parent, name, node)
        self.done('symlink', f)

    def readlink(self, path, dir_fd=None):
        self.step('readlink', path, paths=(path,))
        node = self._lookup(self.cur, path, dir_fd, follow=False)
        if node.kind != 'l':
            raise oserr(E.EINVAL, path)
        return node.target

    def order(self, d):
        def key(n):
            return hashlib.blake2b(f'{self.salt}/{n}'.encode('utf-8', 'surrogateescape'), digest_size=8).digest()
        return sorted(d.entries, key=key)

    def getdents(self, path=None, dir_fd=None, fd=None):
        self.step('getdents', path, paths=(path,) if path is not None else ())
        p = self.cur
        node = self._h(fd).inode if fd is not None else self._lookup(p, path, dir_fd, True)
        if node.kind != 'd':
            raise oserr(E.ENOTDIR, path)
        if not self._may(p, node, 4):
            raise oserr(E.EACCES, path)
        return [(n, node.entries[n]) for n in self.order(node)]

    def chdir(self, path=None, fd=None):
        self.step('chdir', path, paths=(path,))
        p = self.cur
        node = self._h(fd).inode if fd is not None else self._lookup(p, path)
        if node.kind != 'd':
            raise oserr(E.ENOTDIR, path)
        if not self._may(p, node, 1):
            raise oserr(E.EACCES, path)
        p.cwd = node
        self.done('chdir')

    def getcwd(self):
        # not a fault point: getcwd only fails when the directory is gone
        r = self.pathof(self.cur.cwd)
        if self.cur.dead:
            raise SimCrash(self.cur.name)
        if r is None:
            raise oserr(E.ENOENT)
        return r

    def open(self, path, flags, mode=0o777, dir_fd=None):
        acc = flags & _os.O_ACCMODE
        kind = 'open'
        p = self.cur
        if flags & _os.O_CREAT:
            kind = 'open_creat'
        elif flags & _os.O_TRUNC:
            kind = 'open_trunc'
        f = self.step(kind, path, paths=(path,))
        p = self.cur
        follow = not (flags & _os.O_NOFOLLOW) and not (flags & _os.O_CREAT and flags & _os.O_EXCL)
        parent, name, node = self._walk(p, path, dir_fd, follow, creat=bool(flags & _os.O_CREAT))
        if node is None:
            if not flags & _os.O_CREAT:
                raise oserr(E.ENOENT, path)
            self._wparent(p, parent, path)
            if self.nospace is not None and self.nospace <= 0:
                self.fire('disk_full')
                raise oserr(E.ENOSPC, path)
            node = self._new('f', mode & ~p.umask & 0o7777, parent)
            self._link_in(parent, name, node)
        else:
            if flags & _os.O_CREAT and flags & _os.O_EXCL:
                raise oserr(E.EEXIST, path)
            if node.kind == 'l':
                raise oserr(E.ELOOP, path)
            if node.kind == 'd' and (acc != _os.O_RDONLY or flags & _os.O_CREAT):
                raise oserr(E.EISDIR, path)
            if flags & _os.O_DIRECTORY and node.kind != 'd':
                raise oserr(E.ENOTDIR, path)
            want = {_os.O_RDONLY: 4, _os.O_WRONLY: 2, _os.O_RDWR: 6}[acc]
            if not self._may(p, node, want):
                raise oserr(E.EACCES, path)
            if acc != _os.O_RDONLY and node.dev in self.read_only_devs:
                raise oserr(E.EROFS, path)
            if flags & _os.O_TRUNC and acc != _os.O_RDONLY and node.kind == 'f':
                if self.nospace is not None:
                    self.nospace += len(node.data)
                del node.data[:]
                node.mtime = node.ctime = self.now
        h = Handle(node, flags, path)
        fd = self.nextfd
        self.nextfd += 1
        p.fds[fd] = h
        self.done(kind, f)
        return fd

    def _h(self, fd):
        h = self.cur.fds.get(fd)
        if h is None:
            if self.cur.dead:
                raise SimCrash(self.cur.name)
            raise oserr(E.EBADF)
        return h

    def close(self, fd):
        # close is never failed: the descriptor is gone either way
        if self.cur.dead:
            raise SimCrash(self.cur.name)
        if fd not in self.cur.fds:
            raise oserr(E.EBADF)
        del self.cur.fds[fd]

    def read(self, fd, n, pos=None):
        f = self.step('read', n, paths=())
        h = self._h(fd)
        node = h.inode
        if node.kind == 'd':
            raise oserr(E.EISDIR)
        if h.flags & _os.O_ACCMODE == _os.O_WRONLY:
            raise oserr(E.EBADF)
        at = h.pos if pos is None else pos
        if f is not None and f['kind'] == 'short' and n > 1:
            n = max(1, min(n - 1, f.get('n', 1)))
            self.fire('short_read')
        d = bytes(node.data[at:at + n])
        if f is not None and f['kind'] == 'flip' and d:
            i = f.get('n', 0) % len(d)
            d = d[:i] + bytes([d[i] ^ 0x55]) + d[i + 1:]
            self.fire('flip')
        if pos is None:
            h.pos = at + len(d)
        return d

    def write(self, fd, buf, pos=None):
        f = self.step('write', len(buf), paths=())
        h = self._h(fd)
        node = h.inode
        if h.flags & _os.O_ACCMODE == _os.O_RDONLY:
            raise oserr(E.EBADF)
        n = len(buf)
        if f is not None and f['kind'] == 'short' and n > 1:
            n = max(1, min(n - 1, f.get('n', 1)))
            self.fire('short_write')
        torn = f is not None and f['kind'] == 'torn'
        if torn:
            n = min(n, f.get('n', n // 2))
        at = len(node.data) if h.flags & _os.O_APPEND else (h.pos if pos is None else pos)
        grow = max(0, at + n - len(node.data))
        if self.nospace is not None and grow:
            if self.nospace <= 0:
                self.fire('disk_full')
                raise oserr(E.ENOSPC)
            if grow > self.nospace:
                n -= grow - self.nospace
                grow = self.nospace
                self.fire('disk_full')
            self.nospace -= grow
        if at > len(node.data):
            node.data.extend(b'\0' * (at - len(node.data)))
        node.data[at:at + n] = bytes(buf[:n])
        node.mtime = node.ctime = self.now
        if pos is None:
            h.pos = at + n
        if torn:
            self.fire('torn')
            self.done('write')
            self.crash()
        self.done('write', f)
        return n

    def lseek(self, fd, off, whence):
        h = self._h(fd)
        if whence == 0:
            new = off
        elif whence == 1:
            new = h.pos + off
        else:
            new = h.inode.size + off
        if new < 0:
            raise oserr(E.EINVAL)
        h.pos = new
        return new

    def truncate(self, fd=None, path=None, n=0):
        f = self.step('truncate', path, n, paths=())
        if fd is not None:
            node = self._h(fd).inode
        else:
            node = self._lookup(self.cur, path)
            if node.kind == 'd':
                raise oserr(E.EISDIR, path)
            if not self._may(self.cur, node, 2):
                raise oserr(E.EACCES, path)
        if n < len(node.data):
            del node.data[n:]
        else:
            node.data.extend(b'\0' * (n - len(node.data)))
        node.mtime = node.ctime = self.now
        self.done('truncate', f)

    def _node(self, path, fd, dir_fd=None, follow=True):
        if fd is not None:
            return self._h(fd).inode
        return self._lookup(self.cur, path, dir_fd, follow)

    def chmod(self, path=None, fd=None, mode=0, dir_fd=None, follow=True):
        f = self.step('chmod', path, mode, paths=(path,) if path is not None else ())
        n = self._node(path, fd, dir_fd, follow)
        if n.kind == 'l':
            raise oserr(E.ENOTSUP, path)
        if self.cur.uid not in (0, n.uid):
            raise oserr(E.EPERM, path)
        n.mode = mode & 0o7777
        n.ctime = self.now
        self.done('chmod', f)

    def chown(self, path=None, fd=None, uid=-1, gid=-1, dir_fd=None, follow=True):
        f = self.step('chown', path, paths=(path,) if path is not None else ())
        n = self._node(path, fd, dir_fd, follow)
        if self.cur.uid != 0 and (uid not in (-1, n.uid) or gid not in (-1, n.gid)):
            raise oserr(E.EPERM, path)
        if uid != -1:
            n.uid = uid
        if gid != -1:
            n.gid = gid
        n.ctime = self.now
        self.done('chown', f)

    def utime(self, path=None, fd=None, ns=None, dir_fd=None, follow=True):
        f = self.step('utime', path, paths=(path,) if path is not None else ())
        n = self._node(path, fd, dir_fd, follow)
        if ns is None:
            if self.cur.uid not in (0, n.uid) and not self._may(self.cur, n, 2):
                raise oserr(E.EACCES, path)
            n.atime = n.mtime = self.now
        else:
            if self.cur.uid not in (0, n.uid):
                raise oserr(E.EPERM, path)
            n.atime, n.mtime = ns
        n.ctime = self.now
        self.done('utime', f)

    # xattrs: names are bytes with namespace prefix
    def _xnode(self, path, fd, follow, w, name=None):
        n = self._node(path, fd, None, follow)
        if name is not None and name.startswith(b'user.') and n.kind == 'l':
            raise oserr(E.EPERM if w else E.ENODATA)
        if not self._may(self.cur, n, 2 if w else 4):
            raise oserr(E.EACCES)
        return n

    def _xname(self, name):
        if len(name) > 255:
            raise oserr(E.ERANGE)
        if not name.startswith((b'user.', b'trusted.', b'security.', b'system.')):
            raise oserr(E.ENOTSUP)
        if name == b'user.':
            raise oserr(E.EINVAL)

    def getxattr(self, path, name, fd=None, follow=True):
        f = self.step('getxattr', path, name, paths=())
        n = self._xnode(path, fd, follow, False, name)
        self._xname(name)
        if name not in n.xattrs:
            raise oserr(E.ENODATA)
        v = n.xattrs[name]
        return v

    def listxattr(self, path, fd=None, follow=True):
        self.step('listxattr', path, paths=())
        n = self._node(path, fd, None, follow)
        return list(n.xattrs)

    def setxattr(self, path, name, value, flags=0, fd=None, follow=True):
        f = self.step('setxattr', path, name, paths=())
        n = self._xnode(path, fd, follow, True, name)
        self._xname(name)
        if n.dev in self.read_only_devs:
            raise oserr(E.EROFS)
        if len(value) > 65536:
            raise oserr(E.E2BIG)
        if flags & 1 and name in n.xattrs:
            raise oserr(E.EEXIST)
        if flags & 2 and name not in n.xattrs:
            raise oserr(E.ENODATA)
        n.xattrs[name] = bytes(value)
        n.ctime = self.now
        self.done('setxattr', f)

    def removexattr(self, path, name, fd=None, follow=True):
        f = self.step('removexattr', path, name, paths=())
        n = self._xnode(path, fd, follow, True, name)
        self._xname(name)
        if name not in n.xattrs:
            raise oserr(E.ENODATA)
        del n.xattrs[name]
        n.ctime = self.now
        self.done('removexattr', f)

    def sendfile(self, out_fd, in_fd, offset, count):
        f = self.step('sendfile', count, paths=())
        hi, ho = self._h(in_fd), self._h(out_fd)
        if hi.inode.kind != 'f' or ho.inode.kind != 'f':
            raise oserr(E.EINVAL)
        at = hi.pos if offset is None else offset
        d = bytes(hi.inode.data[at:at + count])
        n = len(d)
        if f is not None and f['kind'] == 'short' and n > 1:
            n = max(1, min(n - 1, f.get('n', 1)))
            self.fire('short_write')
        torn = f is not None and f['kind'] == 'torn'
        if torn:
            n = min(n, f.get('n', n // 2))
        grow = max(0, ho.pos + n - len(ho.inode.data))
        if self.nospace is not None and grow:
            if self.nospace <= 0:
                self.fire('disk_full')
                raise oserr(E.ENOSPC)
            if grow > self.nospace:
                n -= grow - self.nospace
                grow = self.nospace
            self.nospace -= grow
        if n:
            ho.inode.data[ho.pos:ho.pos + n] = d[:n]
            ho.inode.mtime = ho.inode.ctime = self.now
        ho.pos += n
        if offset is None:
            hi.pos += n
        if torn:
            self.fire('torn')
            self.crash()
        self.done('sendfile', f)
        return n

    # -- harness-side helpers (no steps, no faults, no permissions) --------------
    def h_walk(self, path, follow=False):
        boss = Proc(self, 'harness', uid=0)
        return self._walk(boss, path, None, follow)

    def h_get(self, path, follow=False):
        try:
            return self.h_walk(path, follow)[2]
        except OSError:
            return None

    def h_mkdir(self, path, mode=0o755, uid=1000, dev=None):
        if path == '/':
            return self.root
        n = self.h_get(path, follow=True)
        if n is not None:
            return n
        parent = self.h_mkdir(path.rsplit('/', 1)[0] or '/')
        name = path.rsplit('/', 1)[1]
        ino = self.nextino
        self.nextino += 1
        n = Inode(ino, 'd', mode, uid, uid, parent.dev if dev is None else dev, self.now)
        n.nlink = 2
        self._link_in(parent, name, n)
        return n

    def h_put(self, path, data=b'', mode=0o644, uid=1000, xattrs=None):
        parent, name, node = self.h_walk(path)
        if node is None:
            ino = self.nextino
            self.nextino += 1
            node = Inode(ino, 'f', mode, uid, uid, parent.dev, self.now)
            self._link_in(parent, name, node)
        node.data[:] = data
        node.mtime = node.ctime = self.now
        if xattrs:
            node.xattrs.update(xattrs)
        return node

    def h_link(self, path, target, uid=1000):
        parent, name, node = self.h_walk(path)
        assert node is None, path
        ino = self.nextino
        self.nextino += 1
        node = Inode(ino, 'l', 0o777, uid, uid, parent.dev, self.now)
        node.target = target
        self._link_in(parent, name, node)
        return node

    def h_rm(self, path):
        parent, name, node = self.h_walk(path)
        self._link_out(parent, name)
        node.nlink -= 1

    def h_mount(self, path, dev):
        n = self.h_mkdir(path, dev=dev)
        n.dev = dev
        return n

    def snap(self, path='/', ino=True, xattrs=True, times=False, mode=False):
        """{relative path: (kind, ino, content, xattrs...)} of the subtree, a plain value."""
        base = self.h_get(path)
        out = {}
        if base is None:
            return out

        def rec(node, rel):
            d = [node.kind]
            if ino:
                d.append(node.ino)
            if node.kind == 'f':
                d.append(bytes(node.data))
            elif node.kind == 'l':
                d.append(node.target)
            if xattrs:
                d.append(tuple(sorted(node.xattrs.items())))
            if mode:
                d.append(node.mode)
            if times:
                d.append((node.mtime,))
            out[rel] = tuple(d)
            if node.kind == 'd':
                for name, child in node.entries.items():
                    rec(child, f'{rel}/{name}' if rel else name)
        rec(base, '')
        return out


class _Quiet:
    def __init__(self, k):
        self.k = k

    def __enter__(self):
        self.p = self.k.cur
        self.p.quiet += 1

    def __exit__(self, *a):
        self.p.quiet -= 1
