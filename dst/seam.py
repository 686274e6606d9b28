"""The seam: routes every operating-system facility that the code under test
can reach to the simulated kernel while one is active (`activate(kernel)`),
and to the real system otherwise.

Real paths stay readable for the interpreter's own files (PASS prefixes); an
attempt to change anything outside the simulation is a SimEscape, never an
effect.
"""
import builtins
import collections
import ctypes
import errno as E
import io
import os
import stat as S
import subprocess
import sys
import tempfile
import time

from . import simfs
from .simfs import FD_BASE, SimCrash, SimEscape, oserr

PASS = ('/usr', '/opt', '/lib', '/lib64', '/repo', '/verif', '/proc', '/dev', '/sys',
        os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + \
    tuple(x for x in (os.environ.get('DST_REPO'),) if x)
AT_FDCWD = -100

K = None            # the active kernel
REAL = {}           # real functions by name
_installed = False


def activate(kernel):
    global K
    K = kernel


def passthru(path):
    for p in PASS:
        if path == p or path.startswith(p + '/'):
            return True
    return False


def _fs(path):
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p


def _kind(path, dir_fd=None):
    """-> 'sim' or 'real' for a path argument"""
    if K is None:
        return 'real'
    if isinstance(path, int):
        return 'sim' if path >= FD_BASE else 'real'
    p = _fs(path)
    if p.startswith('/'):
        return 'real' if passthru(p) else 'sim'
    if dir_fd is not None and 0 <= dir_fd < FD_BASE:
        return 'real'
    return 'sim'


def _escape(name, *args):
    if K is not None and K.cur.dead:
        raise SimCrash(K.cur.name)
    raise SimEscape(f'{name}{args!r}')


def stat_result(n):
    def f(ns):
        return ns / 1e9
    return os.stat_result((
        n.st_mode, n.ino, n.dev, n.nlink, n.uid, n.gid, n.size,
        n.atime // 10**9, n.mtime // 10**9, n.ctime // 10**9,
        f(n.atime), f(n.mtime), f(n.ctime), n.atime, n.mtime, n.ctime,
        K.blksize, (n.size + 511) // 512, 0))


# -- os functions -------------------------------------------------------------

def w_stat(path, *, dir_fd=None, follow_symlinks=True):
    if _kind(path, dir_fd) == 'real':
        return REAL['stat'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    if isinstance(path, int):
        return stat_result(K.fstat(path))
    return stat_result(K.stat(_fs(path), dir_fd, follow_symlinks))


def w_lstat(path, *, dir_fd=None):
    if _kind(path, dir_fd) == 'real':
        return REAL['lstat'](path, dir_fd=dir_fd)
    return stat_result(K.stat(_fs(path), dir_fd, False))


def w_fstat(fd):
    if _kind(fd) == 'real':
        return REAL['fstat'](fd)
    return stat_result(K.fstat(fd))


def w_access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    if _kind(path, dir_fd) == 'real':
        return REAL['access'](path, mode, dir_fd=dir_fd, effective_ids=effective_ids,
                              follow_symlinks=follow_symlinks)
    try:
        return K.access(_fs(path), mode, dir_fd, follow_symlinks)
    except OSError:
        return False


def _mut(name, path, dir_fd=None):
    if K is None:
        return False
    if _kind(path, dir_fd) == 'real':
        _escape(name, path)
    return True


def w_mkdir(path, mode=0o777, *, dir_fd=None):
    if not _mut('mkdir', path, dir_fd):
        return REAL['mkdir'](path, mode, dir_fd=dir_fd)
    K.mkdir(_fs(path), mode, dir_fd)


def w_rmdir(path, *, dir_fd=None):
    if not _mut('rmdir', path, dir_fd):
        return REAL['rmdir'](path, dir_fd=dir_fd)
    K.rmdir(_fs(path), dir_fd)


def w_unlink(path, *, dir_fd=None):
    if not _mut('unlink', path, dir_fd):
        return REAL['unlink'](path, dir_fd=dir_fd)
    K.unlink(_fs(path), dir_fd)


def w_remove(path, *, dir_fd=None):
    return w_unlink(path, dir_fd=dir_fd)


def w_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    if not _mut('rename', src, src_dir_fd):
        return REAL['rename'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
    _mut('rename', dst, dst_dir_fd)
    K.rename(_fs(src), _fs(dst), src_dir_fd, dst_dir_fd)


def w_replace(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    return w_rename(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)


def w_link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
    if not _mut('link', dst, dst_dir_fd):
        return REAL['link'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd,
                            follow_symlinks=follow_symlinks)
    # linux link(2) does not follow, python's default follow_symlinks=True uses it anyway
    K.link(_fs(src), _fs(dst), src_dir_fd, dst_dir_fd, False)


def w_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    if not _mut('symlink', dst, dir_fd):
        return REAL['symlink'](src, dst, target_is_directory, dir_fd=dir_fd)
    K.symlink(_fs(src), _fs(dst), dir_fd)


def w_readlink(path, *, dir_fd=None):
    if _kind(path, dir_fd) == 'real':
        return REAL['readlink'](path, dir_fd=dir_fd)
    r = K.readlink(_fs(path), dir_fd)
    return os.fsencode(r) if isinstance(os.fspath(path), bytes) else r


class SimDirEntry:
    __slots__ = ('name', 'path', '_n', '_fd')

    def __init__(self, name, path, n, fd=None):
        self.name = name
        self.path = path
        self._n = n
        self._fd = fd

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return f'<DirEntry {self.name!r}>'

    def inode(self):
        return self._n.ino

    def _at(self):
        return (self.name, self._fd) if self._fd is not None else (self.path, None)

    def is_symlink(self):
        return self._n.kind == 'l'

    def is_junction(self):
        return False

    def _is(self, kind, follow):
        if self._n.kind != 'l' or not follow:
            return self._n.kind == kind
        p, fd = self._at()
        try:
            return K.stat(p, fd, True).kind == kind
        except FileNotFoundError:
            return False

    def is_dir(self, *, follow_symlinks=True):
        return self._is('d', follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        return self._is('f', follow_symlinks)

    def stat(self, *, follow_symlinks=True):
        p, fd = self._at()
        return stat_result(K.stat(p, fd, follow_symlinks))


class SimScandir:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def w_scandir(path='.'):
    if path is None:
        path = '.'
    if _kind(path) == 'real':
        return REAL['scandir'](path)
    if isinstance(path, int):
        return SimScandir([SimDirEntry(n, n, i, path) for n, i in K.getdents(fd=path)])
    p = _fs(path)
    b = isinstance(os.fspath(path), bytes)
    out = []
    for n, i in K.getdents(p):
        e = p + n if p.endswith('/') else p + '/' + n
        out.append(SimDirEntry(os.fsencode(n) if b else n, os.fsencode(e) if b else e, i))
    return SimScandir(out)


def w_listdir(path='.'):
    if path is None:
        path = '.'
    if _kind(path) == 'real':
        return REAL['listdir'](path)
    if isinstance(path, int):
        return [n for n, _ in K.getdents(fd=path)]
    names = [n for n, _ in K.getdents(_fs(path))]
    if isinstance(os.fspath(path), bytes):
        names = [os.fsencode(n) for n in names]
    return names


def w_chdir(path):
    if K is None:
        return REAL['chdir'](path)
    if isinstance(path, int):
        if path < FD_BASE:
            _escape('chdir', path)
        return K.chdir(fd=path)
    K.chdir(_fs(path))


def w_fchdir(fd):
    return w_chdir(fd)


def w_getcwd():
    if K is None:
        return REAL['getcwd']()
    return K.getcwd()


def w_getcwdb():
    return os.fsencode(w_getcwd())


def w_open(path, flags, mode=0o777, *, dir_fd=None):
    if _kind(path, dir_fd) == 'real':
        if K is not None and flags & (os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_RDWR) \
           and _fs(path) not in ('/dev/null', '/dev/tty'):
            _escape('open', path, flags)
        return REAL['open'](path, flags, mode, dir_fd=dir_fd)
    return K.open(_fs(path), flags, mode, dir_fd)


def w_close(fd):
    if _kind(fd) == 'real':
        return REAL['close'](fd)
    K.close(fd)


def w_read(fd, n):
    if _kind(fd) == 'real':
        return REAL['read'](fd, n)
    return _retry(K.read, fd, n)


def w_pread(fd, n, off):
    if _kind(fd) == 'real':
        return REAL['pread'](fd, n, off)
    return _retry(K.read, fd, n, off)


def _retry(fn, *a):
    # PEP 475: the interpreter retries EINTR
    while True:
        try:
            return fn(*a)
        except InterruptedError:
            continue


def w_write(fd, b):
    if _kind(fd) == 'real':
        return REAL['write'](fd, b)
    return _retry(K.write, fd, bytes(b))


def w_pwrite(fd, b, off):
    if _kind(fd) == 'real':
        return REAL['pwrite'](fd, b, off)
    return _retry(K.write, fd, bytes(b), off)


def w_lseek(fd, pos, how):
    if _kind(fd) == 'real':
        return REAL['lseek'](fd, pos, how)
    return K.lseek(fd, pos, how)


def w_truncate(path, length):
    if isinstance(path, int):
        return w_ftruncate(path, length)
    if not _mut('truncate', path):
        return REAL['truncate'](path, length)
    K.truncate(path=_fs(path), n=length)


def w_ftruncate(fd, length):
    if _kind(fd) == 'real':
        return REAL['ftruncate'](fd, length)
    K.truncate(fd=fd, n=length)


def w_fsync(fd):
    fd = fd if isinstance(fd, int) else fd.fileno()
    if _kind(fd) == 'real':
        return REAL['fsync'](fd)
    K.step('fsync')
    K._h(fd)


def w_isatty(fd):
    if _kind(fd) == 'real':
        return REAL['isatty'](fd)
    return False


def w_dup(fd):
    if _kind(fd) == 'real':
        return REAL['dup'](fd)
    h = K._h(fd)
    n = K.nextfd
    K.nextfd += 1
    K.cur.fds[n] = h
    return n


def w_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    if not _mut('chmod', path, dir_fd):
        return REAL['chmod'](path, mode, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    if isinstance(path, int):
        return K.chmod(fd=path, mode=mode)
    if not follow_symlinks:
        raise NotImplementedError('chmod: follow_symlinks unavailable on this platform')
    K.chmod(_fs(path), None, mode, dir_fd, follow_symlinks)


def w_fchmod(fd, mode):
    if _kind(fd) == 'real':
        return REAL['fchmod'](fd, mode)
    K.chmod(fd=fd, mode=mode)


def w_chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
    if not _mut('chown', path, dir_fd):
        return REAL['chown'](path, uid, gid, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    if isinstance(path, int):
        return K.chown(fd=path, uid=uid, gid=gid)
    K.chown(_fs(path), None, uid, gid, dir_fd, follow_symlinks)


def w_lchown(path, uid, gid):
    return w_chown(path, uid, gid, follow_symlinks=False)


def w_fchown(fd, uid, gid):
    return w_chown(fd, uid, gid)


def w_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    if not _mut('utime', path, dir_fd):
        kw = {} if ns is None else {'ns': ns}
        return REAL['utime'](path, times, dir_fd=dir_fd, follow_symlinks=follow_symlinks, **kw) \
            if ns is None else REAL['utime'](path, ns=ns, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    if times is not None:
        ns = tuple(int(t * 10**9) for t in times)
    if isinstance(path, int):
        return K.utime(fd=path, ns=ns)
    K.utime(_fs(path), None, ns, dir_fd, follow_symlinks)


def _xn(name):
    return name if isinstance(name, bytes) else os.fsencode(name)


def _xcall(fn, path, *a, **kw):
    if hasattr(path, 'fileno'):
        path = path.fileno()
    if isinstance(path, int):
        return fn(None, *a, fd=path, **kw)
    return fn(_fs(path), *a, **kw)


def w_getxattr(path, attribute, *, follow_symlinks=True):
    if _kind(path) == 'real':
        return REAL['getxattr'](path, attribute, follow_symlinks=follow_symlinks)
    try:
        return _xcall(K.getxattr, path, _xn(attribute), follow=follow_symlinks)
    except OSError as e:
        raise oserr(e.errno, path) from None


def w_listxattr(path=None, *, follow_symlinks=True):
    if path is None:
        path = '.'
    if _kind(path) == 'real':
        return REAL['listxattr'](path, follow_symlinks=follow_symlinks)
    try:
        return [os.fsdecode(n) for n in _xcall(K.listxattr, path, follow=follow_symlinks)]
    except OSError as e:
        raise oserr(e.errno, path) from None


def w_setxattr(path, attribute, value, flags=0, *, follow_symlinks=True):
    if not _mut('setxattr', path):
        return REAL['setxattr'](path, attribute, value, flags, follow_symlinks=follow_symlinks)
    try:
        _xcall(K.setxattr, path, _xn(attribute), bytes(value), flags, follow=follow_symlinks)
    except OSError as e:
        raise oserr(e.errno, path) from None


def w_removexattr(path, attribute, *, follow_symlinks=True):
    if not _mut('removexattr', path):
        return REAL['removexattr'](path, attribute, follow_symlinks=follow_symlinks)
    try:
        _xcall(K.removexattr, path, _xn(attribute), follow=follow_symlinks)
    except OSError as e:
        raise oserr(e.errno, path) from None


def w_sendfile(out_fd, in_fd, offset, count, *a, **kw):
    if _kind(out_fd) == 'real' and _kind(in_fd) == 'real':
        return REAL['sendfile'](out_fd, in_fd, offset, count, *a, **kw)
    if _kind(out_fd) == 'real' or _kind(in_fd) == 'real':
        raise oserr(E.EINVAL)
    return _retry(K.sendfile, out_fd, in_fd, offset, count)


def w_copy_file_range(src, dst, count, offset_src=None, offset_dst=None):
    if _kind(src) == 'real':
        return REAL['copy_file_range'](src, dst, count, offset_src, offset_dst)
    raise oserr(E.ENOSYS)


def w_umask(mask):
    if K is None:
        return REAL['umask'](mask)
    old, K.cur.umask = K.cur.umask, mask & 0o777
    return old


def w_urandom(n):
    if K is None:
        return REAL['urandom'](n)
    return K.urandom(n)


def w_getuid():
    return REAL['getuid']() if K is None else K.cur.uid


def w_getgid():
    return REAL['getgid']() if K is None else K.cur.gid


def w_statvfs(path):
    if _kind(path) == 'real':
        return REAL['statvfs'](path)
    raise oserr(E.ENOSYS)


OS_WRAP = {n[2:]: f for n, f in list(globals().items()) if n.startswith('w_')}
OS_WRAP['fdatasync'] = w_fsync
OS_WRAP['geteuid'] = w_getuid
OS_WRAP['getegid'] = w_getgid

# system calls the simulator does not model: an attempt is a loud error
OS_DENY = ('mkfifo', 'mknod', 'chroot', 'kill', 'killpg', 'system', 'posix_spawn',
           'posix_spawnp', 'execv', 'execve', 'execvp', 'execvpe', 'fork', 'forkpty',
           'memfd_create', 'splice', 'preadv', 'pwritev', 'readv', 'writev',
           'posix_fallocate', 'setuid', 'setgid', 'seteuid', 'setegid', 'setxuid')


def _deny(name):
    real = REAL[name]

    def denied(*a, **kw):
        if K is None:
            return real(*a, **kw)
        _escape(name, *a)
    denied.__name__ = name
    return denied


# -- open -----------------------------------------------------------------------

class SimFileIO(io.RawIOBase):
    def __init__(self, fd, mode, name, closefd=True):
        self._fd = fd
        self._proc = K.cur
        self._k = K
        self._mode = mode
        self.name = name
        self._closefd = closefd
        self._r = 'r' in mode or '+' in mode
        self._w = any(c in mode for c in 'wax+')

    @property
    def mode(self):
        return self._mode

    @property
    def closefd(self):
        return self._closefd

    def _as(self, fn, *a):
        # handles belong to the process that opened them, dead or alive
        if self.closed:
            raise ValueError('I/O operation on closed file')
        k = self._k
        prev = k.cur
        if prev is self._proc:
            return fn(*a)
        k.cur = self._proc
        try:
            return fn(*a)
        finally:
            k.cur = prev

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        d = self._as(_retry, self._k.read, self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        out = []
        while True:
            d = self._as(_retry, self._k.read, self._fd, 65536)
            if not d:
                return b''.join(out)
            out.append(d)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        return self._as(_retry, self._k.write, self._fd, bytes(b))

    def seek(self, pos, whence=0):
        return self._as(self._k.lseek, self._fd, pos, whence)

    def tell(self):
        return self._as(self._k.lseek, self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._as(lambda: self._k.truncate(fd=self._fd, n=size))
        return size

    def close(self):
        if self.closed:
            return
        try:
            if self._closefd and not self._proc.dead and self._fd in self._proc.fds:
                self._as(self._k.close, self._fd)
        finally:
            super().close()

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass


_MODES = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
          'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
          'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if not isinstance(file, int):
        file = os.fspath(file)
    if _kind(file) == 'real':
        if K is not None and not isinstance(file, int) and any(c in mode for c in 'wax+') \
           and _fs(file) not in ('/dev/null',):
            _escape('open', file, mode)
        return REAL['io.open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode)
    if m - set('axrwb+tU') or len(mode) > len(m):
        raise ValueError(f'invalid mode: {mode!r}')
    base = [c for c in 'rwax' if c in m]
    if len(base) != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    text = 'b' not in m
    if 'b' in m and 't' in m:
        raise ValueError("can't have text and binary mode at once")
    if not text and (encoding is not None or errors is not None or newline is not None):
        raise ValueError('binary mode takes no encoding/errors/newline')
    flags = _MODES[base[0]] | os.O_CLOEXEC
    if '+' in m:
        flags = (flags & ~os.O_ACCMODE) | os.O_RDWR
    if isinstance(file, int):
        fd = file
        K._h(fd)
    elif opener is not None:
        fd = opener(file, flags)
    else:
        fd = K.open(_fs(file), flags, 0o666)
    if K._h(fd).inode.kind == 'd':
        if not isinstance(file, int):
            K.close(fd)
        raise oserr(E.EISDIR, file)
    raw = SimFileIO(fd, base[0] + ('+' if '+' in m else '') + 'b', file, closefd)
    if base[0] == 'a':
        raw.seek(0, 2)
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bs = K.blksize if buffering in (-1, 1) else buffering
    if '+' in m:
        buf = io.BufferedRandom(raw, bs)
    elif base[0] == 'r':
        buf = io.BufferedReader(raw, bs)
    else:
        buf = io.BufferedWriter(raw, bs)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
    t.mode = mode
    return t


class _FileIOMeta(type(io.FileIO)):
    pass


# -- xattr module (pyxattr) -------------------------------------------------------

def _xname(name, namespace):
    name = _xn(name)
    if namespace:
        ns = _xn(namespace)
        name = ns + b'.' + name
    return name


def _xitem(item):
    if hasattr(item, 'fileno'):
        item = item.fileno()
    return item


def x_get(item, name, nofollow=False, namespace=None):
    item = _xitem(item)
    if _kind(item) == 'real':
        return REAL['xattr.get'](item, name, nofollow, **_ns(namespace))
    return _xcall(K.getxattr, item, _xname(name, namespace), follow=not nofollow)


def _ns(namespace):
    return {} if namespace is None else {'namespace': namespace}


def x_get_all(item, nofollow=False, namespace=None):
    item = _xitem(item)
    if _kind(item) == 'real':
        return REAL['xattr.get_all'](item, nofollow, **_ns(namespace))
    out = []
    ns = _xn(namespace) + b'.' if namespace else b''
    for n in _xcall(K.listxattr, item, follow=not nofollow):
        if not n.startswith(ns):
            continue
        try:
            v = _xcall(K.getxattr, item, n, follow=not nofollow)
        except OSError as e:
            if e.errno == E.ENODATA:
                continue
            raise
        out.append((n[len(ns):], v))
    return out


def x_list(item, nofollow=False, namespace=None):
    item = _xitem(item)
    if _kind(item) == 'real':
        return REAL['xattr.list'](item, nofollow, **_ns(namespace))
    ns = _xn(namespace) + b'.' if namespace else b''
    return [n[len(ns):] for n in _xcall(K.listxattr, item, follow=not nofollow)
            if n.startswith(ns)]


def x_set(item, name, value, flags=0, nofollow=False, namespace=None):
    item = _xitem(item)
    if not _mut('setxattr', item):
        return REAL['xattr.set'](item, name, value, flags, nofollow, **_ns(namespace))
    if isinstance(value, str):
        value = value.encode()
    _xcall(K.setxattr, item, _xname(name, namespace), value, flags, follow=not nofollow)


def x_remove(item, name, nofollow=False, namespace=None):
    item = _xitem(item)
    if not _mut('removexattr', item):
        return REAL['xattr.remove'](item, name, nofollow, **_ns(namespace))
    _xcall(K.removexattr, item, _xname(name, namespace), follow=not nofollow)


# -- libc through ctypes ------------------------------------------------------------

SYS_renameat2 = 316
SYS_renameat = 264
SYS_rename = 82


def _val(a):
    return getattr(a, 'value', a)


def _cpath(a):
    a = _val(a)
    if isinstance(a, str):
        a = a.encode()
    if b'\0' in a:
        a = a.split(b'\0')[0]
    return os.fsdecode(a)


class FakeFn:
    def __init__(self, name, real):
        self.__dict__['_name'] = name
        self.__dict__['_real'] = real

    def __setattr__(self, k, v):
        self.__dict__[k] = v
        setattr(self._real, k, v)

    def __getattr__(self, k):
        return getattr(self._real, k)

    def __call__(self, *args):
        if K is None:
            return self._real(*args)
        name = self._name
        if name == 'syscall':
            nr, args = _val(args[0]), args[1:]
            name = {SYS_renameat2: 'renameat2', SYS_renameat: 'renameat', SYS_rename: 'rename'}.get(nr)
        try:
            if name == 'rename':
                o, n, od, nd, fl = _cpath(args[0]), _cpath(args[1]), None, None, 0
            elif name == 'renameat':
                od, o, nd, n = _val(args[0]), _cpath(args[1]), _val(args[2]), _cpath(args[3])
                fl = 0
            elif name == 'renameat2':
                od, o, nd, n, fl = (_val(args[0]), _cpath(args[1]), _val(args[2]),
                                    _cpath(args[3]), _val(args[4]))
            else:
                _escape('libc', self._name, args)
            for p in (o, n):
                if p.startswith('/') and passthru(p):
                    _escape('libc', self._name, args)
            K.rename(o, n, od, nd, fl)
            return 0
        except OSError as e:
            ctypes.set_errno(e.errno)
            K.errno = e.errno
            return -1


LIBC_FAKED = ('syscall', 'renameat2', 'renameat', 'rename')


class FakeLibc:
    def __init__(self, real):
        self.__dict__['_real'] = real
        self.__dict__['_fns'] = {}

    def __getattr__(self, name):
        if name in LIBC_FAKED:
            fn = self._fns.get(name)
            if fn is None:
                fn = self._fns[name] = FakeFn(name, getattr(self._real, name))
            return fn
        return getattr(self._real, name)

    def __getitem__(self, name):
        return getattr(self, name)


# -- time, names, processes ------------------------------------------------------------

def t_time():
    return REAL['time.time']() if K is None else K.now / 1e9


def t_time_ns():
    return REAL['time.time_ns']() if K is None else K.now


def t_monotonic():
    return REAL['time.monotonic']() if K is None else K.simtime / 1e9


def t_monotonic_ns():
    return REAL['time.monotonic_ns']() if K is None else K.simtime


def t_sleep(s):
    if K is None:
        return REAL['time.sleep'](s)
    K.step('sleep', s)
    K.now += int(s * 1e9)
    K.simtime += int(s * 1e9)


class SimNames:
    def __iter__(self):
        return self

    def __next__(self):
        return K.urandom(4).hex()


class SimPopen:
    """Base for simulated child processes (see K.popen)."""


RealPopen = subprocess.Popen


class PopenGate(RealPopen):
    def __new__(cls, *a, **kw):
        if K is None:
            return object.__new__(cls)
        h = getattr(K, 'popen', None)
        if h is None:
            _escape('Popen', a)
        return h(*a, **kw)

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)


def install():
    """Patch once per process, before augpathlib is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    import xattr
    import uuid
    import random
    for n, f in OS_WRAP.items():
        if not hasattr(os, n):
            continue
        real = REAL[n] = getattr(os, n)
        f.__name__ = n
        setattr(os, n, f)
        for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks,
                  os.supports_effective_ids):
            if real in s:
                s.add(f)
    for n in OS_DENY:
        if hasattr(os, n):
            REAL[n] = getattr(os, n)
            setattr(os, n, _deny(n))
    REAL['io.open'] = io.open
    io.open = sim_open
    builtins.open = sim_open
    for n, f in (('get', x_get), ('get_all', x_get_all), ('list', x_list),
                 ('set', x_set), ('remove', x_remove)):
        REAL['xattr.' + n] = getattr(xattr, n)
        setattr(xattr, n, f)
    xattr.getxattr, xattr.setxattr = x_get, x_set
    xattr.listxattr, xattr.removexattr = x_list, x_remove
    RealCDLL = ctypes.CDLL

    class CDLL(RealCDLL):
        def __new__(cls, name=None, *a, **kw):
            if name is None or (isinstance(name, str) and name.startswith('libc.so')):
                return FakeLibc(RealCDLL(name, *a, **kw))
            return RealCDLL.__new__(cls)
    ctypes.CDLL = CDLL
    for n, f in (('time', t_time), ('time_ns', t_time_ns), ('monotonic', t_monotonic),
                 ('monotonic_ns', t_monotonic_ns), ('perf_counter', t_monotonic),
                 ('sleep', t_sleep)):
        REAL['time.' + n] = getattr(time, n)
        setattr(time, n, f)
    real_cand = tempfile._get_candidate_names
    tempfile._get_candidate_names = lambda: SimNames() if K is not None else real_cand()
    real_gtd = tempfile._gettempdir
    tempfile._gettempdir = lambda: '/tmp' if K is not None else real_gtd()
    tempfile._os = os
    subprocess.Popen = PopenGate
    random._urandom = w_urandom
    uuid.os = os
    # errors of dead processes' finalizers are not news
    prev = sys.unraisablehook

    def hook(u):
        if isinstance(u.exc_value, (SimCrash, SimEscape)) or K is not None:
            return
        prev(u)
    sys.unraisablehook = hook


# -- stat(1), which the library runs when stat(2) fails -------------------------------

class FakeChild:
    """A finished child process."""
    pid = 424242
    stdin = None

    def __init__(self, out=b'', err=b'', rc=0):
        self._out, self._err = out, err
        self.returncode = rc
        self.stdout = io.BytesIO(out)
        self.stderr = io.BytesIO(err)

    def communicate(self, input=None, timeout=None):
        return self._out, self._err

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def format_stat(name, st, fmt):
    import datetime

    def human(ns):
        s, n = divmod(ns, 10**9)
        d = datetime.datetime.fromtimestamp(s, datetime.timezone.utc)
        return f'{d:%Y-%m-%d %H:%M:%S}.{n:09d} +0000'
    m = {'%n': name, '%i': st.st_ino, '%o': st.st_blksize, '%s': st.st_size, '%w': '-', '%W': 0,
         '%x': human(st.st_atime_ns), '%X': st.st_atime_ns // 10**9,
         '%y': human(st.st_mtime_ns), '%Y': st.st_mtime_ns // 10**9,
         '%z': human(st.st_ctime_ns), '%Z': st.st_ctime_ns // 10**9,
         '%g': st.st_gid, '%u': st.st_uid, '%f': f'{st.st_mode:x}'}
    import re
    return re.sub('%[a-zA-Z]', lambda g: str(m[g.group(0)]), fmt)


def stat_command(k, args):
    k.step('exec', tuple(os.fspath(a) for a in args))
    if not isinstance(args, (list, tuple)) or args[0] != 'stat':
        raise SimEscape(f'exec {args!r}')
    rest = list(args[1:])
    follow = '-L' in rest
    fmt = path = None
    while rest:
        a = rest.pop(0)
        if a == '-c':
            fmt = rest.pop(0)
        elif a.startswith('--format='):
            fmt = a[9:]
        elif not a.startswith('-'):
            path = a
    try:
        n = k._lookup(k.cur, path, None, follow)
    except OSError as e:
        return FakeChild(b'', f'stat: cannot statx {path!r}: {e.strerror}\n'.encode(), 1)
    return FakeChild(format_stat(path, stat_result(n), fmt).encode('utf-8', 'surrogateescape') + b'\n')
