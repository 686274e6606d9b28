#!/opt/venv/bin/python
"""Differential test of the simulated file system against the kernel this runs on.

Seeded random sequences of system calls are made twice, through the seam into the
simulated kernel and for real, by an unprivileged user in a scratch directory; every
outcome (value or errno) and the trees afterwards have to be the same.

  tools/selftest.py [SEQUENCES] [SEED]
"""
import ctypes
import errno
import os
import pickle
import random
import shutil
import stat
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from dst import run as dstrun, seam  # noqa: E402
from dst.simfs import Kernel, Proc  # noqa: E402

import xattr  # noqa: E402  (the module is patched by the seam)

NAMES = ['a', 'b', 'c', 'l', 'x y']
UID = 65534
DEEP = '1234567t'     # links and '..' lead out of t, to directories of root


def gen(rng, n):
    def path(depth=3):
        parts = [rng.choice(NAMES + ['.', '..'] * (rng.random() < 0.15)) for _ in range(rng.randint(1, depth))]
        return '/'.join(parts) + ('/' if rng.random() < 0.04 else '')
    ops = []
    for _ in range(n):
        k = rng.choice(('mkdir', 'mkdir', 'mkdir', 'rmdir', 'unlink', 'rename', 'rename', 'rename', 'exchange', 'exchange',
                        'noreplace', 'link', 'symlink', 'symlink', 'readlink', 'stat', 'lstat', 'access', 'listdir',
                        'write', 'write', 'write', 'read', 'append', 'excl', 'truncate', 'chmod', 'setx', 'setx',
                        'getx', 'listx', 'delx', 'chdir', 'nofollow', 'opendir', 'holes', 'unlinked', 'utime'))
        ops.append([k, path(), path(), rng.randrange(12), rng.choice((0o755, 0o755, 0o755, 0o555, 0o000, 0o644, 0o333))])
    return ops


def symtarget(p, n):
    return {0: '.', 1: '..', 2: 'nowhere', 3: p.split('/')[-1] + '/under'}.get(n, p)


def perform(ops, exchange, cwd):
    out = []
    for k, p, q, n, mode in ops:
        if p.count('..') or k in ('rename', 'exchange', 'link') and q.count('..'):
            # never above the top
            depth, low = 0, 0
            for s in (p + '/' + q).split('/'):
                depth += -1 if s == '..' else (s not in ('', '.'))
                low = min(low, depth)
            if low < 0:
                out.append('skipped')
                continue
        try:
            v = one(k, p, q, n, mode, exchange, cwd)
        except OSError as e:
            v = errno.errorcode.get(e.errno, e.errno)
        out.append(v)
    return out


def rfile(fd):
    try:
        return os.read(fd, 1000)
    finally:
        os.close(fd)


def one(k, p, q, n, mode, exchange, cwd):
    data = bytes([65 + n]) * (n * 3)
    if k == 'mkdir':
        os.mkdir(p)
    elif k == 'rmdir':
        os.rmdir(p)
    elif k == 'unlink':
        os.unlink(p)
    elif k == 'rename':
        os.rename(p, q)
    elif k in ('exchange', 'noreplace'):
        exchange(p, q, 2 if k == 'exchange' else 1)
    elif k == 'link':
        os.link(p, q, follow_symlinks=False)
    elif k == 'symlink':
        os.symlink(symtarget(p, n), q)
    elif k == 'readlink':
        return os.readlink(p)
    elif k in ('stat', 'lstat'):
        s = getattr(os, k)(p)
        return stat.S_IFMT(s.st_mode), s.st_mode & 0o777, s.st_nlink if not stat.S_ISDIR(s.st_mode) else 0, \
            s.st_size if stat.S_ISREG(s.st_mode) else 0, s.st_uid == UID or s.st_uid == 1000
    elif k == 'access':
        return os.access(p, n % 8)
    elif k == 'listdir':
        return sorted(os.listdir(p))
    elif k in ('write', 'append', 'excl', 'nofollow'):
        fl = {'write': os.O_TRUNC, 'append': os.O_APPEND, 'excl': os.O_EXCL, 'nofollow': os.O_NOFOLLOW}[k]
        fd = os.open(p, os.O_WRONLY | os.O_CREAT | fl, 0o644)
        try:
            return os.write(fd, data)
        finally:
            os.close(fd)
    elif k == 'read':
        return rfile(os.open(p, os.O_RDONLY))
    elif k == 'opendir':
        fd = os.open(p, os.O_RDONLY | os.O_DIRECTORY)
        os.close(fd)
    elif k == 'truncate':
        os.truncate(p, n)
    elif k == 'holes':
        fd = os.open(p, os.O_RDWR)
        try:
            os.lseek(fd, n, os.SEEK_SET)
            os.write(fd, b'zz')
            os.lseek(fd, 0, os.SEEK_SET)
            return os.read(fd, 100), os.lseek(fd, -1, os.SEEK_END), os.pread(fd, 3, 1)
        finally:
            os.close(fd)
    elif k == 'unlinked':
        fd = os.open(p, os.O_RDWR)
        try:
            os.unlink(p)
            os.write(fd, data)
            os.lseek(fd, 0, 0)
            return os.read(fd, 100), os.fstat(fd).st_nlink
        finally:
            os.close(fd)
    elif k == 'chmod':
        os.chmod(p, mode)
    elif k == 'utime':
        os.utime(p, ns=(10 ** 18 + n, 10 ** 18 + n * 7))
        return os.stat(p).st_mtime_ns
    elif k == 'setx':
        os.setxattr(p, f'user.k{n % 3}', data, (0, 0, os.XATTR_CREATE, os.XATTR_REPLACE)[n % 4])
    elif k == 'getx':
        return xattr.get(p, f'k{n % 3}', namespace=xattr.NS_USER)
    elif k == 'listx':
        return sorted(xattr.get_all(p, namespace=xattr.NS_USER))
    elif k == 'delx':
        xattr.remove(p, f'user.k{n % 3}', nofollow=bool(n % 2))
    elif k == 'chdir':
        os.chdir(p)
        r = os.path.relpath(os.getcwd(), cwd)
        os.chdir(cwd)
        return r


def tree(top):
    """what is below, as the process sees it after making everything accessible"""
    out = {}

    def rec(p, rel):
        s = os.lstat(p)
        if stat.S_ISDIR(s.st_mode):
            out[rel] = ('d', s.st_mode & 0o777)
            os.chmod(p, 0o755)
            for n in sorted(os.listdir(p)):
                rec(p + '/' + n, rel + '/' + n)
        elif stat.S_ISLNK(s.st_mode):
            out[rel] = ('l', os.readlink(p))
        else:
            os.chmod(p, 0o644)
            fd = os.open(p, os.O_RDONLY)
            out[rel] = ('f', s.st_mode & 0o777, s.st_nlink, rfile(fd),
                        sorted(xattr.get_all(p, namespace=xattr.NS_USER)))
    rec(top, '')
    return out


def in_sim(ops):
    k = Kernel()
    dstrun.base_fs(k)
    k.cur = Proc(k, 'p', cwd=dstrun.HOME)
    top = '/'
    for n in DEEP:
        top = os.path.join(top, n)
        k.h_mkdir(top, uid=1000 if n == 't' else 0)
    seam.activate(k)
    try:
        os.umask(0o022)
        os.chdir(top)
        return perform(ops, lambda a, b, f: k.rename(a, b, flags=f), top), tree(top)
    finally:
        seam.activate(None)


def for_real(ops):
    """as nobody, in a child, in a directory of its own"""
    d = tempfile.mkdtemp(prefix='selftest-')
    os.chmod(d, 0o755)
    top = d
    for n in DEEP:
        top += '/' + n
        os.mkdir(top)
    os.chown(top, UID, UID)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setgroups([])
            os.setgid(UID)
            os.setuid(UID)
            os.umask(0o022)
            os.chdir(top)
            libc = ctypes.CDLL(None, use_errno=True)

            def exchange(a, b, flags):
                if libc.renameat2(-100, os.fsencode(a), -100, os.fsencode(b), flags):
                    raise OSError(ctypes.get_errno(), 'renameat2')
            res = perform(ops, exchange, top), tree(top)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(res))
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    shutil.rmtree(d)
    return pickle.loads(b)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 500
    base = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    seam.install()
    calls, bad = 0, 0
    for i in range(n):
        rng = random.Random(f'{base}:{i}')
        ops = gen(rng, rng.randint(10, 60))
        a, ta = in_sim(ops)
        b, tb = for_real(ops)
        calls += len(ops)
        for op, x, y in zip(ops, a, b):
            if x != y:
                print(f'sequence {base}:{i}: {op}: simulated {x!r}, real {y!r}')
                bad += 1
                break
        else:
            if ta != tb:
                bad += 1
                print(f'sequence {base}:{i}: trees differ: ' +
                      repr([(p, ta.get(p), tb.get(p)) for p in sorted(set(ta) | set(tb)) if ta.get(p) != tb.get(p)][:4]))
        if bad > 20:
            break
    print(f'{n} sequences, {calls} system calls, {bad} differ')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
