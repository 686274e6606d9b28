From e30b87f6db6a5ce4782f5cb4733ac2300ea4b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 01/72] fix: swap resolves relative paths against the working
 directory

The descriptors of the paths themselves were passed as directory
descriptors, so swapping relative paths failed for files and swapped the
wrong pair for directories (a/a with b/b). The error raised also lost the
errno and a failing second open leaked the first descriptor.
---
 augpathlib/swap.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/augpathlib/swap.py b/augpathlib/swap.py
index 5fe6fce..749f903 100644
--- a/augpathlib/swap.py
+++ b/augpathlib/swap.py
@@ -15,7 +15,8 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
     # setup for calling renameat2
     SYS_renameat2 = 316  # from /usr/include/asm/unistd_64.h
     RENAME_EXCHANGE = (1 << 1)  # /usr/src/linux/include/uapi/linux/fs.h
-    libc = ctypes.CDLL(None)
+    AT_FDCWD = -100  # /usr/include/linux/fcntl.h
+    libc = ctypes.CDLL(None, use_errno=True)
     rnat2_syscall = libc.syscall
     rnat2_syscall.restypes = ctypes.c_int       # returns an int
     rnat2_syscall.argtypes = (ctypes.c_int,     # syscall number
@@ -27,15 +28,16 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
 
     def swap_linux(self, target):
         """ use renameat2 to perform an atomic swap operation """
-        old_fd = os.open(self, 0)
-        new_fd = os.open(target, 0)
-        old_path = os.fspath(self).encode()
-        new_path = os.fspath(target).encode()
+        # relative paths are relative to the current working directory
+        # passing the fds of the paths themselves would make relative
+        # paths resolve inside the directories that are to be swapped
+        old_path = os.fsencode(self)
+        new_path = os.fsencode(target)
         value = rnat2_syscall(SYS_renameat2,
-                              old_fd, old_path,
-                              new_fd, new_path,
+                              AT_FDCWD, old_path,
+                              AT_FDCWD, new_path,
                               RENAME_EXCHANGE)
-        os.close(old_fd)
-        os.close(new_fd)
         if value != 0:
-            raise OSError(value, 'renameat2 failed', self, None, target)
+            err = ctypes.get_errno()
+            raise OSError(err, f'renameat2 failed {os.strerror(err)}',
+                          os.fspath(self), None, os.fspath(target))
-- 
2.43.0


From 2c641045a1e703e4ec42fd8353ac6b60d65e9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 02/72] fix: swap_carefree undoes the fallback when one of its
 steps fails

When self was missing, on another device, or any rename failed, target was
left in a temporary directory (and an empty temporary directory was left
when the first rename failed).
---
 augpathlib/core.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8c48831..bbbe824 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -546,16 +546,33 @@ class AugmentedPath(pathlib.Path):
         try:
             self.swap(target)
         except (Exception, NotImplementedError) as e:  # TODO clearer error handling
+            # renaming can change what a path that is relative to or that goes
+            # through one of the objects refers to, so resolve the parents first
+            source, target = (pathlib.Path(os.path.realpath(path.parent)) / path.name
+                              if path.name else path for path in (self, target))
             temp_str = tempfile.mkdtemp(dir=target.parent)
             temp_dir = pathlib.Path(temp_str)
             temp = temp_dir / target.name
             # rename target -> temp
             # rename self -> target
             # rename target -> self
-            target.rename(temp)
-            self.rename(target)
-            temp.rename(self)
-            temp_dir.rmdir()
+            # if any step fails undo the ones before so that neither
+            # object is stranded in the temp directory
+            try:
+                target.rename(temp)
+                try:
+                    source.rename(target)
+                except BaseException:
+                    temp.rename(target)
+                    raise
+                try:
+                    temp.rename(source)
+                except BaseException:
+                    target.rename(source)
+                    temp.rename(target)
+                    raise
+            finally:
+                temp_dir.rmdir()
 
     if sys.platform != 'linux':  # just look at us not using pathlib's infra ...
         _swap = swap.swap_not_implemented
-- 
2.43.0


From 523dfa8bb4f0c98e9e4b1a37133947da7dd5ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 03/72] fix: rmtree reports errors raised before the first
 child is known

With onerror set a symlink or unlistable directory raised
UnboundLocalError instead of calling onerror. ignore_errors no longer
swallows KeyboardInterrupt and SystemExit.
---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index bbbe824..5caf63f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -681,6 +681,7 @@ class AugmentedPath(pathlib.Path):
             elif self == pathlib.Path.cwd():
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
+        path = self
         try:
             if self.is_dir():
                 if self.is_symlink():
@@ -713,7 +714,7 @@ class AugmentedPath(pathlib.Path):
         except exc.WillNotRemovePathError:
             raise
 
-        except BaseException as e:
+        except Exception as e:
             if not ignore_errors:
                 if onerror is not None:
                     ftype = 'rmdir' if path.is_dir() else 'unlink'
-- 
2.43.0


From da2f9828f885404c5160979d21a841cb557d39e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 04/72] fix: writing from an empty data generator makes an
 empty file

Copying or fetching an empty file raised StopIteration (RuntimeError when
used in a chain of generators).
---
 augpathlib/core.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 5caf63f..61fa4c6 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1371,7 +1371,7 @@ class LocalPath(EatPath, AugmentedPath):
         # SO. It turns out that open(thing, 'wb') has fundamentally different
         # semantics on posix and windows (wheeeeeeeeeee!) on posix it keeps
         # xattrs intact, on windows it erases them AAAAAAAAAAAAAAAAAAAAAAA
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'ab') as f:
             f.seek(0)
             f.truncate()
@@ -1381,7 +1381,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.write(chunk)
 
     def _write_chunks_posix(self, generator):
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'wb') as f:
             f.write(chunk1)
             for chunk in generator:
@@ -1424,10 +1424,11 @@ class LocalPath(EatPath, AugmentedPath):
         # FIXME if the generator can silently fail that is very very bad news ...
         # but how/why would they be silently failing ??!
         log.debug(f'writing to {self}')
-        chunk1 = next(generator)  # if an error occurs don't open the file
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file
         with open(self, 'ab' if append else 'wb') as f:
-            f.write(chunk1)
-            yield chunk1
+            if chunk1:
+                f.write(chunk1)
+                yield chunk1
             for chunk in generator:
                 #log.debug(chunk)
                 f.write(chunk)
-- 
2.43.0


From fba8278af92a94dd22d3f3a0e1d7cf456a36f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 05/72] fix: LocalPath.copy_to refuses to copy a file onto
 itself

With force=True the file was truncated while it was being read and its
data beyond the first chunk was lost.
---
 augpathlib/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 61fa4c6..3929d4d 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1440,6 +1440,10 @@ class LocalPath(EatPath, AugmentedPath):
             target = self.__class__(target)
 
         if not target.exists() and not target.is_symlink() or force:
+            if force and target.exists() and self.samefile(target):
+                # opening target for writing would truncate self
+                raise shutil.SameFileError(f'{self} and {target} are the same file')
+
             target.data = self.data
         else:
             raise exc.PathExistsError(f'{target}')
-- 
2.43.0


From 24fd2c8ac37800e7347204b8bf0efc306f9ea3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 06/72] fix: reading a range of exactly one chunk raised
 UnboundLocalError

---
 augpathlib/core.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 3929d4d..facc8f3 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1338,11 +1338,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.seek(start, 2 if start < 0 else 0)
                 if end is not None:
                     total = end - start
-                    if total < chunksize:
-                        nchunks = 0
-                        last_chunksize = total
-                    elif total > chunksize:
-                        nchunks, last_chunksize = divmod(total, chunksize)
+                    nchunks, last_chunksize = divmod(total, chunksize)
 
                     for _ in range(nchunks):  # FIXME boundscheck ...
                         yield f.read(chunksize)
-- 
2.43.0


From 92fbe6b68d1aaa0356728107aa77d5e2777c0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 07/72] fix: etag.digest does not change the result of later
 updates

Calling digest and then update again gave a wrong etag.
---
 augpathlib/utils.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 7b1684f..e98a8ca 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -205,21 +205,12 @@ class etag:
         self._m = self.cypher()
         self._parts = []
         self._remainder = b''
-        self._last_chunksize = 0
 
     def update(self, bytes_):
         remainder, self._remainder = self._remainder, b''
         bio = io.BytesIO(remainder + bytes_)  # inefficient for len(bytes_) << self.chunksize
         while True:
-            if self._last_chunksize:
-                # in the event a restart is required only
-                # only read the number of bytes left for
-                # the current chunk to update self._m
-                chunksize = self.chunksize - self._last_chunksize
-                self._last_chunksize = 0
-            else:
-                chunksize = self.chunksize
-
+            chunksize = self.chunksize
             chunk = self._remainder
             self._remainder = bio.read(chunksize)
             if not self._remainder:
@@ -233,23 +224,19 @@ class etag:
                 self._m.update(chunk)  # empty remainder doesn't advance the function
                 digest = self._m.digest()
                 self._m = self.cypher()
-                if chunksize < self.chunksize:
-                    # we are in a restart and need to update the last part with the
-                    # digest for the full chunksize
-                    self._parts[-1] = digest
-                else:
-                    self._parts.append(digest)
+                self._parts.append(digest)
 
     def digest(self):
+        parts = self._parts
         if self._remainder:
-            self._last_chunksize = len(self._remainder)  # in case someone calls an early digest
-            self._m.update(self._remainder)
-            self._parts.append(self._m.digest())  # do not overwrite self._m yet
-            self._remainder = b''  # this allows a stable call at the end
+            # in case someone calls an early digest the state must not change
+            last = self.cypher()
+            last.update(self._remainder)
+            parts = parts + [last.digest()]
 
         m = self.cypher()
-        m.update(b''.join(self._parts))
-        return m.digest(), len(self._parts)
+        m.update(b''.join(parts))
+        return m.digest(), len(parts)
 
     def hexdigest(self):
         digest, count = self.digest()
-- 
2.43.0


From 5e202b33ee02d1fd2d43df438859ba862eeffce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 08/72] fix: a failing chdir in pushd or popd leaves the
 directory stack alone

---
 augpathlib/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index facc8f3..5a98e26 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -728,8 +728,9 @@ class AugmentedPath(pathlib.Path):
 
     def pushd(self):
         if self.is_dir():
-            AugmentedPath._stack.append(self.cwd())
+            cwd = self.cwd()
             self.chdir()
+            AugmentedPath._stack.append(cwd)
             print(*reversed(AugmentedPath._stack), self.cwd())
         else:
             raise NotADirectoryError(f'{self} is not a directory')
@@ -741,8 +742,9 @@ class AugmentedPath(pathlib.Path):
         # so we invert the N dex
         reversed_index = - (N + 1)
         if AugmentedPath._stack:
-            path = AugmentedPath._stack.pop(reversed_index)
+            path = AugmentedPath._stack[reversed_index]
             path.chdir()
+            AugmentedPath._stack.pop(reversed_index)
             print(*reversed(AugmentedPath._stack), AugmentedPath.cwd())
             return path
         else:
-- 
2.43.0


From 433477dafa7124debaeb52508c5244282889feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 09/72] fix: entering the same directory path twice returns to
 the right place

The second entry overwrote the directory to return to, so leaving the
outer block ended up in the directory itself.
---
 augpathlib/caches.py | 6 +++++-
 augpathlib/core.py   | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2caee15..f7050c4 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -37,8 +37,12 @@ class _CachePath(AugmentedPath):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.local.cwd()  # caches can't exist outside their anchor anymore
+            cwd = self.local.cwd()  # caches can't exist outside their anchor anymore
             self.chdir()
+            # the same path may be entered again before it is exited
+            if not hasattr(self, '_entered_from'):
+                self._entered_from = []
+            self._entered_from.append(cwd)
             return self
         else:
             super().__enter__(self)
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 5a98e26..434849d 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -752,8 +752,12 @@ class AugmentedPath(pathlib.Path):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.cwd()
+            cwd = self.cwd()
             self.chdir()
+            # the same path may be entered again before it is exited
+            if not hasattr(self, '_entered_from'):
+                self._entered_from = []
+            self._entered_from.append(cwd)
             return self
         else:
             super().__enter__()
@@ -761,7 +765,7 @@ class AugmentedPath(pathlib.Path):
     def __exit__(self, t, v, tb):
         if hasattr(self, '_entered_from'):
             # if is_dir fails because of a change still try to return
-            self._entered_from.chdir()
+            self._entered_from.pop().chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From 15fae4a880349b8dac986d52ea7105717e1f0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 10/72] fix: getxattr reports errors other than a missing
 attribute

errno.ENOATTR does not exist on linux so every other error became an
AttributeError.
---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 434849d..188f73d 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -308,7 +308,7 @@ class XattrHelper(EatHelper):
         try:
             return xattr.get(self.as_posix(), key, namespace=namespace)
         except OSError as e:
-            if e.errno == errno.ENODATA or e.errno == errno.ENOATTR:
+            if e.errno in (errno.ENODATA, getattr(errno, 'ENOATTR', errno.ENODATA)):
                 raise exc.NoStreamError((self, key)) from e
             else:
                 raise e
-- 
2.43.0


From 57f0eb79a048cbd1826f0be7114df23b73a198ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 11/72] fix: LocalPath.created returns the value

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 188f73d..198f669 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1211,7 +1211,7 @@ class LocalPath(EatPath, AugmentedPath):
 
     @property
     def created(self):
-        self.meta.created
+        return self.meta.created
 
     def _stat(self):
         """ sometimes python just doesn't have what it takes """
-- 
2.43.0


From 77547d610a015bc9927a780a89dc2e4dc9a5a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 12/72] fix: LocalPath.meta is not served from a memo of
 something else

After a read error while computing the checksum the previous metadata was
returned for the changed file, a file replaced within the granularity of
its timestamps was not noticed even if its size or inode differed, and
meta_no_checksum made later reads of meta return no checksum. Asking for an
etag raised TypeError.
---
 augpathlib/core.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 198f669..040fb37 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1260,18 +1260,22 @@ class LocalPath(EatPath, AugmentedPath):
             st = self._stat()
 
         # FIXME nanos vs millis ??
+        fs_metadata_changed_time, fs_data_modified_time = st.st_ctime, st.st_mtime
+        # the memo is only valid for the same file in the same state
+        # and for the same request
         change_tuple = (fs_metadata_changed_time,
-                        fs_data_modified_time) = (st.st_ctime,
-                                                  st.st_mtime)
+                        fs_data_modified_time,
+                        st.st_size,
+                        st.st_ino,
+                        checksum,
+                        chunksize)
 
         if hasattr(self, '_meta') and self._meta is not None:
             if self.__change_tuple == change_tuple:
                 return self._meta
 
             old_meta = self._meta  # TODO log changes?
-
-
-        self.__change_tuple = change_tuple  # TODO log or no?
+            self._meta = None  # must not be found again if an error is raised below
 
         # XXX interpretational note here, nearly all file systems do not have
         # a file birthdate that they track and the remote that we work against
@@ -1309,7 +1313,7 @@ class LocalPath(EatPath, AugmentedPath):
                               updated=updated,
                               checksum=checksum,
                               checksum_cypher=checksum_cypher,
-                              etag=self.etag() if chunksize else None,
+                              etag=self.etag(chunksize) if chunksize else None,
                               chunksize=chunksize,
                               parent_id=self.parent_id,
                               id=self.id,
@@ -1320,6 +1324,7 @@ class LocalPath(EatPath, AugmentedPath):
                               # man use auth is all bad :/
                               gid=st.st_gid,
                               mode=mode)
+        self.__change_tuple = change_tuple  # TODO log or no?
 
         return self._meta
 
-- 
2.43.0


From 523150911c3c65c464b034c797ef8b1f769bb74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 13/72] fix: paths made by the same EatPath class have the same
 type

---
 augpathlib/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 040fb37..e6f9b56 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -958,8 +958,12 @@ class EatPath(EatHelper, AugmentedPath):
         def __new__(cls, *args, **kwargs):
             helper = ADSHelper if os.name == 'nt' else XattrHelper
             if helper not in cls.mro():
-                # FIXME do we need to cache these so the types match?
-                cls = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+                # there is exactly one helper class per class, otherwise
+                # the types of two paths of the same class do not match
+                if '_helper_class' not in cls.__dict__:
+                    cls._helper_class = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+
+                cls = cls._helper_class
 
             #breakpoint()
             return super().__new__(cls, *args, **kwargs)
-- 
2.43.0


From cb80bd5c54984ebebb2ce2221934a99ac5d4a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 14/72] fix: crumple returns the path it actually moved to

---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index f7050c4..5ab1d1e 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -166,7 +166,8 @@ class _CachePath(AugmentedPath):
         except OSError as e:
             if e.errno == 36:  # File name too long  # SIGH
                 log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                self.rename(self._trashed_path_short)
+                trashed = self._trashed_path_short
+                self.rename(trashed)
             else:
                 raise e
 
-- 
2.43.0


From 43efdc7eee3958639618234a52b8653b073f6265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 15/72] fix: PathMeta equality does not depend on whether
 timestamps were parsed

---
 augpathlib/meta.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 99cc09a..fe8f709 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -156,11 +156,8 @@ class PathMeta:
 
     def __eq__(self, other):
         if isinstance(other, PathMeta):
-             for field, value in self.__dict__.items():
-                  if value != getattr(other, field):
-                       return False
-             else:
-                  return True
+            # not __dict__ because timestamps may not have been parsed yet
+            return dict(self.items()) == dict(other.items())
 
     def __bool__(self):
         for k, v in self.__dict__.items():
-- 
2.43.0


From e4d3a93e33049b3aa325f00acd964f4151d246dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 16/72] fix: validate_file can record a checksum mismatch

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 5ab1d1e..3012009 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -620,7 +620,7 @@ class _CachePath(AugmentedPath):
                 log.critical(msg)  # haven't figured out how to comput the bf checksums yet
                 nmeta = {k: v for k, v in meta.items()}
                 nmeta['errors'] += ('checksum-mismatch',)
-                self.meta = meta.__class__(**nmeta)
+                self._meta_setter(meta.__class__(**nmeta))
                 #raise exc.ChecksumError(msg)
         elif meta.size is not None:
             log.warning(f'No checksum! Your data is at risk!\n'
-- 
2.43.0


From a32d892a6dfd9c1dd15cc0893bad73ca7e4667b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 17/72] fix: checksum uses an explicitly requested cypher

---
 augpathlib/core.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index e6f9b56..593eb28 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -817,22 +817,20 @@ class AugmentedPath(pathlib.Path):
                 else:
                     raise e
 
-    def checksum(self, cypher=default_cypher, extra_cyphers=tuple()):
+    def checksum(self, cypher=None, extra_cyphers=tuple()):
         """ checksum() always recomputes from the data
             meta.checksum is static for cache and remote IF it exists """
         # FIXME the cypher cannot be determined independent of a call to checksum
 
         if self.is_file():
-            if cypher != default_cypher:
-                pass  # FIXME this is SO DUMB (see commit message)
-            elif ((hasattr(self, '_cache_class') and
-                 hasattr(self._cache_class, 'cypher') and
-                 self._cache_class.cypher != cypher)):  # FIXME this could be static ...
-                cypher = self._cache_class.cypher
-
-            elif (hasattr(self, 'cypher') and
-                  self.cypher != cypher):
+            if cypher is not None:
+                pass  # explicitly requested, also if it is the default
+            elif getattr(getattr(self, '_cache_class', None), 'cypher', None):
+                cypher = self._cache_class.cypher  # FIXME this could be static ...
+            elif getattr(self, 'cypher', None):
                 cypher = self.cypher
+            else:
+                cypher = default_cypher
 
             m = cypher()
             extra = [c() for c in extra_cyphers]
-- 
2.43.0


From 567ee47fd022d6e395076426ba1670c9aad7acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 18/72] fix: fields of replaced xattr metadata do not survive

---
 augpathlib/caches.py | 10 +++++++++-
 augpathlib/meta.py   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 3012009..6fb6bd4 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1096,7 +1096,15 @@ class EatCache(EatPath, _CachePath):
             # where the checksum differs, the old version needs to be
             # trashed before any of this is written, otherwise the old
             # metadata is lost >_<
-            self.setxattrs(pathmeta.as_xattrs(self.xattr_prefix))
+            xattrs = pathmeta.as_xattrs(self.xattr_prefix)
+            self.setxattrs(xattrs)
+            # fields that are no longer set must not survive from old metadata
+            prefix = self.xattr_prefix + '.' if self.xattr_prefix else ''
+            known = [(prefix + field).encode() for field in PathMeta._xattr_fields]
+            for key in self.xattrs():
+                if key in known and key not in xattrs:
+                    self.delxattr(key)
+
             if hasattr(self, '_meta'):  # prevent reading from in-memory store
                 delattr(self, '_meta')
 
diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index fe8f709..69802ad 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -494,6 +494,7 @@ class _PathMetaAsXattrs(_PathMetaConverter):
 
         self.pathmetaclass.as_xattrs = as_xattrs
         self.pathmetaclass.from_xattrs = from_xattrs
+        self.pathmetaclass._xattr_fields = self.fields
 
     @staticmethod
     def deprefix(string, prefix):
-- 
2.43.0


From 1acabdd3222162ec9d960bb4e70d3326da5f525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 19/72] fix: move does not replace other content and reports
 failures

---
 augpathlib/caches.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 6fb6bd4..a17e840 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1,4 +1,5 @@
 import sys
+import errno
 import pathlib
 import warnings
 from augpathlib import exceptions as exc
@@ -975,6 +976,12 @@ class _CachePath(AugmentedPath):
             target = self.__class__(target, meta=meta)
 
         if target.exists() or target.is_broken_symlink():
+            if (self.is_file() and target.is_file() and
+                self.local.checksum() != target.local.checksum()):
+                # renaming self would destroy the content of some other file
+                # note that constructing target can already have given it our id
+                raise exc.PathExistsError(f'Target {target} already exists!')
+
             if target.id == self.id: #(remote.id if remote else meta.id):
                 if self.is_broken_symlink():
                     # we may be a package with extra metadata that needs to
@@ -1013,6 +1020,10 @@ class _CachePath(AugmentedPath):
                 log.exception(e)
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.rename(target)
+
+                target_in_the_way = (errno.ENOTEMPTY, errno.EEXIST, errno.EISDIR, errno.ENOTDIR)
+                if not (isinstance(e, OSError) and e.errno in target_in_the_way and target.is_dir()):
+                    raise e
             finally:
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.unlink()
-- 
2.43.0


From 587cff12efdf9e0ebe5e19ff6760515c783d7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 20/72] fix: a failing update of a symlink cache keeps the old
 metadata

---
 augpathlib/caches.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index a17e840..05de6d5 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1208,6 +1208,13 @@ class SymlinkCache(_CachePath):
     @meta.setter
     def meta(self, pathmeta):
         if not self.exists():
+            # make sure that the new metadata can be written before the old is touched
+            # FIXME if an id starts with / then the local name is overwritten due to pathlib logic
+            # we need to error if that happens
+            #symlink = pathlib.PurePosixPath(self.local.name, pathmeta.as_symlink().as_posix().strip('/'))
+            #symlink = pathlib.PurePosixPath(self.local.name) / pathmeta.as_symlink()
+            symlink = pathmeta.as_symlink(local_name=self.local.name)
+            trashed = None
             # if the path does not exist write even temporary to disk
             if self.is_symlink():
                 meta = self.meta
@@ -1276,7 +1283,7 @@ class SymlinkCache(_CachePath):
                 # use primary_cache._trashed_path directly could fail
                 # if the trashed path has a non-existent parent
                 try:
-                    primary_cache.crumple()
+                    trashed = primary_cache.crumple()
                 except FileExistsError:
                     # a file by this name with this id has already been
                     # crumpled so we unlink here instead
@@ -1287,12 +1294,13 @@ class SymlinkCache(_CachePath):
                 #self.rename(trash / fs_safe_id(f'{pc.parent.id}-{meta.id}-{self.name}'))
                 #self.unlink()
 
-            # FIXME if an id starts with / then the local name is overwritten due to pathlib logic
-            # we need to error if that happens
-            #symlink = pathlib.PurePosixPath(self.local.name, pathmeta.as_symlink().as_posix().strip('/'))
-            #symlink = pathlib.PurePosixPath(self.local.name) / pathmeta.as_symlink()
-            symlink = pathmeta.as_symlink(local_name=self.local.name)
-            self.local.symlink_to(symlink)
+            try:
+                self.local.symlink_to(symlink)
+            except BaseException as e:
+                if trashed is not None:
+                    trashed.rename(self)
+
+                raise e
 
         else:
             raise exc.PathExistsError(f'Path exists {self}')
-- 
2.43.0


From dd42c1cbafc6d3ccc2ffa4f1c3f3b5b217094a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 21/72] fix: fetch never loses the metadata of the file it
 fetches

---
 augpathlib/caches.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 05de6d5..ea7898b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -2,6 +2,7 @@ import sys
 import errno
 import pathlib
 import warnings
+from uuid import uuid4
 from augpathlib import exceptions as exc
 from augpathlib.meta import PathMeta
 from augpathlib.core import AugmentedPath, EatPath
@@ -894,22 +895,40 @@ class _CachePath(AugmentedPath):
             # the file name could be different so we have to return here
             return
 
-        size_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb < size_limit_mb
+        size_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb <= size_limit_mb
         size_not_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb > size_limit_mb
 
         if size_ok or size_limit_mb is None:  # FIXME should we force fetch here by default if the file exists?
-            if self.is_broken_symlink():
-                # FIXME touch a temporary file and set the meta first!
-                self.unlink()
-                self.touch()
-                self._meta_setter(meta)
-
             # FIXME I'm 99% certain that our mysterious zero size files are happening here
             # and the error is getting caught and silence somehow
             log.info(f'Fetching remote via cache id {self.id} -> {self.local}')
             existing_cache_cache = self.local_object_cache_path.exists()
-            self.local.data = self.data  # note that this should trigger storage to .ops/objects
-            if self.local.size != meta.size:
+            if self.is_broken_symlink():
+                # put the meta and the data on a temporary file first so that
+                # neither the id nor the fact that there is no data is lost
+                # no matter where we fail
+                ldd = self.local_data_dir
+                ldd.mkdir(parents=True, exist_ok=True)
+                temp = ldd / f'fetch-{uuid4().hex}'
+                try:
+                    temp.touch()
+                    temp.cache_init(meta)
+                    temp.data = self.data  # note that this should trigger storage to .ops/objects
+                    if meta.size is not None and temp.size != meta.size:
+                        msg = (f'{temp.size} != {meta.size} for {self.local}\n'
+                               f'from previous fetch? {existing_cache_cache}')
+                        raise ValueError(msg)
+
+                    temp.rename(self)
+                except BaseException as e:
+                    temp.unlink(missing_ok=True)
+                    raise e
+
+                self._meta_setter(meta)
+            else:
+                self.local.data = self.data  # note that this should trigger storage to .ops/objects
+
+            if meta.size is not None and self.local.size != meta.size:
                 m2 = '.operations/objects/' + self.id.replace(':', '\\:')  # FIXME not abstracted
                 msg = (f'{self.local.size} != {meta.size} for {self.local}\n{m2}\n'
                        f'from previous fetch? {existing_cache_cache}')
-- 
2.43.0


From c91ca32fd01ed4417420e390936cf80e5022423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 22/72] fix: metadata that would read back as something else is
 refused

---
 augpathlib/meta.py | 60 ++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 69802ad..0903f46 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -274,6 +274,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     write_version = 'mdv6'  # update this on new version
     order = versions[write_version]
     extras = 'size.hr',
+    int_fields = 'file_id', 'size', 'chunksize', 'multi', 'gid'
 
     def __init__(self):
         # register functionality on PathMeta
@@ -305,26 +306,35 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return self.empty
 
         if field in ('errors',):
+            for error in value:
+                if not error or error == self.empty or set(error) & set('/;.'):
+                    msg = f'cannot store {field}: {value!r}'
+                    raise ValueError(msg)  # FIXME error type
+
             return self.subfieldsep.join(value)
 
         if field == 'checksum':
             return value.hex()  # raw hex may contain field separators :/
 
-        if isinstance(value, str) and '/' in value:
-            if self.pathsep in value:
+        if isinstance(value, str):
+            # these would be decoded to something else
+            if (value == self.empty or self.fieldsep_esc in value or
+                (self.pathsep in value and field != 'name') or
+                (not value and field == 'id')):
                 msg = f'Y U DO DIS >:| {field}: {value!r}'
                 raise ValueError(msg)  # FIXME error type
-            elif field == 'name':
+
+        if field in self.int_fields:
+            int(str(value))  # do not write what cannot be read
+
+        if isinstance(value, str) and '/' in value:
+            if field == 'name':
                 msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
                 raise ValueError(msg)  # FIXME error type
 
             value = value.replace('/', self.pathsep)
 
         if isinstance(value, str) and self.fieldsep in value:
-            if self.fieldsep_esc in value:
-                msg = f'Y U DO DIS >:| {field}: {value!r}'
-                raise ValueError(msg)  # FIXME error type
-
             value = value.replace(self.fieldsep, self.fieldsep_esc)
 
         return _str_encode(field, value)
@@ -344,28 +354,24 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             #return value.encode()
             return bytes.fromhex(value)
 
-        elif field == 'checksum_cypher':
-            return value
-
         elif field == 'etag':
             checksum, strcount = value.rsplit('-', 1)
             count = int(strcount)
             return bytes.fromhex(checksum), count
 
-        elif field == 'user_id':
-            try:
-                return int(value)
-            except ValueError:  # FIXME :/ uid vs owner_id etc ...
-                return value
+        elif field in ('name', 'id', 'mode', 'old_id', 'parent_id', 'user_id', 'checksum_cypher'):
+            if field == 'user_id':
+                try:
+                    return int(value)
+                except ValueError:  # FIXME :/ uid vs owner_id etc ...
+                    pass
 
-        elif field in ('name', 'id', 'mode', 'old_id', 'parent_id'):
             if self.pathsep in value:
                 if field == 'name':
-                    if version >= 5:
-                        msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
-                        raise ValueError(msg)  # FIXME error type
-
-                    value = value.replace(self.pathsep, '.')
+                    # a name cannot contain a path separator so this is
+                    # part of the name in all versions that escape the period
+                    if version < 5:
+                        value = value.replace(self.pathsep, '.')
                 else:
                     value = value.replace(self.pathsep, '/')
 
@@ -375,11 +381,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return value
 
         else:
-            try:
-                return int(value)
-            except ValueError as e:
-                breakpoint()
-                raise e
+            return int(value)
 
         return value
 
@@ -563,6 +565,12 @@ class _PathMetaAsXattrs(_PathMetaConverter):
         if value is None or empty_iterable:
             raise TypeError('cannot encode an empty value')
 
+        if field == 'errors' and not all(_ and ';' not in _ for _ in value):
+            raise ValueError(f'cannot store {field}: {value!r}')
+
+        if field in ('size', 'chunksize', 'multi', 'file_id', 'gid'):
+            int(str(value))  # do not write what cannot be read
+
         try:
             return _bytes_encode(field, value)
         except exc.UnhandledTypeError:
-- 
2.43.0


From 0ebba598ddf160af0a42b7f8fef27135e0a712c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 23/72] fix: moving onto a foreign placeholder without a remote
 reports that

---
 augpathlib/caches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index ea7898b..b358309 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1023,7 +1023,9 @@ class _CachePath(AugmentedPath):
                     # directory moves that are resolved during pull
                     log.warning(f'what is this!?\n{target}\n{self}')
             elif target.is_broken_symlink():
-                remote._cache = self  # restore the mapping for remote -> self
+                if remote is not None:
+                    remote._cache = self  # restore the mapping for remote -> self
+
                 raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
             else:
                 raise exc.PathExistsError(f'Target {target} already exists!')
-- 
2.43.0


From 6661c1000b9a2e0aa7e062198c37f985f5a59a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 24/72] fix: replacing metadata by that of another id does not
 fetch the old id

---
 augpathlib/caches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index b358309..19c9a49 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1375,6 +1375,10 @@ class PrimaryCache(CachePath):
 
         else:
             if not hasattr(self, '_remote') or self._remote is None:
+                if hasattr(self, '_id') and self._id != pathmeta.id:
+                    # from the metadata that is being replaced
+                    delattr(self, '_id')
+
                 self._bootstrapping_id = pathmeta.id
 
             # need to run this to create directories
-- 
2.43.0


From 4ab099a8889a3a6670a7eb05bc84f37527cf68a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 25/72] fix: a leftover of a killed move never replaces the
 target of another

---
 augpathlib/caches.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 19c9a49..1a432c4 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1032,14 +1032,17 @@ class _CachePath(AugmentedPath):
 
         if self.exists():
             safe_unlink = target.local.parent / f'.unlink-{target.name}'
+            move_aside = target.is_broken_symlink()
             try:
-                if target.is_broken_symlink():
+                if move_aside:
                     target.rename(safe_unlink)
 
                 self.rename(target)  # if target is_dir then this will fail, which is ok
             except BaseException as e:
                 log.exception(e)
-                if safe_unlink.is_broken_symlink():
+                # another one may be left over from a process that was killed
+                if (move_aside and safe_unlink.is_broken_symlink() and
+                    not target.is_symlink()):
                     safe_unlink.rename(target)
 
                 target_in_the_way = (errno.ENOTEMPTY, errno.EEXIST, errno.EISDIR, errno.ENOTDIR)
-- 
2.43.0


From faeb10d4c532a1d6b3a432a12f48a7bf45b0e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 26/72] fix: bootstrap does not hang on a directory that is not
 tracked

A directory without cached metadata, e.g. one the user made or one left
by a process that was killed before it could store the metadata, stayed
in old_local forever.
---
 augpathlib/caches.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 1a432c4..c2a1969 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -492,6 +492,9 @@ class _CachePath(AugmentedPath):
                     ad = self.anchor.local / d
                     if ad.cache is None:
                         log.critical(f'would you fix the nullability already? {d}')
+                        # there is nothing to refresh so do not come back to it
+                        local_dirs = local_dirs - {d}
+                        old_local = local_dirs - rd
                         continue
                     new = ad.cache.refresh()
                     #log.info(f'{new}')
-- 
2.43.0


From 75dc192627da9563154f00606dacc5416f4da579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 27/72] fix: answers of a remote host belong to the command
 that was sent

prompt() returning False (timeout) was ignored, so an incomplete answer was
taken for the whole and every later command got the answer to the one before.
Commands that wrap because of the prompt lost the start of their answer.
---
 augpathlib/remotes.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 7188f8c..13a7bb2 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -689,6 +689,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
             cls._cols = 200
             session.setwinsize(cls._rows, cls._cols)  # prevent linewraps of long commands
             session.prompt()
+            cls._prompt_cols = len('[PEXPECT]$ ')
+            cls._unanswered = []  # commands whose answer has not been read yet
             atexit.register(lambda:(session.sendeof(), session.close()))
             cls.host = host
             cls.session = session
@@ -865,15 +867,34 @@ class SshRemote(RemotePath, pathlib.PurePath):
     @classmethod
     def _ssh(cls, remote_cmd):
         #print(remote_cmd)
-        if len(remote_cmd) > cls._cols:
+        echo = remote_cmd.encode(cls.encoding)
+        if cls._prompt_cols + len(echo) >= cls._cols:
+            # the prompt is on the same line as the command
             raise exc.CommandTooLongError
-        n_bytes = cls.session.sendline(remote_cmd)
-        cls.session.prompt()
-        raw = cls.session.before
-        out = raw[n_bytes + 1:].strip()  # strip once here since we always will
-        #print(raw)
-        #print(out)
-        return out
+        if any(b < 0x20 or b == 0x7f for b in echo):
+            # these are not part of the command for the remote terminal
+            raise ValueError(f'control character in {remote_cmd!r}')
+
+        for late in tuple(cls._unanswered):
+            # the answers to commands that timed out come first
+            cls._answer(late)
+
+        cls.session.sendline(remote_cmd)
+        cls._unanswered.append(echo)
+        return cls._answer(echo)
+
+    @classmethod
+    def _answer(cls, echo):
+        """ everything up to a prompt that is not preceded by the echo
+            of the command is not an answer to that command """
+        while True:
+            if not cls.session.prompt():
+                raise TimeoutError(f'no answer from {cls.host} to {echo!r}')
+
+            raw = cls.session.before
+            if raw.startswith(echo):
+                cls._unanswered.pop(0)
+                return raw[len(echo):].strip()  # strip once here since we always will
 
     @property
     def _remote_platform(self):
-- 
2.43.0


From 9794ff7feff230142d324a4dbba47fdf6ca73e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 28/72] fix: remote commands quote the paths they are given

A remote name with a space, quote, dollar sign, backtick or semicolon made
checksum, stat, data or children use another path or run another command.
---
 augpathlib/remotes.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 13a7bb2..a8ee5bd 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -1,5 +1,6 @@
 import os
 import sys
+import shlex
 import atexit
 import pathlib
 import warnings
@@ -848,7 +849,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
     @property
     def data(self):
-        cmd = ['ssh', self.host, f'cat {self.rpath!r}']
+        cmd = ['ssh', self.host, f'cat {shlex.quote(self.rpath)}']
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
         while True:
             data = p.stdout.read(4096)  # TODO hinting
@@ -908,7 +909,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):  # FIXME cypher should not be ignored
-        remote_cmd = (f'{self.cypher_command} {self.rpath} | '
+        # via stdin since names containing a backslash change the output
+        remote_cmd = (f'{self.cypher_command} < {shlex.quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
         hex_ = self._ssh(remote_cmd).decode(self.encoding)
@@ -924,7 +926,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if path == '':
             _path = path
         else:
-            _path = f' "{path}"'
+            _path = f' {shlex.quote(path)}'
 
         return f'{cmd} -c {stat_format}{_path}'
 
@@ -992,11 +994,11 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #\"'%n' %o %s %W %X %Y %Z %g %u %f\"
         if self.is_dir():
             # no children if it is a file sadly
-            remote_cmd = (f"cd {self.rpath};"
-                          f"{self._stat_cmd(path='')} {{.,}}*;"
+            # in a subshell so that nothing has to be undone, nothing runs if cd fails
+            remote_cmd = (f"(cd {shlex.quote(self.rpath)} && "
+                          f"{{ {self._stat_cmd(path='')} {{.,}}*;"
                           "echo '----';"
-                          f"{self.cypher_command} {{.,}}*;"  # FIXME fails on directories destroying alignment
-                          'cd "${OLDPWD}"')
+                          f"{self.cypher_command} {{.,}}*; }})")  # FIXME fails on directories destroying alignment
 
             out = self._ssh(remote_cmd)
             stats, checks = out.split(b'\r\n----\r\n')
-- 
2.43.0


From aae9fcd2a973665700e06b18bd865fe0b659c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 29/72] fix: remote data reports when ssh or cat failed

---
 augpathlib/remotes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index a8ee5bd..515b199 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -859,6 +859,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
             yield data
 
         p.communicate()
+        if p.returncode:
+            # otherwise missing and incomplete files cannot be told from complete ones
+            raise subprocess.CalledProcessError(p.returncode, cmd)
 
     # reuse meta from local
     # def meta (make it easier to search for this)
-- 
2.43.0


From 4bed88cac5c0536f1714bfe0b5dca733a65892f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 30/72] fix: an empty remote file is a file

---
 augpathlib/remotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 515b199..5d0ebbb 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -986,7 +986,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
     def is_file(self):
         remote_cmd = self._stat_cmd(stat_format="%F")
         out = self._ssh(remote_cmd)
-        return out == b'regular file'
+        return out in (b'regular file', b'regular empty file')
 
     @property
     def children(self):
-- 
2.43.0


From f55f9ba6649b053ac8d6c1bb317786317f30e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 31/72] fix: StatResult for names containing two consecutive
 spaces

---
 augpathlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index e98a8ca..e63e990 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -169,7 +169,7 @@ class StatResult:
         #name, rest = out.rsplit("'", 1)
         #self.name = name.strip("'")
         #print(out)
-        wat = out.split('  ')
+        wat = out.rsplit('  ', 14)  # the name may contain any number of spaces
         #print(wat)
         #print(len(wat))
         name, ino, hint, size, hb, birth, ha, access, hm, modified, hc, changed, gid, uid, raw_mode = wat
-- 
2.43.0


From 42957ab209a556d81270df0bdb994437ec9246b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 32/72] fix: StatResult times before the epoch

---
 augpathlib/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index e63e990..21e6be1 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -176,24 +176,25 @@ class StatResult:
 
         self.name = name
 
-        def ns(hr):
+        def timestamp(seconds, hr):
             date, time, zone = hr.split(' ')
             time, ns = time.split('.')
-            return '.' + ns
+            # seconds are rounded down, also before the epoch
+            return (int(seconds) * 10 ** len(ns) + int(ns)) / 10 ** len(ns)
 
         self.st_ino = int(ino)
         self.st_blksize = int(hint)
         self.st_size = int(size)
         #self.st_birthtime
-        self.st_atime = float(access + ns(ha)) 
-        self.st_mtime = float(modified + ns(hm))
-        self.st_ctime = float(changed + ns(hc))
+        self.st_atime = timestamp(access, ha)
+        self.st_mtime = timestamp(modified, hm)
+        self.st_ctime = timestamp(changed, hc)
         self.st_gid = int(gid)
         self.st_uid = int(uid)
         self.st_mode = int.from_bytes(bytes.fromhex(raw_mode), 'big')
 
         if hb != '-' and birth != '0':
-            self.st_birthtime = float(birth + ns(hb))
+            self.st_birthtime = timestamp(birth, hb)
 
 
 class etag:
-- 
2.43.0


From ea9aeb8a2fb38e2f1fc0f46fb60dc9770ca40227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 33/72] fix: the checksum of a remote path uses the cypher that
 was asked for

---
 augpathlib/remotes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 5d0ebbb..084df1a 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -911,9 +911,10 @@ class SshRemote(RemotePath, pathlib.PurePath):
         # whatever cypher we want, unlike in other cases
         return cypher_command_lookup[self._cache_class.cypher]
 
-    def checksum(self, cypher=None):  # FIXME cypher should not be ignored
+    def checksum(self, cypher=None):
+        command = self.cypher_command if cypher is None else cypher_command_lookup[cypher]
         # via stdin since names containing a backslash change the output
-        remote_cmd = (f'{self.cypher_command} < {shlex.quote(self.rpath)} | '
+        remote_cmd = (f'{command} < {shlex.quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
         hex_ = self._ssh(remote_cmd).decode(self.encoding)
-- 
2.43.0


From 177531778879a0625ae8490fc8d1bc407b43d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 34/72] fix: access to a remote path only considers the
 matching class of permissions

---
 augpathlib/remotes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 084df1a..dc42660 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -827,9 +827,10 @@ class SshRemote(RemotePath, pathlib.PurePath):
         current = read + write + execute
 
         u, g, e = 0x40, 0x8, 0x1
-        return (u & current and st.st_uid == self._uid or
-                g & current and st.st_gid in self._gids or
-                e & current)
+        # only the bits of the first class that matches count
+        return current & (u if st.st_uid == self._uid else
+                          g if st.st_gid in self._gids else
+                          e)
 
     def open(self, mode='wt', buffering=-1, encoding=None,
              errors=None, newline=None):
-- 
2.43.0


From 88b8503f633b4870871907463a3ac80661267699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 35/72] fix: remote paths made from several parts or from other
 paths

In 3.12 joining remote paths and relative remote paths produced the id of
another path (the path of the anchor was repeated).
---
 augpathlib/remotes.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index dc42660..14bd957 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -646,10 +646,15 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
         if sys.version_info >= (3, 12):
             # FIXME HACK workaround reordering of __new__ and __init__ in 3.12
-            pathlib.PurePath.__init__(_self, *args)
-            if _self._raw_paths and _self._raw_paths[-1].startswith('/'):
-                # XXX ENORMOUS HACK to match rerooting behavior from < 3.12 FIXME need better solution
-                _self.root = _self.root.split('/', 1)[0] + '/'
+            # cls.root hides the root of the path, so keep the full path
+            # str(path) starts with the host, and so does the first part
+            # of a path that was joined to or derived from another one
+            host = cls.host + ':'
+            parts = [p[len(host):] if p.startswith(host) else p
+                     for a in args for p in (os.fspath(a),)]
+            full = pathlib.PurePosixPath(*cls._anchor._raw_paths, *parts).as_posix()
+            pathlib.PurePath.__init__(_self, full)
+            _self.root = host + '/'
 
         return _self
 
@@ -714,6 +719,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if isinstance(thing_with_id, pathlib.PurePath):
             thing_with_id = thing_with_id.as_posix()
 
+        if sys.version_info >= (3, 12):
+            args = ()  # already part of the path, see __new__
+
         super().__init__(thing_with_id, *args, cache=cache)
 
     @property
@@ -765,22 +773,12 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
         # TODO make sure that the common path is the anchor ...
 
-        if sys.version_info < (3, 12):
-            pass
-        else:
-            # FIXME HACK
-            if self.root == self.anchor.root and self._raw_paths == self.anchor._raw_paths:
-                # XXX already at the anchor
-                host, path = self.root.split(':', 1)
-                return path
-
-        host_path = (self.anchor / self).as_posix()
         if sys.version_info < (3, 12):
             # < 3.12 uses _parts which includes '/' explicitly
-            return host_path
+            return (self.anchor / self).as_posix()
         else:
-            host, path = host_path.split(':', 1)
-            return path
+            # see __new__, except for the anchor itself
+            return pathlib.PurePosixPath(*self._raw_paths).as_posix()
 
     if sys.version_info < (3, 12):
         def _parts_relative_to(self, remote, *args, cache_parent=None):
-- 
2.43.0


From d946862948dda362e88e1f4ebe4c13b461410f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 36/72] fix: commit of a path does not involve anything else

Stashing lost the staged state of other paths, popped an unrelated stash
when there were no changes, left out deletions, and committed everything
that was staged if there was no commit yet.
---
 augpathlib/repo.py | 67 +++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c20f20f..d37a7ac 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -290,45 +290,34 @@ class RepoHelper:
         """ commit from index
             git commit -m {message} --date {date} -- {self}
         """
-        # TODO
-        # use a modified Index.write_tree create an in memory tree
-        # filtering out changed files that are not the current file
-        # during the call to mdb.stream_copy, though it seems like
-        # the internal call to write_tree_from_cache may be writing
-        # all changes and calculating the sha from that so it may
-        # make more sense to try to filter entries instead ...
-        # but that means a blob may still be sitting there and
-        # get incorporated? I may have to use the full list of entries
-        # but sneekily swap out the entries for other changed files for
-        # the unmodified entry for their object, will need to experiment
-
-
-        if self.repo.active_branch.is_valid(): # handle the empty repo case
-            # HAH take that complexity!
-            _mes = self.repo.git.stash('push')
-            try:
-                # FIXME concurrent modification?!
-                try:
-                    self.repo.git.checkout('stash@{0}', '--', self.as_posix())
-                except self._git.exc.GitCommandError:
-                    pass
-
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
-            finally:
-                try:
-                    self.repo.git.stash('pop')
-                except self._git.exc.GitCommandError:
-                    pass
-        else:
-            try:
-                self.repo.tree()
-                raise ValueError('we are not in the situation we though we were in')
-            except:
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
+        repo = self.repo
+        path = self.repo_relative_path.as_posix()
+
+        def ours(other):
+            return path == '.' or other == path or other.startswith(path + '/')
+
+        try:  # like git commit -- {self} changes of what is tracked are included
+            repo.git(literal_pathspecs=True).add('--update', '--', path)
+        except self._git.exc.GitCommandError:
+            pass  # the path is not tracked (yet)
+
+        # only what is committed differs from HEAD, neither the working tree
+        # nor anything else that is in the index or in the stash is touched
+        try:
+            parents = [repo.commit(repo.git.rev_parse('--verify', '--quiet', 'HEAD'))]
+        except self._git.exc.GitCommandError as e:
+            if e.status != 1:
+                raise
+            parents = []  # there are no commits yet
+
+        index = self._git.IndexFile.new(repo, *[c.tree for c in parents])
+        mine = {k: e for k, e in repo.index.entries.items() if ours(k[0])}
+        rest = {k: e for k, e in index.entries.items() if not ours(k[0])
+                # a file that is a directory by now
+                and not (mine and path.startswith(k[0] + '/'))}
+        index.entries = {**rest, **mine}
+        return index.commit(message=message, author_date=date,
+                            parent_commits=parents)
 
     def commit_from_working_tree(self, message, *, date=None):
         """ commit from working tree by automatically adding to index
-- 
2.43.0


From 98b709c56701c69f8ac4958f5584d64c32c38510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 37/72] fix: diff against the index instead of against its
 object

indexed() and diff('', ref) always failed with a GitCommandError.
---
 augpathlib/repo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index d37a7ac..9e6d864 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -237,6 +237,9 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
+        if isinstance(other, self._git.IndexFile):
+            other = self._git.Diffable.INDEX
+
         list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
         if list_:
             return list_[0]
-- 
2.43.0


From bdffbc9299944b09fb4190ae9f691ce2bd173353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 38/72] fix: names that look like patterns only match
 themselves in git queries

---
 augpathlib/repo.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 9e6d864..2d55b74 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -7,6 +7,12 @@ from augpathlib.utils import log as _log
 log = _log.getChild('repo')
 
 
+def _literal(path):
+    """ pathspec that matches path and what is in it and nothing else
+        without the magic a name like a* is a pattern that matches others """
+    return ':(literal)' + path.as_posix()
+
+
 class RepoHelper:
     _repo_class = None  # set in _setup
     _repos = {}  # repo cache
@@ -203,7 +209,7 @@ class RepoHelper:
         """ the latest commit for the current path NOT the latest commit for the repo """
         try:
             return next(self.repo.iter_commits(rev=rev,
-                                               paths=self.expanduser().resolve().as_posix(),
+                                               paths=_literal(self.expanduser().resolve()),
                                                max_count=1))
         except StopIteration as e:
             raise exc.NoCommitsForFile(self) from e
@@ -211,7 +217,7 @@ class RepoHelper:
     def commits(self, *, rev=None, max_count=None):
         yield from self.repo.iter_commits(
             rev=rev,
-            paths=self.expanduser().resolve().as_posix(),
+            paths=_literal(self.expanduser().resolve()),
             # TODO --follow
             max_count=max_count)
 
@@ -240,7 +246,7 @@ class RepoHelper:
         if isinstance(other, self._git.IndexFile):
             other = self._git.Diffable.INDEX
 
-        list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        list_ = this.diff(other=other, paths=_literal(self.repo_relative_path), create_patch=create_patch)
         if list_:
             return list_[0]
 
-- 
2.43.0


From c5a3ac5d9134c166b74a966b352b16ff6f098620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 39/72] fix: show returns a file that ends with a newline as it
 is

---
 augpathlib/repo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 2d55b74..2494d68 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -345,8 +345,9 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            decoded = self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix())
-            return decoded.encode('utf-8', 'surrogateescape')
+            return self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(), '--',
+                                      strip_newline_in_stdout=False,
+                                      stdout_as_string=False)
 
         return  # unfortunately traversing the tree is a pain for this
         def ref_to_object(ref_):
-- 
2.43.0


From 4184b3ebe01940ff140258e4249818d0c6c01c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 40/72] fix: entering an invalid ref raises InvalidRefError

---
 augpathlib/repo_patch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index f11d045..d17963d 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -1,4 +1,5 @@
 import git
+from augpathlib import exceptions as exc
 
 
 class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
-- 
2.43.0


From 8f33b243706d5af2e888bbac9a8f5d2c44f94f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 41/72] fix: leaving a ref restores what was there when it was
 entered

A failing checkout left everything that was not committed in the stash,
a stash made in the meantime was restored instead of that of the context
manager, what was staged was not staged anymore, and entering the same
object twice lost the outer stash.
---
 augpathlib/repo_patch.py | 69 ++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index d17963d..2c5f671 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -47,6 +47,33 @@ git.Repo.getRef = _Repo.getRef
 git.Repo.currentRefName = _Repo.currentRefName
 
 
+def _stash_all(repo):
+    """ the sha of the new stash, None if there was nothing to stash """
+    if repo.git.stash('--all') != 'No local changes to save':
+        return repo.git.rev_parse('refs/stash')
+
+
+def _stash_pop(repo, stash):
+    """ by sha because other stashes may have been pushed in the meantime """
+    if stash is not None:
+        number = repo.git.stash('list', '--format=%H').split().index(stash)
+        name = f'stash@{{{number}}}'
+        try:
+            repo.git.stash('pop', '--index', name)
+        except git.exc.GitCommandError as e:
+            if 'without --index' not in e.stderr:
+                raise
+
+            # conflicts with what was committed in the meantime
+            repo.git.stash('pop', name)
+
+
+def _return_to(branch):
+    head = branch.repo.head
+    if head.is_detached or head.reference != branch:
+        branch.checkout()
+
+
 class _Reference(git.Reference):
     """ monkey patching """
     def __enter__(self):
@@ -60,32 +87,28 @@ class _Reference(git.Reference):
         if not self.is_valid():
             raise exc.InvalidRefError(f'Not a valid ref: {self.name}')
 
-        self.__original_branch = self.repo.active_branch
-        self.__stash = self.repo.git.stash('--all')  # always stash
-        if self.__stash == 'No local changes to save':
-            self.__stash = None
-
-        if self == self.__original_branch:
-            return self
-
-        self.checkout()
+        repo = self.repo
+        original_branch = repo.active_branch
+        stash = _stash_all(repo)  # always stash
+        try:
+            if self != original_branch:
+                self.checkout()
+        except BaseException:  # not entered so there will be no exit
+            _return_to(original_branch)
+            _stash_pop(repo, stash)
+            raise
+
+        if not hasattr(self, '_entered'):
+            self._entered = []
+
+        self._entered.append((original_branch, stash))
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-        _stash = self.repo.git.stash('--all')  # always stash on the way out as well
-        if _stash == 'No local changes to save':
-            stash = 'stash@{0}'
-        else:
-            stash = "stash@{1}"
-
-        if self.__original_branch != self:
-            self.__original_branch.checkout()
-
-        # TODO check to make sure no other stashes were pushed on top
-        if self.__stash is not None:
-            self.repo.git.stash('pop', stash)
-
-        self.__stash = None
+        original_branch, stash = self._entered.pop()
+        _stash_all(self.repo)  # always stash on the way out as well
+        _return_to(original_branch)
+        _stash_pop(self.repo, stash)
 
 
 # monkey patch git.Reference
-- 
2.43.0


From 31ee1a511df60c68d04f5cf0fdc71b795b75f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 42/72] fix: adding a path that does not exist does not add
 others its name matches

---
 augpathlib/repo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 2494d68..b1b078c 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -293,6 +293,10 @@ class RepoHelper:
         # because they are testing with strings
         # so we use repo_relative_path to avoid the broken
         # _to_relative_path in GitPython
+        if not (self.exists() or self.is_symlink()):
+            # GitPython would add whatever the name matches as a pattern
+            raise FileNotFoundError(f'{self}')
+
         self.repo.index.add([self.repo_relative_path.as_posix()])
 
     def commit(self, message, *, date=None):
-- 
2.43.0


From fe59d3354b459d3771940949c38931bb1e2a65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 43/72] fix: concurrent readers of a file in a zip archive do
 not close each other's

---
 augpathlib/zip.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a696be4..3301ba8 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -101,16 +101,13 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
     @property
     def data(self):
         # TODO generic open
-        try:
-            with self.open() as f:
-                while True:
-                    data = f.read(self.chunksize)  # TODO hinting
-                    if not data:
-                        break
-
-                    yield data
-        finally:
-            self.close()
+        with self.open() as f:  # not via self.close, there may be other readers
+            while True:
+                data = f.read(self.chunksize)  # TODO hinting
+                if not data:
+                    break
+
+                yield data
 
 
 ZipInternalPath._bind_flavours()
-- 
2.43.0


From 9b676b38fb9a39a9815ab9863f544a9ada19f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 44/72] fix: paths that are not in a zip archive are not
 directories of it

---
 augpathlib/zip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 3301ba8..c0254ef 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -73,7 +73,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         return self in self._paths
 
     def is_dir(self):
-        return not hasattr(self, '_zi') or self._zi.is_dir()
+        return self.exists() and (not hasattr(self, '_zi') or self._zi.is_dir())
 
     def __fspath__(self):
         if self.parent:
@@ -83,11 +83,13 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
             return super().__fspath__()
 
     def open(self, *args, **kwargs):
-        if not self.is_dir():
+        if hasattr(self, '_zi') and not self._zi.is_dir():
             self.__fd = self.zip_file.open(self._zi, *args, **kwargs)
             # FIXME probably need a wrapped filed descriptor to clean up the
             # internal state of this class too?
             return self.__fd
+        elif not self.exists():
+            raise FileNotFoundError(self)
         else:
             raise IsADirectoryError(self)
 
-- 
2.43.0


From 1bc2591528a27d0d70e51e98bd5ec74e023514c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 45/72] fix: a directory or missing file called .zip is not
 opened as an archive

---
 augpathlib/zip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index c0254ef..1251074 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -157,7 +157,8 @@ class ZipHelper:
                 self._c_zip_path = None
             else:
                 pzp = parent.zip_path  # zip files inside of zip files :/
-                if pzp is None and self.suffix == '.zip' or zipfile.is_zipfile(self):
+                if (pzp is None and self.is_file() and
+                    (self.suffix == '.zip' or zipfile.is_zipfile(self))):
                     self._c_zip_path = self
                     self.ZipInternalPath()
                 else:
-- 
2.43.0


From e772bac2708e59c88018c5261aa36aa327584f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 46/72] fix: the last version of a file in a zip archive is the
 one that counts

---
 augpathlib/zip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 1251074..5e26bff 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -21,7 +21,8 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
                     (ZipInternalPath,),
                     dict(zip_file=zipfile.ZipFile(zip_path)))
         zipath._bind_flavours()
-        paths = set(zipath(info=zi) for zi in zipath.zip_file.filelist)
+        # if there are several files with the same name the last one counts
+        paths = set(zipath(info=zi) for zi in reversed(zipath.zip_file.filelist))
         parents = set(parent for path in paths for parent in path.parents)
         zipath._paths = {p:p for p in parents | paths}
         return zipath
-- 
2.43.0


From e54b0f991d75799c05a6f5758940105266170367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 47/72] fix: a zip archive that was replaced is read again

---
 augpathlib/zip.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 5e26bff..8022b28 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -127,11 +127,13 @@ class ZipHelper:
     @property
     def ZipInternalPath(self):
         zp = self.zip_path
-        if zp is not None and zp not in self._zfc_cache:
-            zipath = ZipInternalPath._new(zp)
-            self._zfc_cache[zp] = zipath
+        if zp is not None:
+            st = zp.stat()
+            version = st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns
+            if zp not in self._zfc_cache or self._zfc_cache[zp][0] != version:
+                self._zfc_cache[zp] = version, ZipInternalPath._new(zp)
 
-        return self._zfc_cache.get(zp, None)
+            return self._zfc_cache[zp][1]
 
     @property
     def zip_relative_path(self):
-- 
2.43.0


From bb093242737f43cf8534dfa8ef88028c00285f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 48/72] fix: a path outside of any zip archive may not exist

---
 augpathlib/zip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 8022b28..06e1ccd 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -121,8 +121,10 @@ class ZipHelper:
     _zfc_cache = {}
 
     def exists(self):
-        return (self.zip_path is None and super().exists() or
-                self.zip_relative_path.exists())
+        if self.zip_path is None:
+            return super().exists()
+        else:
+            return self.zip_relative_path.exists()
 
     @property
     def ZipInternalPath(self):
-- 
2.43.0


From 867173f488f4bc816d1b2ecfcd773a020b8dd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 49/72] fix: concurrent fetches of a file do not disturb each
 other

---
 augpathlib/caches.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index c2a1969..7f44e02 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -922,6 +922,9 @@ class _CachePath(AugmentedPath):
                                f'from previous fetch? {existing_cache_cache}')
                         raise ValueError(msg)
 
+                    # another fetch may write to the file once it is in place
+                    local_size = temp.size
+                    _lc = temp.checksum(cypher=self._instance_cypher())
                     temp.rename(self)
                 except BaseException as e:
                     temp.unlink(missing_ok=True)
@@ -930,10 +933,12 @@ class _CachePath(AugmentedPath):
                 self._meta_setter(meta)
             else:
                 self.local.data = self.data  # note that this should trigger storage to .ops/objects
+                local_size = self.local.size
+                _lc = None
 
-            if meta.size is not None and self.local.size != meta.size:
+            if meta.size is not None and local_size != meta.size:
                 m2 = '.operations/objects/' + self.id.replace(':', '\\:')  # FIXME not abstracted
-                msg = (f'{self.local.size} != {meta.size} for {self.local}\n{m2}\n'
+                msg = (f'{local_size} != {meta.size} for {self.local}\n{m2}\n'
                        f'from previous fetch? {existing_cache_cache}')
                 raise ValueError(msg)
 
@@ -942,7 +947,9 @@ class _CachePath(AugmentedPath):
                 # as being checked again, so this prevents the recheck
                 pass
             else:
-                _lc = self.local.checksum(cypher=self._instance_cypher())
+                if _lc is None:
+                    _lc = self.local.checksum(cypher=self._instance_cypher())
+
                 if meta.checksum is not None and _lc != meta.checksum:
                     # FIXME these checks need to be happning inside of
                     # the local.data setter since otherwise this is overkill
@@ -1357,6 +1364,15 @@ class PrimaryCache(CachePath):
                 return cache.meta
             except exc.NoCachedMetadataError as e:
                 log.warning(e)
+            except (exc.PathExistsError, OSError):
+                if not self.exists():
+                    raise
+
+        if not exists and self.exists():
+            # in the meantime another fetch put the file in place of the symlink
+            meta = super().meta
+            if meta:
+                return meta
 
         if self._backup_cache:
             try:
-- 
2.43.0


From ecd6709b1ab511b4b093d66121137d7d59beb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 50/72] fix: processes that identify the machine for the first
 time at the same time agree

---
 augpathlib/utils.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 21e6be1..dbc6c16 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -78,9 +78,25 @@ def sysidpath(ignore_options=False, path_class=Path):
                 option.stat().st_size > 0):
                     return option
 
+    # another process may be doing the same at the same time so the file has
+    # to be complete when it appears and must not replace one that is there
     uuid = uuid4()
-    with open(failover, 'wt') as f:
-        f.write(uuid.hex)
+    temp = failover.parent / f'.{failover.name}-{uuid.hex}'
+    try:
+        with open(temp, 'wt') as f:
+            f.write(uuid.hex)
+
+        try:
+            os.link(temp, failover)
+        except FileExistsError:
+            if failover.stat().st_size == 0:  # left by a process that was killed
+                os.replace(temp, failover)
+        except OSError:  # no hard links here
+            if not failover.exists():
+                os.replace(temp, failover)
+    finally:
+        if temp.exists():
+            temp.unlink()
 
     return failover
 
-- 
2.43.0


From e8c751a9d5516e78fc607445cafa64c8af371572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 51/72] fix: files whose name starts with that of an ignored
 one are listed

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 593eb28..f6e8691 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1482,7 +1482,7 @@ class LocalPath(EatPath, AugmentedPath):
                 # once we are inside local data dir, though all files there
                 # are skip_cache -> True
                 for path in self.iterdir():
-                    if path.stem in cache_ignore:
+                    if path.name in cache_ignore:
                         continue
 
                     yield path
-- 
2.43.0


From 2893520458005224ec7633dbe4dcff7b08bebcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 52/72] fix: is_sparse of relative paths and of placeholders

---
 augpathlib/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index f6e8691..f905821 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -970,16 +970,24 @@ class EatPath(EatHelper, AugmentedPath):
         if hasattr(self, 'local'):
             # cache case
             l = self.local
-            parent = l.parent
         else:
-            parent = self.parent
             l = self
 
+        # the parents of a relative path end at the current directory
+        l = l.absolute()
+        parent = l.parent
         if l != parent:
             try:
-                return self.getxattr(self._sparse_key) == b'1'
+                return l.getxattr(self._sparse_key) == b'1'
             except exc.NoStreamError:
                 return parent._sparse_root()
+            except OSError as e:
+                # placeholders for remote files are broken symlinks
+                # usually ones that point back to themselves
+                if e.errno not in (errno.ENOENT, errno.ELOOP):
+                    raise e
+
+                return parent._sparse_root()
 
     def is_sparse(self):
         return self._sparse_root() is not None
-- 
2.43.0


From 4c561b729e2072f678d3243b53a11ebd2ef64614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 53/72] fix: a failed attempt to anchor can be repeated and
 never takes what is not its own

---
 augpathlib/caches.py  | 17 ++++++++++++-----
 augpathlib/remotes.py | 27 +++++++++++++++++----------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7f44e02..0a48c57 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -85,13 +85,20 @@ class _CachePath(AugmentedPath):
         # to construct a live CachePath by sideloading the remote id
         # which is OK for the path where local/remote binding has already
         # been completed
-        if '_anchor' not in self.__class__.__dict__:
-            self.__class__._abstract_class()._anchor = self
-            self.local_data_dir_init()  # call every time for insurance
-            self._remote_class.anchorToCache(self, init=remote_init)
+        # instances can have helper classes that never hold the anchor
+        acls = self._abstract_class()
+        if '_anchor' not in acls.__dict__:
+            acls._anchor = self
+            try:
+                self.local_data_dir_init()  # call every time for insurance
+                self._remote_class.anchorToCache(self, init=remote_init)
+            except BaseException as e:
+                # otherwise it is impossible to try again
+                delattr(acls, '_anchor')
+                raise e
 
         else:
-            raise ValueError(f'{self.__class__} already anchored to {self.__class__._anchor}')
+            raise ValueError(f'{acls} already anchored to {acls._anchor}')
 
     @property
     def local_class(self):
diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 14bd957..e93c700 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -107,7 +107,7 @@ class RemotePath:
         elif isinstance(path, LocalPath):
             # FIXME the non-existence problem rears its head again
             if path.cache:
-                return cls.anchorToCache(path.cache)
+                return cls._anchor_to_existing(path.cache)
             else:
                 root = cls.root if isinstance(cls.root, cls) else cls(cls.root)
                 if path.name != root.name:
@@ -123,6 +123,15 @@ class RemotePath:
         else:
             raise TypeError(f"Don't know how to anchor to a {type(path)} {path}")
 
+    @classmethod
+    def _anchor_to_existing(cls, cache):
+        if '_anchor' in cache._abstract_class().__dict__:
+            return cls.anchorToCache(cache)
+        else:
+            # the cache has to know about the anchor as well
+            cache.anchorClassHere()
+            return cls._cache_anchor
+
     @classmethod
     def _get_local_root_path(cls, parent_path=None):
         if parent_path is None:
@@ -147,16 +156,11 @@ class RemotePath:
             else:
                 raise e  # possibly check if the anchor is the same?
 
-        except exc.CacheExistsError as e:
-            root, path = cls._get_local_root_path(parent_path)
-            cls._cache_anchor = path.cache
-            return cls._cache_anchor
-
-        except exc.DirectoryNotEmptyError as e:
+        except (exc.CacheExistsError, exc.DirectoryNotEmptyError) as e:
             root, path = cls._get_local_root_path(parent_path)
-            if path.cache:
-                cls._cache_anchor = path.cache
-                return cls._cache_anchor
+            cache = path.cache
+            if cache:
+                return cls._anchor_to_existing(cache)
             else:
                 raise e
 
@@ -183,6 +187,9 @@ class RemotePath:
                 else:
                     raise NotImplementedError(f'What\'s a {root}?!')
 
+            elif not path.is_dir():
+                raise NotADirectoryError(f'not a directory {path}')
+
             elif list(path.children):
                 raise exc.DirectoryNotEmptyError(f'has children {path}')
 
-- 
2.43.0


From 0316879c10a2ef1c93fc62467eabeebda41fd9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 54/72] fix: clone to the directory git would name, dots are
 part of a name

---
 augpathlib/repo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index b1b078c..66a5ba4 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -40,7 +40,10 @@ class RepoHelper:
             this makes it possible to check for various issues
             prior to calling init(remote)
         """
-        name = pathlib.PurePath(remote).stem
+        name = pathlib.PurePath(remote).name
+        if name.endswith('.git'):  # like git, other suffixes are part of the name
+            name = name[:-len('.git')]
+
         return self / name
 
     def clone_from(self, remote, *, depth=None):
-- 
2.43.0


From 10e557ea6ddc64387935f978beed2e114d86c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:30 +0000
Subject: [PATCH 55/72] fix: the root found from a relative path is that of the
 project

---
 augpathlib/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index f905821..6f22348 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1167,7 +1167,9 @@ class LocalPath(EatPath, AugmentedPath):
         # try all the variants in case some symlinking weirdness is going on
         # TODO may want to detect and warn on that?
         root = self.__class__('/')
-        for variant in set((self, self.absolute(), self.resolve())):
+        # the parents of a relative path end at the current directory which
+        # need not be the root, also keep the order the same for every run
+        for variant in dict.fromkeys((self.absolute(), self.resolve())):
             for parent in chain((variant,), variant.parents):
                 try:
                     if parent.cache:
-- 
2.43.0


From 1b9b37aa0bc1bf8ae46e52e07913223f6f4b2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 56/72] fix: as_path of a remote with a cache does not include
 the root

---
 augpathlib/remotes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index e93c700..9869906 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -479,11 +479,11 @@ class RemotePath:
             # FIXME can this go stale? if so how?
             #log.debug(cache_parent)
             if cache_parent is not None and parent.id == cache_parent.id:
-                    for c_parent in cache_parent.parents:
-                        if c_parent is None:
-                            continue
-                        elif c_parent.name == remote.name:  # FIXME trick to avoid calling id
-                            parent_names.append(c_parent.name)  # since be compare one earlier we add here
+                    # the parents of a relative path end at the current directory
+                    for l_parent in cache_parent.local.absolute().parents:
+                        c_parent = l_parent.cache
+                        # names are not unique, a child may be called like remote
+                        if c_parent is None or c_parent.id == remote.id:
                             break
                         else:
                             parent_names.append(c_parent.name)
-- 
2.43.0


From c94a58e88a705d72d74f155ed26174aaa23040c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 57/72] fix: a move does not give the identity of what is moved
 to something else

---
 augpathlib/caches.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 0a48c57..87d2a7b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -971,6 +971,31 @@ class _CachePath(AugmentedPath):
         if size_not_ok:
             log.warning(f'File is over the size limit {meta.size.mb} > {size_limit_mb}')
 
+    def _ensure_not_in_the_way(self, target, id):
+        """ target is a local path, anything but the object with id
+            that is there cannot be replaced by a move of self """
+
+        if target.absolute() == self.local.absolute() or not (target.exists() or target.is_symlink()):
+            return
+
+        cache = target.cache
+        if cache is not None and cache.meta is not None:
+            if cache.id in (id, self.id):
+                return
+
+            elif target.is_broken_symlink():
+                if self.is_dir():
+                    raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
+
+                return  # the metadata that is newer wins
+
+        elif self.is_dir() and target.is_dir() and not target.is_symlink():
+            return  # directory moves that are resolved during pull
+
+        if not (self.is_file() and target.is_file() and not target.is_symlink() and
+                self.local.checksum() == target.checksum()):
+            raise exc.PathExistsError(f'Target {target} already exists!')
+
     def move(self, *, remote=None, target=None, meta=None):
         """ instantiate a new cache and cleanup self because we are moving """
         # FIXME what to do if we have data
@@ -982,8 +1007,16 @@ class _CachePath(AugmentedPath):
             if not isinstance(self.anchor, self.__class__):
                 raise TypeError(f'mismatched anchor types {self!r} {self.anchor!r}')
 
+            # constructing a cache writes the metadata so have a look at what is there first
+            there = self.anchor.__truediv__(remote, update_meta=False).local
+            remote._cache = self
+            self._ensure_not_in_the_way(there, remote.id)
+
             target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
 
+        elif not isinstance(target, self.__class__):
+            self._ensure_not_in_the_way(self.local.__class__(target), remote.id if remote else meta.id)
+
         if target.absolute() == self.absolute():
             log.warning(f'trying to move a file onto itself {self.absolute()}')
             return target
-- 
2.43.0


From 0422a10d9c7fcdc44943c13775ace80cfd141272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 58/72] fix: a file is compared using the kind of checksum that
 was recorded for it

---
 augpathlib/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 6f22348..473eace 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1517,7 +1517,11 @@ class LocalPath(EatPath, AugmentedPath):
     def content_different(self):
         cmeta = self.cache.meta
         if cmeta.checksum:
-            return self.meta.content_different(cmeta)
+            meta = self.meta
+            if cmeta.checksum_cypher in (None, meta.checksum_cypher):
+                return meta.content_different(cmeta)
+            else:  # our own metadata has a checksum for only one cypher
+                return self.checksum(cypher=self.cache._instance_cypher()) != cmeta.checksum
         else:
             # TODO use the index for this
             # but for now just pull down the remote file
-- 
2.43.0


From 6bd2c8cceccc9b5e1b0ca1b163e13b6bf038db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:06 +0000
Subject: [PATCH 59/72] fix: a renamed placeholder is refused instead of
 stopping in a debugger

The test for a case insensitive file system compared the lower case
parent with itself, so in any directory whose name is all lower case
reading a placeholder that has another name stopped in breakpoint()
and raised FileNotFoundError for a symlink that is there.
---
 augpathlib/meta.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 0903f46..8da1e24 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -431,11 +431,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             local_name = None
 
         if match_name and symlink_path.name != local_name:
-            _l = symlink_path.as_posix().lower()
-            l = pathlib.Path(_l).parent
-            u = pathlib.Path(_l).parent
-            if l.exists() and u.exists():
-                breakpoint()
+            _p = symlink_path.as_posix()
+            l = pathlib.Path(_p.lower()).parent
+            u = pathlib.Path(_p.upper()).parent
+            if l != u and l.exists() and u.exists():
                 # You've been hit by a case insenstivie file system!
                 # path.exists() -> True but FileNotFoundError woo
                 raise FileNotFoundError(symlink_path)
-- 
2.43.0


From 157c2eede1f0670ab4f7f2c9b4cdd4cfb7b2e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:59 +0000
Subject: [PATCH 60/72] fix: mkdir_remote outside of a project is an error

With parents=True it returned None as if there were nothing to do.
---
 augpathlib/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 473eace..d3f6894 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1155,6 +1155,10 @@ class LocalPath(EatPath, AugmentedPath):
 
                     remote._cache = local.cache
                     return remote
+
+            else:
+                raise exc.NotInProjectError(f'{self} is not in a project!')
+
         else:
             raise FileNotFoundError('missing parent for {self} and parents=False')
 
-- 
2.43.0


From 13fd4fdb3fedb71a2c5e10e16b527ff028d5d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:45 +0000
Subject: [PATCH 61/72] fix: mkdir_remote makes nothing on the remote for what
 is a file here

The remote directory was made first, and then FileExistsError was raised.
---
 augpathlib/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index d3f6894..f4cd936 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1124,6 +1124,11 @@ class LocalPath(EatPath, AugmentedPath):
             # self.cache will be None when this is called
             raise exc.RemotePathExistsError(self.remote)
 
+        # the remote must not get what then cannot be put here
+        for path in (self, *(self.parents if parents else ())):
+            if (path.exists() or path.is_broken_symlink()) and not path.is_dir():
+                raise FileExistsError(f'{path} is not a directory!')
+
         if self.parent.cache:
             remote = self.parent.remote._mkdir_child(self.name)
             # FIXME see the note about my dumbness wrt paths
-- 
2.43.0


From 7d5a99bf8f66f751b2fd9fc80a2f5a2dbfade4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:44 +0000
Subject: [PATCH 62/72] fix: directories a moved object needs are made with
 their metadata

A refresh of what is in a new remote directory now made only the innermost
directory, without metadata, or failed when there was more than one, since
mkdir_cache was never called, and could not work.
---
 augpathlib/caches.py | 6 +++++-
 augpathlib/core.py   | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 87d2a7b..7a8fe3e 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1011,6 +1011,10 @@ class _CachePath(AugmentedPath):
             there = self.anchor.__truediv__(remote, update_meta=False).local
             remote._cache = self
             self._ensure_not_in_the_way(there, remote.id)
+            if not there.parent.exists():
+                # constructing the cache also makes the directory it is in, but only
+                # the innermost and without metadata
+                there.mkdir_cache(remote, anchor=self.anchor)
 
             target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
 
@@ -1038,7 +1042,7 @@ class _CachePath(AugmentedPath):
             if remote is None:  # we have to have a remote to pull parent structure
                 remote = self._remote_class(meta)
 
-            target_parent.mkdir_cache(remote)
+            target_parent.mkdir_cache(remote, anchor=self.anchor)
 
         do_cast = not isinstance(target, self.__class__)
         if do_cast:
diff --git a/augpathlib/core.py b/augpathlib/core.py
index f4cd936..f6649eb 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1095,7 +1095,7 @@ class LocalPath(EatPath, AugmentedPath):
 
         return cache
 
-    def mkdir_cache(self, remote):  # XXX hack around my idiocy / desire to not hit the network
+    def mkdir_cache(self, remote, anchor=None):  # XXX hack around my idiocy / desire to not hit the network
         """ wow side effects everywhere
             given a remote, create the local folder structure
             and attach the remote metadata as cache
@@ -1107,10 +1107,13 @@ class LocalPath(EatPath, AugmentedPath):
 
         cc = self._cache_class
         rc = cc._remote_class
+        if anchor is None:
+            anchor = cc.anchor
+
         for parent in reversed(tuple(remote.parents)):
             # remote as_path is always a PurePosixPath relative to the
             # anchor and does not include the anchor
-            local_path = cc.anchor.local / parent.as_path()
+            local_path = anchor.local / parent.as_path()
             if not local_path.exists():
                 local_path.mkdir()
                 rc(parent, cache=cc(local_path, remote=parent, meta=parent.meta))
-- 
2.43.0


From fa2d728d1b379ca1e3186c72661be1ef6f5323c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 63/72] fix: placeholders of the first version can be read

Their version is called meta, which is in the table of versions, but
reading one was a ValueError because it does not end in a number.
---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 8da1e24..a029bfe 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -447,7 +447,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-        vint = int(version[3:])
+        vint = int(version[3:]) if version.startswith('mdv') else 0  # meta came before mdv1
         order = self.versions[version]
         kwargs = {field:self.decode(field, value, vint)
                   for field, value in zip(order, suffixes)}
-- 
2.43.0


From 1e1f9d7f6033a47a4979e2aaba93d6e2d8159888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:04 +0000
Subject: [PATCH 64/72] fix: metadata can be pickled, copied and used as a
 mapping

PathMeta.__reduce__ gave arguments that pickle refuses, __getitem__
returned None for every key and the times were not among the keys.
---
 augpathlib/meta.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index a029bfe..9acbbf5 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -5,6 +5,7 @@ import pickle
 import struct
 import pathlib
 from datetime import datetime
+from functools import partial
 from dateutil import parser as dateparser
 from terminaltables3 import AsciiTable
 from augpathlib import exceptions as exc
@@ -140,15 +141,17 @@ class PathMeta:
 
     def __getitem__(self, key):
         try:
-            getattr(self, key)
+            return getattr(self, key)
         except AttributeError as e:
             raise KeyError(key)
 
     def __iter__(self):
-        yield from (k for k in self.__dict__ if not k.startswith('_'))
+        yield from (k for k, v in self.items())
 
     def __reduce__(self):
-        return (self.__class__, {k:v for k, v in self.items() if v is not None})
+        # the arguments of a class can only be positional here
+        kwargs = {k:v for k, v in self.items() if v is not None}
+        return partial(self.__class__, **kwargs), tuple()
 
     def __repr__(self):
         _dict = {k:v for k, v in self.items() if not k.startswith('_')}
-- 
2.43.0


From fcb52e76707a55d944b7e00b2a2da07318c95f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:39 +0000
Subject: [PATCH 65/72] fix: the root found from a path with .. in it is that
 of where it leads

---
 augpathlib/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index f6649eb..8e03743 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1181,7 +1181,13 @@ class LocalPath(EatPath, AugmentedPath):
         root = self.__class__('/')
         # the parents of a relative path end at the current directory which
         # need not be the root, also keep the order the same for every run
-        for variant in dict.fromkeys((self.absolute(), self.resolve())):
+        absolute = self.absolute()
+        if '..' in absolute.parts:
+            # the path goes through what precedes the dots but is not inside of it
+            absolute = (absolute.resolve() if absolute.name == '..' else
+                        absolute.parent.resolve() / absolute.name)
+
+        for variant in dict.fromkeys((absolute, self.resolve())):
             for parent in chain((variant,), variant.parents):
                 try:
                     if parent.cache:
-- 
2.43.0


From f120a39a043f7a82b8cc2303902e516efcd53357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:52 +0000
Subject: [PATCH 66/72] fix: a directory left by an interrupted move is not in
 the way of the next

---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7a8fe3e..0a664d4 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -979,7 +979,8 @@ class _CachePath(AugmentedPath):
             return
 
         cache = target.cache
-        if cache is not None and cache.meta is not None:
+        # the id comes last, without it whoever wrote the rest was interrupted
+        if cache is not None and cache.meta is not None and cache.meta.id is not None:
             if cache.id in (id, self.id):
                 return
 
-- 
2.43.0


From 4ecf97f8eb87fef0b61264b1bcbbbc8d88db3e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:41 +0000
Subject: [PATCH 67/72] fix: a pull also follows what changed inside of a
 directory that was moved

---
 augpathlib/caches.py | 59 ++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 0a664d4..048f751 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -481,33 +481,44 @@ class _CachePath(AugmentedPath):
         #rcs = sname(self.remote._rchildren(create_cache=False, sparse=sparse))
         rcs = self.remote._rchildren(create_cache=False, sparse=sparse)
 
-        local_paths = list(self.local.rchildren)
-        local_files = set(p for p in local_paths if p.is_file() or p.is_broken_symlink())
-        file_index = {f.cache_id:f for f in local_files}  # FIXME WARNING can get big
-        # FIXME have to compute file_index here because for some reason
-        # computing local_dirs will remove folders entirely !??
-        local_dirs = set(p.relative_to(self.anchor) for p in local_paths if p.is_dir())
-        if local_dirs:
+        def local_dirs():
+            return sorted((p for p in self.local.rchildren if p.is_dir()),
+                          key=lambda p: len(p.as_posix()))
+
+        if local_dirs():
             rcs = list(rcs)  # sigh
-            remote_dirs = set(c for c in rcs if c.is_dir())
-
-            rd = set(d.as_path() for d in remote_dirs)  # FIXME as_path => lots of network calls
-            old_local = local_dirs - rd
-            while old_local:
-                thisl = sorted(old_local, key=lambda d: len(d.as_posix()))
-                for d in thisl:
-                    ad = self.anchor.local / d
-                    if ad.cache is None:
+            # FIXME as_path => lots of network calls
+            rd = {c.id: c.as_path() for c in rcs if c.is_dir()}
+            seen = set()
+            moved = True
+            while moved:
+                # what is inside of a directory moves with it, so have another look
+                moved, blocked = False, None
+                for d in local_dirs():
+                    cache = d.cache
+                    if cache is None or cache.id is None:
                         log.critical(f'would you fix the nullability already? {d}')
-                        # there is nothing to refresh so do not come back to it
-                        local_dirs = local_dirs - {d}
-                        old_local = local_dirs - rd
+                        # there is nothing to refresh
                         continue
-                    new = ad.cache.refresh()
-                    #log.info(f'{new}')
-                    local_dirs = set(ld for ld in local_dirs
-                                     if not ld.as_posix().startswith(d.as_posix()))
-                    old_local = local_dirs - rd
+
+                    if rd.get(cache.id) != d.relative_to(self.anchor) and (d, cache.id) not in seen:
+                        try:
+                            cache.refresh()
+                        except exc.PathExistsError as e:
+                            # what is in the way may itself have to move
+                            blocked = e
+                            continue
+
+                        seen.add((d, cache.id))
+                        moved = True
+                        break
+
+                if blocked is not None and not moved:
+                    raise blocked
+
+        # the files have moved with their directories
+        local_files = set(p for p in self.local.rchildren if p.is_file() or p.is_broken_symlink())
+        file_index = {f.cache_id:f for f in local_files}  # FIXME WARNING can get big
 
         if sparse:
             #if local_dirs:
-- 
2.43.0


From f3ba7171f4b534f085b502bd3f6b90d0e23d6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:04 +0000
Subject: [PATCH 68/72] fix: the uri of a path keeps the dots of the name of
 the repository

---
 augpathlib/repo.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 66a5ba4..62f8594 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -163,6 +163,9 @@ class RepoHelper:
         pu = urlparse(url_base)
         netloc = pu.netloc
         path = pu.path
+        if path.endswith('.git'):  # other suffixes are part of the name
+            path = path[:-len('.git')]
+
         if netloc.startswith('git@github.com'):
             _, group = netloc.split(':')
             netloc = 'github.com'
@@ -185,9 +188,9 @@ class RepoHelper:
                 log.warning(f'unknown ref {ref}')
 
             if infix is not None:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / infix / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / infix / ref / self.repo_relative_path
             else:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / ref / self.repo_relative_path
             return prefix + rpath.as_posix()
         elif url_base.startswith('/') and self.__class__(url_base).exists():
             other_rp = self.__class__(url_base)
@@ -199,7 +202,7 @@ class RepoHelper:
     def remote_uri_api(self, endpoint=''):
         # technically this is for the whole repo
         repo, rnprefix, url_base, netloc, path = self._remote_helper()
-        p = pathlib.PurePosixPath(path).with_suffix('')
+        p = pathlib.PurePosixPath(path)
         return f'https://api.github.com/repos{p}' + endpoint
 
     def remote_uri_human(self, ref=None):
-- 
2.43.0


From 337c11e6a188c4dcfbfd224625b4c6b7be73749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:04 +0000
Subject: [PATCH 69/72] fix: the uri of a path whose remote is an ssh:// url of
 github

---
 augpathlib/repo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 62f8594..d43906b 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -167,9 +167,10 @@ class RepoHelper:
             path = path[:-len('.git')]
 
         if netloc.startswith('git@github.com'):
-            _, group = netloc.split(':')
+            _, _, group = netloc.partition(':')
             netloc = 'github.com'
-            path = '/' + group + path
+            if group:  # git@github.com:group/name, otherwise it is in the path
+                path = '/' + group + path
 
         return repo, rnprefix, url_base, netloc, path
 
-- 
2.43.0


From c19ddd62221747fcca3d27ca1cfe837391dd6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:40 +0000
Subject: [PATCH 70/72] fix: the tags of a package are not those of others with
 similar names

---
 augpathlib/package.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 9d27fb2..63544d7 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -275,7 +275,10 @@ class PackagePath(RepoPath):
         gj = self.github_json
         if gj:
             if self.tag_prefix:
-                these = [r for r in gj if self.arg_packagename in r['tag_name']]
+                # other packages may have names that contain this one
+                prefix = self.arg_packagename + '-'
+                these = [r for r in gj if r['tag_name'].startswith(prefix) and
+                         r['tag_name'][len(prefix):][:1] in tuple('0123456789')]
             else:
                 these = [r for r in gj if r['tag_name'][0] in '0123456789']
 
@@ -314,7 +317,8 @@ class PackagePath(RepoPath):
         # match ... HRM
 
         if self.tag_prefix:
-            match_version = self.arg_packagename + '-*'
+            # not the tags of packages with names that start like this one
+            match_version = self.arg_packagename + '-[0-9]*'
         else:
             match_version = '[0-9]*'
 
-- 
2.43.0


From 91d75c68eee320f84c5e91defbf013967e58cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:40 +0000
Subject: [PATCH 71/72] fix: before the first release all commits of a package
 are unreleased

---
 augpathlib/package.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 63544d7..afa657c 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -388,9 +388,9 @@ class PackagePath(RepoPath):
             rfs = [self.folder]
 
         _tag = self.tag
-        tag = _tag if _tag else ''
+        since = f'{_tag}..HEAD' if _tag else 'HEAD'  # ..HEAD would be nothing
         log = self.repo.git.log("--format='%aI %an %h %s'",
-                                f'{tag}..HEAD',
+                                since,
                                 '--', *rfs)
         entries = [_ for _ in [e[1:-1] for e in log.split('\n')] if _]
         return entries
-- 
2.43.0


From e6ddf8b934f608ebcff3d6c2978e22f3d7f1c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:40 +0000
Subject: [PATCH 72/72] fix: a package is not taken for a new one when its
 index does not answer

---
 augpathlib/package.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index afa657c..3576848 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -202,10 +202,13 @@ class PackagePath(RepoPath):
         if not hasattr(self, '_pypi_json'):
             self._bind_requests()
             self._pypi_request = self._requests.get(f'https://pypi.org/pypi/{self.arg_packagename}/json')
-            if not self._pypi_request.ok:
+            if self._pypi_request.status_code == 404:
                 # new package with no existing releases
                 return
 
+            # no answer does not mean that there are no releases
+            self._pypi_request.raise_for_status()
+
             self._pypi_json = self._pypi_request.json()
             # XXX sometimes the pypi api spews stale data :/
             if self._debug:
-- 
2.43.0

