From cc6c399c01948687d5873d3a5f4ddd1508421bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 01/33] fix: fsync the directory that holds the finished packs

LocalPackStore renamed the pack and its index into objects/pack, but
fsynced objects, so the new names were not durable when the pack was
reported as finished.
---
 lib/bup/git.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index aa5bcf1..ebe6379 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -841,7 +841,8 @@ class LocalPackStore():
                 objdir = os.path.join(self._repo_dir, b'objects')
                 self._tmpdir = err_stack.enter_context(temp_dir(dir=objdir, prefix=b'pack-tmp-'))
                 self._file = err_stack.enter_context(open(self._tmpdir + b'/pack', 'w+b'))
-                self._parentfd = err_stack.enter_context(finalized(os.open(objdir, os.O_RDONLY),
+                packdir = os.path.join(objdir, b'pack')
+                self._parentfd = err_stack.enter_context(finalized(os.open(packdir, os.O_RDONLY),
                                                                    os.close))
                 self._file.write(b'PACK\0\0\0\2\0\0\0\0')
                 self._idx = PackIdxV2Writer()
-- 
2.43.0


From 4800d690519acad7fcf519051ed068e7547d8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 02/33] fix: flush the pack index checksum before the fsync

The trailing checksums were still in the file object's buffer when the
index was fsynced, so a crash could leave a published, truncated index.
---
 lib/bup/git.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index ebe6379..d3c44d7 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1072,6 +1072,7 @@ class PackIdxV2Writer:
             for b in chunkyreader(idx_f):
                 idx_sum.update(b)
             idx_f.write(idx_sum.digest())
+            idx_f.flush()
             fsync(idx_f.fileno())
 
 
-- 
2.43.0


From bb6a4709cd9c2593becc57572a586f0aa7b2fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 03/33] fix: flush the bloom filter before giving it its final
 name

BloomWriter.close() renamed the temporary file while the index names
were still in the file object's buffer, so a crash (or a failing write)
at the later close left a filter without them under the final name.
---
 lib/bup/bloom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index a28d263..cf3c0a0 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -336,6 +336,7 @@ class BloomWriter(_BloomBase):
                 self._file.seek(16 + 2**self.bits)
                 if self.idxnames:
                     self._file.write(b'\0'.join(self.idxnames))
+                self._file.flush()
                 os.rename(self._tmp_file_path, self.path)
         finally:
             self._file, self.map, self._tmp_file_path = None, None, None
-- 
2.43.0


From df7183fa7323289c0166b4135472667153453e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 04/33] fix: add to the existing bloom filter instead of
 replacing it

When new indexes are added to a filter, do_bloom() created an empty one
over it, so that the indexes already covered were lost from the filter.
---
 lib/bup/cmd/bloom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index c418640..1e09aea 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -129,7 +129,7 @@ def do_bloom(path, outfilename, k, force):
             else:
                 b, b_tmp = None, b
                 b_tmp.close()
-                b = BloomWriter(outfilename, mode='w+b', expected=add_count)
+                b = BloomWriter(outfilename, mode='wb', expected=add_count)
         if b is None: # Need all idxs to build from scratch
             add += rest
             add_count += rest_count
-- 
2.43.0


From 362acd4ca7a55896ab1e6ba4c9cf782d8e7c1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 05/33] fix: drop an unfinished bloom filter instead of
 publishing it

When adding to the filter failed, do_bloom() still closed the writer
normally, which gave the partial filter its final name.
---
 lib/bup/cmd/bloom.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index 1e09aea..7d5bbd7 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -80,6 +80,7 @@ def do_bloom(path, outfilename, k, force):
     global _first
     assert k in (None, 4, 5)
     b = None
+    error = None
     try:
         if not force:
             try:
@@ -158,10 +159,14 @@ def do_bloom(path, outfilename, k, force):
                 count += 1
                 icount += len(ix)
 
-    finally:  # This won't handle pending exceptions correctly in py2
+    except BaseException as ex:
+        error = ex
+        raise
+    finally:
         # Currently, there's an open file object for tfname inside b.
         # Make sure it's closed before rename.
-        if b is not None: b.close()
+        if isinstance(b, BloomWriter): b.close(error)
+        elif b is not None: b.close()
 
     if tfname:
         os.rename(tfname, outfilename)
-- 
2.43.0


From e24acc890d083735b07b841ae6564233d5d19150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 06/33] fix: report a failure to store a pack as a GitError

save treats an OSError while saving a file as a failure to read that
file, and so an error (e.g. ENOSPC) while finishing a pack mid-save was
recorded against the file, and the branch was then moved to a tree
naming the objects that were lost with the pack.
---
 lib/bup/git.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index d3c44d7..fba77be 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -854,7 +854,10 @@ class LocalPackStore():
             self._idx.add(sha, crc, self._file.tell() - size)
 
     def write(self, datalist, sha):
-        self._open()
+        try:
+            self._open()
+        except OSError as e:
+            raise GitError(e) from e
         f = self._file
         # in case we get interrupted (eg. KeyboardInterrupt), it's best if
         # the file never has a *partial* blob.  So let's make sure it's
@@ -873,6 +876,14 @@ class LocalPackStore():
         return nw, crc
 
     def finish_pack(self, *, abort=False):
+        # Callers like save must not mistake a failure here for a
+        # failure to read the data being saved (and then carry on).
+        try:
+            return self._finish_pack(abort=abort)
+        except OSError as e:
+            raise GitError(e) from e
+
+    def _finish_pack(self, *, abort=False):
         # Ignores run_midx during abort
         self._tmpdir, tmpdir = None, self._tmpdir
         self._parentfd, pfd, = None, self._parentfd
-- 
2.43.0


From 8a0d804ba759db7bc9c0159dcef042bc537ca4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 07/33] fix: raise an error reply from the server in
 Client.check_ok

The connection's check_ok returns the error, and Client's callers
ignored the result, so a failed receive-objects or set-dir was taken
for a success.
---
 lib/bup/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index e118faf..a7bbe20 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -361,7 +361,10 @@ class Client:
         with closing(self._transport):
             self._transport = None # not necessary
 
-    def check_ok(self): return self._transport.check_ok()
+    def check_ok(self):
+        ok_ex = self._transport.check_ok()
+        if ok_ex:
+            raise ok_ex
 
     def check_busy(self):
         if self._busy:
-- 
2.43.0


From 27e3c445195f8f74f4046368468f34e2a2f80a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 08/33] fix: don't take a failed git show-ref for a repository
 without refs

gc then considered everything to be garbage.
---
 lib/bup/git.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index fba77be..d8fefd5 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1105,6 +1105,8 @@ def list_refs(patterns=None, repo_dir=None,
     if patterns:
         argv.extend(patterns)
     cp = subprocess.run(argv, env=_gitenv(repo_dir), stdout=subprocess.PIPE)
+    if cp.returncode not in (0, 1): # 1 means no matches
+        raise GitError('git show-ref exited with error %d' % cp.returncode)
     if cp.returncode:
         assert not cp.stdout
     out = cp.stdout.strip()
-- 
2.43.0


From fe975596790ce0e81f2c759e211647d14b30a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 09/33] fix: recognize the new pack in gc when the repository
 path is a symlink

Otherwise, when the pack just written has the name of a stale one, gc
removes it.
---
 lib/bup/gc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 7ca2c28..35e1ebf 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -154,7 +154,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
                 log('created ' + path_msg(basename(new_pack_prefix)) + '\n')
         for stem in stale_packs:
             assert _pack_stem_rx.fullmatch(basename(stem))
-            if stem == new_pack_prefix:
+            if new_pack_prefix and basename(stem) == basename(new_pack_prefix):
                 continue  # Don't remove the new pack file
             for p in glob.glob(stem + b'.*'):
                 if verbosity:
-- 
2.43.0


From 6a8c1a413e89aaad5c75b3036bfd4d5e78db8bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 10/33] fix: don't lose the failure of an fsck worker

A worker killed by a signal counted as a success (status >> 8), and a
worker that failed after another one had repaired its pack left the
exit status at 1, which only means that a repair was needed and
successful.
---
 lib/bup/cmd/fsck.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 496edb3..4fe4f15 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -326,6 +326,14 @@ def merge_exits(pending, new):
     return pending
 
 
+def worker_exit(status):
+    """Return the exit code for an os.wait() status."""
+    if os.WIFEXITED(status):
+        return os.WEXITSTATUS(status)
+    log(f'error: worker terminated unexpectedly (status {status})\n')
+    return EXIT_FAILURE
+
+
 def main(argv):
     global opt, par2_ok
 
@@ -383,11 +391,10 @@ def main(argv):
             count += 1
         else:
             while len(outstanding) >= opt.jobs:
-                (pid,nc) = os.wait()
-                nc >>= 8
+                pid, status = os.wait()
                 if pid in outstanding:
                     del outstanding[pid]
-                    code = merge_exits(code, nc)
+                    code = merge_exits(code, worker_exit(status))
                     count += 1
             pid = os.fork()
             if pid:  # parent
@@ -402,11 +409,10 @@ def main(argv):
                     sys.exit(99)
 
     while len(outstanding):
-        (pid,nc) = os.wait()
-        nc >>= 8
+        pid, status = os.wait()
         if pid in outstanding:
             del outstanding[pid]
-            code = code or nc
+            code = merge_exits(code, worker_exit(status))
             count += 1
         if not opt.verbose:
             progress('fsck (%d/%d)\r' % (count, len(pack_stems)))
-- 
2.43.0


From 1b232844419ec6aaafccc3e36c5c4bcb8cae631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 11/33] fix: report damaged par2 files in fsck even after a
 successful repair

The exit status stayed 1 (repair needed and successful) if a pack was
repaired before one with an empty or missing par2 file was found.
---
 lib/bup/cmd/fsck.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 4fe4f15..b29422e 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -376,8 +376,7 @@ def main(argv):
         base = os.path.basename(stem)
         par2_status = par2_recovery_file_status(stem)
         if par2_status is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
             continue
         sys.stdout.flush()  # Not sure we still need this, but it'll flush out too
         debug('fsck: checking %r (%s)\n'
@@ -422,7 +421,6 @@ def main(argv):
     # double-check (e.g. for (unlikely) problems with generate tmpdir renames)
     for stem in pack_stems:
         if par2_recovery_file_status(stem) is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
 
     sys.exit(code)
-- 
2.43.0


From d6c3318c910d45e111aca30ef95549a6f8f7d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 12/33] fix: let fsck run without par2

par2_setup() failed with an UnboundLocalError when par2 isn't
installed, instead of disabling the recovery features.
---
 lib/bup/cmd/fsck.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index b29422e..ead95ab 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -48,6 +48,7 @@ def par2_setup():
                  check=False)
     except (FileNotFoundError, NotADirectoryError):
         log('fsck: warning: par2 not found; disabling recovery features.\n')
+        return
     if sp.returncode == 0:
         par2_ok = 1
         return
-- 
2.43.0


From 3ca077743ef720e988f3f1c5e496b542474bf252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 13/33] fix: report a failure of demux in bup on

The output of the remote command may be incomplete (e.g. disk full) if
demux failed, but the exit status was ignored.
---
 lib/bup/cmd/on.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/on.py b/lib/bup/cmd/on.py
index d5b6525..f30f4d3 100644
--- a/lib/bup/cmd/on.py
+++ b/lib/bup/cmd/on.py
@@ -11,7 +11,7 @@ from bup.cmd.save import opts_from_cmdline as parse_save_args
 from bup.cmd.split import opts_from_cmdline as parse_split_args
 from bup.compat import argv_bytes
 from bup.git import check_repo_or_die, parse_commit
-from bup.helpers import Conn, stopped
+from bup.helpers import EXIT_FAILURE, EXIT_SUCCESS, Conn, stopped
 from bup.io import path_msg as pm
 from bup.protocol import CommandDenied
 from bup.repo import LocalRepo
@@ -144,5 +144,5 @@ def main(argv):
                      timeout=1) as demux:
             if srv_config:
                 run_server(on_srv, srv_config)
-            demux.wait() # finish the output
-    return on_srv.returncode
+            demux_rc = demux.wait() # finish the output
+    return on_srv.returncode or (EXIT_FAILURE if demux_rc else EXIT_SUCCESS)
-- 
2.43.0


From d36b5367198e6b9ee5071df0010b893a6aacdca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 14/33] fix: index the pack again when fsck --repair finds no
 index

---
 lib/bup/cmd/fsck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index ead95ab..fe42e84 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -248,8 +248,8 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
     log(f'{path_msg(base)} par2 repair: succeeded, checking .idx\n')
     try:
         exp, act = trailing_and_actual_checksum(stem + b'.idx')
-        idx_ok = exp == act
-        if not idx_ok:
+        idx_ok = act is not None and exp == act # None when missing
+        if act is not None and not idx_ok:
             os.unlink(stem + b'.idx')
     except FileNotFoundError:
         idx_ok = False
-- 
2.43.0


From 6454c3a263db99df0039f12f235cdda240473d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 15/33] fix: cap the timestamps of updated index entries too

bup index documents that it never records a timestamp more recent than
one second before the update started, but did so only for new paths,
not for those that were already in the index.
---
 lib/bup/cmd/index.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index f9a3fea..9f60d4f 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -152,6 +152,7 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                     meta.ctime = meta.mtime = meta.atime = 0
                     meta.freeze()
                     meta_ofs = msw.store(meta)
+                    rig.cur.tmax = tmax
                     rig.cur.update_from_stat(pst, meta_ofs)
                     rig.cur.invalidate()
                     need_repack = True
-- 
2.43.0


From f29f09ded7bcb3cd69937c920c738d5e525661c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 16/33] fix: never remember a tree without a file skipped by
 save --smaller

When an unchanged, already saved file was skipped by --smaller, the
directory saved without it was still marked valid in the index, so later
saves without --smaller reused that tree and silently omitted the file.
Directories aren't skipped because of their own size anymore, which
omitted unchanged ones altogether.
---
 lib/bup/cmd/save.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 6cecdbd..69028c0 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -276,11 +276,11 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
 
         if not exists:
             continue
-        if opt.smaller and ent.size >= opt.smaller:
-            if exists and not already_saved_oid:
-                if opt.verbose:
-                    log('skipping large file "%s"\n' % path_msg(ent.name))
-                lastskip_name = ent.name
+        if opt.smaller and file and ent.size >= opt.smaller:
+            if opt.verbose and not already_saved_oid:
+                log('skipping large file "%s"\n' % path_msg(ent.name))
+            # Even if it's already saved, the trees above it won't have it.
+            lastskip_name = ent.name
             continue
 
         assert(dir.startswith(b'/'))
-- 
2.43.0


From 3857223baf0c7f2c4826ff0563f4a3b4f25f6a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 17/33] fix: don't mark a directory saved when its metadata
 couldn't be read

lastskip_name was set to just the directory's name, which never matches
the full path of its index entry, so the entry was marked valid and
later saves kept reusing a tree with empty metadata.
---
 lib/bup/cmd/save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 69028c0..05d5226 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -325,7 +325,7 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                     if fs_path else empty_metadata
             except (OSError, IOError) as e:
                 add_error(e)
-                lastskip_name = dir_name
+                lastskip_name = os.path.join(fs_path, b'')
                 meta = empty_metadata
             stack.push(dir_name, meta)
 
-- 
2.43.0


From 04c51c4d45471231d7f27c766aae7d7f2affcb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 18/33] fix: never publish a pack after a failed write to it

---
 lib/bup/git.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index d8fefd5..67aaa9f 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -868,6 +868,9 @@ class LocalPackStore():
         try:
             f.write(oneblob)
         except IOError as e:
+            # The file may now end with part of an object, so make
+            # sure it's never published (e.g. by a later close()).
+            self.finish_pack(abort=True)
             raise GitError(e) from e
         nw = len(oneblob)
         crc = zlib.crc32(oneblob) & 0xffffffff
-- 
2.43.0


From df5fc339526070bbbe2caf5801f4c597091376bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 19/33] fix: store index metadata before publishing references
 to it

The index metadata was buffered until the writer was closed, so a crash
or a failed write could leave index entries (updated in place, or in a
newly published index) referring to metadata that was never stored, and
a later run would then store some other path's metadata there.
---
 lib/bup/index.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/bup/index.py b/lib/bup/index.py
index 6744617..cdb26de 100644
--- a/lib/bup/index.py
+++ b/lib/bup/index.py
@@ -171,9 +171,16 @@ class MetaStoreWriter:
             return ofs
         ofs = self._file.tell()
         self._file.write(meta_encoded)
+        # Existing entries are updated in place, so the offset may be
+        # visible as soon as we return.
+        self._file.flush()
         self._offsets[meta_encoded] = ofs
         return ofs
 
+    def sync(self):
+        self._file.flush()
+        fsync(self._file.fileno())
+
 
 class Level:
     def __init__(self, ename, parent):
@@ -645,6 +652,8 @@ class Writer:
                 self.pending_index.cancel()
             else:
                 self.flush()
+                # The entries refer to the metadata, so it must be there first
+                self.metastore.sync()
                 fsync(self.f.fileno())
 
     def __del__(self):
-- 
2.43.0


From b9f66d5e0192a871f2a25dd96a98f13c2d3d4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 20/33] fix: keep the hard link db when its pending removal is
 aborted

abort_save() closed the cleanup stack, running the removal of the
published db that prepare_save() had only scheduled for the commit.
---
 lib/bup/hlinkdb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/hlinkdb.py b/lib/bup/hlinkdb.py
index b71b550..0b3863b 100644
--- a/lib/bup/hlinkdb.py
+++ b/lib/bup/hlinkdb.py
@@ -66,6 +66,9 @@ class HLinkDB:
         with self._cleanup:
             if self._pending_save:
                 self._pending_save.cancel()
+            else:
+                # Drop any removal of the existing db pending commit
+                self._cleanup.pop_all()
         self._pending_save = None
 
     def __enter__(self):
-- 
2.43.0


From 45dd533312086b4f84c11ce9939b1417b7883e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 21/33] fix: open the requested repository when one is already
 open

A second init-dir or set-dir closed the current repository but didn't
open the requested one, so that the next command silently opened the
server's default repository instead.
---
 lib/bup/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/protocol.py b/lib/bup/protocol.py
index 1aadb98..53ee72d 100644
--- a/lib/bup/protocol.py
+++ b/lib/bup/protocol.py
@@ -231,7 +231,7 @@ class Server:
                 self.repo.close()
                 self.repo = None
                 self.suspended = False
-        else:
+        if not self.repo:
             self.repo = self._backend(repo_dir, server=True)
             dw = self.repo.config_get(b'bup.server.deduplicate-writes', opttype='bool')
             self._deduplicate_writes = True if dw is None else dw
-- 
2.43.0


From 1aa7bb1da6bf1c3a7aeef9ca6fc3311280a12290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 22/33] fix: reject a truncated value when skipping a bvec

A partial value was accepted as if it were complete, and a complete
empty one was rejected.
---
 lib/bup/vint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/vint.py b/lib/bup/vint.py
index 1969d11..876c0c4 100644
--- a/lib/bup/vint.py
+++ b/lib/bup/vint.py
@@ -141,7 +141,7 @@ def skip_bvec(port):
     if n is None:
         raise EOFError('encountered EOF while skipping bvec')
     val = port.read(n)
-    if not val:
+    if len(val) != n: # e.g. EOF when n != 0
         raise EOFError('encountered EOF while skipping bvec')
 
 
-- 
2.43.0


From f22197fd338d850dc60287821a5f09f43dc8ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 23/33] fix: reject multiplexed data for an unknown channel

The header was dropped without the data that follows, which would then
have been handled as the next header.
---
 lib/bup/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index b3eb852..ee6d72d 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -615,6 +615,8 @@ class DemuxConn(BaseConn):
                 sys.stderr.buffer.write(buf)
                 buf = os.read(self.infd, 1024)
             sys.stderr.buffer.flush()
+        else:
+            raise Exception('demux: unexpected channel %d' % fdw)
         return True
 
     def _load_buf(self, timeout):
-- 
2.43.0


From 8b49da805f9725edb09f7ab1c74b21f6cab34a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 24/33] fix: don't apply archived metadata outside the
 extraction target

A record whose path was exactly ".." wasn't considered risky, so that
its metadata was applied to the parent of the target, and
finish_extract() classified absolute paths by what they refer to outside
of the target, so that directories could get their final metadata before
their content did.
---
 lib/bup/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index a2ee808..f5ead17 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -163,6 +163,8 @@ def _risky_path(p):
         return True
     if p.endswith(b'/..'):
         return True
+    if p == b'..':
+        return True
     return False
 
 
@@ -1253,7 +1255,7 @@ def finish_extract(file, restore_numeric_ids=False):
         if not xpath:
             note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
         else:
-            if os.path.isdir(meta.path):
+            if os.path.isdir(xpath):
                 all_dirs.append(meta)
             else:
                 if verbose:
-- 
2.43.0


From cb2f25855eb13b9f9c9458ce06c8fef92bbb758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 25/33] fix: ignore only the ACL when a v1 ACL can't be
 converted

The notice says that the entry is ignored, but reading the metadata
failed altogether, since there was no list to convert to a tuple.
---
 lib/bup/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index f5ead17..45cac65 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -595,7 +595,7 @@ class Metadata:
             acl_rep = acl_rep[:2]
         if version == 1:
             acl_rep = self._correct_posix1e_v1_delimiters(acl_rep, self.path)
-        self.posix1e_acl = tuple(acl_rep)
+        self.posix1e_acl = tuple(acl_rep) if acl_rep else None
 
     def _apply_posix1e_acl_rec(self, path, restore_numeric_ids=False):
         if not self.posix1e_acl:
-- 
2.43.0


From b6198504898ed5c1780c7a1e0421de628a69ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 26/33] fix: consider extended attributes when comparing
 metadata

Metadata that differs only in its Linux extended attributes was
considered equal.
---
 lib/bup/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 45cac65..451c0d6 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -831,6 +831,8 @@ class Metadata:
         if self.symlink_target != other.symlink_target: return False
         if self.hardlink_target != other.hardlink_target: return False
         if self.linux_attr != other.linux_attr: return False
+        # No xattrs may be either an empty list or None
+        if (self.linux_xattr or None) != (other.linux_xattr or None): return False
         if self.posix1e_acl != other.posix1e_acl: return False
         return True
 
-- 
2.43.0


From bd52fc00dfdc6356b01b1d64aed21ebf734ff1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 27/33] fix: refuse index names that aren't plain idx names

The names suggested by the server were used as is as paths relative to
the index cache, so that a server could create files anywhere.
---
 lib/bup/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index a7bbe20..65103ec 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -456,6 +456,9 @@ class Client:
         fsync(f.fileno())
 
     def sync_index(self, name):
+        # The name comes from the server, so make sure it stays in cachedir
+        if b'/' in name or not name.endswith(b'.idx'):
+            raise ClientError(f'unexpected index name: {pm(name)}')
         mkdirp(self.cachedir)
         fn = os.path.join(self.cachedir, name)
         if os.path.exists(fn):
-- 
2.43.0


From 2aac3cb3ebb5071af841ea3ae12ffeadaaf623cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 28/33] fix: resolve what follows an absolute symlink in a vfs
 path

The path segments after a symlink with an absolute target were dropped,
so that the link's target was returned instead of what was asked for.
---
 lib/bup/vfs.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 170d914..d6e0966 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1193,12 +1193,8 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                 target = readlink(repo, item)
                 is_absolute, _, target_future = _decompose_path(target)
                 if is_absolute:
-                    if not target_future:  # path was effectively '/'
-                        return notice_resolution(((b'', _root),))
                     past = [(b'', _root)]
-                    future = target_future
-                else:
-                    future.extend(target_future)
+                future.extend(target_future)
                 hops += 1
 
 def resolve(repo, path, parent=None, want_meta=True, follow=True):
-- 
2.43.0


From d4e94ad15e7a187616401b8cc528a9200074ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 29/33] fix: don't end the refs request with an empty line

The call itself ends the request line, so the server read the extra
newline as an empty pattern list, and the actual patterns (and their
terminator) as further requests.
---
 lib/bup/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index 65103ec..2b29ca5 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -568,8 +568,8 @@ class Client:
                     raise ClientError('unexpected leftover data ' + repr(detritus))
 
     def refs(self, patterns=None, limit_to_heads=False, limit_to_tags=False):
-        args = b'%d %d\n' % (1 if limit_to_heads else 0,
-                             1 if limit_to_tags else 0)
+        args = b'%d %d' % (1 if limit_to_heads else 0,
+                           1 if limit_to_tags else 0)
         with self._line_based_call('refs', args) as call:
             patterns = patterns or tuple()
             for pattern in patterns:
-- 
2.43.0


From 3ad46c00e2748c5975580e1a365c3842f181da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 30/33] fix: pass self to Client._list_indexes only once

Client.list_indexes() (and so RemoteRepo.list_indexes()) always raised
a TypeError.
---
 lib/bup/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index 2b29ca5..5af4446 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -410,7 +410,7 @@ class Client:
                 yield idx, load
 
     def list_indexes(self):
-        for idx, _ in self._list_indexes(self):
+        for idx, _ in self._list_indexes():
             yield idx
 
     def sync_indexes(self):
-- 
2.43.0


From 60d1230dd3eff20bcc5cf9c0215e72ed3e53d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 31/33] fix: report a missing join object to the client as a
 KeyError

The client turns an error that starts with the name of one of the
exceptions it expects into that exception, but the server sent the
bare message, so a missing object was a NotOk remotely, and a KeyError
locally.
---
 lib/bup/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/protocol.py b/lib/bup/protocol.py
index 53ee72d..a1901af 100644
--- a/lib/bup/protocol.py
+++ b/lib/bup/protocol.py
@@ -369,7 +369,8 @@ class Server:
             msg = str(e)
             log(f'server: error: {msg}\n')
             self.conn.write(b'\0\0\0\0')
-            self.conn.error(msg)
+            # The client relies on the prefix to raise a KeyError too
+            self.conn.error(f'KeyError: {msg}')
         else:
             self.conn.write(b'\0\0\0\0')
             self.conn.ok()
-- 
2.43.0


From be59705aa23d7ece63cbbdbde204117298019db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 32/33] fix: check the terminus, not the message, for EOF in
 read_ioerror

An error with a terminus and no message was reported as a premature
EOF.
---
 lib/bup/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/protocol.py b/lib/bup/protocol.py
index a1901af..ceea926 100644
--- a/lib/bup/protocol.py
+++ b/lib/bup/protocol.py
@@ -161,7 +161,7 @@ def read_ioerror(port):
             raise EOFError('EOF while reading IOError message')
     if 4 & mask:
         term = read_resolution(port)
-        if msg is None:
+        if term is None:
             raise EOFError('EOF while reading IOError terminus')
     return vfs.IOError(errno=no, message=msg, terminus=term)
 
-- 
2.43.0


From e8ad948709d86b8019094abdd349b9e87ed65767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 33/33] fix: keep the call open while reading remote data for a
 name

When the reference wasn't an oid, RemoteRepo.cat() dropped its
reference to the batch, closing the generator, and so making the
client look for the end of the reply before the object's data had been
read.
---
 lib/bup/repo/remote.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/bup/repo/remote.py b/lib/bup/repo/remote.py
index f459481..1c73825 100644
--- a/lib/bup/repo/remote.py
+++ b/lib/bup/repo/remote.py
@@ -92,12 +92,17 @@ class RemoteRepo(RepoProtocol):
             # causes client to finish the call
             assert not next(batch, None)
 
+        def unchecked_data(it, batch):
+            yield from it
+            # causes client to finish the call
+            assert not next(batch, None)
+
         batch = self.client.cat_batch((ref,))
         oidx, typ, size, it = items = next(batch, None) # cannot return None
         if not oidx:
             return items
         if not _oidx_rx.fullmatch(ref):
-            return items
+            return *items[:-1], unchecked_data(it, batch)
         return *items[:-1], hash_checked_data(typ, size, it, ref, batch)
 
     def write_commit(self, tree, parent,
-- 
2.43.0

