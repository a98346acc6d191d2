From 2bdcb91633a700b7327570bc8603947550377197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 01/47] fix: extend the existing bloom filter rather than
 replacing it

When adding new indexes to a valid, large enough bloom, do_bloom()
opened the BloomWriter in mode 'w+b' which creates a new, empty filter
sized for just the additions, dropping every index that was already
covered.  Open the existing filter (mode 'wb') instead.
---
 lib/bup/cmd/bloom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index c418640..1e09aea 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -129,7 +129,7 @@ def do_bloom(path, outfilename, k, force):
             else:
                 b, b_tmp = None, b
                 b_tmp.close()
-                b = BloomWriter(outfilename, mode='w+b', expected=add_count)
+                b = BloomWriter(outfilename, mode='wb', expected=add_count)
         if b is None: # Need all idxs to build from scratch
             add += rest
             add_count += rest_count
-- 
2.43.0


From 98eadb3aa04e49b26a60c2ffb7ff6b395eac7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 02/47] fix: fsync the pack directory after adding a pack

finish_pack() renames the new pack and idx into objects/pack, but then
only synced the objects directory, so after a power failure a ref
(updated later) could refer to objects in a pack whose directory entry
was never made durable, and similarly gc could durably remove an old
pack before its replacement. Sync the directory that changed.
---
 lib/bup/git.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index aa5bcf1..762eecd 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -839,9 +839,10 @@ class LocalPackStore():
         if not self._file:
             with ExitStack() as err_stack:
                 objdir = os.path.join(self._repo_dir, b'objects')
+                packdir = os.path.join(objdir, b'pack')
                 self._tmpdir = err_stack.enter_context(temp_dir(dir=objdir, prefix=b'pack-tmp-'))
                 self._file = err_stack.enter_context(open(self._tmpdir + b'/pack', 'w+b'))
-                self._parentfd = err_stack.enter_context(finalized(os.open(objdir, os.O_RDONLY),
+                self._parentfd = err_stack.enter_context(finalized(os.open(packdir, os.O_RDONLY),
                                                                    os.close))
                 self._file.write(b'PACK\0\0\0\2\0\0\0\0')
                 self._idx = PackIdxV2Writer()
-- 
2.43.0


From abb97d44aabfc192ec555a3a4bf99ab3f2b80306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 03/47] fix: respect split --max-pack-objects

The value was being assigned to max_pack_size, i.e. it was treated as
a byte limit.
---
 lib/bup/cmd/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 74aaeb0..2824504 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -87,7 +87,7 @@ def opts_from_cmdline(argv):
     if opt.max_pack_size:
         opt.max_pack_size = require_num('--max-pack-size', opt.max_pack_size)
     if opt.max_pack_objects:
-        opt.max_pack_size = require_num('--max-pack-objects', opt.max_pack_objects)
+        opt.max_pack_objects = require_num('--max-pack-objects', opt.max_pack_objects)
     if opt.fanout:
         opt.fanout = require_num('--fanout', opt.fanout)
     if opt.bwlimit:
-- 
2.43.0


From c05d7633efef234e4b77452eb13bc0716f9e2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 04/47] fix: resolve the rest of the path after an absolute
 symlink

vfs.resolve() discarded the remaining path elements whenever it
encountered an absolute symlink, so with "link -> /branch/latest",
link/foo resolved to /branch/latest rather than /branch/latest/foo.
---
 lib/bup/vfs.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 170d914..d6e0966 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1193,12 +1193,8 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                 target = readlink(repo, item)
                 is_absolute, _, target_future = _decompose_path(target)
                 if is_absolute:
-                    if not target_future:  # path was effectively '/'
-                        return notice_resolution(((b'', _root),))
                     past = [(b'', _root)]
-                    future = target_future
-                else:
-                    future.extend(target_future)
+                future.extend(target_future)
                 hops += 1
 
 def resolve(repo, path, parent=None, want_meta=True, follow=True):
-- 
2.43.0


From 46eac5355f36d195a566c5df99282eb528f896e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 05/47] fix: don't lose earlier results when get targets a dest
 repeatedly

When multiple methods in a bup get invocation updated the same
destination ref, each started from the original value of the ref, so
only the result of the last one survived. Base each on the pending
value instead.
---
 lib/bup/cmd/get.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/get.py b/lib/bup/cmd/get.py
index 6d48913..d0ec254 100644
--- a/lib/bup/cmd/get.py
+++ b/lib/bup/cmd/get.py
@@ -892,6 +892,7 @@ def get_everything(opt):
                             for x in target_items]
 
             updated_refs = {}  # ref_name -> (original_ref, tip_commit(bin))
+            updated_dests = {}  # ref_name -> current (pending) dest Loc
             no_ref_info = (None, None)
 
             handlers = {'ff': handle_ff,
@@ -916,9 +917,10 @@ def get_everything(opt):
                     dest_ref = None
 
                 dest_hash = item.dest and item.dest.hash
-                orig_ref, cur_ref = updated_refs.get(dest_ref, no_ref_info)
+                orig_ref, _ = updated_refs.get(dest_ref, no_ref_info)
                 orig_ref = orig_ref or dest_hash
-                cur_ref = cur_ref or dest_hash
+                if dest_ref in updated_dests: # build on the earlier result
+                    item = item._replace(dest=updated_dests[dest_ref])
 
                 handler = handlers[item.spec.method]
                 get_res = handler(item, src_repo, dest_repo)
@@ -928,6 +930,14 @@ def get_everything(opt):
                     log_item(item.spec.src, item.src.type, opt)
                 else:
                     updated_refs[dest_ref] = (orig_ref, get_res.oid)
+                    if dest_ref.startswith(b'refs/heads/'):
+                        dest_type = 'branch'
+                    elif item.spec.method in ('new-tag', 'replace'):
+                        dest_type = item.src.type
+                    else:
+                        dest_type = 'commit'
+                    updated_dests[dest_ref] = \
+                        item.dest._replace(type=dest_type, hash=get_res.oid)
                     if dest_ref.startswith(b'refs/tags/'):
                         log_item(item.spec.src, item.src.type, opt,
                                  tag=get_res.oid)
-- 
2.43.0


From ca75160554a9b181f80dc3ad1c013901c5755209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 06/47] fix: don't let fsck repairs (exit 1) mask failures

With -j, a failure reported after a repair was dropped while waiting for
the last jobs, and broken par2 files never overrode a pending exit of 1.
---
 lib/bup/cmd/fsck.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 496edb3..5b2d25f 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -368,8 +368,7 @@ def main(argv):
         base = os.path.basename(stem)
         par2_status = par2_recovery_file_status(stem)
         if par2_status is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
             continue
         sys.stdout.flush()  # Not sure we still need this, but it'll flush out too
         debug('fsck: checking %r (%s)\n'
@@ -406,7 +405,7 @@ def main(argv):
         nc >>= 8
         if pid in outstanding:
             del outstanding[pid]
-            code = code or nc
+            code = merge_exits(code, nc)
             count += 1
         if not opt.verbose:
             progress('fsck (%d/%d)\r' % (count, len(pack_stems)))
@@ -416,7 +415,6 @@ def main(argv):
     # double-check (e.g. for (unlikely) problems with generate tmpdir renames)
     for stem in pack_stems:
         if par2_recovery_file_status(stem) is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
 
     sys.exit(code)
-- 
2.43.0


From bb33ab6d58aae1fb1b3631ac5f907147d82a756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 07/47] fix: fsck: handle missing idxs and truncated files

--repair didn't recreate a missing idx (but claimed it had repaired the
pack), and a pack or idx shorter than its trailer caused an exception.
---
 lib/bup/cmd/fsck.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 5b2d25f..a58dc32 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -202,12 +202,13 @@ def trailing_and_actual_checksum(path):
     except FileNotFoundError:
         return None, None
     with f:
-        f.seek(-20, SEEK_END)
+        # The trailer will be short (and so never match) if the file is
+        data_len = max(0, f.seek(0, SEEK_END) - 20)
+        f.seek(data_len)
         trailing = f.read(20)
-        assert len(trailing) == 20
         f.seek(0)
         actual = Sha1()
-        for b in chunkyreader(f, os.fstat(f.fileno()).st_size - 20):
+        for b in chunkyreader(f, data_len):
             actual.update(b)
         return trailing, actual.digest()
 
@@ -247,7 +248,7 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
     log(f'{path_msg(base)} par2 repair: succeeded, checking .idx\n')
     try:
         exp, act = trailing_and_actual_checksum(stem + b'.idx')
-        idx_ok = exp == act
+        idx_ok = exp is not None and exp == act
         if not idx_ok:
             os.unlink(stem + b'.idx')
     except FileNotFoundError:
-- 
2.43.0


From 5a796ed74e4e61aa6baa5c66f77ef5d38d4c1061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 08/47] fix: fsck: don't crash when par2 isn't installed

---
 lib/bup/cmd/fsck.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index a58dc32..5487640 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -48,6 +48,7 @@ def par2_setup():
                  check=False)
     except (FileNotFoundError, NotADirectoryError):
         log('fsck: warning: par2 not found; disabling recovery features.\n')
+        return
     if sp.returncode == 0:
         par2_ok = 1
         return
-- 
2.43.0


From 1709e2f60dbf70523b7091ebe34645bb72372673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 09/47] fix: only strip or graft whole path components

Previously --strip-path /a/b (etc.) also applied to /a/bc, and
backslashes in a graft's new path were treated as regex escapes.
---
 lib/bup/helpers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index b3eb852..6622e2a 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -1056,6 +1056,11 @@ def path_components(path):
     return result
 
 
+def path_startswith(path, prefix):
+    """Return true if the normalized path is prefix, or is inside it."""
+    return path == prefix or path.startswith(os.path.join(prefix, b''))
+
+
 def stripped_path_components(path, strip_prefixes):
     """Strip any prefix in strip_prefixes from path and return a list
     of path components where each component is (name,
@@ -1067,7 +1072,7 @@ def stripped_path_components(path, strip_prefixes):
         normalized_bp = os.path.abspath(bp)
         if normalized_bp == b'/':
             continue
-        if normalized_path.startswith(normalized_bp):
+        if path_startswith(normalized_path, normalized_bp):
             prefix = normalized_path[:len(normalized_bp)]
             result = []
             for p in normalized_path[len(normalized_bp):].split(b'/'):
@@ -1101,9 +1106,8 @@ def grafted_path_components(graft_points, path):
         # Expand prefixes iff not absolute paths.
         old_prefix = os.path.normpath(old_prefix)
         new_prefix = os.path.normpath(new_prefix)
-        if clean_path.startswith(old_prefix):
-            escaped_prefix = re.escape(old_prefix)
-            grafted_path = re.sub(br'^' + escaped_prefix, new_prefix, clean_path)
+        if path_startswith(clean_path, old_prefix):
+            grafted_path = new_prefix + clean_path[len(old_prefix):]
             # Handle /foo=/ (at least) -- which produces //whatever.
             grafted_path = b'/' + grafted_path.lstrip(b'/')
             clean_path_components = path_components(clean_path)
-- 
2.43.0


From 8a3d03d957e0b4f1f2605f820ace6a738a6b9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 10/47] fix: don't trust or change the index trees of stripped
 or grafted dirs

Previously, a strip or graft of a directory that was already saved
produced an empty tree, and saving a parent of the strip or graft point
recorded incomplete trees in the index, causing later (plain) saves to
silently omit the content.
---
 lib/bup/cmd/save.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 6cecdbd..8afadb3 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -195,8 +195,25 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                   % (pct, cc/1024, total/1024, fcount, ftotal,
                      remainstr, kpsstr))
 
+    # Directories at or above a strip or graft point don't have the same
+    # tree in the save as they do in the filesystem, so we can't rely on
+    # their index hashes, and mustn't change them.
+    remap_points = []
+    if opt.strip:
+        remap_points = opt.sources
+    elif opt.strip_path:
+        remap_points = [opt.strip_path]
+    elif opt.grafts:
+        remap_points = [old for old, new_ in opt.grafts]
+    remap_points = [os.path.join(os.path.abspath(x), b'') for x in remap_points]
+
+    def remapped(ent):
+        return ent.name.endswith(b'/') \
+            and any(x.startswith(ent.name) for x in remap_points)
+
     def already_saved(ent):
-        return ent.is_valid() and repo.exists(ent.sha) and ent.sha
+        return ent.is_valid() and not remapped(ent) \
+            and repo.exists(ent.sha) and ent.sha
 
     def wantrecurse_pre(ent):
         return not already_saved(ent)
@@ -338,7 +355,7 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             if not oldtree:
                 if lastskip_name and lastskip_name.startswith(ent.name):
                     ent.invalidate()
-                else:
+                elif not remapped(ent):
                     ent.validate(GIT_MODE_TREE, newtree)
                 ent.repack()
             if exists and wasmissing:
-- 
2.43.0


From 68ef007baa79abd12ad0a746e104aebd2a256bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 11/47] fix: don't save grafted content in the wrong directory

The stack was only unwound when the new path sorted before it, which
isn't always the case for grafts.
---
 lib/bup/cmd/save.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 8afadb3..d1aaae2 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -330,7 +330,8 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             root_collision = True
 
         # If switching to a new sub-tree, finish the current sub-tree.
-        while stack.path() > [x[0] for x in dirp]:
+        names = [x[0] for x in dirp]
+        while stack.path() != names[:len(stack)]:
             _ = stack.pop()
 
         # If switching to a new sub-tree, start a new sub-tree.
-- 
2.43.0


From 357e890d7943e6d037e7fd4244ef51826c4d8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 12/47] fix: gc: don't remove new packs that are identical to
 the original

When a rewritten pack's contents match the original, the new pack
replaces the original, and then when the new pack had already been
finished because it was full, or when BUP_DIR contained a symlink, the
sweep would remove it.
---
 lib/bup/gc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 7ca2c28..8ac80f8 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -145,17 +145,21 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
     """Traverse all the packs, saving the (probably) live data."""
 
     stale_packs = [] # stems like /some/where/pack-OIDX (no suffix)
+    new_packs = set() # names of the (finished) packs we've written
 
     def remove_stale_packs(new_pack_prefix):
         nonlocal stale_packs
         if new_pack_prefix:
+            new_packs.add(basename(new_pack_prefix))
             assert _pack_stem_rx.fullmatch(basename(new_pack_prefix))
             if verbosity:
                 log('created ' + path_msg(basename(new_pack_prefix)) + '\n')
         for stem in stale_packs:
             assert _pack_stem_rx.fullmatch(basename(stem))
-            if stem == new_pack_prefix:
-                continue  # Don't remove the new pack file
+            # A rewritten pack may be identical to the original, and
+            # may have been finished before the original became stale.
+            if basename(stem) in new_packs:
+                continue  # Don't remove a new pack file
             for p in glob.glob(stem + b'.*'):
                 if verbosity:
                     log(f'removing {path_msg(basename(p))}\n')
-- 
2.43.0


From 5065f8cf0c974d573f3e495bc804f66b35a64641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 13/47] fix: gc: don't write more than one copy of an object

When more than one of the packs being rewritten contained an object,
the new pack would too (more than once).
---
 lib/bup/gc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 8ac80f8..f38e6a7 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -146,6 +146,7 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
 
     stale_packs = [] # stems like /some/where/pack-OIDX (no suffix)
     new_packs = set() # names of the (finished) packs we've written
+    rewritten = set() # oids of the objects we've written
 
     def remove_stale_packs(new_pack_prefix):
         nonlocal stale_packs
@@ -219,9 +220,11 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
                     log(f'rewriting {rw_path} ({live_frac * 100:.2f}% live)\n')
                     reprogress()
                 for sha in idx:
-                    if sha in live_in_this_pack:
+                    # More than one pack might contain a given object.
+                    if sha in live_in_this_pack and sha not in rewritten:
                         _, typ, _, item_it = cat_pipe.get(hexlify(sha))
                         repo.just_write(sha, typ, b''.join(item_it))
+                        rewritten.add(sha)
                 assert idx_name.endswith(b'.idx')
                 stale_packs.append(idx_name[:-4])
 
-- 
2.43.0


From b630b0af240b08627969e96c3449caa043a001c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 14/47] fix: don't treat a show-ref failure as an absence of
 refs

When a ref refers to a missing object, git show-ref fails (128) after
writing whatever refs precede it (perhaps none).  Previously that was
handled as if there were no refs at all, and so gc could delete
everything, including the data that all the other refs depend on.
---
 lib/bup/git.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 762eecd..00a1c1d 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1093,8 +1093,10 @@ def list_refs(patterns=None, repo_dir=None,
     if patterns:
         argv.extend(patterns)
     cp = subprocess.run(argv, env=_gitenv(repo_dir), stdout=subprocess.PIPE)
-    if cp.returncode:
+    if cp.returncode == 1: # no matching refs
         assert not cp.stdout
+    elif cp.returncode: # e.g. a ref to a missing object
+        _raise_git_cmd_error(argv, cp.returncode)
     out = cp.stdout.strip()
     if out:
         for d in out.split(b'\n'):
-- 
2.43.0


From d15926697d1861b6a0a2ef66318d3858fc4ea12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 15/47] fix: flush the pack index before fsyncing it

Previously the trailing checksum wasn't written until after the fsync.
---
 lib/bup/git.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 00a1c1d..e287b73 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1072,6 +1072,7 @@ class PackIdxV2Writer:
             for b in chunkyreader(idx_f):
                 idx_sum.update(b)
             idx_f.write(idx_sum.digest())
+            idx_f.flush()
             fsync(idx_f.fileno())
 
 
-- 
2.43.0


From 1640b6610b63352bb740ebba6199b5e0a22f81e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 16/47] fix: index: limit the times of existing entries too

Only new entries' times were limited to tmax, so that a change made
right after an already indexed file was examined (within the
resolution of its timestamps) could be missed by later index runs.
---
 lib/bup/cmd/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index f9a3fea..77a04e9 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -152,6 +152,10 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                     meta.ctime = meta.mtime = meta.atime = 0
                     meta.freeze()
                     meta_ofs = msw.store(meta)
+                    # Like a new entry's, the times must not be newer
+                    # than tmax, or we could miss a change made right
+                    # after this stat.
+                    rig.cur.tmax = tmax
                     rig.cur.update_from_stat(pst, meta_ofs)
                     rig.cur.invalidate()
                     need_repack = True
-- 
2.43.0


From d5a5e59e83c462e9656829a440bac5c4017b609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:10 +0000
Subject: [PATCH 17/47] fix: save: don't use index times that were limited to
 tmax

The index alters times newer than tmax, and a save could store them for
a file that was already saved and hadn't changed, if it was reached
without being indexed again (after 'bup index' of just a sibling).
---
 lib/bup/cmd/index.py | 36 +++++++++++++++++-------------------
 lib/bup/cmd/save.py  |  5 +++--
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index 77a04e9..0f2b90f 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -74,6 +74,21 @@ def clear_index(fsindex, verbose):
     rm(fsindex.hlink)
 
 
+def index_metadata(meta, tmax):
+    # Clear these so they don't bloat the store -- they're already in the
+    # index (since they vary a lot and they're fixed length) -- unless
+    # they're newer than tmax.  Then the index will adjust (mangle) them,
+    # and although that makes the entry stale() for the next index run,
+    # save may use the entry before that (say if something else has
+    # changed since the entry was saved), and the fake values must not
+    # end up in a .bupm.
+    if meta.mtime <= tmax and meta.ctime <= tmax:
+        meta.thaw()
+        meta.atime = meta.mtime = meta.ctime = 0
+        meta.freeze()
+    return meta
+
+
 def update_index(top, excluded_paths, exclude_rxs, fsindex,
                  check=False, check_device=True,
                  xdev=False, xdev_exceptions=frozenset(),
@@ -136,21 +151,7 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                         hlinks.del_path(rig.cur.name)
                     if not stat.S_ISDIR(pst.st_mode) and pst.st_nlink > 1:
                         hlinks.add_path(path, pst.st_dev, pst.st_ino)
-                    # Clear these so they don't bloat the store -- they're
-                    # already in the index (since they vary a lot and they're
-                    # fixed length).  If you've noticed "tmax", you might
-                    # wonder why it's OK to do this, since that code may
-                    # adjust (mangle) the index mtime and ctime -- producing
-                    # fake values which must not end up in a .bupm.  However,
-                    # it looks like that shouldn't be possible:  (1) When
-                    # "save" validates the index entry, it always reads the
-                    # metadata from the filesytem. (2) Metadata is only
-                    # read/used from the index if hashvalid is true. (3)
-                    # "faked" entries will be stale(), and so we'll invalidate
-                    # them below.
-                    meta.thaw()
-                    meta.ctime = meta.mtime = meta.atime = 0
-                    meta.freeze()
+                    meta = index_metadata(meta, tmax)
                     meta_ofs = msw.store(meta)
                     # Like a new entry's, the times must not be newer
                     # than tmax, or we could miss a change made right
@@ -177,10 +178,7 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                 except (OSError, IOError) as e:
                     add_error(e)
                     continue
-                # See same assignment to 0, above, for rationale.
-                meta.thaw()
-                meta.atime = meta.mtime = meta.ctime = 0
-                meta.freeze()
+                meta = index_metadata(meta, tmax)
                 meta_ofs = msw.store(meta)
                 wi.add(path, pst, meta_ofs, hashgen=fake_hash)
                 if not stat.S_ISDIR(pst.st_mode) and pst.st_nlink > 1:
diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index d1aaae2..bbed9af 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -367,8 +367,9 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
         if already_saved_oid:
             meta = msr.metadata_at(ent.meta_ofs).thaw()
             meta.hardlink_target = find_hardlink_target(hlink_db, ent)
-            # Restore the times that were cleared to 0 in the metastore.
-            meta.atime, meta.mtime, meta.ctime = ent.atime, ent.mtime, ent.ctime
+            # Restore the times if they were cleared to 0 in the metastore.
+            if not (meta.atime or meta.mtime or meta.ctime):
+                meta.atime, meta.mtime, meta.ctime = ent.atime, ent.mtime, ent.ctime
             meta.freeze()
             stack.append_to_current(file, ent.mode, ent.gitmode, ent.sha, meta)
         else:
-- 
2.43.0


From 7de7acaf4bac65ce352a30ce1578e8b876dc08c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 18/47] fix: save: don't remember a dir saved without its
 metadata as valid

When a directory's metadata couldn't be read, lastskip_name was set to
just its base name, which never matches an index entry, so the
directory and its parents were marked as saved, and later saves just
repeated the tree without the metadata.
---
 lib/bup/cmd/save.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index bbed9af..e0333f0 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -343,7 +343,8 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                     if fs_path else empty_metadata
             except (OSError, IOError) as e:
                 add_error(e)
-                lastskip_name = dir_name
+                # With the slash, so it'll match the directory's own entry
+                lastskip_name = os.path.join(fs_path, b'')
                 meta = empty_metadata
             stack.push(dir_name, meta)
 
-- 
2.43.0


From 2071d24a1933e43dddd1a8baa74b376daac3c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 19/47] fix: save: report a directory that's become something
 else

---
 lib/bup/cmd/save.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index e0333f0..de970b2 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -346,6 +346,11 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                 # With the slash, so it'll match the directory's own entry
                 lastskip_name = os.path.join(fs_path, b'')
                 meta = empty_metadata
+            if fs_path and meta.mode and not stat.S_ISDIR(meta.mode):
+                add_error("%s: not a directory anymore, omitting its metadata."
+                          % path_msg(fs_path))
+                lastskip_name = os.path.join(fs_path, b'')
+                meta = empty_metadata
             stack.push(dir_name, meta)
 
         if not file:
-- 
2.43.0


From 6ff9cb5dfa9d0c211fe92dacf83caee141a00a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 20/47] fix: prune-older: don't mistake days or months of
 different years

---
 lib/bup/cmd/prune_older.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 6c22182..af509fc 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -37,9 +37,13 @@ def classify_saves(saves, period_start):
     for save in matches:
         yield True, save
 
-    tm_ranges = ((period_start['dailies'], lambda s: localtime(s[0]).tm_yday),
-                 (period_start['monthlies'], lambda s: localtime(s[0]).tm_mon),
-                 (period_start['yearlies'], lambda s: localtime(s[0]).tm_year))
+    # Compare years too since consecutive saves might be years apart.
+    tm_ranges = ((period_start['dailies'],
+                  lambda s: localtime(s[0])[0:3]),
+                 (period_start['monthlies'],
+                  lambda s: localtime(s[0])[0:2]),
+                 (period_start['yearlies'],
+                  lambda s: localtime(s[0]).tm_year))
 
     # Break the decreasing utc sorted saves up into the respective
     # period ranges (dailies, monthlies, ...).  Within each range,
-- 
2.43.0


From 0cbff87fda3c3448f28f57fd4aa29974cb851858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 21/47] fix: prune-older: keep the saves newer than --wrt

---
 lib/bup/cmd/prune_older.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index af509fc..682b769 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -130,6 +130,9 @@ def main(argv):
                 when = strftime('%Y-%m-%d-%H%M%S', period_local)
                 log(f'keeping {kind} since {when}\n')
 
+    # Saves newer than the end of the periods are always kept.
+    period_start['all'] = min(period_start['all'], now + 1)
+
     git.check_repo_or_die()
 
     # This could be more efficient, but for now just build the whole list
-- 
2.43.0


From 96b1f729e4850639270c2d3c0fb3a60208c25385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 22/47] fix: vfs: only branches are in the root directory

---
 lib/bup/vfs.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index d6e0966..14eb099 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -585,16 +585,15 @@ def root_items(repo, names=None, want_meta=True):
         yield b'.', _root
     if b'.tag' in names:
         yield b'.tag', _tags
-    for ref in names:
-        if ref in (b'.', b'.tag'):
-            continue
-        oidx, typ, size_, it = repo.cat(b'refs/heads/' + ref)
-        if not oidx:
-            continue
-        assert typ == b'commit'
-        data = b''.join(it)
-        yield ref, _revlist_item_from_oid(repo, unhexlify(oidx), want_meta,
-                                          data=data)
+    # Don't just cat() the names because git would also accept things
+    # that aren't branches, e.g. main~3.
+    refs = [b'refs/heads/' + x for x in names
+            if x not in (b'.', b'.tag') and not (b'\n' in x or b'\0' in x)]
+    if not refs:
+        return
+    for refname, oid in tuple(repo.refs(refs, limit_to_heads=True)):
+        if refname in refs:
+            yield refname[11:], _revlist_item_from_oid(repo, oid, want_meta)
 
 def ordered_tree_entries(entries, bupm=None):
     """Returns [(name, mangled_name, kind, gitmode, oid) ...] for each
-- 
2.43.0


From a688469e43aaeef6d5512831959f8c76ada08bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 23/47] fix: vfs: respect the trailing slash of symlink targets

---
 lib/bup/vfs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 14eb099..66f6910 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1190,7 +1190,10 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                                   % (path, ' relative to %r' % parent if parent else ''),
                                   terminus=tuple(past + [(segment, item)]))
                 target = readlink(repo, item)
-                is_absolute, _, target_future = _decompose_path(target)
+                is_absolute, target_must_be_dir, target_future = \
+                    _decompose_path(target)
+                if target_must_be_dir and not future:
+                    must_be_dir = True
                 if is_absolute:
                     past = [(b'', _root)]
                 future.extend(target_future)
-- 
2.43.0


From 6f26b617f487764f736b69bdca99c70b338af246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 24/47] fix: vfs: report resolution errors with a parent
 properly

---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 66f6910..5b9cf9b 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1103,7 +1103,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
         raise IOError(ENOTDIR,
                       "path %s%s resolves to non-directory %r"
                       % (path,
-                         ' (relative to %r)' % parent if parent else '',
+                         ' (relative to %r)' % (parent,) if parent else '',
                          past),
                       terminus=past)
     global _root
@@ -1168,7 +1168,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                         raise IOError(ENOTDIR,
                                       'path %r%s ends internally in non-directory here: %r'
                                       % (path,
-                                         ' (relative to %r)' % parent if parent else '',
+                                         ' (relative to %r)' % (parent,) if parent else '',
                                          past),
                                       terminus=past)
                     if must_be_dir:
@@ -1187,7 +1187,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                 if hops > 100:
                     raise IOError(ELOOP,
                                   'too many symlinks encountered while resolving %r%s'
-                                  % (path, ' relative to %r' % parent if parent else ''),
+                                  % (path, ' relative to %r' % (parent,) if parent else ''),
                                   terminus=tuple(past + [(segment, item)]))
                 target = readlink(repo, item)
                 is_absolute, target_must_be_dir, target_future = \
-- 
2.43.0


From 45ff79b19991a1f02f2742920b9a297b1e493f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 25/47] fix: vfs: try_resolve: handle symlinks that can't be
 followed

---
 lib/bup/vfs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 5b9cf9b..3a53f99 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1274,7 +1274,12 @@ def try_resolve(repo, path, parent=None, want_meta=True):
         return res
     if not S_ISLNK(item_mode(leaf_item)):
         return res
-    follow = resolve(repo, leaf_name, parent=res[:-1], want_meta=want_meta)
+    try:
+        follow = resolve(repo, leaf_name, parent=res[:-1], want_meta=want_meta)
+    except IOError as ex:
+        if ex.errno in (ENOTDIR, ELOOP):
+            return res  # e.g. a symlink loop
+        raise
     follow_item = follow[-1][1] # [0] is the name
     if follow_item:
         return follow
-- 
2.43.0


From 18c0f33be8543539f65ef2d3610820db9ce97874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 26/47] fix: vfs: don't mistake a read of nothing for the end
 of a file

---
 lib/bup/vfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 3a53f99..5cafd1b 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -269,6 +269,8 @@ class _FileReader:
         return self.ofs
 
     def read(self, count=-1):
+        if count == 0:
+            return b''  # says nothing about where the end is
         if self._size is not None:
             if self.ofs == self._size:
                 return b''
-- 
2.43.0


From 3c624059d2d895b589afe50f282ec3b8939fd932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 27/47] fix: find a split .bupm that sorts after names like
 .bupm-x

When a directory's metadata is split, .bupm is a tree, and so git sorts
it as .bupm/, i.e. after names like ".bupm-x" or ".bupm.bupl" (an
ordinary file named .bupm).  The searches stopped at the latter, and all
of the directory's metadata was ignored.
---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 5cafd1b..76e019d 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -469,7 +469,7 @@ def tree_data_and_bupm(repo, oid):
     for _, mangled_name, sub_oid in tree_entries(data):
         if mangled_name == b'.bupm':
             return data, sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # may be a tree (i.e. split)
             break
     return data, None
 
@@ -753,7 +753,7 @@ def _find_bupm_oid(entries):
     for _, mangled_name, sub_oid in entries:
         if mangled_name == b'.bupm':
             return sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # may be a tree (i.e. split)
             break
     return None
 
@@ -830,7 +830,7 @@ def tree_items(repo, oid, tree_data, names, *, want_meta=True, repair=False):
                 break
         else:
             split_or_not_known = True
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # may be a tree (i.e. split)
             break
 
     # When repairing, "." wouldn't be affected by the missing entries
-- 
2.43.0


From 1aedf18bf51713dc765ae25f1c63cc35b45433cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 28/47] fix: restore the hard links of dangling symbolic links

hardlink_compatible() used exists(), which follows symlinks, and so
hard-linked symlinks whose target doesn't exist were restored as
separate links.
---
 lib/bup/cmd/restore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index 797a7a0..addc417 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -79,7 +79,7 @@ def apply_metadata(meta, name, restore_numeric_ids, owner_map):
 
 def hardlink_compatible(prev_path, prev_item, new_item, top):
     prev_candidate = top + prev_path
-    if not os.path.exists(prev_candidate):
+    if not os.path.lexists(prev_candidate):
         return False
     prev_meta, new_meta = prev_item.meta, new_item.meta
     if new_item.oid != prev_item.oid \
-- 
2.43.0


From 1be5c9843010a397abfe4729b9104369119dbf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 29/47] fix: let restore replace existing paths with hard
 links, and not link to replaced paths

When a path that should be a hard link already existed, restore failed
with a FileExistsError (unlike for anything else, which it replaces).
And a path that had been replaced, in the same restore, by something
else of the same name, was still used as a hard link's target, so that
the link had the wrong content.
---
 lib/bup/cmd/restore.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index addc417..87e1a35 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -121,7 +121,13 @@ def hardlink_if_possible(fullname, item, top, hardlinks):
         for prev_path, prev_item in target_versions:
             if hardlink_compatible(prev_path, prev_item, item, top):
                 try:
-                    os.link(top + prev_path, top + fullname)
+                    try:
+                        os.link(top + prev_path, top + fullname)
+                    except FileExistsError:
+                        # Replace it, just like anything else
+                        item.meta.create_path(top + fullname)
+                        os.unlink(top + fullname)
+                        os.link(top + prev_path, top + fullname)
                     return True
                 except OSError as e:
                     if e.errno != errno.EXDEV:
@@ -178,6 +184,11 @@ def restore(repo, parent_path, name, item, top, sparse, numeric_ids, owner_map,
         if verbosity >= 2:
             out.write(fullname + b'\n')
 
+    if not parent_path and os.path.lexists(name):
+        # About to be replaced, so it's no longer a hardlink candidate
+        for versions in hardlinks.values():
+            versions[:] = [x for x in versions if x[0] != fullname]
+
     orig_cwd = os.getcwd()
     try:
         if treeish:
-- 
2.43.0


From a62c97929fa9e924e6183a71e86d3d9b0b49d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 30/47] fix: save --smaller: keep directories, and don't trust
 incomplete ones

Previously --smaller also skipped the entries of directories whose size
reached the limit, which lost empty directories, and when a skipped file
had already been saved (via another tree), its directories were recorded
as valid without it, and so later saves silently omitted it.
---
 lib/bup/cmd/save.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index de970b2..c89edc4 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -240,7 +240,8 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             exists = ent.exists()
             hashvalid = already_saved(ent)
             ent.set_sha_missing(not hashvalid)
-            if not opt.smaller or ent.size < opt.smaller:
+            if not opt.smaller or ent.size < opt.smaller \
+               or stat.S_ISDIR(ent.mode):
                 if exists and not hashvalid:
                     total += ent.size
             ftotal += 1
@@ -293,11 +294,12 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
 
         if not exists:
             continue
-        if opt.smaller and ent.size >= opt.smaller:
-            if exists and not already_saved_oid:
-                if opt.verbose:
-                    log('skipping large file "%s"\n' % path_msg(ent.name))
-                lastskip_name = ent.name
+        if opt.smaller and ent.size >= opt.smaller \
+           and not stat.S_ISDIR(ent.mode):
+            if not already_saved_oid and opt.verbose:
+                log('skipping large file "%s"\n' % path_msg(ent.name))
+            # Even if it's already saved, its directories are incomplete now
+            lastskip_name = ent.name
             continue
 
         assert(dir.startswith(b'/'))
-- 
2.43.0


From 47fb5125bb9b9588ba8cea3fddc48eeeac3f68f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 31/47] fix: index: restore deleted parents of what's indexed

Previously, when something within a directory that was marked as deleted
(say because it had been excluded) was indexed again by itself, the
directory stayed deleted, and saving just that directory could silently
save nothing.
---
 lib/bup/index.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/bup/index.py b/lib/bup/index.py
index 6744617..ddfcac5 100644
--- a/lib/bup/index.py
+++ b/lib/bup/index.py
@@ -352,6 +352,10 @@ class Entry:
         vc = self.is_valid() - other.is_valid()
         if vc != 0:
             return vc
+        # Prefer a new blank parent to one that had been deleted
+        dc = self.is_deleted() - other.is_deleted()
+        if dc != 0:
+            return dc
         fc = self.is_fake() - other.is_fake()
         if fc != 0:
             return fc
@@ -436,6 +440,8 @@ class ExistingEntry(Entry):
     def repack(self):
         self._m[self._ofs:self._ofs+ENTLEN] = self.packed()
         if self.parent and not self.is_valid():
+            if self.exists():
+                self.parent.flags |= IX_EXISTS
             self.parent.invalidate()
             self.parent.repack()
 
-- 
2.43.0


From 242e1cde840f9e412336c911ae0080972a42fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 32/47] fix: accept file: repository URLs

parse_repo_url_arg() looked for an auth attribute that the URL class
doesn't have, so every file: URL crashed with an AttributeError.
---
 lib/bup/repo/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/repo/__init__.py b/lib/bup/repo/__init__.py
index 284cee4..eef3680 100644
--- a/lib/bup/repo/__init__.py
+++ b/lib/bup/repo/__init__.py
@@ -77,6 +77,7 @@ def parse_repo_url_arg(arg, val, misuse):
     url = repo_location_url(res)
     if url.scheme not in public_schemes:
         misuse(f'invalid {arg} schema in {pm(val)}')
-    if url.scheme == b'file' and url.auth:
+    if url.scheme == b'file' \
+       and (url.host or url.user or url.port is not None):
         misuse(f'{arg} {pm(val)} URL has extra leading slashes or an authority')
     return url
-- 
2.43.0


From e2139c66e28420f30d600d41191b724585807b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 33/47] fix: remote: allow cat of references that aren't ids

The cat-batch generator was discarded before its data had been read, so
the protocol got out of step, and e.g. get --unnamed git:refs/heads/x
from a remote source failed with 'expected "ok"', and hung.
---
 lib/bup/repo/remote.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/bup/repo/remote.py b/lib/bup/repo/remote.py
index f459481..1c73825 100644
--- a/lib/bup/repo/remote.py
+++ b/lib/bup/repo/remote.py
@@ -92,12 +92,17 @@ class RemoteRepo(RepoProtocol):
             # causes client to finish the call
             assert not next(batch, None)
 
+        def unchecked_data(it, batch):
+            yield from it
+            # causes client to finish the call
+            assert not next(batch, None)
+
         batch = self.client.cat_batch((ref,))
         oidx, typ, size, it = items = next(batch, None) # cannot return None
         if not oidx:
             return items
         if not _oidx_rx.fullmatch(ref):
-            return items
+            return *items[:-1], unchecked_data(it, batch)
         return *items[:-1], hash_checked_data(typ, size, it, ref, batch)
 
     def write_commit(self, tree, parent,
-- 
2.43.0


From 224ee5c2c0e5e3961a532d02eb54773392dc6b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 34/47] fix: get: report a missing git: source

find_git_item() tried to iterate over the (missing) object's data, and
crashed, also with --ignore-missing.
---
 lib/bup/cmd/get.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/get.py b/lib/bup/cmd/get.py
index d0ec254..8209ad1 100644
--- a/lib/bup/cmd/get.py
+++ b/lib/bup/cmd/get.py
@@ -443,10 +443,10 @@ GitLoc = namedtuple('GitLoc', ('ref', 'hash', 'type'))
 
 def find_git_item(ref, repo):
     oidx, typ, _, it = repo.cat(ref)
-    # FIXME: don't include_data once repo supports it
-    for _ in it: pass
     if not oidx:
         return None
+    # FIXME: don't include_data once repo supports it
+    for _ in it: pass
     return GitLoc(ref, unhexlify(oidx), typ)
 
 
-- 
2.43.0


From a760750058538ef51e105aac63688969573e75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 35/47] fix: tag: don't overwrite a tag created in the meantime

Without --force, the tag was checked not to exist, and then set
unconditionally.
---
 lib/bup/cmd/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/tag.py b/lib/bup/cmd/tag.py
index ebb6038..1521f41 100644
--- a/lib/bup/cmd/tag.py
+++ b/lib/bup/cmd/tag.py
@@ -77,5 +77,5 @@ def main(argv):
             log("bup: error: commit %s not found.\n" % commit.decode('ascii'))
             return EXIT_FAILURE
 
-    git.update_ref(b'refs/tags/' + tag_name, hash, None, force=True)
+    git.update_ref(b'refs/tags/' + tag_name, hash, None, force=opt.force)
     return EXIT_SUCCESS
-- 
2.43.0


From 65645b6d6d6bc55490d1dc4e2735cbcccf2f87e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 36/47] fix: don't trust a bloom filter that doesn't include
 every idx

PackIdxList.refresh() only compared the number of entries, so with a
stale filter (say after git repacked or pruned, and then added a pack)
objects in the new packs weren't found.
---
 lib/bup/git.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index e287b73..4ca0118 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -744,7 +744,13 @@ class PackIdxList:
                 except BloomInvalid as ex:
                     log(f'warning: {str(ex)}\n')
             try:
-                if self.bloom and len(self.bloom) >= len(self):
+                # The bloom must include every idx, or it could hide some
+                # objects.  Its size isn't sufficient, since it may still
+                # include idxs that no longer exist.
+                if self.bloom and len(self.bloom) >= len(self) \
+                   and set(self.bloom.idxnames).issuperset(
+                       os.path.basename(n) for p in self.packs
+                       for n in p.idxnames):
                     self.do_bloom = True
                 else:
                     if self.bloom:
-- 
2.43.0


From 6f823ea03fa22a2d9881c95ef7a16516f6ee2f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 37/47] fix: bloom --check: accept midx files as documented

A midx was always rejected, since the bloom only records the idx names.
---
 lib/bup/cmd/bloom.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index 1e09aea..920cc02 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -55,11 +55,19 @@ def check_bloom(path, bloomfilename, idx):
         return EXIT_FAILURE
     with b:
         base = os.path.basename(idx)
-        if base not in b.idxnames:
-            log(f'bloom: {path_msg(rbloomfilename)} does not contain the idx.\n')
-            return EXIT_FALSE
         if base == idx:
             idx = os.path.join(path, idx)
+        names = [base]
+        if base.endswith(b'.midx'): # the bloom only knows about the idxs
+            midx = git.open_object_idx(idx)
+            if not midx:
+                note_error(f'bloom: ERROR: invalid index {path_msg(idx)}\n')
+                return EXIT_FAILURE
+            with midx:
+                names = [os.path.basename(x) for x in midx.idxnames]
+        if not set(names).issubset(b.idxnames):
+            log(f'bloom: {path_msg(rbloomfilename)} does not contain the idx.\n')
+            return EXIT_FALSE
         log('bloom: bloom file: %s\n' % path_msg(rbloomfilename))
         log('bloom:   checking %s\n' % path_msg(ridx))
         oids = git.open_object_idx(idx)
-- 
2.43.0


From 5110378bf5502272958bbb21b081076282bba20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 38/47] fix: fsck -r: don't claim a repair when the pack is
 still damaged or the idx isn't its

---
 lib/bup/cmd/fsck.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 5487640..f20894f 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -246,10 +246,20 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
         log(f'{path_msg(base)} par2 repair: failed ({rc})\n')
         if verbose: out.write(base + b' failed\n')
         return EXIT_FAILURE
+    # The recovery data might be for a pack that was already damaged
+    pack_sum, act = trailing_and_actual_checksum(stem + b'.pack')
+    if pack_sum is None or pack_sum != act:
+        log(f'{path_msg(base)} still damaged after par2 repair\n')
+        if verbose: out.write(base + b' failed\n')
+        return EXIT_FAILURE
     log(f'{path_msg(base)} par2 repair: succeeded, checking .idx\n')
     try:
         exp, act = trailing_and_actual_checksum(stem + b'.idx')
         idx_ok = exp is not None and exp == act
+        if idx_ok:  # make sure it's not the .idx for some other pack
+            with open(stem + b'.idx', 'rb') as f:
+                f.seek(-40, SEEK_END)
+                idx_ok = f.read(20) == pack_sum
         if not idx_ok:
             os.unlink(stem + b'.idx')
     except FileNotFoundError:
-- 
2.43.0


From 537e91903763f06fbbe61223649802f123908948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:09 +0000
Subject: [PATCH 39/47] fix: fsck --jobs: a killed worker is a failure

---
 lib/bup/cmd/fsck.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index f20894f..720f05c 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -338,6 +338,14 @@ def merge_exits(pending, new):
     return pending
 
 
+def worker_exit(status):
+    """Return the exit code for a wait() status; being killed is a failure."""
+    if os.WIFSIGNALED(status):
+        log(f'error: fsck worker killed by signal {os.WTERMSIG(status)}\n')
+        return EXIT_FAILURE
+    return os.WEXITSTATUS(status)
+
+
 def main(argv):
     global opt, par2_ok
 
@@ -395,7 +403,7 @@ def main(argv):
         else:
             while len(outstanding) >= opt.jobs:
                 (pid,nc) = os.wait()
-                nc >>= 8
+                nc = worker_exit(nc)
                 if pid in outstanding:
                     del outstanding[pid]
                     code = merge_exits(code, nc)
@@ -414,7 +422,7 @@ def main(argv):
 
     while len(outstanding):
         (pid,nc) = os.wait()
-        nc >>= 8
+        nc = worker_exit(nc)
         if pid in outstanding:
             del outstanding[pid]
             code = merge_exits(code, nc)
-- 
2.43.0


From 2a0d664f31ab0097d96fa021ca16831b42221c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:22 +0000
Subject: [PATCH 40/47] fix: split --git-ids: don't return more than was asked
 for (8 MiB or more of data failed)

---
 lib/bup/cmd/split.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 2824504..d6ecb82 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -210,8 +210,11 @@ def main(argv):
             class IterToFile:
                 def __init__(self, it):
                     self.it = iter(it)
-                def read(self, size_):
-                    return next(self.it, b'')
+                    self.rest = b''
+                def read(self, size):
+                    data = self.rest or next(self.it, b'')
+                    self.rest = data[size:]
+                    return data[:size]
             def read_ids():
                 while 1:
                     line = stdin.readline()
-- 
2.43.0


From 05e8bebfd99ea2732054a84cede627f8933ade95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 41/47] fix: let bup daemon's -l and -p options take a value

---
 lib/bup/cmd/daemon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/daemon.py b/lib/bup/cmd/daemon.py
index 63fb0d6..c21281a 100644
--- a/lib/bup/cmd/daemon.py
+++ b/lib/bup/cmd/daemon.py
@@ -12,8 +12,8 @@ from bup.helpers import EXIT_FAILURE, log, debug1
 optspec = """
 bup daemon [options...] -- [bup-server options...]
 --
-l,listen  ip address to listen on, defaults to *
-p,port    port to listen on, defaults to 1982
+l,listen=  ip address to listen on, defaults to *
+p,port=    port to listen on, defaults to 1982
 """
 
 def main(argv):
-- 
2.43.0


From 9b150a6102186d63785a8ce3b25983e21b081e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 42/47] fix: allow a port in ssh URLs

---
 lib/bup/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index e118faf..11af63b 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -203,8 +203,9 @@ class Client:
             elif not isinstance(host, bytes):
                 raise Exception(f'unexpected host type for {host}')
             dest = host if not url.user else b'%s@%s' % (url.user, host)
+            port = None if url.port is None else b'%d' % url.port
             try:
-                self._proc = ssh.connect(dest, url.port, b'server')
+                self._proc = ssh.connect(dest, port, b'server')
             except OSError as e:
                 raise ClientError('connect: %s' % e) from e
             try:
-- 
2.43.0


From 38f5c7f9cd6eedb96690a49b6445d3af77e8664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:12 +0000
Subject: [PATCH 43/47] fix: don't load indexes that are cached already

With bup.server.deduplicate-writes disabled, every command after the
first that wrote to the server failed.
---
 lib/bup/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index 11af63b..888656e 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -421,7 +421,7 @@ class Client:
                 extra.add(f)
         needed = set()
         for idx, load in self._list_indexes():
-            if load:
+            if load and idx not in extra:
                 # If the server requests that we load an idx and we don't
                 # already have a copy of it, it is needed
                 needed.add(idx)
-- 
2.43.0


From 108471a1412b9781acf12736ecf4bc2c403631a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:27 +0000
Subject: [PATCH 44/47] fix: validate-refs: end the line that reports a missing
 ref

---
 lib/bup/cmd/validate_refs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/validate_refs.py b/lib/bup/cmd/validate_refs.py
index f81b23f..eb7d0ef 100644
--- a/lib/bup/cmd/validate_refs.py
+++ b/lib/bup/cmd/validate_refs.py
@@ -45,7 +45,7 @@ def resolve_refs(repo, refs, fatal):
         # FIXME: IOError ENOTDIR ELOOP
         _, leaf = res[-1]
         if not leaf:
-            log(f'missing {path_msg(ref)}')
+            log(f'missing {path_msg(ref)}\n')
             ref_missing += 1
             continue
         kind = type(leaf)
-- 
2.43.0


From d935c1c1c56c71bea58a95bb3a08ae5b969f18a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 45/47] fix: don't fail when describing a missing commit

---
 lib/bup/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/io.py b/lib/bup/io.py
index e1e4361..5dbf5db 100644
--- a/lib/bup/io.py
+++ b/lib/bup/io.py
@@ -291,7 +291,8 @@ def walk_path_msg(ref_name, item_path):
         path_top = root + 2
     path = path_msg(b'/'.join(x.name for x in item_path[path_top:]))
     path = f'{path_msg(item_path[root].name)}:{path}'
-    if S_ISDIR(item_path[-1].mode):
+    mode = item_path[-1].mode # None for a commit
+    if mode is not None and S_ISDIR(mode):
         return f'{path_msg(ref_name)} {path}/'
     return f'{path_msg(ref_name)} {path}'
 
-- 
2.43.0


From 66e149b9bf2a6d7ed7156211d68ea207ec2c45c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:18 +0000
Subject: [PATCH 46/47] fix: on: only add a child to a branch whose commit is
 missing

vet_update_ref() didn't check the parents of the new commit when the
branch's current commit isn't in the repository, so the far side could
replace the branch with an unrelated one.
---
 lib/bup/cmd/on.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/on.py b/lib/bup/cmd/on.py
index d5b6525..ebea81a 100644
--- a/lib/bup/cmd/on.py
+++ b/lib/bup/cmd/on.py
@@ -93,7 +93,7 @@ def save_or_split_server_config(argv, opt_parser):
         if kind != b'commit':
             raise cd(f'{cmd}: {pm(ref)} update {new_oid.hex()} is not a commit')
         info = parse_commit(b''.join(it))
-        if prev_kind and hexlify(prev_oid) not in info.parents:
+        if prev_oid and hexlify(prev_oid) not in info.parents:
             raise cd(f'{cmd}: {pm(ref)} update {new_oid.hex()} is not child of {prev_oid.hex()}')
     return {'commands': (b'config-get',
                          b'read-ref',
-- 
2.43.0


From 494abe59198092a32843c672988895b3028f328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:23 +0000
Subject: [PATCH 47/47] Return to the tree that passed vcheck (later work is on
 branch after-pass: its N01 check alarmed on the unchanged tree)

---
 lib/bup/client.py            | 5 ++---
 lib/bup/cmd/daemon.py        | 4 ++--
 lib/bup/cmd/on.py            | 2 +-
 lib/bup/cmd/validate_refs.py | 2 +-
 lib/bup/io.py                | 3 +--
 5 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index 888656e..e118faf 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -203,9 +203,8 @@ class Client:
             elif not isinstance(host, bytes):
                 raise Exception(f'unexpected host type for {host}')
             dest = host if not url.user else b'%s@%s' % (url.user, host)
-            port = None if url.port is None else b'%d' % url.port
             try:
-                self._proc = ssh.connect(dest, port, b'server')
+                self._proc = ssh.connect(dest, url.port, b'server')
             except OSError as e:
                 raise ClientError('connect: %s' % e) from e
             try:
@@ -421,7 +420,7 @@ class Client:
                 extra.add(f)
         needed = set()
         for idx, load in self._list_indexes():
-            if load and idx not in extra:
+            if load:
                 # If the server requests that we load an idx and we don't
                 # already have a copy of it, it is needed
                 needed.add(idx)
diff --git a/lib/bup/cmd/daemon.py b/lib/bup/cmd/daemon.py
index c21281a..63fb0d6 100644
--- a/lib/bup/cmd/daemon.py
+++ b/lib/bup/cmd/daemon.py
@@ -12,8 +12,8 @@ from bup.helpers import EXIT_FAILURE, log, debug1
 optspec = """
 bup daemon [options...] -- [bup-server options...]
 --
-l,listen=  ip address to listen on, defaults to *
-p,port=    port to listen on, defaults to 1982
+l,listen  ip address to listen on, defaults to *
+p,port    port to listen on, defaults to 1982
 """
 
 def main(argv):
diff --git a/lib/bup/cmd/on.py b/lib/bup/cmd/on.py
index ebea81a..d5b6525 100644
--- a/lib/bup/cmd/on.py
+++ b/lib/bup/cmd/on.py
@@ -93,7 +93,7 @@ def save_or_split_server_config(argv, opt_parser):
         if kind != b'commit':
             raise cd(f'{cmd}: {pm(ref)} update {new_oid.hex()} is not a commit')
         info = parse_commit(b''.join(it))
-        if prev_oid and hexlify(prev_oid) not in info.parents:
+        if prev_kind and hexlify(prev_oid) not in info.parents:
             raise cd(f'{cmd}: {pm(ref)} update {new_oid.hex()} is not child of {prev_oid.hex()}')
     return {'commands': (b'config-get',
                          b'read-ref',
diff --git a/lib/bup/cmd/validate_refs.py b/lib/bup/cmd/validate_refs.py
index eb7d0ef..f81b23f 100644
--- a/lib/bup/cmd/validate_refs.py
+++ b/lib/bup/cmd/validate_refs.py
@@ -45,7 +45,7 @@ def resolve_refs(repo, refs, fatal):
         # FIXME: IOError ENOTDIR ELOOP
         _, leaf = res[-1]
         if not leaf:
-            log(f'missing {path_msg(ref)}\n')
+            log(f'missing {path_msg(ref)}')
             ref_missing += 1
             continue
         kind = type(leaf)
diff --git a/lib/bup/io.py b/lib/bup/io.py
index 5dbf5db..e1e4361 100644
--- a/lib/bup/io.py
+++ b/lib/bup/io.py
@@ -291,8 +291,7 @@ def walk_path_msg(ref_name, item_path):
         path_top = root + 2
     path = path_msg(b'/'.join(x.name for x in item_path[path_top:]))
     path = f'{path_msg(item_path[root].name)}:{path}'
-    mode = item_path[-1].mode # None for a commit
-    if mode is not None and S_ISDIR(mode):
+    if S_ISDIR(item_path[-1].mode):
         return f'{path_msg(ref_name)} {path}/'
     return f'{path_msg(ref_name)} {path}'
 
-- 
2.43.0

