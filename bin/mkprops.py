#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': hook}})

p('S01', 'A snapshot reproduces the saved tree exactly',
  'After indexing and saving a directory tree without errors, the snapshot contains exactly the saved tree, and restoring it reproduces every path with its name, file type, content, symlink target, permissions, modification time, extended attributes, and hard-link grouping. This holds for every tree shape, file size and name (including names that look like bup\'s own suffixes), and for every file-, tree- and metadata-splitting configuration.',
  ['inputs', 'configurations'], 'All trees (types, names, sizes, metadata, hard links) and all split configurations.',
  'Tests restore a few fixed trees with the default configuration and compare selected attributes.',
  ['lib/bup/cmd/save.py', 'lib/bup/tree.py', 'lib/bup/metadata.py', 'lib/bup/cmd/restore.py', 'lib/bup/vfs.py', 'lib/bup/hashsplit.py', 'lib/bup/git.py', 'lib/bup/hlinkdb.py'],
  [('tree stack and .bupm ordering', 'lib/bup/tree.py'), ('name mangling', 'lib/bup/git.py:mangle_name'), ('metadata encoding', 'lib/bup/metadata.py'), ('restore', 'lib/bup/cmd/restore.py')],
  ['bup restore', 'bup ls', 'git ls-tree'])

p('S02', 'An incremental save never misses a change',
  'If the filesystem is not modified between an index run over a tree and a save of that tree, then the new snapshot equals the current tree no matter what was indexed, saved, removed, garbage collected, or saved to another repository before, how files were modified (including same-size edits with restored timestamps, replacement, renames, and type changes), or whether the index was cleared. Index status listings report exactly the paths added, modified or deleted with respect to what has been saved.',
  ['histories', 'inputs'], 'All histories of filesystem changes, index runs, saves, removals and collections.',
  'Tests try a handful of specific sequences; the interaction of index validity, repository contents and history is unbounded.',
  ['lib/bup/index.py', 'lib/bup/cmd/index.py', 'lib/bup/cmd/save.py', 'lib/bup/drecurse.py', 'lib/bup/hlinkdb.py'],
  [('stale() and tmax clamping', 'lib/bup/index.py'), ('already_saved()', 'lib/bup/cmd/save.py'), ('directory invalidation', 'lib/bup/index.py:Entry.repack')],
  ['bup index -p -s', 'bup save', 'bup restore', 'bup ls'],
  [{'name': 'index entry', 'meaning': 'stat identity, IX_EXISTS, IX_HASHVALID, oid', 'where': 'lib/bup/index.py:Entry'}])

p('S03', 'Selection, strip and graft decide exactly what is saved and where',
  'A snapshot contains a path if and only if the path was indexed, lies under one of the saved paths, and no exclusion option in force (path, regular expression, or a file of them) removes it or one of its parents when it is indexed. A strip or graft option only changes where the selected paths appear (replacing whole leading path components), never which files are saved or their content, and does not affect any other save, earlier or later.',
  ['inputs', 'configurations', 'histories'], 'All trees, sets of exclusion options, source lists, strip/graft options and sequences of saves.',
  'Tests check single options on tiny trees with a fresh index.',
  ['lib/bup/drecurse.py', 'lib/bup/cmd/index.py', 'lib/bup/cmd/save.py', 'lib/bup/helpers.py', 'lib/bup/index.py'],
  [('should_rx_exclude_path, excluded_paths', 'lib/bup/helpers.py, lib/bup/drecurse.py'), ('stripped/grafted_path_components', 'lib/bup/helpers.py'), ('reader.filter', 'lib/bup/index.py')],
  ['bup index -p', 'bup ls -R', 'bup restore'])

p('S04', 'Save errors are reported and never remembered as success',
  'If some selected paths cannot be read, have disappeared, or have changed type when they are saved, then save exits with a failure status, still stores every other selected path intact, and the snapshot never contains wrong content for the failed ones. Once the problem is gone, a later index and save store them correctly.',
  ['fault_sequences', 'histories'], 'All sets and sequences of read/stat/readlink/readdir failures, and removals or type changes between index and save.',
  'Tests cover one or two failing files; not failures at arbitrary calls, depths and points in a history.',
  ['lib/bup/cmd/save.py', 'lib/bup/index.py', 'lib/bup/cmd/index.py', 'lib/bup/drecurse.py'],
  [('lastskip_name invalidation', 'lib/bup/cmd/save.py'), ('add_error / saved_errors', 'lib/bup/helpers.py')],
  ['exit status', 'bup ls -R', 'bup restore'])

p('D01', 'A crash at any point leaves every reference complete and the work repeatable',
  'If any repository-changing command (init, index, save, split, get, tag, rm, prune-older, gc, midx, bloom) is killed at any point, every branch and tag has either its old or its new value, everything any of them refers to is present and readable, and no pack, index, or other file is left so that later commands fail or misbehave. Running the command again then completes it.',
  ['crash_points'], 'All crash points (every system call with an external effect) of every repository-changing command.',
  'Tests never kill a command part-way.',
  ['lib/bup/git.py', 'lib/bup/gc.py', 'lib/bup/index.py', 'lib/bup/helpers.py', 'lib/bup/midx.py', 'lib/bup/bloom.py'],
  [('pack then idx rename', 'lib/bup/git.py:LocalPackStore'), ('finish before update_ref', 'lib/bup/repo/local.py'), ('atomically_replaced_file', 'lib/bup/helpers.py'), ('deferred stale pack removal', 'lib/bup/gc.py')],
  ['repository directory after the kill', 'bup commands after the kill'])

p('D02', 'Data is durable before anything relies on it',
  'When a command updates a branch or tag, or deletes or replaces data that held objects still in use, the objects needed afterwards have already been forced to stable storage, including the names of the files that hold them. So a power failure after any write, sync, rename or unlink never leaves a reference to an object that is not on disk.',
  ['crash_points', 'schedules'], 'All power-failure points and every reordering of unsynced writes and directory updates allowed by POSIX, for every command that updates references or deletes packs.',
  'Tests cannot cut power; no test looks at what has been synced.',
  ['lib/bup/git.py', 'lib/bup/gc.py', 'lib/bup/repo/local.py', 'lib/bup/helpers.py'],
  [('fsync of pack, idx and directory', 'lib/bup/git.py:LocalPackStore'), ('finish_writing before update_ref', 'lib/bup/git.py')],
  ['system calls (strace)'])

p('C01', 'Concurrent commands never lose or overwrite each other\'s results',
  'When several commands that update the same branch or tag run at the same time, each one either takes effect on top of exactly the value it started from or fails with an error and leaves the branch as it is; no successful update is ever lost. Afterwards everything referred to is complete.',
  ['schedules'], 'All interleavings of the reads and updates of references by concurrent save, split, get, tag, rm and prune-older commands.',
  'Tests run one command at a time.',
  ['lib/bup/git.py', 'lib/bup/cmd/save.py', 'lib/bup/cmd/split.py', 'lib/bup/cmd/get.py', 'lib/bup/rm.py', 'lib/bup/repo/local.py', 'lib/bup/protocol.py'],
  [('compare-and-swap update_ref', 'lib/bup/git.py:update_ref'), ('parent read before the work', 'lib/bup/cmd/save.py')],
  ['exit status', 'git rev-list of the branch'])

p('G01', 'Garbage collection never loses reachable data',
  'After gc, whatever its options and however objects are spread over or duplicated among packs, every object reachable from any branch or tag is still present and unchanged, and every reference has the same value. If gc finds reachable objects missing it fails without deleting anything that is still referenced, and saving again after a collection always yields complete snapshots.',
  ['inputs', 'histories', 'configurations'], 'All object graphs, pack layouts, thresholds, index caches and histories of saves, removals and collections.',
  'Tests collect a few small random trees with default packs.',
  ['lib/bup/gc.py', 'lib/bup/git.py', 'lib/bup/bloom.py', 'lib/bup/midx.py', 'lib/bup/cmd/gc.py'],
  [('find_live_objects, sweep', 'lib/bup/gc.py'), ('clearing bloom/midx before the sweep', 'lib/bup/gc.py')],
  ['packs and refs on disk', 'bup join/restore'])

p('G02', 'Garbage collection removes the garbage it promises to remove',
  'After a successful gc, no unreachable commit, tree or tag object remains in any pack, and every pack whose unreachable share exceeded the threshold has been rewritten or deleted so that (apart from rare filter collisions among blobs) its unreachable objects are gone. Packs whose unreachable share is below it and that contain no unreachable trees or commits are left alone, so collecting again changes nothing.',
  ['inputs', 'histories', 'configurations'], 'All object graphs, pack layouts and thresholds.',
  'Tests compare repository sizes in one or two cases.',
  ['lib/bup/gc.py', 'lib/bup/cmd/gc.py'], [('sweep', 'lib/bup/gc.py')], ['packs on disk'])

p('R01', 'Removing saves removes exactly the requested ones',
  'Removing saves or branches removes exactly the ones named: every other save of an affected branch remains in the same order with the same tree, date, author, committer and message, every other branch and all tags are unchanged, and removing all saves of a branch removes the branch. If any argument is invalid, nothing changes.',
  ['inputs', 'histories'], 'All branch histories and sets of removal arguments.',
  'Tests remove a few saves from short branches.',
  ['lib/bup/rm.py', 'lib/bup/cmd/rm.py', 'lib/bup/vfs.py'], [('filter_branch, bup_rm', 'lib/bup/rm.py')],
  ['git rev-list', 'bup ls'])

p('R02', 'Pruning keeps exactly what the retention periods promise',
  'Pruning with given retention periods keeps every save within the all-period, and the newest save of each day, month and year that falls within the corresponding period, and removes all other saves of the pruned branches and nothing else. The pretend option reports the same decisions without changing anything.',
  ['inputs', 'configurations'], 'All sets of save dates, retention periods, reference times and branch selections.',
  'Tests sample random dates against a partial oracle written like the code.',
  ['lib/bup/cmd/prune_older.py', 'lib/bup/rm.py'], [('classify_saves', 'lib/bup/cmd/prune_older.py')],
  ['bup prune-older --pretend output', 'git rev-list'])

p('R03', 'Tags are exactly what was last set, and protect what they name',
  'A tag exists exactly if it was created and not deleted since, and names exactly the commit it was created for; creating an existing tag without force or deleting a missing one without force fails and changes nothing. A tag keeps its save and everything in it available through removals and collections.',
  ['histories'], 'All histories of tag creation, deletion, forcing, save removal and collection.',
  'Tests create and delete a few tags.',
  ['lib/bup/cmd/tag.py', 'lib/bup/git.py', 'lib/bup/gc.py', 'lib/bup/vfs.py'], [('tag command', 'lib/bup/cmd/tag.py')],
  ['bup tag', 'refs on disk', 'bup ls .tag'])

p('T01', 'Get transfers complete data and updates references as requested',
  'Get makes the destination references exactly what each requested method specifies (fast-forward only if the old value is an ancestor, append and pick of exactly the selected saves in order, tag creation, replacement, or unnamed transfer), with multiple targets applied in order. Every object reachable from what was fetched is then in the destination, refused or failed requests change no reference, and the source is never modified.',
  ['inputs', 'histories', 'configurations'], 'All source and destination histories, method/target combinations, local and remote.',
  'Tests cover methods one at a time against fixed repositories.',
  ['lib/bup/cmd/get.py', 'lib/bup/rewrite.py', 'lib/bup/repo/__init__.py'],
  [('resolve_targets, handle_*', 'lib/bup/cmd/get.py'), ('get_random_item / copier', 'lib/bup/cmd/get.py')],
  ['refs and packs of both repositories'])

p('T02', 'Rewriting saves preserves their content',
  'Copying saves between repositories with different split settings by rewriting them yields saves that restore to identical trees, metadata, dates and messages, stored exactly as if they had been saved with the destination\'s settings, without changing the source. Repeating it gives the same result.',
  ['inputs', 'configurations'], 'All saved trees and pairs of split configurations.',
  'Tests rewrite a few fixed trees.',
  ['lib/bup/rewrite.py', 'lib/bup/cmd/get.py', 'lib/bup/tree.py'], [('Rewriter', 'lib/bup/rewrite.py')],
  ['bup restore', 'tree ids'])

p('T03', 'Repairing a damaged save replaces exactly the damaged parts',
  'Repairing saves that refer to missing objects yields saves in which every intact path has its original content and metadata, every damaged path is visibly replaced by a repair marker, and nothing is missing; the exit status says whether repairs were made. Saves with nothing missing are unaffected.',
  ['fault_sequences', 'inputs'], 'All sets of missing objects (chunks, split-tree nodes, directories, metadata) of all saved trees.',
  'Tests remove a few particular objects.',
  ['lib/bup/rewrite.py', 'lib/bup/repair.py', 'lib/bup/cmd/get.py'], [('Rewriter repair', 'lib/bup/rewrite.py')],
  ['bup restore', 'bup ls', 'exit status'])

p('O01', 'Object lookups are exact whatever the index files',
  'Looking up an object finds it exactly if some pack in the repository contains it, for every combination and history of pack indexes, multi-pack indexes and bloom filters, including ones that are stale, partial, redundant, or being replaced. Checking commands accept exactly the index files that are consistent with the packs they cover.',
  ['histories', 'inputs', 'configurations'], 'All histories of adding and removing packs and (re)building midx and bloom files, and all object ids.',
  'Tests build one midx or bloom over fixed packs.',
  ['lib/bup/git.py', 'lib/bup/midx.py', 'lib/bup/bloom.py', 'lib/bup/cmd/midx.py', 'lib/bup/cmd/bloom.py', 'lib/bup/_helpers.c'],
  [('PackIdxList.refresh/exists', 'lib/bup/git.py'), ('merge_into, write_idx, bloom_contains', 'lib/bup/_helpers.c')],
  ['exists queries', 'bup midx --check', 'bup bloom --check'])

p('O02', 'Packs are valid, within limits, and hold each object once',
  'Every pack and pack index written is valid (headers, counts, checksums, sorted and complete index, each object stored under the hash of its type and content), and no pack exceeds the configured object-count or size limits. Storing content that the repository already has adds no second copy of it.',
  ['inputs', 'histories', 'configurations'], 'All contents, compression levels, pack limits, and histories of stores.',
  'Tests check a few packs with git tools.',
  ['lib/bup/git.py', 'lib/bup/cmd/split.py', 'lib/bup/cmd/save.py', 'lib/bup/_helpers.c'],
  [('PackWriter', 'lib/bup/git.py'), ('write_idx', 'lib/bup/_helpers.c')], ['packs on disk'])

p('N01', 'Remote operation is equivalent to local operation',
  'A command run against a remote repository gives the same snapshots, objects, listings, output and success or failure as the same command run locally on that repository, whatever the server\'s mode, the state of the local index cache, and repository changes made in between by others. In particular the client never treats an object as present that the server does not have.',
  ['histories', 'configurations'], 'All histories of remote and local commands, server modes, and cache states.',
  'Tests run a few commands remotely with fresh caches.',
  ['lib/bup/client.py', 'lib/bup/protocol.py', 'lib/bup/repo/remote.py', 'lib/bup/cmd/server.py', 'lib/bup/cmd/on.py'],
  [('sync_indexes', 'lib/bup/client.py'), ('receive-objects', 'lib/bup/protocol.py')],
  ['repositories after each command'])

p('N03', 'Commands started for another host can do only what they need',
  'During "on HOST COMMAND" the remote side can make the serving side perform only the operations that command needs: reads, object stores and updates limited to the chosen repository and to the branch being saved, each update being a direct child of the previous value. Anything else is refused without changing the repository.',
  ['inputs', 'histories'], 'All sequences of protocol requests a (hostile) remote could send.',
  'Tests run only well-behaved clients.',
  ['lib/bup/cmd/on.py', 'lib/bup/cmd/on__server.py', 'lib/bup/cmd/server.py', 'lib/bup/protocol.py'],
  [('permitted commands', 'lib/bup/cmd/on.py')], ['protocol replies', 'refs and packs'])

p('H01', 'Chunk boundaries depend only on nearby content',
  'Where a stream is split depends only on the content of the preceding window, the configured size limits and the position of the previous boundary, never on how the data arrives (read sizes, file boundaries unless requested, buffering). The concatenation of the chunks is the input.',
  ['inputs', 'configurations', 'schedules'], 'All contents, bit and size settings, and read-size sequences.',
  'Tests split a few random streams with fixed read sizes.',
  ['lib/bup/_hashsplit.c', 'lib/bup/bupsplit.c', 'lib/bup/hashsplit.py'], [('HashSplitter', 'lib/bup/_hashsplit.c')],
  ['bup split -b / tree listing'])

p('H02', 'Split then join gives back the original data',
  'For every input and every combination of split options (branch, tree, commit or blob output, boundaries, fanout, limits, dates, compression, remote), joining the result gives exactly the concatenation of the inputs. Splitting the same data with the same settings gives the same ids.',
  ['inputs', 'configurations'], 'All input lists and option combinations.',
  'Tests use a few files and options.',
  ['lib/bup/cmd/split.py', 'lib/bup/cmd/join.py', 'lib/bup/hashsplit.py', 'lib/bup/vfs.py'], [('split_to_blob_or_tree', 'lib/bup/hashsplit.py')],
  ['bup join'])

p('V01', 'Every view resolves paths the way a filesystem would',
  'Resolving a path in the repository namespace (branches, save dates, latest, tags, commits, and the saved files) gives the item a POSIX lookup in the corresponding directory tree would: dot, dot-dot, repeated and trailing slashes, and relative and absolute symbolic links in any position, missing components, non-directories and link loops included. Listings show exactly the entries that can be resolved.',
  ['inputs'], 'All saved trees with symbolic links and all paths.',
  'Tests try a list of fixed paths.',
  ['lib/bup/vfs.py', 'lib/bup/ls.py', 'lib/bup/cmd/ls.py', 'lib/bup/cmd/ftp.py', 'lib/bup/cmd/fuse.py', 'lib/bup/cmd/web.py'],
  [('resolve', 'lib/bup/vfs.py')], ['vfs.resolve', 'bup ls', 'bup ftp'])

p('V02', 'Every save appears under its own unambiguous dated name',
  'Each save of a branch appears in listings exactly once, under the name derived from its commit date, with saves of equal date distinguished by suffixes that preserve their order, and "latest" is the most recent save. Looking up any listed name gives exactly that save, and names that are not listed are not found.',
  ['inputs', 'histories'], 'All histories of save dates (equal, out of order, old) and time zones.',
  'Tests use few saves with mostly distinct dates.',
  ['lib/bup/vfs.py'], [('_name_for_rev, cache_commit, revlist_items', 'lib/bup/vfs.py')], ['bup ls', 'bup cat-file', 'bup restore'])

p('V03', 'Reading any range of a saved file gives exactly those bytes',
  'Reading from any offset for any length, in any sequence of seeks and reads, from a saved file of any size and chunk structure gives exactly the bytes the file had there, and its reported size is exact.',
  ['inputs', 'histories'], 'All files, chunk structures, and sequences of seeks and reads.',
  'Tests read whole files, or a few ranges.',
  ['lib/bup/vfs.py', 'lib/bup/cmd/web.py', 'lib/bup/cmd/fuse.py'], [('_ChunkReader, _FileReader', 'lib/bup/vfs.py')],
  ['vfs.fopen', 'bup ls -l'])

p('X01', 'Restore writes exactly the requested items where requested',
  'Restoring any set of save paths writes exactly the selected items (a path, or a directory\'s contents for a trailing slash or dot) under the output directory, replacing what must be replaced and leaving everything else alone, minus the excluded paths. File contents and metadata equal the saved ones even over existing files, sparse or not, and problems are reported by a failure exit status.',
  ['inputs', 'configurations', 'histories'], 'All snapshots, path selections, exclusions, output directories with existing content, and sparse settings.',
  'Tests restore fixed trees into mostly empty directories.',
  ['lib/bup/cmd/restore.py', 'lib/bup/metadata.py', 'lib/bup/helpers.py'], [('restore, write_sparsely', 'lib/bup/cmd/restore.py, lib/bup/helpers.py')],
  ['filesystem after bup restore'])

p('F01', 'Fsck detects damage, and repair restores the data',
  'Checking a repository succeeds exactly if every pack and its index are intact and the recovery files are usable, for any set of damaged, truncated, empty or missing files and any number of jobs. Repair succeeds (exit 1) exactly if some pack needed repair and all could be repaired, and then every object has its original content; otherwise the failure is reported.',
  ['fault_sequences', 'configurations'], 'All sets of damage to packs, indexes and recovery files, and all job counts and modes.',
  'Tests damage one pack in a few ways.',
  ['lib/bup/cmd/fsck.py'], [('attempt_repair, merge_exits', 'lib/bup/cmd/fsck.py')], ['exit status', 'pack files'])

p('L01', 'Validation finds every broken reference and nothing else',
  'The reference and object-link validation commands report success exactly if every object reachable (or, for links, referred to by any stored tree, commit or tag) is present, and otherwise fail and report exactly what is broken.',
  ['fault_sequences', 'inputs'], 'All repositories with any set of objects missing.',
  'Tests remove one object.',
  ['lib/bup/cmd/validate_refs.py', 'lib/bup/cmd/validate_object_links.py', 'lib/bup/git.py', 'lib/bup/vfs.py'], [('walk_object', 'lib/bup/git.py')],
  ['exit status and output'])

p('M01', 'Multiplexed streams deliver exactly what was sent',
  'Data sent over a multiplexed connection arrives complete, in order and on the right stream, whatever the sizes and interleaving of writes and the fragmentation of reads. The exit status of the far command is passed on.',
  ['inputs', 'schedules'], 'All write sequences on both streams, and all fragmentations.',
  'Tests send one or two messages.',
  ['lib/bup/helpers.py', 'lib/bup/io.py', 'lib/bup/cmd/mux.py', 'lib/bup/cmd/demux.py'], [('mux, DemuxConn', 'lib/bup/helpers.py')],
  ['bup mux | bup demux'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
