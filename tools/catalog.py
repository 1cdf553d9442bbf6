# Single source for properties.jsonl and MANIFEST.json (see gen.py).
# Each entry: id, title, statement, over, text, why, files, mechanism
P = []
def prop(id, title, statement, over, text, why, files, mechanism, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mechanism=mechanism, **kw))

prop('P01', 'A visible pack and its index are complete and durable',
 'Whenever a pack or its index is visible under its final name in the repository, its whole content (object count and trailing checksum included) has been written, flushed and fsynced, and the index becomes visible only after its pack. '
 'A pack is reported finished only after the directory that contains those names has been fsynced, and an aborted pack is never given a final name.',
 ['crash_points','fault_sequences','histories'],
 'every crash point and every raised exception while a pack is being finished, for every sequence of object writes',
 'tests never crash the process or lose the page cache between the write, fsync and rename calls; they see only the final state of a clean run',
 ['lib/bup/git.py'],
 [('pack store: finish','lib/bup/git.py LocalPackStore.finish_pack'),('index writer','lib/bup/git.py PackIdxV2Writer.write'),('temp dir inside the repo','lib/bup/git.py LocalPackStore._open')])

prop('P02', 'Rewritten files get their final name only when complete',
 'The files bup rewrites as a whole (file index, hard-link database, bloom filter, multi-index, pack indexes received from a server, parity data) are produced under a temporary name and renamed to the final one only after all of their content has been written and flushed without error, and, for all but the bloom filter and parity data, fsynced. '
 'If producing one fails or is cancelled, the partial file is never given the final name; parity data is published only after the tool that produced it reported success, its index file last.',
 ['crash_points','fault_sequences'],
 'every crash point and exception in every writer of a derived or cached file',
 'tests do not inject failures in the middle of a rewrite or crash between write and rename',
 ['lib/bup/helpers.py','lib/bup/index.py','lib/bup/hlinkdb.py','lib/bup/cmd/midx.py','lib/bup/bloom.py','lib/bup/cmd/bloom.py','lib/bup/cmd/fsck.py','lib/bup/client.py'],
 [('atomic replacement','lib/bup/helpers.py atomically_replaced_file'),('index writer','lib/bup/index.py Writer'),('midx writer','lib/bup/cmd/midx.py _do_midx'),('bloom','lib/bup/bloom.py BloomWriter.close; lib/bup/cmd/bloom.py do_bloom'),('parity','lib/bup/cmd/fsck.py par2_generate'),('received indexes','lib/bup/client.py sync_index')])

prop('P03', 'A ref is moved only after everything it names is published',
 'No command or server request updates, creates or reports success for a branch or tag until every object written for it in that session has been finished into a published pack (for a remote destination: acknowledged by the server). '
 'If storing or finishing the data fails, the ref is left unchanged.',
 ['crash_points','fault_sequences','histories'],
 'every path from a command entry point or server command to a ref update, for every failure along it',
 'a wrong order is invisible unless the process dies between the two steps, which no test does',
 ['lib/bup/cmd/save.py','lib/bup/cmd/split.py','lib/bup/cmd/get.py','lib/bup/rm.py','lib/bup/repo/local.py','lib/bup/repo/remote.py','lib/bup/protocol.py','lib/bup/git.py'],
 [('save','lib/bup/cmd/save.py'),('split','lib/bup/cmd/split.py'),('get','lib/bup/cmd/get.py'),('rm','lib/bup/rm.py'),('local repo','lib/bup/repo/local.py'),('server','lib/bup/protocol.py')])

prop('P04', 'Ref updates are compare-and-swap against the value built upon',
 'When save, split, get or rm moves or deletes an existing branch, the update states as the expected old value exactly the commit that the new history was built on or that was examined, so a concurrent update makes it fail rather than be lost. '
 'The expected value survives unchanged through the client, the wire and the server to the underlying ref update, an absent old value means the ref must not exist, and a rejected update is an error.',
 ['schedules','histories','inputs'],
 'every interleaving of two writers on one branch, and every local, remote and restricted-server route of a ref update',
 'tests run one writer at a time, so a dropped or stale expected value changes nothing they can see',
 ['lib/bup/git.py','lib/bup/cmd/save.py','lib/bup/cmd/split.py','lib/bup/cmd/get.py','lib/bup/rm.py','lib/bup/repo/local.py','lib/bup/client.py','lib/bup/protocol.py'],
 [('ref update','lib/bup/git.py update_ref, delete_ref'),('wire','lib/bup/client.py update_ref; lib/bup/protocol.py update_ref')])

prop('P05', 'Garbage collection deletes nothing before live data is safe',
 'Garbage collection removes a pack only after every reachable object was marked without error, and only after the objects kept from it have been rewritten into published packs; it never removes a pack it has just written, and never decides liveness from an incomplete walk of the refs. '
 'Object-lookup caches (multi-index, bloom) that could still name removed objects are gone before the first pack is removed.',
 ['crash_points','histories','fault_sequences'],
 'every repository content, every failure or crash point during mark and sweep',
 'the gc tests run to completion on small repositories and never fail or crash midway',
 ['lib/bup/gc.py','lib/bup/git.py'],
 [('mark','lib/bup/gc.py find_live_objects'),('sweep','lib/bup/gc.py sweep'),('entry','lib/bup/gc.py bup_gc')])

prop('P06', 'Lookup caches never hide or invent objects',
 'A bloom filter is consulted only when it covers at least as many objects as the indexes in use, a negative answer comes only from such a filter or from searching every index, and a multi-index whose packs are missing is not used. '
 'A multi-index or bloom file is removed or superseded only when every index it covers is covered elsewhere or re-read, and a filter is marked as covering an index only after that index has been added to it.',
 ['histories','inputs','crash_points'],
 'every set of pack indexes, multi-indexes and bloom files and every order in which they were made, removed or truncated',
 'tests create caches and packs in a few fixed orders; a stale or damaged cache silently loses or duplicates data much later',
 ['lib/bup/git.py','lib/bup/midx.py','lib/bup/bloom.py','lib/bup/cmd/bloom.py','lib/bup/cmd/midx.py'],
 [('index list','lib/bup/git.py PackIdxList'),('midx reader','lib/bup/midx.py'),('bloom','lib/bup/bloom.py')])

prop('P07', 'Every recorded error reaches the exit status',
 'If a command records or reports an error while it continues its work, or an exception ends it, the process exits with a non-zero status, and a status returned by a command becomes the process exit status. '
 'No command discards errors already recorded, and no handler that swallows an exception does so without recording, reporting or deliberately tolerating that specific condition.',
 ['fault_sequences','inputs'],
 'every command, every recorded error and every exception raised below it',
 'tests check the exit status of only a few failing runs',
 ['lib/bup/main.py','lib/bup/helpers.py','lib/bup/cmd'],
 [('error list','lib/bup/helpers.py add_error, saved_errors, die_if_errors'),('dispatch','lib/bup/main.py run_subcmd')])

prop('P08', 'The result of every child process is checked',
 'For every child process whose completion bup waits for (git, par2, ssh, its own helper commands, fsck workers), a failing exit status - an exit code that is not a documented answer of that command, or death by a signal - makes the operation fail: it is raised, recorded as an error, or returned to the caller and from there becomes an error or the exit status of the command. '
 'An answer of git cat-file that ends early is never taken as complete.',
 ['fault_sequences'],
 'every child process start site, every exit status, every path of the waiting code and of its callers up to the command',
 'tests run with working tools; a failing git or par2 is hardly ever simulated',
 ['lib/bup/git.py','lib/bup/gc.py','lib/bup/helpers.py','lib/bup/cmd/fsck.py','lib/bup/cmd/mux.py','lib/bup/cmd/on.py','lib/bup/client.py','lib/bup/repo/local.py'],
 [('git calls','lib/bup/git.py auto_midx, list_refs, rev_list, update_ref, delete_ref, init_repo, CatPipe'),('ssh tunnel','lib/bup/client.py Client.ViaSsh.close'),('par2, git verify-pack, index-pack and workers','lib/bup/cmd/fsck.py')])

prop('P09', 'Save reuses stored data only when it is known to be there',
 'During a save an object id from the index is reused for a file or directory only if the index entry is marked valid and the destination repository, asked for exactly that id during this run, reports that it has the object; otherwise the file or directory is read and stored again. An index entry is marked valid only with the id it was just stored under, and never if reading or storing it failed; a directory is marked valid only if every existing file below it was added to the tree stored for it (no error, no file skipped by --smaller) and its metadata could be read. Every existing file in the index is added to the tree of its directory unless an error is recorded for it or --smaller excludes it, and a directory is never left out.',
 ['histories','fault_sequences','inputs'],
 'every history of index, save, gc and repository replacement, and every read error during a save',
 'the property depends on the history of index and repository together; tests replay only a few histories',
 ['lib/bup/cmd/save.py','lib/bup/index.py'],
 [('save walk','lib/bup/cmd/save.py save_tree'),('index validate','lib/bup/index.py Entry.validate')])

prop('P10', 'A changed file is never taken for an unchanged one',
 'When the indexer visits a path that is already in the index and its size, modification time, change time, inode, link count or (unless told not to check it) device differs from what the index records, or the entry is marked as gone or carries no object id, then the entry is written back with the current values and not marked valid, and no ancestor of it stays marked valid either. An entry whose path is gone is written back as deleted, with the same effect on its ancestors, and a new path enters the index not marked valid. A modification or change time later than one second before the start of the run is never recorded as such, for new and for updated paths. (The explicit --fake-valid option is the documented exception.)',
 ['inputs','schedules'],
 'every combination of stat fields and timings between index runs',
 'tests change one or two fields; each omitted field or wrong boundary silently loses later changes',
 ['lib/bup/index.py','lib/bup/cmd/index.py'],
 [('stale test','lib/bup/index.py Entry.stale'),('update','lib/bup/cmd/index.py update_index'),('timestamp cap','lib/bup/index.py _fixup, tmax')])

prop('P11', 'Extraction never follows the archive outside the target',
 'When metadata archives are extracted, a path taken from the archive is used to create, remove or change anything only after it is made relative and checked to contain no parent reference, and an existing object at that path is not followed if it is a symlink. '
 'This holds for every record type, for hard-link targets, and for the later pass that fixes up directories.',
 ['inputs'],
 'every archive content, including hostile paths and link targets',
 'tests extract only archives made by bup itself from well-behaved paths',
 ['lib/bup/metadata.py'],
 [('path cleaning','lib/bup/metadata.py _clean_up_extract_path'),('extraction','lib/bup/metadata.py start_extract, finish_extract, extract')])

prop('P12', 'Restored content is never more exposed than its mode allows',
 'While a path is being restored it is created exclusively and with owner-only permissions, its owner is set before its mode, and its final mode, ACLs and attributes are applied only after its data has been written; directories get their final metadata only after everything inside them is in place. '
 'Where the owner cannot be set as stored, set-uid and set-gid bits are not granted to a different owner.',
 ['schedules','inputs'],
 'every file type and metadata combination, observed by another user at any moment of a restore',
 'tests look at the tree only after the restore is complete',
 ['lib/bup/metadata.py','lib/bup/cmd/restore.py'],
 [('create','lib/bup/metadata.py Metadata.create_path'),('apply','lib/bup/metadata.py Metadata.apply_to_path'),('restore','lib/bup/cmd/restore.py restore')])

prop('P13', 'A restricted server executes only permitted requests',
 'A server executes a request only if it is in the published table and offered to this session: bup server and bup on for get offer all, bup on for restore only reading of objects, paths and published options, bup on for save and split only reading options and refs, storing objects and updating the ref; help, quit, init-dir, set-dir, list-indexes and send-index are always offered, and nothing else of the server can be invoked by name. In a session of bup on, a directory that is not the configured repository is refused before anything is created or opened, whether it is the first or a later one; for save and split a ref update is executed only if it names the branch given, the new value is a commit, and the old value does not exist or is a commit that is a parent of the new one. Requests work on the repository asked for last (the configured one if none was) and pass on exactly the values received; config-get tells only the published options. Whatever is refused ends the session with an error and no later request is executed; bup on starts nothing for commands it does not support and serves nothing for those that need no repository.',
 ['inputs','histories'],
 'every sequence of requests a client can send',
 'tests use the real client, which never sends a forbidden or malformed request',
 ['lib/bup/protocol.py','lib/bup/cmd/on.py','lib/bup/cmd/on__server.py','lib/bup/cmd/server.py'],
 [('dispatch','lib/bup/protocol.py Server.handle'),('restrictions','lib/bup/cmd/on.py')])

prop('P14', 'Every request gets exactly one terminated reply',
 'Every request that the client sends to a bup server gets exactly one terminated reply, and the client reads all of it: after an operation of the client has completed, successfully or with an error that was reported to it, nothing of the reply is left unread, the connection is not left marked as in use, and the next request is understood as sent. Neither side waits for something the other will not send. When an operation fails at the server, the client never sees the operation complete successfully: the server sends an error, or ends the session, and the caller gets an exception.',
 ['inputs','fault_sequences','histories'],
 'every request, every server-side failure and every sequence of client calls',
 'desynchronisation needs a specific failing request followed by another on the same connection',
 ['lib/bup/protocol.py','lib/bup/client.py','lib/bup/helpers.py'],
 [('server handlers','lib/bup/protocol.py'),('client calls','lib/bup/client.py'),('terminator','lib/bup/helpers.py BaseConn.check_ok, ok, error')])

prop('P15', 'Client and server agree on the encoding of every request',
 'For every request, the client and the server agree on what is sent: the request name and arguments, all optional variants included, are read by the server as the client gave them, so that the repository is asked what the caller asked; and the reply, whatever the repository answers, is read by the client as the server wrote it, so that the caller gets the values the repository gave. Vfs items, resolutions and their errors are decoded to what was encoded. The client does not send a request that the server does not offer.',
 ['inputs','configurations'],
 'every request with every combination of optional arguments',
 'tests exercise one variant of most requests and both ends always come from the same tree',
 ['lib/bup/client.py','lib/bup/protocol.py'],
 [('client','lib/bup/client.py Client'),('server','lib/bup/protocol.py Server')])

prop('P16', 'Names received from a peer or repository cannot escape their directory',
 'Every name that arrives over a connection (pack index names, repository directories, ref names) or from stored data is validated against a strict pattern or reduced to a base name before it is joined into a path that is opened, created, renamed or removed, or given to a child process. '
 'Child processes are started with argument vectors, and externally supplied values can not be taken as options by them.',
 ['inputs'],
 'every byte string a peer, repository or archive can supply',
 'tests use honest peers only',
 ['lib/bup/client.py','lib/bup/protocol.py','lib/bup/git.py','lib/bup/ssh.py'],
 [('index sync','lib/bup/client.py sync_index'),('server send-index','lib/bup/protocol.py send_index'),('cat-file pipe','lib/bup/git.py CatPipe')])

prop('P17', 'Received objects are stored only when intact',
 'While a server receives objects, an object becomes part of a pack that is kept only if its length, id, checksum and data were received in full and the checksum announced is that of the data received (an object whose id the server already holds is left alone when it deduplicates). A stream that is damaged or ends early at any position (within a length, id, checksum or the data, before or after any number of good objects, pauses or earlier requests) ends the session with an error and no success is reported for it; of a complete stream every object is stored under the id announced and its pack is finished before success is reported. The client sends for every object the length, id and checksum of exactly the bytes it sends.',
 ['inputs','fault_sequences'],
 'every byte stream and every point at which the connection can fail',
 'tests never truncate or corrupt the stream',
 ['lib/bup/protocol.py','lib/bup/client.py'],
 [('receive','lib/bup/protocol.py receive_objects_v2'),('send','lib/bup/client.py RemotePackStore')])

prop('P18', 'Stored metadata records are read back by the same rules they were written',
 "What Metadata.encode or Metadata.write produces for a file's metadata, whatever subset of it is there (path, common values with or without a size, also with values of zero, empty names or times before 1970, symlink target, hard-link target, POSIX ACL of two or four parts, Linux attributes, extended attributes), is read back by Metadata.read with every value equal and exactly the bytes written consumed; metadata with nothing to store is read back as the empty metadata. Records of the earlier versions that are still in repositories (common records 1 and 2, ACL records 1 with their newline separators, of which one with a comma is reported and ignored) are read as they were meant, by their documented tags and field types, in any order, and records with an unknown tag are skipped by their stored length. Two Metadata objects are equal exactly when every stored value is (no extended attributes and none known are the same), and equal ones have equal hashes.",
 ['inputs'],
 'every metadata value and every record version',
 'tests round-trip metadata available on the test filesystem only',
 ['lib/bup/metadata.py','lib/bup/vint.py'],
 [('codec','lib/bup/metadata.py Metadata._encode_*/_load_*'),('records','lib/bup/vint.py')])

prop('P19', 'Truncated or malformed encoded data is rejected, never half-accepted',
 'Every decoder of lengths, integers, byte strings, index entries, pack indexes, multi-indexes and bloom files reports an error when the input ends early or its header, version or size is wrong; no decoder returns a short value as if it were complete, and end of input is accepted only at a record boundary.',
 ['inputs','fault_sequences'],
 'every prefix and corruption of every encoded stream',
 'tests decode well-formed data',
 ['lib/bup/vint.py','lib/bup/metadata.py','lib/bup/git.py','lib/bup/midx.py','lib/bup/bloom.py','lib/bup/helpers.py','lib/bup/index.py'],
 [('vint','lib/bup/vint.py'),('idx open','lib/bup/git.py open_idx'),('midx open','lib/bup/midx.py open_midx'),('bloom open','lib/bup/bloom.py')])

prop('P20', 'Unsafe operations need explicit consent; pretend changes nothing',
 'The commands that can remove saved data (gc, rm, prune-older) have no effect on the repository unless the user passed the explicit unsafe option, and a pretend or dry run performs no change at all. '
 'Commands that only read (ls, restore, cat-file, ftp, fuse, web, list-idx, join, validation, margin) never write objects, refs or configuration in the repository.',
 ['inputs','configurations'],
 'every option combination of every command',
 'tests try few option combinations and do not compare the whole repository afterwards',
 ['lib/bup/cmd/gc.py','lib/bup/cmd/rm.py','lib/bup/cmd/prune_older.py','lib/bup/cmd'],
 [('consent','lib/bup/cmd/gc.py, rm.py, prune_older.py main')])

prop('P21', 'Resources are released on every path',
 'Every file descriptor, mapping, child process, repository, pack writer and index that a command acquires is closed, on success and on every exception, by a scope that owns it, and cleanup of one resource failing does not skip the others. '
 'An object writer that is abandoned because of an error is aborted, never completed.',
 ['fault_sequences','inputs'],
 'every acquisition site and every exception after it',
 'leaks show up only after a failure at a particular point',
 ['lib/bup'],
 [('scopes','lib/bup/helpers.py finalized, ExitStack'),('pack writer','lib/bup/git.py PackWriter'),('repos','lib/bup/repo')])

prop('P22', 'Fsck verdicts and repairs are truthful',
 'The integrity check (bup fsck) exits with success only if every pack it was asked about was verified by the checks that are enabled: git verify-pack, or the checksums of pack and index with --quick, and in verify mode par2 verify whenever par2 is enabled and there are parity files. Any damage, damaged or incomplete parity files, a missing index or a failed tool or worker gives another status; status 1 is returned only if a repair was requested and the pack was repaired by par2, its index found intact or rebuilt, and nothing else failed. With --generate it succeeds only if there were complete parity files already or they were created without error and published; existing parity files are never regenerated or deleted, and nothing is repaired, indexed or generated unless it was asked for. If nothing is wrong the status is 0.',
 ['fault_sequences','inputs'],
 'every combination of damaged packs, missing or failing tools and parallel workers',
 'tests damage packs in a few ways with working tools',
 ['lib/bup/cmd/fsck.py'],
 [('per-pack check','lib/bup/cmd/fsck.py do_pack'),('result','lib/bup/cmd/fsck.py main'),('par2','lib/bup/cmd/fsck.py par2_generate')])

prop('P23', 'Multiplexed output frames are complete and unambiguous',
 'Every frame on a multiplexed connection carries a header whose length is that of the payload that follows, payload larger than the maximum is split, and the receiver delivers exactly the announced bytes to the right stream; a frame with an unknown channel, an impossible length or a premature end of stream is an error, not data.',
 ['inputs','schedules','fault_sequences'],
 'every interleaving of streams and every point at which the peer can fail',
 'tests send small well-formed traffic',
 ['lib/bup/helpers.py','lib/bup/cmd/mux.py','lib/bup/cmd/demux.py'],
 [('mux','lib/bup/helpers.py mux'),('demux','lib/bup/helpers.py DemuxConn')])

prop('P24', 'Index, metadata store and hard-link records are committed together',
 'An index update publishes the new index only after the metadata store and hard-link records it refers to are complete; if anything fails all of them stay as they were, and an update of the hard-link records is prepared before and committed with the index. '
 'Metadata offsets written in the index refer to data already in the store that is published.',
 ['crash_points','fault_sequences'],
 'every crash point and exception during an index update',
 'tests never interrupt an index update',
 ['lib/bup/cmd/index.py','lib/bup/index.py','lib/bup/hlinkdb.py'],
 [('update','lib/bup/cmd/index.py update_index'),('hlinkdb','lib/bup/hlinkdb.py HLinkDB.prepare_save, commit_save')])

prop('P25', 'Scanning stays inside the requested tree',
 'While scanning for files to back up bup never follows a symlink out of the requested tree, never crosses into another filesystem when told not to, never descends into an excluded path, and checks each of these for the top-level path as well as below; reading a file to save it verifies that what was opened is what was indexed.',
 ['inputs','schedules','configurations'],
 'every tree shape and every combination of scanning options, with concurrent changes to the tree',
 'tests use small static trees',
 ['lib/bup/drecurse.py','lib/bup/cmd/index.py','lib/bup/cmd/save.py','lib/bup/helpers.py'],
 [('walk','lib/bup/drecurse.py'),('open','lib/bup/hashsplit.py open_noatime; lib/bup/xstat.py')])

prop('P26', 'Repairs are explicit, reported and never taken for the original',
 'Data missing or damaged in the source is replaced only when repair was requested, every replacement is recorded and makes the command end with the recovered or an error status, and a replaced or excluded item is never remembered as the faithful copy of the original. '
 'Without a repair request missing data stops the transfer of that item with an error.',
 ['inputs','histories','fault_sequences'],
 'every pattern of missing objects and every sequence of transfers in a run',
 'tests remove a few chosen objects',
 ['lib/bup/rewrite.py','lib/bup/repair.py','lib/bup/cmd/get.py'],
 [('rewriter','lib/bup/rewrite.py Rewriter'),('repair info','lib/bup/repair.py')])

prop('P27', 'All repository back ends and the server offer one contract',
 'Local and remote repositories offer the common repository interface with the same parameters and defaults, and every operation gives the same result: each argument reaches the parameter it was given for at the repository (the one that was opened, and no other), what is found there is what the caller gets, over the connection as well as locally, a missing object or ref is reported the same way, and limits on compression and pack size given when opening the repository reach what writes the packs.',
 ['configurations','inputs'],
 'every operation of the interface with every combination of optional arguments on every back end',
 'tests run most operations against only one back end with default arguments',
 ['lib/bup/repo/base.py','lib/bup/repo/local.py','lib/bup/repo/remote.py','lib/bup/protocol.py','lib/bup/client.py'],
 [('interface','lib/bup/repo/base.py'),('local','lib/bup/repo/local.py'),('remote','lib/bup/repo/remote.py')])

prop('P28', 'An object id is returned only for an object that is or will be stored',
 'The pack writer returns an object id only after the object was appended to the pack being written, or found present in the repository or in that pack; the id is the hash of the very kind, length and content that is stored, and an object is remembered as present only after it was appended. Every appended object is entered in the index of its pack (or sent to the server) with the checksum, length and offset of exactly those bytes, a pack is published only with the right object count and checksum, and never after a failed write to it. Data a remote repository delivers for an id is accepted only if it hashes to that id.',
 ['inputs','histories','fault_sequences'],
 'every sequence of object writes and reads with pack rollover and failures in between',
 'tests write few objects and never fail in the middle',
 ['lib/bup/git.py','lib/bup/client.py'],
 [('writer','lib/bup/git.py PackWriter'),('store','lib/bup/git.py LocalPackStore.write'),('reader','lib/bup/git.py CatPipe.get')])

prop('P29', 'Names in trees survive encoding unchanged and unambiguous',
 'Every place that stores an entry in a tree encodes its name, kind and mode by the one agreed scheme and every reader reverses it before showing, comparing or restoring the name; stored trees are ordered as git orders them. '
 'No stored name can be confused with the markers of split files, split trees or directory metadata.',
 ['inputs'],
 'every file name and every mixture of kinds',
 'tests use ordinary names',
 ['lib/bup/git.py','lib/bup/tree.py','lib/bup/vfs.py','lib/bup/rewrite.py','lib/bup/cmd/save.py'],
 [('mangle','lib/bup/git.py mangle_name, demangle_name'),('tree encode','lib/bup/git.py tree_encode, shalist_item_sort_key'),('stack dir','lib/bup/tree.py')])

prop('P30', 'Path lookup in the virtual filesystem neither loses nor invents steps',
 'Resolving a path walks every requested component in order, symlink targets included, never escapes above the root, stops with an error after a bounded number of link expansions, and reports a missing component as missing. '
 'Cached lookups never change the answer.',
 ['inputs'],
 'every path and every arrangement of symlinks in a save',
 'tests use a few fixed link layouts',
 ['lib/bup/vfs.py'],
 [('resolution','lib/bup/vfs.py _resolve_path')])

# behavioural properties outside the reach of this technique
prop('P31', 'Saved content restores byte for byte',
 'Restoring or joining any save yields exactly the bytes, names and metadata that were read when it was saved, for every file size, chunk layout and fanout.',
 ['inputs','histories'], 'every content and every tree shape', 'tests sample sizes and shapes',
 ['lib/bup/hashsplit.py','lib/bup/vfs.py','lib/bup/_hashsplit.c','lib/bup/bupsplit.c'],
 [('split','lib/bup/hashsplit.py'),('join','lib/bup/vfs.py')])
prop('P32', 'Chunk boundaries depend only on content',
 'The boundaries chosen when splitting data depend only on the bytes and the configured bits, not on buffer sizes, read sizes or file boundaries when files are kept together, and never exceed the size limits.',
 ['inputs','schedules'], 'every content and every read partition', 'tests sample contents and buffer sizes',
 ['lib/bup/_hashsplit.c','lib/bup/bupsplit.c','lib/bup/hashsplit.py'], [('splitter','lib/bup/_hashsplit.c')])
prop('P33', 'Retention keeps exactly the saves the policy names',
 'Pruning keeps for each configured period the newest save of every period instance and removes only saves outside all of them, for every distribution of save times and every time zone.',
 ['inputs'], 'every list of save times and every policy', 'the tests sample distributions',
 ['lib/bup/prune_older.py' if False else 'lib/bup/cmd/prune_older.py'], [('classification','lib/bup/cmd/prune_older.py classify_saves')])
prop('P34', 'The bloom filter false-positive rate stays within its bound',
 'A filter sized for a number of objects answers wrongly for absent ids with no more than the documented probability.',
 ['inputs'], 'every set of ids', 'statistical; tests sample', ['lib/bup/bloom.py','lib/bup/_helpers.c'], [('bloom','lib/bup/bloom.py')])
prop('P35', 'Memory use is bounded independently of repository size',
 'Saving, listing and collecting garbage need memory bounded by configuration rather than by the number of objects or files.',
 ['inputs'], 'every repository size', 'tests are small', ['lib/bup'], [('mmap and merge','lib/bup/helpers.py')])
