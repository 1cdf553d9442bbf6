TRUST = ' Trusted: the abstract interpreter in sa/absint.py (paths pruned only on contradictory branch facts; unknown calls may raise), the list of external calls that cannot raise, and that no code is reached by means the interpreter does not model (exec, monkey patching).'
C = {
'P01': ('interprocedural typestate (property simulation) of file states over all paths and exception edges',
        'Decides, for every path through the pack store including every exception edge, the flush/fsync/rename/directory-sync order and completeness markers; assumes fsync makes data durable as documented and that object data passed to write() is written by it.' + TRUST),
'P02': ('interprocedural typestate (property simulation) of replaced files over all paths and exception edges',
        'Decides, for fifteen driver programs over the writers of derived files plus the parity and index-receiving code, that the rename to the final name happens only in state flushed (fsynced where required) and never after a failure or cancel, on every path and exception edge.' + TRUST),
'P03': ('interprocedural typestate over the paths from every command entry and server request to a ref update, in modular layers with escaping-exception summaries',
        'Decides, for every command and server request that can reach a ref update, that on each path every object write before it was followed by a successful finish (context exit, close, finish_writing) and that no failed finish is followed by a first update; a second update after a failed first one is tolerated because git refuses refs to missing objects.' + TRUST),
'P04': ('interprocedural value-provenance dataflow (origins of the expected value vs. of the parent of the new commit) plus abstract interpretation of the argument vectors and wire order',
        'Decides, for every command that moves or deletes a branch, that the expected old value passed is the same value that the new history was built on or that was examined, and that client, wire, server, repository layers and the git invocation carry it unchanged; that git update-ref performs the comparison atomically is assumed. Tags are replaced without comparison by documented design (bup tag -f, -d).' + TRUST),
'P05': ('abstract interpretation of garbage collection with one representative live object per type followed from its ref through mark and sweep (property simulation over all paths and exception edges)',
        'Decides, for a representative live commit, tree and blob in a representative pack, that on every path of bup_gc (any other packs, refs and objects before and after, exceptions, pack rollover at any write) the pack is not removed before the object is in a finished pack, that caches are cleared first, a finished pack is not removed again and nothing is removed after a missing object; that walk_object delivers or stops every object it takes up and puts every parent, tree and entry on its list; that the finish callback runs only after publication. Bloom false positives and the contents of the parsed objects are outside.' + TRUST),
'P08': ('interprocedural abstract interpretation: every status a child process can deliver is split into success and failures and followed over all paths and up through the callers to the command (property simulation with function summaries)',
        'Decides, for every call in the source that starts a process and for every path, that a failing status ends in an exception, a recorded error or a result no success produces, which the callers in turn turn into one; which exit codes are documented answers (git show-ref 1, git config --get 1, feature probes) is a short list in the rule. bup daemon starts servers it never waits for: not covered.' + TRUST),
'P10': ('abstract interpretation of the whole index update (property simulation over all paths) with one representative path whose recorded and current attributes differ in one chosen way per run',
        'Decides, for each attribute separately and for any number of other paths and entries before and after, that on every path of update_index the entry of the representative path is written back with the current values and not valid, and its parent and grandparent too; that gone paths are written back as deleted, new ones are added not valid, timestamps are compared with a limit at least one second before the start, and that the options reach update_index. Assumes that the walk and the index iterate in the same descending order; the merge of old and new index is outside.' + TRUST),
'P22': ('abstract interpretation of the whole fsck command (property simulation over all paths) for every configuration, with one representative pack whose state is drawn as it is observed',
        'Decides, for 52 combinations of mode, options, tools and parity state and any number of other packs, that at every exit of fsck and its workers the status follows from what the enabled checks observed about the representative pack (every result of every tool and of the checksums, worker exit codes and signals), and that nothing is modified that was not asked for. What git and par2 themselves detect is assumed.' + TRUST),
'P09': ('abstract interpretation of the save walk (property simulation over all paths) with a representative file and the directory that holds it, in every state of their index entries',
        'Decides, for 15 combinations of index state and options and any number of other entries before, between and after, that on every path of save_tree the reuse, storing and validation decisions about the representative file and directory follow the property, whatever the repository answers and whichever reads or writes fail. Assumes the index is walked children before parent; what Stack writes for a directory is outside (P29).' + TRUST),
'P28': ('abstract interpretation of PackWriter over LocalPackStore and RemotePackStore with symbolic objects: every id returned is traced to the hash term and to the append, index and publish events of the same bytes',
        'bup.git.PackWriter (maybe_write, just_write, new_blob, new_tree, new_commit) is followed over the local and the remote store for two consecutive objects, the same or different, with every answer of the existence checks, every failing write, open, flush, rename and fsync, and every pack boundary. The id term returned must be the hash of kind, length and content; the content, its checksum, offset and object count are compared as terms. RemoteRepo.cat is followed with matching and with wrong data. Not covered: the arithmetic of the object header and of the fan-out tables (C code), and hash collisions.' + TRUST),
'P14': ('abstract interpretation of client and server joined by a symbolic connection: each side is followed on exactly the symbolic fields the other one wrote, until both are idle; a side that waits, leaves fields unread or mistakes their kind is reported',
        'bup.client (28 operations, including opening the connection) is followed against bup.protocol.Server with every answer of the repository (found/missing, empty/one/two elements, each kind of value), and again with a failure injected at each step of the repository. Each operation is followed by a further request that must arrive as sent. Lists are followed up to two elements and text values are symbols without blanks or newlines, so what is decided is the framing and not the content of names with unusual bytes. Transport failures (a broken connection) and ssh are not covered.' + TRUST),
'P15': ('abstract interpretation of client and server joined by a symbolic connection: what the repository is asked and what the client returns are compared, as terms, with what the caller gave and what the repository answered; the codecs of vfs items, resolutions and errors are followed writer into reader',
        '28 operations of bup.client against bup.protocol.Server with every optional variant and answer, the vfs item, resolution and IOError codecs of bup.protocol for every item kind with and without metadata, and every request withheld from the advertised list in turn. Lists are followed up to two elements; the byte encoding of numbers and strings by bup.vint and of metadata is taken as an opaque pair of writer and reader.' + TRUST),
'P27': ('abstract interpretation of every operation of the repository interface through LocalRepo (down to the functions of bup.git and bup.vfs it delegates to) and through RemoteRepo, the client, the connection and the server, with one distinct symbol for each argument; signatures of the interface compared with both implementations',
        'Every argument symbol must arrive at the parameter of its own name, the symbol of the repository directory must be given to every function of bup.git that takes one, results must be what the delegate gave. Over the connection the operations and answers of P14/P15 are followed. What bup.git and bup.vfs do with the arguments is not part of this check.' + TRUST),
'P17': ("abstract interpretation of the server's command loop and receive_objects_v2 over symbolic streams, complete and damaged or cut at every position, with an ownership model of pending, aborted and kept objects; the client's encoder is followed into the server's decoder",
        'All control paths of the handling of 61 symbolic streams (up to two objects, a pause or a second request, with and without deduplication, damage or end at each field) are followed to the end of the session. Equality of checksums is symbolic (distinct data have distinct checksums); longer streams follow by the loop carrying no state but the repository and the names of indexes suggested.' + TRUST),
'P13': ('abstract interpretation of bup.cmd.server.main and bup.cmd.on.main through Server.handle to the repository, over symbolic sessions: every published request, every other method name and an arbitrary other name; directories equal or not to the configured one; ref updates of every kind of object; every published option and others',
        'All control paths of some 600 symbolic sessions (one to four requests) are followed from the main functions on; the repository, ssh and option parsing are modelled, so that os.path.samefile is trusted to compare directories, and the kind and parents of a commit are what repo.cat returns and parse_commit derives.' + TRUST),
'P18': ('abstract interpretation of encoder and decoder over symbolic records: the fields one writes are what the other is followed reading',
        'Metadata.encode/write/read/__eq__/__hash__, bup.vint (pack, unpack, send/recv, read_bvec, skip_bvec, encode_bvec) and the timestamp conversions of bup.xstat are followed on every path, with one symbol per stored value, for all combinations of up to two records (thorough: three) and for all of them together, for hand-laid-out records of every version and for unknown tags. The variable-length integer primitives (read/encode_vuint/vint and the C packer) are taken as inverse of each other; values that are not negative by nature (sizes, ids) are assumed not to be.' + TRUST),
}
NA = {
'P31': 'byte-exact round trip quantifies over the numerical result of splitting, hashing and joining; no sound static argument in reach decides equality of computed contents (its structural parts are claimed in P18, P19, P28, P29)',
'P32': 'the position of boundaries is a numerical result of the rolling checksum over the content; not visible in the shape of the code',
'P33': 'which saves fall into which period is calendar arithmetic over runtime timestamps; only the consent and no-effect clauses are structural and they are claimed in P20',
'P34': 'a probability over hash values; not a static fact',
'P35': 'memory consumption over unbounded inputs; no sound static bound in reach for Python',
}
