"""The properties, in one place (tools/gen.py writes properties.jsonl and MANIFEST.json from it)."""
NOTE = ("Decided by abstract interpretation of the whole monomorphised MIR program; sound up to the modelled std/third-party "
        "functions and the assumptions in DESIGN.md; says nothing about values the abstraction does not track.")

PROPS = []
NA = []


def prop(id, title, statement, over, for_all, why, files, mech, observe, technique, note=NOTE, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note, state=list(state)))


def na(id, title, statement, over, for_all, why, files, mech, observe, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why, files=files, mech=mech,
                   observe=observe, reason=reason))


prop("D01", "A snapshot appears only after everything it refers to is stored",
     "Whenever a command adds a snapshot to a repository, every thread that stores the packs and the index that snapshot "
     "depends on has finished, and finished successfully, before the snapshot itself is stored. A thread that may still be writing, "
     "or one that died, means no snapshot.",
     ["schedules", "crash_points", "fault_sequences"],
     "every interleaving of the packing, indexing and uploading threads with the main thread, every crash point and every worker failure, in backup, copy and filter-snapshot",
     "The tests run each command to the end with healthy storage; they never stop a run between the uploads nor delay a worker.",
     ["src/ui/backup.rs", "src/ui/copy.rs", "src/ui/filter_snapshot.rs", "src/backup.rs", "src/snapshot.rs"],
     [("Backup::join before snapshot::upload", "src/backup.rs"), ("thread::scope", "src/ui/backup.rs")],
     ["the repository's snapshots/, packs/ and indexes/ at any crash point"],
     "interprocedural typestate (thread quiescence) over MIR")

prop("D02", "No stage of the backup pipeline drops what it was handed",
     "Every blob a packer receives is written into a pack, and listed in its manifest with its own ID, type and length; every pack with blobs in it is finished, and announced both to the indexer and the uploader; "
     "every finished pack enters the index; an index that isn't empty is saved and handed to the uploader; every file the uploader receives is stored. "
     "A stage that fails says so, and none reports success with something still in its hands.",
     ["inputs", "histories", "fault_sequences"],
     "every sequence of blobs and pack sizes, and every failure of a step inside a stage",
     "Tests push a handful of small files through; they do not reach every pack boundary, every early end of a channel, or every failure.",
     ["src/pack.rs", "src/index.rs", "src/upload.rs"],
     [("pack", "src/pack.rs"), ("index", "src/index.rs"), ("upload", "src/upload.rs")],
     ["packs, indexes and their manifests in the repository after a run"],
     "per-stage typestate over MIR (abstract interpretation of pack, index and upload with channel operations as events)")

prop("D03", "Files are on disk before they are named or handed on",
     "Every file Backpak gives its final name (packs, the resume index, cached or stored objects) or hands to the uploader has been synced after the last byte was written to it; "
     "a power cut never leaves a file under its final name whose contents had not been flushed first.",
     ["crash_points"],
     "every crash point between writing, renaming and uploading a file, for each place that renames or hands over a file",
     "No test pulls the plug; a missing fsync is invisible to anything that reads the file back through the page cache.",
     ["src/pack.rs", "src/index.rs", "src/file_util.rs", "src/snapshot.rs", "src/backend/fs.rs", "src/backend/cache.rs"],
     [("sync_all before persist", "src/file_util.rs"), ("finalize", "src/pack.rs")],
     ["the order of fsync and rename system calls on any file published"],
     "interprocedural typestate of files (dirty/synced, per creation site) over MIR")

prop("D05", "The resume index lists every finished pack, and is removed only at the end",
     "While a resumable run is in progress, the resume index (backpak-wip.index) lists every finished pack before the indexer waits for the next one; "
     "it is removed only once every thread that stores things has finished without panicking.",
     ["crash_points", "schedules"],
     "every crash point and interleaving of a backup, copy, prune or filter-snapshot",
     "Tests interrupt a run at one or two chosen points.",
     ["src/index.rs", "src/backup.rs"],
     [("index", "src/index.rs"), ("Backup::join", "src/backup.rs")],
     ["backpak-wip.index in the working directory at any crash point"],
     "typestate of the indexer and of thread quiescence over MIR")

prop("D06", "A run picks up only where it is safe to",
     "backup, copy and filter-snapshot never start from the resume index of an interrupted prune (one that supersedes others). "
     "prune starts from a resume index only if it supersedes exactly the indexes this prune replaces, has every pack this prune keeps, and keeps no pack this prune removes.",
     ["histories", "crash_points"],
     "every history of interrupted runs, forgets and new snapshots before the run that resumes",
     "Tests resume right after an interruption; they do not forget a snapshot, or run a different command, in between.",
     ["src/backup.rs", "src/ui/prune.rs", "src/ui/backup.rs", "src/ui/copy.rs", "src/index.rs"],
     [("find_resumable", "src/backup.rs"), ("prune's resume checks", "src/ui/prune.rs")],
     ["the index a resumed run stores, and the packs it lists"],
     "abstract interpretation over MIR with provenance labels and set-relation facts (subset, disjointness) established on each path")

prop("D07", "Nothing is taken to be stored that wasn't stored or sent",
     "Whenever backup, copy, prune or filter-snapshot marks a blob as stored, so that it is never sent again, that blob is sent to the packers before the command marks the next one or finishes the pipeline; "
     "the command never succeeds otherwise.",
     ["inputs", "histories"],
     "every file system, every set of snapshots and every state of the destination",
     "Which blobs are duplicates depends on the data; tests cover a few trees.",
     ["src/ui/backup.rs", "src/repack.rs"],
     [("packed_blobs.insert ... send", "src/ui/backup.rs"), ("walk_tree", "src/repack.rs")],
     ["blobs missing from the packs of a repository"],
     "typestate (mark-then-send pairing) over MIR by abstract interpretation of each command")

prop("P01", "Old packs and indexes go only after their replacement is stored",
     "prune and rebuild-index remove a pack or an index only after every thread storing the replacement has finished without failing, a new index was built and uploaded, "
     "and (for prune) everything still used was repacked; prune never removes an index after having removed a pack.",
     ["crash_points", "schedules", "fault_sequences"],
     "every crash point, interleaving and failure in prune and rebuild-index",
     "Tests prune healthy repositories to completion.",
     ["src/ui/prune.rs", "src/ui/rebuild_index.rs", "src/backup.rs", "src/upload.rs", "src/index.rs"],
     [("remove_index/remove_pack after join", "src/ui/prune.rs"), ("remove old indexes", "src/ui/rebuild_index.rs")],
     ["packs/ and indexes/ of the repository at any crash point"],
     "interprocedural typestate over MIR (thread quiescence, publication before removal)")

prop("P02", "prune and rebuild-index remove only what they listed, replaced and left out",
     "Each index removed was listed before what replaces it was looked at (the contents of the indexes for prune, the listing of packs for rebuild-index), and is superseded by the new index; each pack removed comes from the index, not a listing of the storage, and is neither listed by the new index "
     "nor counted as already stored while repacking; prune's repacking skips nothing. No other command can remove packs or indexes, and only forget can remove snapshots.",
     ["histories", "schedules", "inputs"],
     "every repository and every other client adding packs, indexes or snapshots meanwhile",
     "Tests run one command at a time on small repositories.",
     ["src/ui/prune.rs", "src/ui/rebuild_index.rs", "src/ui/forget.rs", "src/index.rs", "src/backend.rs"],
     [("superseded", "src/ui/prune.rs"), ("packs_to_prune", "src/ui/prune.rs")],
     ["which objects vanish from a repository"],
     "provenance (taint) analysis over MIR and call-graph reachability")

prop("P03", "prune publishes its index only if all of the repacking worked",
     "Once prune's pipeline has started, it is allowed to finish, and so store an index superseding all others, only if no step of repacking (reading a blob, serializing a tree, sending to the packers, uploading leftovers) has failed.",
     ["fault_sequences"],
     "every failure of every step of repacking",
     "Tests prune healthy repositories.",
     ["src/ui/prune.rs", "src/repack.rs", "src/read.rs"],
     [("walk_snapshots(...) or fatal", "src/ui/prune.rs")],
     ["the indexes of the repository after a failed prune"],
     "typestate over MIR (channel closed after a failure)")

prop("R01", "A dry run changes nothing",
     "With --dry-run, no command stores or removes anything in the repository or touches the resume index of an interrupted run or hands the packs it left behind to the uploader, and restore changes nothing in the file system.",
     ["inputs", "configurations", "histories"],
     "every repository, file system and combination of the other options, for all seven commands with a dry run",
     "Tests do a dry run of some commands on some trees with some options.",
     ["src/ui/*.rs", "src/backup.rs", "src/upload.rs", "src/index.rs"],
     [("dry_run", "src/ui/restore.rs"), ("Mode::DryRun", "src/upload.rs")],
     ["the repository, the working directory and restore's target before and after"],
     "abstract interpretation of each command over MIR with dry_run = true; forbidden effects must be unreachable")

prop("R02", "Commands that read can't write",
     "cat, check, diff, dump, ls, snapshots, usage and restore contain no path by which something could be stored in or removed from the repository.",
     ["inputs", "configurations"],
     "every call path from these commands through the whole program, dependencies included",
     "An unusual path needs an unusual input; reachability covers them all.",
     ["src/ui/*.rs", "src/backend.rs"],
     [("run", "src/ui/check.rs")],
     ["the repository before and after"],
     "call-graph reachability over the monomorphised MIR, vtables included")

prop("I01", "What is read from a repository is used only once its hash matched its ID",
     "Whatever a command reads from a pack, an index or a snapshot (blobs, trees, pack manifests, indexes, snapshots) is hashed as it is read, "
     "and compared to the ID it was asked for before it is decoded further, kept in a cache for others, handed to the caller, or anything else is read; a mismatch is an error. Two IDs are the same only if the whole of them is.",
     ["inputs", "fault_sequences"],
     "every way the stored bytes could differ from what was written, for every place that reads packs, indexes or snapshots",
     "Tests read repositories that are intact; corruption has endlessly many forms.",
     ["src/read.rs", "src/tree.rs", "src/index.rs", "src/snapshot.rs", "src/pack.rs", "src/ui/check.rs", "src/ui/cat.rs"],
     [("read_pack_blob / load", "src/read.rs"), ("from_reader", "src/index.rs"), ("verify", "src/pack.rs"), ("load", "src/snapshot.rs")],
     ["what commands do with a repository in which some bytes were changed"],
     "typestate of read data (read, hashed, compared) with taint labels, by abstract interpretation over MIR of every function that both fetches and decodes")

prop("I03", "No file is decoded before its magic bytes were found to be right",
     "Every pack, index and snapshot that is fetched from a repository has all of its magic bytes compared before anything in it is hashed, decompressed or decoded; anything else is an error. "
     "What each kind of file is expected to start with is what is written, and tells it from the other kinds.",
     ["inputs"],
     "every file content in every place that reads packs, indexes or snapshots",
     "Tests have no files of the wrong type or version.",
     ["src/file_util.rs", "src/read.rs", "src/index.rs", "src/snapshot.rs", "src/pack.rs"],
     [("check_magic", "src/file_util.rs"), ("load_pack", "src/read.rs")],
     ["how files of another type or version are treated"],
     "typestate over MIR (magic compared on every path before a decoder or hasher is created)")

prop("I04", "IDs are hashes of exactly the bytes that were read or written",
     "The hashing reader and writer, which compute and verify every ID, feed to the hash exactly the part of the buffer that the wrapped reader or writer reports to have read or written, once, and report that same number of bytes on.",
     ["inputs", "schedules"],
     "every pattern of short reads, short writes and errors of the wrapped reader or writer",
     "Tests read and write files and vectors, which never do it piecemeal.",
     ["src/hashing.rs"],
     [("HashingReader::read", "src/hashing.rs"), ("HashingWriter::write", "src/hashing.rs")],
     ["IDs of objects read or written in pieces"],
     "abstract interpretation over MIR of each read and write, tracking which part of the buffer is hashed and returned symbolically")

prop("E01", "A command fails if an operation on the repository failed",
     "If reading, storing, removing or listing anything in a repository fails during a command, the command fails, and the process exits with a nonzero status; "
     "no failure is swallowed, however it is collected, counted or passed on.",
     ["fault_sequences"],
     "every operation on the repository, at every place a command performs it, failing at any time",
     "The tests' repositories never fail.",
     ["src/ui/check.rs", "src/ui/forget.rs", "src/ui/prune.rs", "src/ui/rebuild_index.rs", "src/ui/copy.rs", "src/snapshot.rs", "src/index.rs", "src/main.rs", "src/concurrently.rs"],
     [("forget_snapshot", "src/ui/forget.rs"), ("check", "src/ui/check.rs"), ("fatal", "src/concurrently.rs"), ("main", "src/main.rs")],
     ["exit status of every command on a failing repository"],
     "abstract interpretation over MIR of every command, with every repository operation failing at any one place (interprocedural error propagation)")

prop("E02", "Storage backends and the cache fail if one of their steps did",
     "Reading, storing, removing or listing through a backend or the cache fails if any file-system call, database query, process, or network request it needs did "
     "(except that something absent from the cache isn't a failure, a rename across file systems falls back to copying, and a remote store's temporary trouble is tried again).",
     ["fault_sequences"],
     "every step of every operation of every backend (file system, filter, semaphore, Backblaze) and of the cache failing in any way",
     "The file systems and databases tests use never fail.",
     ["src/backend.rs", "src/backend/fs.rs", "src/backend/cache.rs", "src/backend/filter.rs", "src/backend/backblaze.rs", "src/backend/semaphored.rs", "src/file_util.rs"],
     [("Backend for FilesystemBackend", "src/backend/fs.rs"), ("Cache", "src/backend/cache.rs"), ("safe_copy_to_file", "src/file_util.rs"), ("retry", "src/backend/backblaze.rs")],
     ["results of backend operations under injected failures"],
     "abstract interpretation over MIR of every backend operation, with every call out of the program failing (interprocedural error propagation)")

prop("E03", "What went through a filter is used only if the filter took all and succeeded",
     "A file is stored through a filter only once the filter has been given the whole file, has exited successfully, and all of its output was collected; "
     "and the end of a file read through a filter is reported only once the filter exited successfully and got all of what was stored; a thread feeding it that is merely late is waited for, "
     "and none is waited for while the filter may in turn be waiting for its output to be read.",
     ["fault_sequences", "schedules"],
     "every failure of the filter, of feeding it and of reading from it, at any time",
     "Tests filter with programs that work.",
     ["src/backend/filter.rs"],
     [("BackendFilter::write", "src/backend/filter.rs"), ("UnfilterRead::read", "src/backend/filter.rs")],
     ["what is stored and read when a filter fails part way"],
     "typestate of the filter process (output ended, input fed, exit status checked) by abstract interpretation over MIR")

prop("E04", "A command fails if anything it did in the file system failed",
     "If any file-system call a command makes outside of its repositories fails (walking and reading what is backed up, writing packs and indexes, restoring files, their permissions and times, "
     "writing what was asked for), the command fails: it never succeeds having left out what it could not do. Nothing written is left in a buffer whose flushing could fail unnoticed.",
     ["fault_sequences", "inputs"],
     "every file-system call of every command failing at any time",
     "Tests run as a user who may do everything, on a disk that works and has space.",
     ["src/fs_tree.rs", "src/tree.rs", "src/chunk.rs", "src/ui/backup.rs", "src/ui/restore.rs", "src/ui/dump.rs", "src/pack.rs", "src/index.rs"],
     [("walk_fs", "src/fs_tree.rs"), ("set_metadata", "src/ui/restore.rs"), ("chunk_file", "src/chunk.rs")],
     ["exit status of every command under file-system failures"],
     "abstract interpretation over MIR of every command, with every file-system call failing at any one place (interprocedural error propagation)")

prop("I02", "A pack verifies only if its blobs match their IDs and its manifest the index",
     "`check --read-packs` finds a pack to be good only if its magic bytes are right, every blob the index lists for it was read, hashed and found to match its ID, and the pack's own manifest is equal to the index's (in type, length and ID of every blob).",
     ["inputs"],
     "every pack and every manifest, every kind of damage",
     "Tests verify undamaged packs.",
     ["src/pack.rs"],
     [("verify", "src/pack.rs"), ("manifest_from_reader", "src/pack.rs")],
     ["the outcome of verifying damaged packs"],
     "typestate over MIR with provenance (taint): each entry taken from the index's manifest is owed a comparison of its ID to a hash computed since")

prop("B01", "The cache is never ahead of the repository, which every operation reaches",
     "Storing something puts it in the local cache only after the repository has it; removing something removes it from the cache before the repository; reading, storing, removing or listing "
     "(through the cache, a filter or the limit on connections) succeeds only if the underlying repository did it, with the same name, the whole file being handed over from its start (a read may be served by the cache instead).",
     ["fault_sequences", "crash_points"],
     "every failure of every step, every combination of layers, files in the cache or not",
     "Tests neither fail nor look at the cache in between.",
     ["src/backend.rs", "src/backend/cache.rs", "src/backend/filter.rs", "src/backend/semaphored.rs"],
     [("CachedBackend", "src/backend.rs"), ("Cache", "src/backend/cache.rs")],
     ["what the cache and the repository contain after a failed operation"],
     "typestate with provenance (taint) by abstract interpretation over MIR of every operation in every configuration of layers")

prop("B02", "No file gets its final name unless it was written completely",
     "In a repository and in the cache, nothing is written to a file under its final name, and no file gets its final name if any write to it failed.",
     ["fault_sequences", "crash_points"],
     "every failure while writing (a full disk, an unreadable source), at any point",
     "Tests don't run out of space.",
     ["src/file_util.rs", "src/backend/fs.rs", "src/backend/cache.rs"],
     [("safe_copy_to_file", "src/file_util.rs"), ("move_opened", "src/file_util.rs")],
     ["files present under their final names after a failure"],
     "typestate over MIR of file creation, writing and renaming, from every backend and cache operation")

prop("B03", "`check` looks at every pack in the repository, and fails if one is bad",
     "`check` opens the repository so that nothing is read from the cache. It looks for every pack in the indexes in the repository's listing, or with --read-packs reads and verifies every one of them; "
     "it fails if one isn't found, can't be read or fails verification, or if a chunk some snapshot uses isn't in any pack.",
     ["inputs", "fault_sequences"],
     "any number of packs and chunks, any combination of them missing or broken",
     "Tests check intact repositories.",
     ["src/ui/check.rs", "src/backend.rs"],
     [("run", "src/ui/check.rs"), ("CachedBackend::read", "src/backend.rs")],
     ["exit status of `check`"],
     "abstract interpretation over MIR: per-iteration obligations with provenance (each pack taken from the index is verified or probed), sticky failure state, and cache bypass")

prop("B04", "A limited backend is used only while holding a place; giving it up wakes others",
     "Every operation on a backend whose connections are limited holds a place of the semaphore while it runs, and gives it up afterwards, also if it fails; a place is handed out only by having been taken atomically; "
     "giving one up makes it available before waking someone, and always wakes someone.",
     ["schedules", "fault_sequences"],
     "every interleaving of operations and every way in which they end",
     "Tests don't contend for connections.",
     ["src/backend/semaphored.rs", "src/semaphored.rs"],
     [("Semaphored", "src/backend/semaphored.rs"), ("dec", "src/semaphored.rs"), ("SemaphoreGuard::drop", "src/semaphored.rs")],
     ["operations that wait forever, number of concurrent operations"],
     "typestate over MIR including drop glue (guard held at every use; release before wake on every path; acquisition only by compare-and-swap)")

prop("B05", "A repository with filters is accessed only through them, each in its direction",
     "A configuration with only one of `filter` and `unfilter` is refused; neither is ignored or mistaken for the other when a configuration is read or written or a repository is opened; whatever is stored passes through `filter`, whatever is read through `unfilter`.",
     ["inputs"],
     "every configuration",
     "Tests use filters that are each other's equals, or an opened backend.",
     ["src/backend.rs", "src/backend/filter.rs"],
     [("read_config", "src/backend.rs"), ("write_config", "src/backend.rs"), ("open", "src/backend.rs"), ("BackendFilter", "src/backend/filter.rs")],
     ["contents of stored files"],
     "provenance (taint) analysis by abstract interpretation over MIR of reading and writing configurations, opening, and spawning the filters")

prop("B06", "Storing remotely is tried again with the whole file",
     "Whenever storing a file remotely is tried again, the file is sent from its start again, and a failure to go back there is not ignored.",
     ["fault_sequences"],
     "every sequence of temporary failures",
     "Tests have no remote storage.",
     ["src/backend/backblaze.rs"],
     [("BackblazeBackend::write", "src/backend/backblaze.rs"), ("retry", "src/backend/backblaze.rs")],
     ["what is uploaded"],
     "typestate over MIR (position of the source at every request)")

prop("B07", "What a repository lists is all that is stored where it was asked to look",
     "Listing a local repository gives every file that is anywhere below the directory asked for (files still being written, `.part`, are not given), under its name from the repository's root and with its own size, and fails if some of it can't be read. "
     "Listing a bucket gives every file that is on any page of the listing (hidden or deleted ones are not given), each page being asked for with the prefix and from where the one before ended, until there is none left. "
     "Indexes, snapshots and packs are looked for where they are kept, and nothing found there is left out.",
     ["inputs", "fault_sequences"],
     "any number of files and pages, and every failure to read some of them",
     "Tests have a handful of files in one directory, and no bucket.",
     ["src/backend/fs.rs", "b2/src/lib.rs", "src/backend.rs"],
     [("walk_dir", "src/backend/fs.rs"), ("Session::list", "b2/src/lib.rs")],
     ["which indexes, snapshots and packs every command knows of"],
     "per-iteration obligations by abstract interpretation over MIR (directory entries and pages, followed through iterator adapters)")

prop("C01", "Comparing two trees passes over no difference",
     "Comparing two trees reports every entry that is only in one of them, every entry whose kind, contents or metadata (any field of them) differ, and goes on into every directory whose contents differ - each as what it is, the old and new entry not mistaken for each other. "
     "A directory's own metadata comes after everything in it. If handling a difference fails, nothing more is handled and the comparison fails.",
     ["inputs", "fault_sequences"],
     "every pair of trees, and every failure in handling a difference",
     "Tests compare a few small trees; what differs in them is always the same few things.",
     ["src/diff.rs"],
     [("compare_trees", "src/diff.rs"), ("compare_nodes", "src/diff.rs")],
     ["output of `diff`, what `restore` restores"],
     "abstract interpretation over MIR of comparing every pair of kinds of entries, with provenance (which tree, which side) and a per-iteration obligation for each of: only old, only new, both")

prop("T01", "Without --delete, restore removes nothing except what it replaces at once",
     "Unless `--delete` is given, `restore` removes nothing that isn't in the snapshot and never a directory, and whatever it removes at a path it replaces at that same path before it handles anything else.",
     ["inputs", "histories"],
     "every snapshot and every state of what it is restored over",
     "Tests restore over what was backed up, with few kinds of changes in between.",
     ["src/ui/restore.rs"],
     [("Restorer", "src/ui/restore.rs")],
     ["the restored directory"],
     "effect analysis by abstract interpretation over MIR of every callback of restore, for every pair of kinds of entries, with provenance of the paths acted on")

prop("T02", "Restore never follows symlinks that are where it restores to",
     "When restoring, what is at a path to be written is looked at without following symlinks, what is added is created such that it never ends up wherever an existing symlink points, "
     "and times and permissions are never set through a symlink.",
     ["inputs", "histories"],
     "every state of what is restored over, including dangling symlinks and symlinks out of it",
     "No test restores over symlinks other than those it backed up.",
     ["src/ui/restore.rs", "src/fs_tree.rs", "src/tree.rs"],
     [("Restorer", "src/ui/restore.rs"), ("forest_from_fs", "src/fs_tree.rs"), ("get_metadata", "src/tree.rs")],
     ["files outside of the restored directory"],
     "provenance (taint) and effect analysis by abstract interpretation over MIR of restore, its callbacks and the walk of what is there (which call, with which flags, acts on a path of the snapshot)")

prop("T04", "With --times and --permissions, what restore changes gets the snapshot's",
     "With `--times` (`--permissions`), any file or directory `restore` adds, replaces, or finds to have other metadata has its access and modification times (its permissions) set to the snapshot's own, each to its own, "
     "after everything else that is done to it or, if it was added, in it. Without them it is left to chance, and symlinks aren't covered.",
     ["inputs", "histories"],
     "every difference between a snapshot and what is there",
     "Tests compare a handful of restored entries.",
     ["src/ui/restore.rs", "src/diff.rs"],
     [("set_metadata", "src/ui/restore.rs"), ("Restorer", "src/ui/restore.rs")],
     ["times and permissions of restored files"],
     "typestate with provenance by abstract interpretation over MIR of every callback of restore, for every pair of kinds of entries")

prop("T05", "Restore and dump write every chunk of a file, once and in order",
     "Every file `restore` adds or finds changed, and every file `dump` prints, gets each of the chunks listed for it, whole, once and in that order, with nothing left in a buffer; `restore` doesn't report success unless it put every file, symlink (with the snapshot's target) "
     "and directory with everything in it in place that was missing or different, and with `--delete` removed what isn't in the snapshot.",
     ["inputs", "histories"],
     "files of any number of chunks, directories of any number of entries, and every difference between a snapshot and what is there",
     "Tests restore few files, hardly any of more than one chunk.",
     ["src/ui/restore.rs", "src/ui/dump.rs"],
     [("fill_file", "src/ui/restore.rs"), ("add_node", "src/ui/restore.rs"), ("dump", "src/ui/dump.rs")],
     ["contents of restored and dumped files"],
     "per-iteration obligations by abstract interpretation over MIR of the loops over chunks and entries, with provenance from chunk ID to what is written")

prop("F01", "Backup puts everything it is given into the snapshot, and hands it all on",
     "Unless it fails (or skips a special file or what a filter says to skip), backup puts every file, directory and symlink of every directory it walks into that directory's tree under its own name, with the metadata it has now; a file that changed gets all chunks it is cut into, in order; "
     "an unchanged one those of the entry of the same name and place in the previous snapshot; a directory the tree walked below it; and each chunk and tree that isn't known to be in the repository already is handed to the right packer, under its own ID.",
     ["inputs", "histories"],
     "directory trees of any shape, files of any number of chunks, and any previous snapshot",
     "Tests back up the same small source tree, mostly with nothing to compare to.",
     ["src/fs_tree.rs", "src/ui/backup.rs"],
     [("walk_fs", "src/fs_tree.rs"), ("backup_tree", "src/ui/backup.rs")],
     ["the trees and blobs handed to the packers"],
     "per-iteration obligations by abstract interpretation over MIR of the walk (inlined with its callbacks), with provenance labels for entries, metadata, chunks and trees")

prop("F02", "Copy, filter-snapshot and prune carry over all but what a filter says",
     "Walking the snapshots to copy, filter or repack handles every snapshot, every entry of every tree and every chunk of every file, leaving out only entries whose whole path a filter says to skip; each new tree has the old entries' names, metadata and contents (directories: the new subtrees), "
     "every tree and chunk not known to be there is handed to the right packer under its own ID, and the new snapshot differs from the old one in its tree alone (filter-snapshot without --keep-metadata: also in the author, time and tags it is given).",
     ["inputs", "histories"],
     "snapshots and trees of any number and shape, any filter, and anything already in the target",
     "Tests copy and filter a few small snapshots.",
     ["src/repack.rs"],
     [("walk_snapshots", "src/repack.rs"), ("walk_tree", "src/repack.rs")],
     ["the trees and blobs handed to the packers, and the snapshots returned"],
     "per-iteration obligations by abstract interpretation over MIR of each instance of the walk, with provenance labels for entries, chunks, trees and snapshot fields")

prop("F03", "Whole trees are compared, gathered and counted",
     "What diff and restore compare with (the trees of what is in the file system) has every entry with its current metadata, all chunks of changed files and the trees of all subdirectories; gathering a snapshot's trees reads each tree asked for, goes into every subdirectory, keeps each tree under its own ID, "
     "never goes into a tree from within itself, and doesn't refuse one that is merely in two places; the chunks of a tree (as used by check and prune) are those of all its files.",
     ["inputs"],
     "trees of any shape, including damaged ones that contain themselves",
     "Tests gather few, small, undamaged trees.",
     ["src/fs_tree.rs", "src/tree.rs"],
     [("forest_from_fs", "src/fs_tree.rs"), ("append_tree", "src/tree.rs"), ("chunks_in_tree", "src/tree.rs")],
     ["the forests and chunk sets returned"],
     "per-iteration obligations by abstract interpretation over MIR of the walks, and typestate of the set of trees being gone into")

prop("F04", "Only a file of the same size and modification time is taken for unchanged",
     "A file is taken for unchanged since the previous snapshot (its contents not read again) only if that snapshot had a file of the same size and the same modification time in its place; if it had none there, or a directory or symlink, or the size or the time differ in either direction, the file counts as changed.",
     ["inputs", "histories"],
     "every combination of what was there before, size and modification time",
     "Tests have no files that went back in time, or became files.",
     ["src/fs_tree.rs"],
     [("file_changed", "src/fs_tree.rs")],
     ["what file_changed says"],
     "abstract interpretation over MIR, enumerating all combinations of the previous entry's kind and of equal and different sizes and times")

prop("F05", "The master index is every pack of every index that isn't superseded",
     "Building the master index fails or reads every index the repository lists, keeps every pack of each under the pack's own ID with its own manifest and notes all that each index supersedes, and only when all are read leaves out those superseded by any, no others, and merges all the rest.",
     ["inputs", "fault_sequences"],
     "any number of indexes in any order, superseding each other in any way",
     "Tests have one or two indexes.",
     ["src/index.rs"],
     [("build_master_index_with_sizes", "src/index.rs")],
     ["the master index built"],
     "per-iteration obligations by abstract interpretation over MIR (workers and closures inlined, mutexes modelled), with provenance labels for what was read")

prop("F06", "Every blob an index lists is looked up, in its own pack and with its own size",
     "What maps a master index's blobs to their packs, to their sizes, or just gathers their IDs, goes through every blob of every pack and has each blob's own ID with its own pack or own length.",
     ["inputs"],
     "any number of packs and blobs",
     "Tests have indexes of few blobs, whose maps are only checked in part.",
     ["src/index.rs"],
     [("blob_to_pack_map", "src/index.rs"), ("blob_id_set", "src/index.rs"), ("blob_to_size_map", "src/index.rs")],
     ["the maps and the set returned"],
     "per-iteration obligations by abstract interpretation over MIR, with provenance labels for packs, IDs and lengths")

prop("F07", "A file is read whole, and each chunk passed on with its own bytes and hash",
     "Reading a file to back up reads all of it, from its start (or maps all of it). All of that is cut, and every chunk that's cut off is given to whoever asked for the chunks, as exactly the bytes from its offset to its offset plus its length, with the hash of these bytes as its ID - unless nobody asks any more. No thread working on this ends before the last chunk, and none leaves one out because somebody else is slow.",
     ["inputs", "schedules"],
     "any file, small (read) or large (mapped), and any pace of the threads that cut, hash and pack",
     "Tests chunk one small file; large ones go through two more threads whose timing is never varied.",
     ["src/chunk.rs", "src/file_util.rs", "src/blob.rs"],
     [("ThreadedChunker::from", "src/chunk.rs"), ("chunk_to_blob", "src/chunk.rs"), ("FileSpan::as_ref", "src/chunk.rs"), ("read_file", "src/file_util.rs")],
     ["the chunks that are stored for a file"],
     "per-iteration obligations by abstract interpretation over MIR, across the channels between threads, with concrete chunk offsets as witnesses for the slicing",
     note="That the cuts found by the fastcdc crate cover the file is assumed. The offsets used to see what's sliced are two representative pairs, not all.")

prop("F08", "What is recorded about a file is its own mode, owner, size and times",
     "The metadata recorded for a path are those the file system has for it - for a symlink's target only when asked to look past symlinks: mode, user, group, access and modification times with their nanoseconds, each as itself. A size is recorded for regular files and only for them.",
     ["inputs"],
     "any file, directory or symlink, with and without looking past symlinks",
     "Tests compare metadata of freshly made files, whose times and owners are all alike.",
     ["src/tree.rs"],
     [("get_metadata", "src/tree.rs"), ("posix_kind", "src/tree.rs")],
     ["NodeMetadata"],
     "abstract interpretation over MIR with provenance labels for every field of a stat, over each kind of file and symlink behaviour")

prop("S01", "A snapshot is named by its whole ID or by a prefix only it has",
     "Looking for a snapshot by an ID gives the one with that very ID, or an error; looking for it by a prefix gives the only one in the list whose ID starts with that, after looking at all of them, or an error. A command given several names uses a snapshot for each of them, leaving out only repeats of the same ID.",
     ["inputs"],
     "any list of snapshots, and any IDs, prefixes and numbers of names",
     "Tests have few snapshots, whose prefixes never collide.",
     ["src/snapshot.rs"],
     [("find", "src/snapshot.rs"), ("from_args_list", "src/snapshot.rs")],
     ["which snapshot is restored, dumped, copied, filtered or forgotten"],
     "abstract interpretation over MIR: which elements of a list match is a state per element, counted up to two",
     note="LAST~n is not covered (its number isn't bounded by anything static).")

prop("S02", "All of a repository's snapshots are loaded, in the order they were taken",
     "Loading the snapshots loads every one the repository lists, under its own ID, and fails unless it could load all of them; the result has all of them, sorted by the instant they were taken, ascending.",
     ["inputs", "schedules"],
     "any number of snapshots, loaded by any number of threads in any order, with any of them failing",
     "Tests have a handful of snapshots, and no control over the threads that load them.",
     ["src/snapshot.rs", "src/concurrently.rs"],
     [("load_chronologically_with_total_size", "src/snapshot.rs"), ("map_concurrently", "src/concurrently.rs")],
     ["the list of snapshots that every command works on"],
     "per-iteration obligations by abstract interpretation over MIR, across spawned threads, locks and the sort's key")

prop("S03", "Only snapshots that are named are forgotten, or that duplicate an earlier one",
     "forget removes exactly the snapshots it found for the names it was given, each name found being either removed or failing the command on its own without stopping the others. With DUPLICATES, a snapshot is removed only if its tree is equal to that of an earlier snapshot, which stays.",
     ["inputs", "histories"],
     "any list of snapshots and any names",
     "Tests forget one or two snapshots.",
     ["src/ui/forget.rs"],
     [("forget_duplicate_snapshots", "src/ui/forget.rs"), ("forget_snapshot_list", "src/ui/forget.rs")],
     ["which snapshots are left"],
     "abstract interpretation over MIR: which earlier snapshot a value is from is tracked by relabelling what is kept across iterations")

prop("L01", "A command never waits for one of its own threads while that can't end",
     "A thread that shows progress goes on until it's told to stop: whenever a command waits for one (also by leaving the scope it was started in), whether what it did worked or failed, it has told it before, and once told the thread ends. "
     "All stages of the backup pipeline are started, each in a thread of its own, before anything is waited for; and the pipeline is only waited for once every way into it has been closed.",
     ["schedules", "fault_sequences"],
     "every interleaving of the threads, any number of CPUs, and every failure between starting a thread and waiting for it",
     "Tests run without failures on one machine: a hang on an error path, or on a machine with fewer cores, doesn't show up.",
     ["src/progress.rs", "src/concurrently.rs", "src/backup.rs", "src/ui/backup.rs", "src/ui/copy.rs", "src/ui/prune.rs", "src/ui/check.rs"],
     [("ProgressThread::join", "src/progress.rs"), ("named_concurrently", "src/concurrently.rs"), ("Backup::join", "src/backup.rs")],
     ["whether the process ends"],
     "typestate of threads (started, told, waited for) over MIR, along all paths including failing ones")

prop("S04", "A snapshot that's made is stored, unless it has nothing new in it",
     "If it isn't a dry run, backup succeeds without storing the snapshot it made only if that has the empty tree and --allow-empty isn't given, or if in all but its time (author, tags, paths, tree) it's the same as the last snapshot in the repository and --allow-repeat isn't given. "
     "filter-snapshot succeeds without storing one only if nothing in it was filtered, and copy only having stored every snapshot it made.",
     ["inputs", "histories"],
     "every combination of flags, tree and history of snapshots",
     "Tests back up a few trees with a few combinations of flags; they don't look for every pair of snapshots that might be mistaken for the same.",
     ["src/ui/backup.rs", "src/ui/filter_snapshot.rs", "src/ui/copy.rs", "src/snapshot.rs"],
     [("run", "src/ui/backup.rs"), ("run", "src/ui/filter_snapshot.rs"), ("run", "src/ui/copy.rs")],
     ["the repository's snapshots/ after a command succeeded"],
     "path-sensitive abstract interpretation over MIR, for each combination of flags, with what each path has found to be equal")

prop("S05", "Only since a snapshot of the very same paths are files taken to be unchanged",
     "backup compares what it finds in the file system only with the tree of a snapshot whose set of paths is equal to that of the paths given now; without such a snapshot it compares with none, so that every file is read.",
     ["inputs", "histories"],
     "every history of snapshots of other, overlapping, or same-named paths",
     "Tests back up the same paths again, not other ones with files of the same names, sizes and times.",
     ["src/ui/backup.rs"],
     [("parent_snapshot", "src/ui/backup.rs")],
     ["the chunks of files in snapshots after backing up different paths to the same repository"],
     "provenance of the parent tree over MIR: labels on snapshots, by what they were found to be")

prop("S06", "Snapshots, indexes and trees are stored with all their fields and read back so",
     "Each field of what is stored (snapshots, indexes, entries of packs' manifests, nodes of trees and their metadata, a repository's configuration) is written under a name of its own unless it is empty, and read back from that name into the same field; "
     "a snapshot is stored with its own author, tags, paths, tree, instant and time zone, and loaded with those that were stored, in both forms of snapshot files; instants are written and read to the nanosecond.",
     ["inputs"],
     "every value of every field, and both formats of snapshot files",
     "Tests round-trip one snapshot (in UTC, on a whole second, with two tags), one index and one tree.",
     ["src/snapshot.rs", "src/index.rs", "src/pack.rs", "src/tree.rs", "src/prettify.rs", "src/backend.rs"],
     [("diskfmt", "src/snapshot.rs"), ("undiskfmt", "src/snapshot.rs"), ("serialize", "src/prettify.rs")],
     ["a snapshot loaded from a repository against the one that was made"],
     "field-by-field provenance over MIR, derived (de)serialisers included: from each field to the name it is written under, and from that name to the field it is read into")


# ------------------------------------------------------------------------------------------ not applicable
na("N01", "What is restored is, bit for bit, what was backed up",
   "For every tree of files, backing it up and restoring the snapshot gives the same contents, names, kinds and metadata.",
   ["inputs"], "every tree of files",
   "Tests round-trip a handful of trees.",
   ["src/backup.rs", "src/chunk.rs", "src/pack.rs", "src/ui/restore.rs"], [("backup", "src/ui/backup.rs"), ("restore", "src/ui/restore.rs")],
   ["a restored tree against the one that was backed up"],
   "As one statement it rests on values that no static argument in reach can bound: the boundaries FastCDC computes, zstd's and CBOR's encodings inverting each other, SHA-224. Everything around those values is decided piece by piece "
   "(F01-F03, F07, F08, D02, D07, I01-I04, C01, T01-T05); the equality itself is not.")

na("N02", "The cache stays within its configured size",
   "After every command, the files in the cache take up no more space than the configured limit.",
   ["histories"], "every history of stored and read packs, every limit",
   "Tests use one small limit.",
   ["src/backend/cache.rs"], [("prune", "src/backend/cache.rs")],
   ["the size of the cache directory"],
   "Sums of run-time file sizes against a configured number; the analysis has no numeric domain that bounds them.")

na("N03", "Packs are about as large as configured",
   "Packs aren't larger than the configured size by more than a blob, nor (but for the last) much smaller.",
   ["inputs"], "every sequence of blobs and every size",
   "Tests use one size.",
   ["src/pack.rs"], [("pack", "src/pack.rs")],
   ["sizes of packs"],
   "Depends on how well zstd compresses what it is given, at run time.")

na("N04", "`LAST~n` is the snapshot n before the last",
   "For every n, `LAST~n` (and `LAST` with any number of ^) finds the snapshot that many before the last one, or fails if there are fewer.",
   ["inputs"], "every n and every number of snapshots",
   "Tests use n up to two.",
   ["src/snapshot.rs"], [("find", "src/snapshot.rs")],
   ["the snapshot a command acts on"],
   "Arithmetic on parsed numbers and lengths; S01 and S02 decide that counting starts at the newest of a sorted list and that a match is never one of several, not the subtraction.")

na("N05", "`usage` adds up right",
   "The sizes and counts `usage` prints are the sums over what is in the repository, counting shared blobs once.",
   ["inputs"], "every repository",
   "Tests look at no numbers.",
   ["src/ui/usage.rs"], [("run", "src/ui/usage.rs")],
   ["usage's output"],
   "Sums of run-time sizes; no sound static bound in reach.")
