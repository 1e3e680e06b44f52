"""The properties, and the entries that decide them. gen.py writes
properties.jsonl and MANIFEST.json from this."""


def E(name, what, quick=60, thorough=900, **k):
    return dict(name=name, what=what, quick=quick, thorough=thorough, **k)


PROPS = {}


def P(id, title, statement, over, text, why, files, mech, bounds, entries, **k):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, entries=entries, **k)


P("C01", "Prune keeps everything the remaining snapshots need",
  "After any history of backups, forgotten snapshots, interrupted commands and prunes, every snapshot that has not been forgotten still restores to exactly the tree it was made from. This holds whatever was left in the working directory by an earlier interrupted run.",
  ["histories", "crash_points"], "every choice of forgotten snapshots, every crash point of a first prune, every following command out of {prune, backup, forget and prune, rebuild-index, copy into}",
  "tests/prune.rs runs one history without interruption",
  ["src/ui/prune.rs", "src/repack.rs", "src/backup.rs", "src/index.rs"],
  [("partition of packs by reachability", "src/ui/prune.rs partition_reusable_packs"), ("resume checks", "src/ui/prune.rs run"), ("repacking walk", "src/repack.rs walk_snapshots"), ("delete only after the new index is up", "src/ui/prune.rs run")],
  "3 snapshots of 3-6 files in a source tree with two directories; 1 crash (before or inside any file system mutation of prune); 1 following command, then a prune",
  [E("h_prune_then", "a prune killed anywhere, then another command, then a prune", 90)])
P("C02", "A prune that is interrupted or fails leaves a sound repository",
  "Wherever a prune is killed, the repository afterwards passes a full check, every remaining snapshot restores exactly, and running prune again completes it: nothing is stored any more that no snapshot needs, nor twice. The same holds if any one file system operation of the prune fails instead.",
  ["crash_points", "fault_sequences"], "every file system mutation of a prune (before it, or halfway through a write)",
  "no test interrupts prune or injects a fault",
  ["src/ui/prune.rs", "src/backup.rs", "src/index.rs", "src/upload.rs", "src/backend/fs.rs"],
  [("new index before old indexes before old packs are deleted", "src/ui/prune.rs run"), ("supersedes list", "src/index.rs build_master_index")],
  "2 snapshots sharing blobs, one forgotten; one crash or one fault",
  [E("h_crash_prune", "a prune killed anywhere", 40), E("h_fault_prune", "an I/O error anywhere in a prune", 40)])
P("C03", "A snapshot appears only once all it refers to is stored",
  "Whenever a backup is killed or one of its file system operations fails, earlier snapshots stay intact and the new snapshot is either absent or completely restorable: packs are stored before the index naming them, and the index before the snapshot. A backup that reports success has stored its snapshot.",
  ["crash_points", "fault_sequences"], "every file system mutation of a backup (before it, or halfway through a write)",
  "tests/resume.rs stops a backup at one point; no test kills it at the others",
  ["src/ui/backup.rs", "src/backup.rs", "src/pack.rs", "src/index.rs", "src/snapshot.rs", "src/upload.rs"],
  [("join the pipeline before the snapshot is uploaded", "src/ui/backup.rs run"), ("index sent after its packs", "src/index.rs index")],
  "one backup of 6 entries on top of an earlier one; one crash or one fault; one deviation from the default schedule (two in the thorough tier)",
  [E("h_crash_backup", "a backup killed anywhere", 60), E("h_fault_backup", "an I/O error anywhere in a backup", 40), E("h_sched_backup", "every schedule of the pipeline within a bound", 40)])
P("C04", "Interrupted work is picked up, and never leaks into what runs next",
  "After a backup was killed anywhere, whatever is run next from the same working directory - the same backup, one of changed or unrelated paths, a dry run, copy, prune, rebuild-index, filter-snapshot - succeeds, and a following backup completes: every snapshot is intact, no blob of the resumed work is stored twice, and no WIP index stays behind.",
  ["crash_points", "histories"], "every crash point of a backup (before any file system mutation, or halfway through a write), eight kinds of next command",
  "tests/resume.rs resumes one backup from one point",
  ["src/backup.rs", "src/index.rs", "src/ui/backup.rs", "src/ui/copy.rs", "src/ui/prune.rs"],
  [("WIP index and leftover packs", "src/backup.rs find_resumable"), ("WIP index written before the upload", "src/index.rs index"), ("packed blobs taken from the WIP index", "src/ui/backup.rs run")],
  "one crash (two in the thorough tier) of a backup of 6 entries; one or two following commands",
  [E("h_resume", "a backup killed anywhere, then another command, then a backup", 120), E("h_resume_twice", "a backup killed, its resumption killed, then a backup", 60, 600, thorough_only=True)])
P("C05", "What is backed up is what is restored",
  "A backup of any tree, restored to an empty directory, gives back the same files with the same contents, directories (empty ones too) and symbolic links with the same targets; with --dereference links are backed up as what they point to. Several paths in one backup are restored side by side, a single file into the directory. check --read-packs accepts the repository.",
  ["inputs"], "symbolic file contents (equal and different), eight kinds of entry at each place, one or several paths, -L or not",
  "the tests back up this repository's own source",
  ["src/ui/backup.rs", "src/fs_tree.rs", "src/tree.rs", "src/pack.rs", "src/chunk.rs", "src/read.rs", "src/ui/restore.rs"],
  [("walk", "src/fs_tree.rs walk_fs"), ("chunk and pack", "src/ui/backup.rs backup_tree"), ("fill files", "src/ui/restore.rs fill_file")],
  "3 places, each with one of 8 kinds; symbolic contents of up to 3 bytes per file; files below 512 KiB (one chunk; C19 has the rest)",
  [E("h_roundtrip", "back up, restore elsewhere, compare", 60), E("h_paths", "several paths, links followed or not", 40)])
P("C06", "Damage is detected, and never restored as if it were sound",
  "After any change to the bytes of a stored pack, index or snapshot, or a truncation or extension of one, check --read-packs reports it unless everything still reads as it did (so that indexes can be rebuilt, too), and restore either fails or gives exactly the backed up tree.",
  ["inputs", "fault_sequences"], "every byte position of every file of the repository with every other value; every truncation and short extension",
  "no test damages a repository",
  ["src/pack.rs", "src/index.rs", "src/snapshot.rs", "src/hashing.rs", "src/ui/check.rs", "src/read.rs"],
  [("hash of each blob", "src/pack.rs verify"), ("hash of manifests, indexes, snapshots", "src/index.rs from_reader, src/snapshot.rs load")],
  "one repository of three files and two snapshots; one changed byte (position symbolic, value symbolic; a fifth of the positions in the quick tier), or one truncation or extension",
  [E("h_corrupt", "one byte of one object changed", 150), E("h_cut", "one object truncated or extended", 90)])
P("C10", "Restore changes what it should and nothing else",
  "Restoring over an existing tree makes every path of the snapshot what it was. Without --delete, paths that are not in the snapshot stay as they are and a directory is not replaced by something else; with --delete exactly the snapshot's paths remain. Symbolic links that are in the way are replaced, never followed: nothing outside the restored directories changes. Restoring to the original paths works too when some of them are gone.",
  ["inputs"], "eleven kinds of thing in the way at a file's place, three at a directory's, eight kinds in the snapshot, with and without --delete, --dry-run, -tp, -o",
  "tests/restore.rs has a handful of combinations",
  ["src/ui/restore.rs", "src/diff.rs", "src/fs_tree.rs"],
  [("type changes", "src/ui/restore.rs type_changed"), ("path mapping", "src/ui/restore.rs load_fs_tree_and_mapping"), ("tree comparison", "src/diff.rs compare_trees")],
  "trees of three levels with two places that vary",
  [E("h_restore_over", "over an existing tree", 90), E("h_restore_multi", "several paths into a directory", 30), E("h_restore_gone", "to the original paths, some gone", 30)])
P("C11", "Times and permissions survive",
  "restore --times --permissions gives every file and directory the modification time, to the nanosecond, and the permission bits it was backed up with.",
  ["inputs"], "symbolic seconds from 1678 to 2262, symbolic nanoseconds, symbolic permission bits",
  "the tests look at the times of files just made",
  ["src/tree.rs", "src/ui/restore.rs", "src/prettify.rs"],
  [("reading metadata", "src/tree.rs get_metadata"), ("storing times as nanoseconds", "src/prettify.rs"), ("setting them", "src/ui/restore.rs set_metadata")],
  "one file and one directory; either the seconds or the nanoseconds symbolic at a time",
  [E("h_meta", "symbolic times and modes through a round trip", 60)])
P("C15", "Changes since the last backup are noticed",
  "A second backup of the same paths records every change since the first - contents of another size or time, kind, mode, time, additions and removals - so that it restores to the tree as it is now, and the first snapshot to the tree as it was.",
  ["inputs", "histories"], "eight kinds of entry before and after, symbolic contents, symbolic times (equal, earlier and later, to the nanosecond)",
  "the tests change one file",
  ["src/fs_tree.rs", "src/ui/backup.rs", "src/tree.rs"],
  [("unchanged if same size and time", "src/fs_tree.rs"), ("reuse of the parent's chunks", "src/ui/backup.rs backup_tree")],
  "one entry that changes in a tree of three; by design a file of the same size and modification time counts as unchanged",
  [E("h_change", "back up, change, back up", 60)])
P("C21", "Dry runs and commands that only read change nothing",
  "backup, prune, restore, forget, copy, filter-snapshot and rebuild-index with --dry-run, and check, ls, diff, snapshots, usage, leave the repository, the file system and what an interrupted run left to resume from exactly as they were, and succeed.",
  ["histories", "crash_points"], "14 commands after a history ending in nothing, a killed backup or a killed prune (killed anywhere)",
  "no test compares the repository before and after a dry run",
  ["src/ui/backup.rs", "src/ui/prune.rs", "src/ui/restore.rs", "src/ui/forget.rs", "src/ui/copy.rs", "src/ui/filter_snapshot.rs", "src/ui/rebuild_index.rs", "src/upload.rs", "src/backup.rs"],
  [("upload mode", "src/upload.rs upload"), ("resumable or not", "src/backup.rs backup_master_thread")],
  "two snapshots; one crash; packs and complete indexes in the working directory that the WIP index does not name are not counted",
  [E("h_dryrun", "14 commands after three kinds of history", 60)])
P("C23", "check notices anything missing",
  "If any pack or index that a snapshot needs is gone, plain check (without reading packs) fails; if nothing is missing, it succeeds.",
  ["fault_sequences"], "every subset of removed files",
  "no test removes a file",
  ["src/ui/check.rs", "src/index.rs", "src/backend.rs"],
  [("probe of every pack in the index", "src/ui/check.rs"), ("trees and chunks in the index", "src/ui/check.rs")],
  "a repository of two snapshots and their packs and indexes; any subset of its files removed",
  [E("h_missing", "any subset of files removed", 30)])
P("C25", "Equal contents are stored once",
  "Within a backup and across backups of a repository, each distinct file content and each distinct directory is stored exactly once, and nothing else is stored; whatever the pack size, so also when they end up in different packs.",
  ["inputs"], "symbolic contents of four files and of two of them again later, equal or different in every combination; directories that become equal",
  "the tests count blobs of one tree",
  ["src/ui/backup.rs", "src/index.rs", "src/pack.rs"],
  [("set of packed blobs", "src/ui/backup.rs backup_tree"), ("when a pack is full", "src/pack.rs pack")],
  "six contents of two symbolic bytes, four files in three directories, two backups, default pack size and one byte",
  [E("h_once", "two backups, count what is stored", 60)])

P("C09", "diff says exactly what differs",
  "diff between a snapshot and the file system, or between two snapshots in either order, prints one line for every path that was added, removed, changed in contents or kind (and with --metadata in permissions or times) and for no other; of what is the same it prints nothing.",
  ["inputs"], "eight kinds of entry before and after in two places, equal and different contents of equal and different lengths, changed times and modes",
  "the tests compare two fixed trees",
  ["src/diff.rs", "src/ui/diff.rs", "src/fs_tree.rs", "src/tree.rs"],
  [("tree comparison", "src/diff.rs compare_trees"), ("the file system as a tree", "src/fs_tree.rs forest_from_fs")],
  "one entry that varies in a tree of four; file names without special characters; a file of the same size and time counts as unchanged by design",
  [E("h_diff", "diff with the file system and between snapshots", 90)])
P("C13", "forget removes the snapshots named and nothing else",
  "forget removes exactly the snapshots its arguments name (by ID, unambiguous prefix, LAST~n) and DUPLICATES exactly those whose contents equal the one kept before them; the others stay restorable, and no pack or index is touched. If an argument names no snapshot, forget reports failure. With --dry-run nothing is removed.",
  ["inputs", "histories"], "every sequence of three or four snapshots of two different trees, fourteen kinds of argument",
  "tests/forget.rs has two cases",
  ["src/ui/forget.rs", "src/snapshot.rs"],
  [("duplicates", "src/ui/forget.rs forget_duplicate_snapshots"), ("arguments", "src/snapshot.rs find")],
  "3 or 4 snapshots",
  [E("h_forget", "forget by every kind of argument", 40)])
P("C22", "A backup holds what was asked for, and says so",
  "A backup contains every entry below the given paths except those that a skip rule (from the command line or the configuration) matches, and what is below them. Its snapshot records the author, tags, absolute paths and time. Backing up again what the last snapshot holds, or nothing at all, makes no snapshot (unless asked to); a backup that cannot be made as asked (missing path, two paths of one name, an invalid rule) fails and leaves no snapshot.",
  ["inputs", "configurations"], "every pair of eight rules from the command line and the configuration, with and without a parent snapshot; every combination of author, tags and nine following backups",
  "tests/backup.rs skips with one rule",
  ["src/ui/backup.rs", "src/filter.rs", "src/fs_tree.rs", "src/config.rs", "src/snapshot.rs"],
  [("rules", "src/filter.rs skip_matching_paths"), ("merging", "src/config.rs merge_skips"), ("same as last", "src/ui/backup.rs run")],
  "a tree of eight entries with symbolic contents in two of them",
  [E("h_skip", "skip rules", 60), E("h_record", "what the snapshot records, and when there is one", 30)])
P("C26", "copy and filter-snapshot carry snapshots over unchanged but for what is skipped",
  "copy gives the destination the chosen snapshots with the same author, time, tags and paths and the same trees, without the paths a skip rule matches; it leaves the source and the destination's other snapshots alone, stores nothing twice, and copying again changes nothing. filter-snapshot adds one snapshot without the paths skipped, with the metadata kept or as given, or none if nothing is skipped. Killed anywhere, both leave every repository sound and can be run again.",
  ["inputs", "crash_points"], "eight rules and none, which snapshots, four states of the destination; every crash point",
  "tests/copy.rs and tests/filter_snapshot.rs run one case each",
  ["src/ui/copy.rs", "src/ui/filter_snapshot.rs", "src/repack.rs", "src/backup.rs"],
  [("walking and repacking", "src/repack.rs walk_tree"), ("filtered trees", "src/ui/filter_snapshot.rs walk_tree"), ("snapshots last", "src/ui/copy.rs run")],
  "two snapshots of a tree of eight entries with symbolic contents; one crash",
  [E("h_copy", "copy with every rule", 60), E("h_filter", "filter-snapshot with every rule", 60), E("h_crash_copy", "killed anywhere", 120)])
P("C28", "Commands finish on a machine with any number of processors",
  "Every command that packs, indexes or uploads runs to its end, whatever the number of processor cores of the machine: the stages of its pipeline never wait for one another forever.",
  ["configurations", "schedules"], "1 to 8 physical cores",
  "the tests run on the one machine they run on",
  ["src/concurrently.rs", "src/backup.rs", "src/semaphored.rs"],
  [("all pipeline stages start", "src/concurrently.rs named_concurrently"), ("rendezvous channels", "src/backup.rs spawn_backup_threads")],
  "1 to 8 cores (a symbolic count); backup, forget, prune, rebuild-index, copy, filter-snapshot in one history",
  [E("h_cpus", "a history of commands with a symbolic core count", 40)])

P("C30", "ls, dump and snapshots show what is stored",
  "ls lists every entry of a snapshot, and only those, with directories and link targets marked as such; dump of a file gives its exact contents, of a directory its entries, of a link its target, and fails for a path that is not in the snapshot.",
  ["inputs"], "eight kinds of entry in two places with symbolic contents, nine paths, to a file or to standard output",
  "the tests look at one snapshot",
  ["src/ls.rs", "src/ui/ls.rs", "src/ui/dump.rs", "src/read.rs"],
  [("search along the path", "src/ui/dump.rs run"), ("printing", "src/ls.rs print_node")],
  "a tree of four entries below one path",
  [E("h_ls_dump", "list and dump", 120)])
P("C31", "rebuild-index recovers every loss of indexes",
  "Whichever index files are lost, rebuild-index makes one index of every pack in the repository and removes the old ones; afterwards check passes and every snapshot restores. Killed anywhere it leaves the repository no worse, and running it again completes it.",
  ["fault_sequences", "crash_points"], "every subset of indexes lost, every crash point",
  "tests/rebuild_index.rs runs one case",
  ["src/ui/rebuild_index.rs", "src/index.rs", "src/pack.rs"],
  [("the new index before the old ones are removed", "src/ui/rebuild_index.rs run"), ("manifests read back", "src/pack.rs load_manifest")],
  "three backups (one perhaps forgotten); one crash",
  [E("h_rebuild", "any indexes lost, killed anywhere", 60)])

P("C24", "What has its final name is complete",
  "Objects appear in the repository under their final name (and the WIP index under its own) only when all their bytes are written and synced: neither a kill nor a power failure, at any point of backup, prune, copy or rebuild-index, leaves a truncated pack, index or snapshot that other commands would read, also when the repository is on another file system than the working directory; and the interrupted command can be run again.",
  ["crash_points", "configurations"], "every crash point of four commands, killed or by power failure, repository on the same or another file system",
  "no test interrupts anything",
  ["src/file_util.rs", "src/backend/fs.rs", "src/pack.rs", "src/index.rs", "src/snapshot.rs"],
  [("copy to .part, sync, rename", "src/file_util.rs safe_copy_to_file"), ("temporary files", "src/pack.rs, src/index.rs, src/snapshot.rs"), ("listing skips .part", "src/backend/fs.rs list")],
  "repositories of one or two snapshots; one crash; a power failure loses all data not synced, while names changed before it stay changed",
  [E("h_power", "killed anywhere, by power failure or otherwise", 100)],
  assumptions=["a power failure keeps directory changes in order and loses exactly the unsynced data of files"])
P("C29", "Commands that add to a repository can run at the same time",
  "When a backup, a copy into the repository or a rebuild-index overlaps with another backup, copy, rebuild-index or forget of the same repository, each that reports success has done its work: the snapshots it made are there and restore to what was backed up, the one it forgot is gone, and nothing any other snapshot needs is lost. (Prune must not run at the same time as others, by design.)",
  ["schedules"], "three commands, each with four others happening entirely at any single point of theirs (before any mutation of the file system, any opening of a file and any listing of a directory)",
  "no test runs two commands at once",
  ["src/ui/backup.rs", "src/ui/copy.rs", "src/ui/rebuild_index.rs", "src/index.rs", "src/backend.rs"],
  [("superseded indexes are removed only by whoever superseded them", "src/ui/rebuild_index.rs run"), ("objects named by their hash", "src/backend.rs write"), ("the index is loaded once", "src/index.rs build_master_index")],
  "two processes in different working directories; the second runs as a whole at one symbolic point of the first",
  [E("h_concurrent", "one command at any point of another", 150)])

P("C07", "Reading a blob gives its bytes",
  "Whatever blobs are read, in whatever order and however often, and however close together in time, each read gives exactly the bytes stored under that ID, or fails if nothing is stored under it; it never ends in a panic or gives another blob's bytes.",
  ["inputs", "histories"], "every sequence of reads of chunks and trees in several packs within the bounds, with a clock that advances or stands still",
  "tests read what one backup wrote, in its order",
  ["src/read.rs", "src/pack.rs", "src/index.rs"],
  [("chunks cached and evicted", "src/read.rs ChunkCache"), ("packs read up to the blob asked for", "src/read.rs ChunkReader")],
  "three packs with up to four blobs; sequences of four reads (six in the thorough tier)",
  [E("k_reader", "any sequence of reads", 60, bin="hk")])
P("C08", "The index of a repository is what its index files say, whatever they supersede",
  "The blobs a repository knows, and the packs it finds them in, are exactly those listed in the index files that no other index file supersedes: whatever subset of old indexes an interrupted command has left behind, in whatever order they are loaded. A blob that several packs hold is found in one of them.",
  ["histories", "schedules"], "every family of three indexes with any packs, each superseding any others, any of them removed already",
  "tests merge one set of indexes",
  ["src/index.rs"],
  [("superseded indexes dropped", "src/index.rs build_master_index"), ("blob to pack", "src/index.rs blob_to_pack_map")],
  "three indexes of up to three packs (all subsets and relations in the thorough tier, a part in the quick tier)",
  [E("k_index", "any indexes", 60, bin="hk")])
P("C12", "A snapshot is named by its ID, a prefix or its age, and never mistaken for another",
  "LAST, HEAD, LAST~n and a prefix of at least four characters that fits exactly one snapshot name that snapshot; anything else is refused. The order of snapshots is that of their times, and is the same on every run, so that LAST~n always names the same one; a list of names gives each snapshot once, oldest first.",
  ["inputs", "schedules"], "every number of steps back of up to two digits and too big ones, prefixes of any length of IDs that share their first digits, with any one character changed; equal times; every schedule of loading within a bound",
  "tests ask for two or three names",
  ["src/snapshot.rs"],
  [("find", "src/snapshot.rs find"), ("sorted by time", "src/snapshot.rs load_chronologically"), ("several at once", "src/snapshot.rs from_args_list")],
  "up to three snapshots; schedules with two deviations (three in the thorough tier)",
  [E("k_find", "any name", 80, bin="hk"), E("k_order", "one order of snapshots", 30, bin="hk")])
P("C14", "Parallel work is done once, within its limits, and waits for nothing forever",
  "However threads are scheduled: no more of them run a limited section than its limit and each gets its turn; each job given to a pool runs exactly once, its result is there, and no more run at once than there are processors; a value published while others look at it is seen whole, never goes back, and is freed exactly once.",
  ["schedules"], "every schedule within the stated number of deviations, at the level of atomic operations",
  "a test samples the schedules of one machine",
  ["src/semaphored.rs", "src/concurrently.rs", "src/rcu.rs"],
  [("futex semaphore", "src/semaphored.rs dec"), ("map_concurrently", "src/concurrently.rs"), ("Rcu", "src/rcu.rs")],
  "3 threads (4 in the thorough tier), 3 deviations from round robin; 1-3 processors and up to 4 jobs; one writer of 3 values and one reader",
  [E("k_semaphore", "limited sections", 90, bin="hk"), E("k_concurrently", "pools", 30, bin="hk"), E("k_rcu", "published values", 30, bin="hk")])
P("C17", "The text of an ID names exactly one object",
  "Every ID is written as 45 characters that read back as the same ID, distinct IDs as distinct texts; a text that is not the text of an ID (of another length, with other characters or stray bits at its end) is refused rather than taken for some other object's.",
  ["inputs"], "digests of symbolic bytes; texts of any length with symbolic characters",
  "tests convert one ID",
  ["src/hashing.rs"],
  [("base32hex", "src/hashing.rs FromStr, Display")],
  "texts of 9 lengths with one symbolic character at each of three places",
  [E("k_id", "texts and IDs", 60, bin="hk")])
P("C19", "A file is cut into chunks that make up exactly that file",
  "Whatever its length and contents, the chunks of a file put one after the other are the file; each is at most 8 MiB and, but for the last, at least 512 KiB; each has the ID of its own bytes; and the same bytes give the same chunks, also for files big enough to be read through a memory map.",
  ["inputs"], "lengths around every limit of the chunker and of the memory map, contents made of blocks chosen by symbolic values",
  "tests chunk the repository's own source, which has no file of more than one chunk",
  ["src/chunk.rs"],
  [("cutting", "src/chunk.rs chunk_file"), ("memory maps", "src/file_util.rs read_file")],
  "files of up to 18 MiB of a few patterns",
  [E("k_chunks", "files of any length", 150, bin="hk")])
P("C20", "Sizes are counted once, and add up",
  "snapshots --sizes and --file-sizes report for each snapshot the bytes it refers to, split into those no earlier snapshot refers to and those it shares, whatever was forgotten and however the list is shown; usage reports their sum, what is stored but unused, and the sizes of the repository's files.",
  ["histories"], "every history of three backups of changing files and one forgotten snapshot within the bounds, five ways of asking",
  "no test looks at sizes",
  ["src/ui/snapshots.rs", "src/ui/usage.rs", "src/tree.rs"],
  [("introduced and reused", "src/tree.rs forest_sizes"), ("usage", "src/ui/usage.rs run")],
  "three snapshots of three to six files of a few sizes",
  [E("h_sizes", "sizes shown", 60)])
P("C32", "Configuration and arguments combine as documented",
  "What is configured for the user, in the directory and on the command line combine as documented: the nearest file wins setting by setting, skips given as arguments are added to those configured, an empty --config means none, and a file that cannot be parsed is an error rather than ignored.",
  ["configurations"], "every combination of the settings within the bounds, present or not in each file, broken files included",
  "no test loads a configuration",
  ["src/config.rs"],
  [("load", "src/config.rs load"), ("merging", "src/config.rs merge_skips")],
  "14 contents of each of two files",
  [E("k_config", "any configuration", 40, bin="hk")])

P("C16", "The cache changes nothing but speed",
  "Whatever the local cache holds - nothing, some objects, leftovers of an interrupted run, objects of another repository, or its files without its database or the reverse - commands on a cached repository do and report what they would without it. It never holds another content for an object than the repository has, stays as small as it was told to but for the object used last, and survives commands being killed, machines with caches of their own taking turns, and commands that use it at the same time: none fails because of the other.",
  ["histories", "crash_points", "schedules"], "9 states of the cache, 3 sizes, 5 commands; every crash point of a command; every point of a command at which all of another one happens",
  "a unit test inserts two objects; no test uses a cached repository twice",
  ["src/backend/cache.rs", "src/backend.rs", "src/file_util.rs"],
  [("write through, then cache", "src/backend.rs CachedBackend::write"), ("evict before removing", "src/backend.rs CachedBackend::remove"), ("least recently used go first", "src/backend/cache.rs Cache::prune"), ("a file without a row, a row without a file", "src/backend/cache.rs Cache::try_read")],
  "two snapshots of up to four files; one crash, or one other command; quick: the second command all at one point, with two states of the cache, and one command after a crash. SQLite itself is executed, compiled from the C source that rusqlite builds; a command never has to wait for a lock that the interrupted one holds",
  [E("h_cache_any", "a cache in any state", 40, sqlite=True), E("h_cache_machines", "two machines in turn", 50, sqlite=True), E("h_cache_crash", "a command killed anywhere, then another", 80, sqlite=True), E("h_cache_two", "two commands that share the cache", 90, sqlite=True)])
P("C33", "Reading commands work while a backup runs",
  "A backup that runs to completion at any point of a command that reads the repository (check, restore, diff, ls, dump, copy, usage, snapshots, filter-snapshot) makes neither fail; the reader sees each snapshot whole, the new one or not.",
  ["schedules"], "11 commands, and every point of each (accesses to files and directories)",
  "no test runs two commands at once",
  ["src/ui/check.rs", "src/ui/restore.rs", "src/ui/diff.rs", "src/ui/copy.rs", "src/ui/usage.rs", "src/ui/filter_snapshot.rs", "src/snapshot.rs"],
  [("snapshots are loaded before the index", "src/ui/*.rs run"), ("snapshots are uploaded after their index", "src/ui/backup.rs run")],
  "two snapshots and a third made meanwhile, all of it at one point",
  [E("h_readers", "a backup anywhere in a command that reads", 80)])
P("C18", "Filters are transparent, and their failures are failures",
  "A repository with filter and unfilter commands stores exactly what the filter makes of each object and does all that an unfiltered one does, whatever the pair does to the bytes and whenever the commands get to run; objects bigger than a pipe pass. If a filter command fails in any way (an exit status, a signal, not being there, after none, some or all of its output, or with its input or output closed) then the backpak command that needed it reports failure rather than success, a panic or a hang; nothing it did not make is stored or cached, and all works again once the filter does.",
  ["inputs", "fault_sequences", "schedules"], "three commands that write and five that read, each with its k-th filter process failing in eight ways, early or late; every preemption of the threads feeding one process; any contents of a file",
  "a unit test pipes one string through cat; no test uses a filter that fails",
  ["src/backend/filter.rs", "src/backend.rs", "src/backend/cache.rs", "src/ui/prune.rs"],
  [("writing through a child", "src/backend/filter.rs BackendFilter::write"), ("reading through a child", "src/backend/filter.rs UnfilterRead"), ("nothing partial is cached", "src/backend/cache.rs Cache::insert")],
  "a byte rotation and cat as filters; one failure, of the first six processes (ten in the thorough tier); one preemption; files of up to 200 kB. Child processes are scripted models of the shell commands used, which the native replay runs for real",
  [E("h_filtered", "a filtered repository", 40, sqlite=True), E("h_filtered_bytes", "any bytes", 20, sqlite=True), E("h_filter_big", "more than fits a pipe", 20, sqlite=True), E("h_filter_sched", "schedules of one filter", 30, sqlite=True), E("h_filter_fails", "a filter that fails", 150, sqlite=True)])
P("C34", "What cannot be read is an error, and costs nothing else",
  "If any one file or directory cannot be read, at any time during backup, prune, rebuild-index, copy, restore or check, the command either does all its work or reports failure; it neither panics nor hangs; every snapshot stays complete, and the same command succeeds once all can be read again.",
  ["fault_sequences"], "every open, read, stat and directory listing of six commands failing with an I/O error",
  "no test injects a fault",
  ["src/ui/backup.rs", "src/ui/prune.rs", "src/ui/copy.rs", "src/ui/rebuild_index.rs", "src/ui/restore.rs", "src/ui/check.rs", "src/read.rs", "src/fs_tree.rs"],
  [("no new index unless all is repacked", "src/ui/prune.rs run"), ("errors end the command", "src/lib.rs fatal"), ("source files", "src/ui/backup.rs")],
  "two snapshots of up to five files; one read fails once",
  [E("h_fault_read", "a read that fails", 80)])

NOT_APPLICABLE = {}
