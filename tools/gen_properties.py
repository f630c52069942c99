#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

S = "src/paimon/"
# ------------------------------------------------------------------ commit protocol
prop("C01", "Commits are atomic and serial; an acknowledged commit is never lost",
 "When any number of committers write to one table, the snapshots form one gap-free sequence in which every snapshot is its predecessor plus exactly one commit's changes. A commit that was reported successful appears in exactly one snapshot, and a commit that was reported failed without an in-doubt error appears in none. No snapshot, once visible, is ever replaced or altered.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every interleaving of concurrent commits from several processes, every crash point inside them, every sequence of storage errors (including requests that took effect but reported an error)",
 "The commit tests use one committer on a healthy local disk; none interleaves two committers between reading the latest snapshot and publishing the next one, crashes, or lets a rename succeed while reporting failure.",
 [S+"core/operation/file_store_commit_impl.cpp", S+"core/catalog/renaming_snapshot_commit.h", S+"core/utils/snapshot_manager.cpp", S+"common/fs/file_system.cpp"],
 [("optimistic retry against the latest snapshot", S+"core/operation/file_store_commit_impl.cpp TryCommit/TryCommitOnce"),
  ("publish by atomic no-overwrite rename", S+"core/catalog/renaming_snapshot_commit.h Commit; "+S+"common/fs/file_system.cpp AtomicStore")],
 [("snapshot-N files", "the published chain", "<table>/snapshot/"), ("commit.max-retries / commit.timeout", "retry bounds", S+"common/defs.cpp")],
 ["FileStoreCommit::Commit results", "snapshot directory contents", "TableScan/TableRead of every snapshot"])
prop("C02", "Replaying a commit after failure applies it exactly once",
 "If a committer that failed, crashed or got an in-doubt answer replays its pending commits with the filter-and-commit call, each commit identifier of that user ends up applied exactly once. Replaying an already applied commit changes nothing, and replaying a commit that had not been applied applies it. (The user's last snapshot must not have been expired in between.)",
 ["crash_points", "fault_sequences", "histories", "schedules"],
 "every crash point and in-doubt error during a commit, any number of replays, with other users committing in between",
 "Tests call FilterAndCommit once after a completed commit; no test crashes between writing manifests and publishing, or replays after an error that hid a success.",
 [S+"core/operation/file_store_commit_impl.cpp", S+"core/utils/snapshot_manager.cpp", S+"core/manifest/manifest_committable.h"],
 [("filter by the last committed identifier of the user", S+"core/operation/file_store_commit_impl.cpp FilterAndCommit"), ("search of the user's latest snapshot", S+"core/utils/snapshot_manager.cpp LatestSnapshotOfUser")],
 None, ["FilterAndCommit return value", "snapshot chain (commitUser, commitIdentifier)", "rows read"])
prop("C03", "Every visible snapshot can always be read completely",
 "Whenever a snapshot is visible and not expired, everything it refers to (schema, manifest lists, manifests, data files) exists completely, and reading it returns exactly the rows of the commits it contains. This holds after any crash and any failed operation of any client, also when manifests are merged during a commit.",
 ["crash_points", "fault_sequences", "schedules", "configurations"],
 "every crash point / write error / full disk in writers and committers, every manifest merge configuration, checked at every step of the run",
 "Existing tests check a table after successful operations only; write errors in manifest merging, crashes between file creation and publication and torn files of dead clients are never produced.",
 [S+"core/operation/file_store_commit_impl.cpp", S+"core/operation/manifest_file_merger.cpp", S+"core/utils/objects_file.h", S+"core/io/rolling_file_writer.h", S+"core/io/single_file_writer.h"],
 [("publish last: data, manifests, lists, then the snapshot", S+"core/operation/file_store_commit_impl.cpp TryCommitOnce"), ("delete half-written files on error", S+"core/utils/objects_file.h WriteWithoutRolling; "+S+"core/io/single_file_writer.h Abort")],
 None, ["closure of files reachable from each snapshot", "rows read from each snapshot"])
prop("C04", "Overwrite and drop-partition replace exactly the addressed data",
 "An overwrite or drop-partition commit atomically removes all rows visible in the addressed partitions at the moment it takes effect and adds its new rows, and leaves every other partition untouched. Rows appended by a concurrent commit are either replaced (if that commit is ordered before) or kept (if ordered after); none is resurrected or silently lost.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of overwrites/drops with appends from other committers, with retries after lost races",
 "Tests run overwrite alone on a static table; the retry path that must recompute the files to delete against a newer snapshot is not exercised.",
 [S+"core/operation/file_store_commit_impl.cpp"],
 [("recompute deletions against the latest snapshot in every attempt", S+"core/operation/file_store_commit_impl.cpp TryOverwrite")],
 None, ["rows per partition of each snapshot against a sequential model"])
prop("C05", "A losing or failing commit removes only its own unpublished files",
 "Cleaning up after an attempt that lost a race or failed never deletes a file that any visible snapshot refers to. When nothing but lost races happened and every commit call noticed its lost race before the final rename, no manifest file is left behind that no snapshot refers to; a commit whose rename itself failed is in doubt and keeps its files.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of competing commits (append, overwrite, drop), all manifest merge settings, storage errors at any step of cleanup",
 "Clean-up code runs only when a race is lost or I/O fails, which no test provokes in the merge+retry combination.",
 [S+"core/operation/file_store_commit_impl.cpp", S+"core/operation/manifest_file_merger.cpp", S+"core/utils/objects_file.h"],
 [("delete only manifests that are new in this attempt", S+"core/operation/file_store_commit_impl.cpp CleanUpTmpManifests")],
 None, ["file listing against reachability closure of all snapshots"])
prop("C06", "Expiring snapshots keeps every retained snapshot intact",
 "Expiration removes only the oldest snapshots, never more than the configured minimum-retained, maximum-retained, per-run and age limits allow, and never a file a retained snapshot needs; without interference every file used only by the removed snapshots is gone. If expiration is interrupted by an error or crash at any point, the retained snapshots stay readable and repeating it removes the remaining snapshots (data files whose manifests could not be read may be left to orphan cleaning).",
 ["crash_points", "fault_sequences", "configurations", "schedules"],
 "all retention settings, clock values, crash points and storage errors inside expiration, with concurrent commits",
 "Tests expire healthy tables with fixed options; no test interrupts expiration, runs it beside a committer or advances the clock across the retention limit.",
 [S+"core/operation/expire_snapshots.cpp", S+"core/utils/snapshot_manager.cpp"],
 [("retention arithmetic", S+"core/operation/expire_snapshots.cpp Expire"), ("skip manifests and data files still used by the first retained snapshot", S+"core/operation/expire_snapshots.cpp ExpireUntil")],
 None, ["retained snapshots and their closure", "returned number of expired snapshots", "file listing"])
prop("C07", "Orphan cleaning never deletes live or recent files",
 "Cleaning orphan files deletes a file only if it has a name Paimon gives its files, no snapshot, tag or branch refers to it, it is older than the given age and the caller did not ask to retain it; files of writers and committers still at work within that age survive. On a quiet table and healthy storage it succeeds, deletes every recognised orphan older than the limit that no manifest of a snapshot names (not even as removed) and reports exactly what it deleted. Any storage error makes it skip or fail rather than delete something live.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of the cleaner with writers, committers and expiration, any leftover files of crashed clients, any list/stat/read error, any clock offset up to the allowed age",
 "The cleaner tests run on a quiet table without faults; commits racing with the cleaner's listing and listing errors are not covered.",
 [S+"core/operation/orphan_files_cleaner.cpp", S+"core/operation/orphan_files_cleaner_impl.cpp"],
 [("collect used files from all snapshots, compare candidates' age and name", S+"core/operation/orphan_files_cleaner_impl.cpp Clean")],
 None, ["file listing before/after", "returned set of cleaned files", "snapshot closures"])
prop("C08", "Latest/earliest hints are only hints",
 "Missing, stale, truncated or garbled hint files never change which snapshot is found as latest or earliest, never make a committer reuse a snapshot id, and never make a reader fail. (An earliest hint that names a later, existing snapshot is taken at its word.) An error while updating a hint does not turn a published commit into a failed one.",
 ["fault_sequences", "crash_points", "schedules"],
 "every torn/old/lost/garbage hint content reachable by crash or concurrent update, every error while writing hints",
 "Hint files are written by every test but always intact and current.",
 [S+"core/utils/snapshot_manager.cpp"],
 [("verify the hint against existence of the next snapshot, fall back to listing", S+"core/utils/snapshot_manager.cpp FindLatest/FindEarliest"), ("bounded retry when writing hints", S+"core/utils/snapshot_manager.cpp CommitHint")],
 None, ["latest/earliest snapshot found after damage", "commit and scan results"])
prop("C09", "Creating a table has one winner and always terminates",
 "When several clients create the same table at once exactly one succeeds, its schema is the one everybody reads afterwards, and the others are told the table exists. A crash or storage error during creation never leaves a table whose schema can be seen but not read, and a persistent storage error makes the call fail instead of blocking forever.",
 ["schedules", "crash_points", "fault_sequences"],
 "all interleavings of concurrent creations and lookups, all crash points, transient and persistent storage errors",
 "Catalog tests create tables sequentially on a healthy file system.",
 [S+"core/catalog/file_system_catalog.cpp", S+"core/schema/schema_manager.cpp", S+"common/fs/file_system.cpp"],
 [("first schema file is published atomically without overwrite", S+"core/schema/schema_manager.cpp CreateTable")],
 None, ["CreateTable/LoadTableSchema/ListTables results"])
prop("C10", "Assigned row ids are unique, contiguous and never reused",
 "On a row-tracking table every committed row gets one id; ids of different rows never overlap, each snapshot's next id equals the number of ids handed out so far, and retries, lost races or crashes leave no overlap.",
 ["schedules", "fault_sequences", "crash_points"],
 "concurrent commits of several files each, with lost races, in-doubt errors and replays",
 "Row tracking tests commit sequentially.",
 [S+"core/operation/file_store_commit_impl.cpp"],
 [("assign ids per attempt from the latest snapshot's next row id", S+"core/operation/file_store_commit_impl.cpp AssignRowTrackingMeta / TryCommitOnce")],
 None, ["first row id and row count of each data file in each snapshot", "snapshot next row id"])
prop("C11", "Snapshot accounting matches the data",
 "In every snapshot the total record count equals the previous total plus its own delta and equals the number of records in its live files, and the watermark never moves backwards. This holds under concurrency, retries, overwrites and clock jumps.",
 ["schedules", "fault_sequences", "histories"],
 "interleaved commits with arbitrary watermarks, overwrites, drops, retries and clock skew between committers",
 "Tests compare fixed numbers for single committers.",
 [S+"core/operation/file_store_commit_impl.cpp"],
 [("carry totals and watermark forward from the snapshot being built on", S+"core/operation/file_store_commit_impl.cpp TryCommitOnce")],
 None, ["snapshot JSON fields against the model"])
prop("C12", "A table writer neither loses nor duplicates rows, whatever I/O fails",
 "Every row accepted by a writer ends up in exactly one new file of exactly one set of commit messages the writer hands out. After any failed write or prepare-commit, the writer never hands out messages that miss accepted rows or name files that do not exist completely, and closing it deletes the files it did not hand out (files of a failed prepare-commit and files whose deletion the storage refuses excepted).",
 ["fault_sequences", "histories", "configurations"],
 "every write/flush/close/create error and short write at any point, any target file size and batch sizes, callers that retry after an error",
 "Writer tests inject few errors and stop at the first one; retrying after a failed prepare-commit is not tested.",
 [S+"core/io/rolling_file_writer.h", S+"core/io/single_file_writer.h", S+"core/io/rolling_blob_file_writer.cpp", S+"core/append/append_only_writer.cpp", S+"core/mergetree/merge_tree_writer.cpp", S+"core/operation/abstract_file_store_write.cpp"],
 [("roll, close and collect results; abort on error", S+"core/io/rolling_file_writer.h"), ("drain increments at prepare-commit", S+"core/append/append_only_writer.cpp; "+S+"core/mergetree/merge_tree_writer.cpp")],
 None, ["commit messages against accepted rows", "files on storage"])
prop("C13", "Primary-key reads return the newest version of every key",
 "Reading a primary-key table returns exactly one row per live key: the last one written in commit order and, within a commit, in the order of writing (or by the configured sequence field), with deletes removed; partial-update and aggregating tables return the combination of all versions instead. This holds whatever the number of files, buckets, buffer sizes and merge threads and however the merge pipeline's threads are scheduled.",
 ["schedules", "histories", "configurations", "inputs"],
 "all update/delete histories over several commits, all batch and buffer sizes, all thread interleavings of the read and write pipelines",
 "Merge tests use fixed small data and whatever schedule the machine produced.",
 [S+"core/mergetree/merge_tree_writer.cpp", S+"core/operation/merge_file_split_read.cpp", S+"core/mergetree/compact/loser_tree.cpp", S+"core/mergetree/compact/sort_merge_reader_with_loser_tree.cpp", S+"core/mergetree/compact/interval_partition.cpp", S+"core/io/async_key_value_producer_and_consumer.cpp"],
 [("sequence numbers and sort-merge by key", S+"core/mergetree/compact/*")],
 None, ["rows read against a last-writer-wins model"])
prop("C14", "Storage faults during a scan or read surface as errors, never as wrong rows",
 "If opening, listing, seeking or reading fails or returns short data anywhere while planning or reading, the call that needs the data reports an error; it never returns a plan or batch with rows missing, duplicated or altered and never crashes or hangs. A retry after the fault is gone returns the full correct result.",
 ["fault_sequences", "schedules"],
 "every position of a transient or persistent read error, short read or missing file in planning and reading, for all executor schedules",
 "IO-hook tests inject single errors at fixed positions of fixed reads on one schedule and only check for an error, not for partial results or later retries.",
 [S+"core/operation/file_store_scan.cpp", S+"core/utils/objects_file.h", S+"core/operation/abstract_split_read.cpp", S+"core/operation/raw_file_split_read.cpp", S+"core/operation/merge_file_split_read.cpp", S+"common/reader/concat_batch_reader.cpp", S+"core/utils/snapshot_manager.cpp"],
 [("status propagation through planning and reader stacks", S+"core/operation/*.cpp")],
 None, ["results of CreatePlan / NextBatch against the model"])
prop("C15", "Prefetching reads return the same rows as sequential reads",
 "For any number of parallel readers, queue sizes, row-range layouts, selections and thread schedules, the prefetching reader returns every selected row exactly once, in file order, with the right row positions, then end-of-file. A read error is reported, and closing, re-targeting or destroying the reader at any moment neither deadlocks nor leaks or uses freed batches.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of the background threads with the consumer, closing at any time, errors in any reader",
 "Prefetch tests rely on real thread timing, so a schedule that loses a wake-up or reorders ranges appears only by luck.",
 [S+"common/reader/prefetch_file_batch_reader_impl.cpp", S+"common/utils/threadsafe_queue.h", S+"common/executor/executor.cpp"],
 [("per-reader queues, range dispatch and wake-ups", S+"common/reader/prefetch_file_batch_reader_impl.cpp")],
 None, ["sequence of batches against the sequential reader", "outstanding batch count", "termination"])
prop("C16", "The parallel merge pipeline delivers every record once and always terminates",
 "For any batch size, number of projection threads and schedule, the pipeline hands out every merged record exactly once, in order when one projection thread is used, then end-of-data. If the source or a projection fails the next call reports that error, and stopping early at any moment terminates all threads and releases all undelivered batches.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of producer, projection threads and consumer, errors at any record, destruction at any time",
 "Tests of the async pipeline run on real threads with fixed data; early stop with full queues depends on timing.",
 [S+"core/io/async_key_value_producer_and_consumer.cpp", S+"core/io/async_key_value_projection_reader.h"],
 [("bounded queues, finish flags and draining on clean-up", S+"core/io/async_key_value_producer_and_consumer.cpp")],
 None, ["records delivered", "termination", "batches released"])
prop("C17", "A streaming scan delivers every appended row exactly once and in order",
 "Following a table with a streaming scan yields each appending snapshot from its starting point exactly once, in order, with exactly the rows that snapshot appended (overwrites are passed over), also when scans are interrupted by storage errors and retried or resumed from a saved position while commits and expiration run. If the next snapshot a running scan needs has been expired or the table was recreated, the scan reports an error instead of skipping or crashing.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of scan polls with commits and expirations, all startup modes, errors at any read",
 "Streaming tests poll between completed commits; errors mid-poll and concurrent expiration are not produced.",
 [S+"core/table/source/data_table_stream_scan.cpp", S+"core/table/source/snapshot/"],
 [("advance the next snapshot id only after a successful plan", S+"core/table/source/data_table_stream_scan.cpp NextPlan")],
 None, ["sequence of plans against the commit history"])
prop("C18", "A batch read sees exactly one snapshot",
 "A batch plan and the rows read from its splits reflect precisely one published snapshot - the latest at some moment during planning, or the one asked for - regardless of commits running at the same time. A plan shipped to another process as bytes reads the same rows.",
 ["schedules", "histories", "configurations"],
 "all interleavings of planning and reading with commits, overwrites and merges of manifests",
 "Scan tests plan on tables nobody is writing to.",
 [S+"core/operation/file_store_scan.cpp", S+"core/table/source/", S+"core/utils/snapshot_manager.cpp"],
 [("resolve the snapshot once, read only immutable files", S+"core/table/source/snapshot/; "+S+"core/operation/file_store_scan.cpp")],
 None, ["plan snapshot id and rows against the model"])
prop("C19", "Commit messages and splits round-trip as bytes, truncated ones are rejected",
 "Commit messages and splits that travel between processes as bytes come back equal, whatever optional parts they carry and however long they are. Truncated messages and splits, splits followed by stray bytes and messages of an unknown version are rejected with an error, without crashing or reading outside the given buffer.",
 ["inputs", "fault_sequences"],
 "every message content, truncation at every length",
 "Serializer tests decode golden files only.",
 [S+"core/table/sink/", S+"core/table/source/split.cpp", S+"core/io/data_file_meta_serializer.cpp", S+"core/index/index_file_meta_serializer.cpp", S+"common/io/data_input_stream.cpp", S+"common/io/memory_segment_output_stream.cpp", S+"common/memory/memory_segment_utils.cpp", S+"common/data/"],
 [("bounds-checked stream decoding", S+"common/io/data_input_stream.cpp")],
 None, ["deserialise results"])
# ------------------------------------------------------------------ streams and local fs
prop("C20", "Buffered reading is indistinguishable from reading the underlying stream",
 "For any sequence of reads, positional reads and seeks, any buffer size and any pattern of short reads by the source, a buffered stream returns the same bytes and positions as the underlying data. After the source reports an error the error reaches the caller, and once the fault is gone the reported position and the bytes read from it agree again.",
 ["fault_sequences", "histories", "configurations"],
 "all operation sequences, buffer sizes, short-read patterns and error positions",
 "Buffered stream tests use one in-memory source that always fills the request and never fails.",
 [S+"common/io/buffered_input_stream.cpp"],
 [("buffer refill and position arithmetic", S+"common/io/buffered_input_stream.cpp")],
 None, ["bytes and positions against the content model"])
prop("C21", "Streams over a window never leave it, and a failed call leaves them usable",
 "In-memory and windowed input streams only ever return bytes of their own window, at the position they report, for windows of any size including beyond 2 GiB. A seek or read that fails reports an error and leaves the position unchanged, so that later calls behave as if the failed one had not happened.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of valid and invalid seeks/reads, source errors at any call, windows up to beyond 4 GiB",
 "Tests check that a bad seek fails, but not what the next call does, and only tiny windows.",
 [S+"common/io/byte_array_input_stream.cpp", S+"common/io/offset_input_stream.cpp"],
 [("bounds checks before each access", S+"common/io/offset_input_stream.cpp AssertBoundary; "+S+"common/io/byte_array_input_stream.cpp")],
 None, ["bytes/positions against the model", "offsets asked of the wrapped stream"])
prop("C22", "Values written through data streams read back identically or fail loudly",
 "Any sequence of values written through the data output streams (file or segmented memory, either byte order, any segment size) is laid out in the documented format (fixed-width values in the chosen byte order, strings with a two-byte length) and reads back as the same sequence; truncated or failing input yields an error, and a write the sink did not take completely is reported. No value is silently shortened.",
 ["inputs", "fault_sequences", "configurations"],
 "all value sequences, segment sizes and byte orders, short writes and errors of the sink, truncation of the source at every offset",
 "Tests write a handful of values to healthy sinks.",
 [S+"common/io/data_input_stream.cpp", S+"common/io/data_output_stream.cpp", S+"common/io/memory_segment_output_stream.cpp", S+"common/memory/memory_segment_utils.cpp", S+"common/memory/memory_segment.cpp"],
 [("length checks on every read and write", S+"common/io/data_output_stream.cpp; "+S+"common/io/data_input_stream.cpp")],
 None, ["decoded values", "status of each call"])
prop("C23", "An asynchronous read calls back exactly once with the right outcome",
 "Every asynchronous positional read invokes its callback exactly once; success means the buffer holds exactly the requested bytes, and any error, short read or out-of-range request is reported through the callback and never as success. Asynchronous reads do not move the stream position and concurrent ones do not disturb each other.",
 ["schedules", "fault_sequences", "histories"],
 "all mixes of async reads in flight with other reads, completion orders, source errors and out-of-range requests",
 "Tests issue one async read at a time on healthy data.",
 [S+"common/io/buffered_input_stream.cpp", S+"common/io/byte_array_input_stream.cpp", S+"common/io/offset_input_stream.cpp", S+"fs/local/local_file_system.cpp"],
 [("callback on every path", "ReadAsync in each stream")],
 None, ["callback count, status and buffer contents"])
prop("C24", "Atomic store is all-or-nothing across crashes",
 "After storing content atomically at a path, a process crash or power loss at any instant leaves that path either absent or holding the complete content. A failed store reports an error, leaves the target as it was, and removes its temporary file when storage allows.",
 ["crash_points", "fault_sequences"],
 "every crash point between system calls, with unsynchronised data lost or torn, every system call failing or writing short",
 "No test crashes, loses unsynchronised data or fills the disk in the middle of a store.",
 [S+"common/fs/file_system.cpp", S+"fs/local/local_file_system.cpp", S+"fs/local/local_file.cpp"],
 [("write temporary file, flush and sync, then rename", S+"common/fs/file_system.cpp AtomicStore/WriteFile")],
 None, ["path content after crash", "directory listing"])
prop("C25", "Exclusive create and rename never overwrite an existing file",
 "Creating without overwrite, renaming, and storing atomically never replace or truncate a file that already exists, and when several threads race for one name exactly one of them succeeds, its content is what stays, and the others get an error.",
 ["schedules", "fault_sequences"],
 "all interleavings of racing creates, renames and stores for the same target name",
 "Tests call rename/create on existing targets sequentially; the window between the existence check and the system call is never hit.",
 [S+"fs/local/local_file_system.cpp", S+"common/fs/file_system.cpp"],
 [("existence check before rename/create", S+"fs/local/local_file_system.cpp Rename/Create"), ("rename lock", S+"fs/local/local_file_system.h RENAME_LOCK")],
 None, ["success count per name", "final contents"])
prop("C26", "Local file I/O reports every failure and absorbs partial transfers",
 "Reading or writing a local file returns exactly the bytes of the file or an error: short transfers by the operating system are completed, and any failing open, read, write, flush, sync, close, stat, list or delete makes the call report an error. Success is never reported for data that was not transferred or for a listing that is incomplete.",
 ["fault_sequences"],
 "any system call failing with any of the usual errors or transferring fewer bytes, at any position of any sequence of calls",
 "Hook-based tests fail whole library calls from above, never the system calls, so the handling of partial transfers and errno paths never runs.",
 [S+"fs/local/local_file.cpp", S+"fs/local/local_file_system.cpp", S+"common/fs/file_system.cpp"],
 [("loops over partial transfers, errno checks", S+"fs/local/local_file.cpp")],
 None, ["status and bytes of each call against the simulated kernel's record"])
prop("C27", "Local directory operations behave like one shared file tree",
 "Any sequence of create, mkdirs, rename, delete, list and status calls behaves like the same sequence on a simple file tree, and concurrent creation of overlapping directories by several threads always succeeds. Deleting never touches anything outside the named path, and paths with and without the local scheme mean the same file.",
 ["histories", "schedules", "fault_sequences"],
 "all operation sequences over a small set of names, all interleavings of concurrent mkdirs/creates, failing system calls",
 "Tests check single calls, not histories or concurrent mkdirs.",
 [S+"fs/local/local_file_system.cpp", S+"fs/local/local_file.cpp", S+"common/utils/path_util.cpp"],
 [("exists-then-mkdir tolerant of races", S+"fs/local/local_file_system.cpp MkdirsInternal")],
 None, ["results and directory tree against a tree model"])
prop("C28", "Scheme-based file systems route consistently under concurrency",
 "A path is always handled by the file system configured for its scheme, every caller using the same scheme and authority shares one instance, and a failure to create one is reported to that caller and does not prevent later attempts. This holds for any number of threads resolving paths at once.",
 ["schedules", "fault_sequences"],
 "all interleavings of concurrent first accesses, factory failures at any call",
 "Tests resolve paths from one thread.",
 [S+"common/fs/resolving_file_system.cpp", S+"common/fs/file_system_factory.cpp"],
 [("shared/exclusive lock with double check", S+"common/fs/resolving_file_system.cpp GetRealFileSystem")],
 None, ["instances created per (scheme, authority)", "operations reaching each instance"])
# ------------------------------------------------------------------ concurrency utilities
prop("C29", "The executor runs every accepted task exactly once and shuts down cleanly",
 "Every task accepted before destruction starts is executed exactly once, by the executor's own threads, also if tasks submit further tasks; with n threads up to n tasks can be in progress at once, tasks start in submission order, and destroying the executor waits for all accepted tasks and terminates under every schedule. No schedule lets a submitted task wait forever while a worker is idle.",
 ["schedules"],
 "all interleavings of submitters, workers and the destructor, including spurious wake-ups",
 "Executor tests rely on real timing; lost wake-ups and shutdown races need specific interleavings.",
 [S+"common/executor/executor.cpp"],
 [("queue, condition variable and active count", S+"common/executor/executor.cpp")],
 None, ["execution count per task", "termination of every wait"])
prop("C30", "Futures deliver every result or exception to the waiting caller",
 "Work submitted for a result always completes its future exactly once, with the value returned or the exception thrown; collecting several futures returns the results in submission order, and one failing task neither loses the others' results nor kills the process.",
 ["schedules", "fault_sequences"],
 "all interleavings of workers and waiters, exceptions (including allocation failure) thrown by any task",
 "Tests cover normal results on real timing; no test throws from a task.",
 [S+"common/executor/future.h", S+"common/executor/executor.cpp"],
 [("promise per task", S+"common/executor/future.h Via/CollectAll/Wait")],
 None, ["future outcomes"])
prop("C31", "The thread-safe queue is a linearizable FIFO",
 "Concurrent pushes, pops, peeks and size queries behave as if executed one at a time in some order consistent with real time: every element is popped at most once, none is lost, and each producer's elements come out in its order.",
 ["schedules"],
 "all interleavings of several producers and consumers",
 "The queue test is single-threaded.",
 [S+"common/utils/threadsafe_queue.h"],
 [("one mutex around a queue", S+"common/utils/threadsafe_queue.h")],
 None, ["call/return history checked against a sequential queue"])
prop("C32", "The concurrent hash map is linearizable per key",
 "Concurrent inserts, lookups and erasures behave as if executed one at a time in an order consistent with real time; an insert that reports success is found by every later lookup until it is erased, and the size is exact whenever no operation is running.",
 ["schedules"],
 "all interleavings of several threads on few keys",
 "The map test runs operations without controlled interleavings.",
 [S+"common/utils/concurrent_hash_map.h"],
 [("bucket locks of the underlying concurrent map", S+"common/utils/concurrent_hash_map.h")],
 None, ["call/return history checked against a sequential map"])
prop("C33", "Memory accounting is exact and every block has the requested size and alignment",
 "At every quiescent point the bytes reported in use equal the bytes allocated and not yet freed, the reported peak is at least every usage level ever reached and equals the true maximum, and every block is aligned as requested, writable in full and preserved by reallocation. This holds for any interleaving of threads and when the system refuses memory.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of allocate/reallocate/free in several threads, allocation failure at any call, all size/alignment combinations",
 "Pool tests are single-threaded and never see a failing allocation.",
 [S+"common/memory/memory_pool.cpp", "include/paimon/memory/memory_pool.h", S+"common/memory/bytes.cpp"],
 [("atomic counters", S+"common/memory/memory_pool.cpp")],
 None, ["usage counters against a model", "block contents and alignment"])
prop("C34", "Metrics neither lose nor invent counts under concurrency",
 "For every single counter, concurrent set, get, merge and overwrite calls behave as if executed one at a time: merging adds each counter of the source exactly once and no update is lost. Merging an object with itself changes nothing, and merging two objects into each other at the same time terminates.",
 ["schedules"],
 "all interleavings of merges, overwrites, sets and reads on shared metrics objects, including merges in both directions",
 "Metrics tests are single-threaded.",
 [S+"common/metrics/metrics_impl.cpp"],
 [("lock around the counter map", S+"common/metrics/metrics_impl.cpp")],
 None, ["counter values against a sequential model", "termination"])
prop("C35", "Process-wide registries initialise once and serve every thread",
 "However many threads touch them first at the same time, each process-wide instance is created exactly once and fully constructed before anyone sees it. A plug-in registered under a name is found by every later lookup from any thread, an unregistered one by none, and listing shows exactly the registered names.",
 ["schedules"],
 "all interleavings of first accesses, registrations, lookups, unregistrations and listings",
 "Tests use the registry from one thread after start-up.",
 [S+"common/factories/factory_creator.cpp", S+"common/factories/singleton.cpp", "include/paimon/factories/singleton.h", S+"common/factories/io_hook.cpp"],
 [("double-checked creation, lock around the registry map", "include/paimon/factories/singleton.h; "+S+"common/factories/factory_creator.cpp")],
 None, ["constructor counts", "lookup results against call/return history"])
prop("C36", "Stored bitmaps, index results and descriptors decode exactly or are rejected",
 "Every persisted structure (32/64-bit bitmaps, bit-sliced and bitmap index metadata, deletion vectors, index results, compressed integer lists, blob descriptors) decodes to what was encoded, however the bytes are chunked on reading. Truncated bytes are rejected (a list without a length field: unless cut between two elements), as are descriptors, index results and deletion vectors that carry another version or magic number, and other damaged bytes are either rejected or decode to some value, without crashing, hanging, exhausting memory or touching memory outside the buffer.",
 ["inputs", "fault_sequences"],
 "all contents, truncation at every length, bit flips and length-field damage at every position, read errors and short reads",
 "Tests decode well-formed bytes produced by themselves or by the Java implementation.",
 [S+"common/utils/roaring_bitmap32.cpp", S+"common/utils/roaring_bitmap64.cpp", S+"common/file_index/", S+"common/global_index/", S+"common/utils/delta_varint_compressor.cpp", S+"common/data/blob_descriptor.cpp", S+"core/deletionvectors/"],
 [("length, magic and version checks before use", "Deserialize functions")],
 None, ["decode results"])
prop("C37", "Index-assisted reading never hides a matching row",
 "A query answered with the help of a file index returns every row that matches, whatever the index type, the data and the faults met while reading the index; a truncated or unreadable index leads to an error or to reading the data, never to missing rows.",
 ["inputs", "fault_sequences", "configurations"],
 "all data sets and predicates over small domains, read errors, short reads and truncation at any point of the index file",
 "Index tests check fixed predicates on intact golden files.",
 [S+"common/file_index/", S+"core/io/file_index_evaluator.cpp"],
 [("conservative results when the index cannot answer", S+"common/file_index/")],
 None, ["index result against a full scan"])
prop("C42", "A filtered scan loses no matching row and shows no stale version",
 "Planning and reading with a filter (a predicate, partitions, a bucket, alone or together) returns every row of the planned snapshot that satisfies it, and for a primary-key table only the merged, current version of each key: a key whose current version does not match never shows up through an older one that does. A reader told to filter exactly returns nothing else. A limit may leave rows out but never returns fewer than asked for while more exist, and never rows that are not in the snapshot.",
 ["inputs", "configurations", "histories", "schedules"],
 "all predicates over small domains with nulls, all mixes of filters, merge engines, splits and file layouts left by concurrent and interrupted commits",
 "Filter tests use fixed predicates on fixed files; which file, key version or block may be skipped depends on the history of commits.",
 [S+"core/operation/file_store_scan.cpp", S+"core/operation/key_value_file_store_scan.cpp", S+"core/operation/append_only_file_store_scan.cpp", S+"core/operation/merge_file_split_read.cpp", S+"core/stats/simple_stats_evolution.cpp", S+"core/table/source/data_table_batch_scan.cpp"],
 [("statistics only of columns that cannot be overridden by another file of the same key", S+"core/operation/key_value_file_store_scan.cpp; "+S+"core/operation/merge_file_split_read.cpp")],
 None, ["rows read with a filter against an independent evaluation of it on the model"])
prop("C43", "Columns written on their own stay with their rows",
 "In a data-evolution table a row keeps its row id for good, and reading a snapshot returns for every row and column the value of the latest committed write that covers it, whoever wrote it and in whatever order columns were written, reordered or read. The sequence number of a row is the snapshot that last wrote to it. A scan of chosen row ids returns exactly those rows that exist, each once.",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "all orders of appends and partial-column rewrites by several committers with faults and replays, all column selections, row id selections and batch sizes",
 "Tests merge a fixed pair of files in one order.",
 [S+"core/operation/data_evolution_split_read.cpp", S+"core/operation/data_evolution_file_store_scan.cpp", S+"core/table/source/data_evolution_split_generator.cpp", S+"core/table/source/data_evolution_batch_scan.cpp", S+"common/reader/data_evolution_file_reader.cpp", S+"core/io/complete_row_tracking_fields_reader.cpp", S+"core/operation/file_store_commit_impl.cpp"],
 [("files of one row id range sorted by sequence number, which the commit assigns", S+"core/operation/data_evolution_split_read.cpp; "+S+"core/operation/file_store_commit_impl.cpp")],
 None, ["values by row id and column against the model", "row ids of every published snapshot"])
prop("C44", "A global index never hides a matching row",
 "Planning with a predicate on a data-evolution table that has global indexes on some columns and some row ids (columns that are not rewritten after they are indexed) returns every matching row of the one snapshot planned: rows no index covers are read, indexes over different row ids are combined soundly, and index files or rows committed while planning runs change nothing. A snapshot names exactly the index files committed up to it, each complete.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "all row id coverages of one or two indexed columns, predicates, and interleavings of planning with appends, column rewrites and index commits",
 "Tests plan on quiet tables with one complete index per partition.",
 [S+"core/global_index/", S+"core/table/source/data_evolution_batch_scan.cpp", S+"core/manifest/index_manifest_file_handler.cpp", S+"core/index/index_file_handler.cpp", S+"common/global_index/"],
 [("rows without index are added to the result; index and data come from one snapshot", S+"core/table/source/data_evolution_batch_scan.cpp; "+S+"core/global_index/global_index_scan_impl.cpp")],
 None, ["rows read through the index against the model", "index manifest of every published snapshot"])
# ------------------------------------------------------------------ pure functions (out of reach of this technique)
prop("C38", "Partition paths and names encode and decode without ambiguity",
 "Escaping a partition value into a path and parsing it back yields the same value, and different partitions never map to the same path.",
 ["inputs"], "all partition specs and strings", "Tests use a few fixed strings.",
 [S+"core/utils/partition_path_utils.cpp"], [("percent escaping", S+"core/utils/partition_path_utils.cpp")])
prop("C39", "Bitmap, range and bloom-filter algebra is correct",
 "Union, intersection, difference, range and rank operations on bitmaps and ranges equal the set operations they stand for, and a bloom filter never denies an inserted element.",
 ["inputs"], "all operand values", "Tests use a few fixed operands.",
 [S+"common/utils/roaring_bitmap32.cpp", S+"common/utils/range.cpp", S+"common/utils/bloom_filter64.cpp"], [("roaring library, interval arithmetic", S+"common/utils/")])
prop("C40", "Value conversions and comparisons are exact",
 "Timestamps, decimals, binary strings, row kinds and enumerations convert, compare and hash consistently with their definitions for all values.",
 ["inputs"], "all values", "Tests use a few fixed values.",
 [S+"common/data/binary_string.cpp", S+"common/data/timestamp.cpp", S+"common/types/row_kind.cpp"], [("conversion functions", S+"common/data/")])
prop("C41", "Predicate evaluation on statistics never prunes a matching file",
 "If a file contains a row satisfying a predicate, evaluating the predicate on the file's min/max/null statistics does not exclude the file.",
 ["inputs"], "all predicates, rows and statistics", "Tests use fixed predicates.",
 [S+"common/predicate/"], [("conservative evaluation", S+"common/predicate/")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
