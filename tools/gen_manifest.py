#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE_STUB = ["thread scheduler, mutexes, condition variables, futures' waits, clock, sleep, randomness (simulator)"]
H = {
 "conc": {"real": ["executor, Via/CollectAll/Wait, ThreadsafeQueue, ConcurrentHashMap (incl. tbb::concurrent_hash_map), MemoryPool, MetricsImpl, Singleton, FactoryCreator, IOHook, ResolvingFileSystem: /repo code"],
          "stub": CORE_STUB + ["allocator refusals (injected)", "file system plug-ins behind ResolvingFileSystem (fakes)"]},
 "stream": {"real": ["BufferedInputStream, ByteArrayInputStream, OffsetInputStream, DataInputStream, DataOutputStream, MemorySegmentOutputStream, MemorySegmentUtils: /repo code (AddressSanitizer build)"],
            "stub": ["the byte source and sink underneath (simulated: short transfers, errors with and without partial effect, late completions)"]},
 "index": {"real": ["RoaringBitmap32/64, BSI bitmap, bitmap index metadata v1/v2, deletion vectors, global index results, delta varint, BlobDescriptor, FileIndexFormat, FileIndexEvaluator, bitmap/bsi/bloom file index readers and the bitmap writer, CommitMessage, Split, DataSplit and IndexedSplit serializers: /repo code (AddressSanitizer build)"],
           "stub": ["file system: one in-memory file with injected open/read/seek errors and short reads", "Arrow: minimal stand-in headers"]},
 "posix": {"real": ["LocalFileSystem, LocalFile, LocalInputStream/LocalOutputStream, FileSystem::AtomicStore/ReadFile/WriteFile, PathUtil: /repo code", "stdio buffering: glibc's own"],
           "stub": CORE_STUB + ["kernel: file tree, descriptors, page cache and medium are simulated behind libc's calls (errors, short transfers, full disk, process crash, power loss with lost and torn writes)"]},
 "pipe": {"real": ["PrefetchFileBatchReaderImpl, AsyncKeyValueProducerAndConsumer, KeyValueProjectionConsumer, KeyValueMetaProjectionConsumer, SortMergeReaderWithLoserTree/MinHeap, DeduplicateMergeFunction, executor, ThreadsafeQueue: /repo code"],
          "stub": CORE_STUB + ["file format readers and sorted runs (fakes with injected errors)", "tbb::concurrent_bounded_queue (same interface on simulated mutex and condition variable)", "Arrow: minimal stand-in"]},
 "table": {"real": ["FileStoreCommit, FileStoreWrite, snapshot/schema/manifest handling, manifest merging, expiration, table scan and read, data evolution, global index build and scan, catalog, AtomicStore, executor: /repo code (all of common and core)"],
           "stub": CORE_STUB + ["file system plug-in: one shared store with per-process crashes, errors with and without effect, short transfers, stalls", "data and manifest file format: stand-in that detects any incomplete file", "Arrow: minimal stand-in", "logging"]},
 "streamt": {"real": ["StreamUtils, InputStream helpers: /repo code"],
            "stub": CORE_STUB + ["the byte source underneath (simulated; completions run on simulated threads)"]},
}
FLT = "seeded search over operation and fault sequences in a deterministic simulator, "
SCHED = "seeded schedule search in a deterministic simulator, "
# property: (level, technique, note, [(harness, profile, quick, thorough)])
TBL = "seeded search over interleavings of whole-table clients, crashes and storage faults in a deterministic simulator, "
TBN = "1-3 committers with up to 4 commits each; every file system call and synchronisation point is a scheduling point; a rename onto an existing name fails, as on HDFS and local disks; "
C = {
 "C01": ("exploration", TBL + "every published snapshot is checked against an independent model of the table", TBN + "object stores without atomic rename are outside.", [("table", "", 3000, 60000)]),
 "C02": ("exploration", TBL + "exactly-once oracle over replayed commits", TBN + "the last snapshot of a user is not expired before the replay.", [("table", "", 3000, 60000)]),
 "C03": ("exploration", TBL + "completeness of everything a published snapshot refers to, then real reads", TBN + "up to 6 faults per run.", [("table", "", 3000, 60000)]),
 "C04": ("exploration", TBL + "overwrite model", TBN + "partitions a, b, c; overwrite of some or all partitions and drop partition mixed with appends.", [("table", "", 3000, 60000)]),
 "C05": ("exploration", TBL + "no deletion of a file a visible snapshot needs; leftovers", TBN + "leftovers are only judged in runs without faults.", [("table", "", 3000, 60000)]),
 "C06": ("exploration", TBL + "retention model", "Up to 18 snapshots; expiration runs beside the committers and is interrupted by errors and crashes, then repeated without them.", [("table", "", 2500, 50000)]),
 "C07": ("exploration", TBL + "live-file invariant at every deletion, completeness on the quiet table", TBN + "leftovers of crashed clients, foreign files and tags; 0-2 committers, expiration and cleaners at the same time.", [("table", "", 2200, 40000)]),
 "C09": ("exploration", TBL + "one-winner oracle", "1-4 clients creating one table, up to two attempts each, transient and persistent storage faults and crashes; preemption at synchronisation points and storage calls.", [("table", "", 15000, 300000)]),
 "C12": ("exploration", TBL + "row-by-row oracle of what is handed out", "One writer on append, primary-key or postpone-bucket tables, up to 7 rounds of writing, preparing and closing, retrying after errors; blob columns are not exercised.", [("table", "", 12000, 240000)]),
 "C13": ("exploration", TBL + "last-writer-wins model per key", "1-2 buckets, 6 keys per bucket, up to 4 commits per user; merge engines deduplicate, partial-update, aggregation; first-row and lookup tables need compaction, which the library does not have.", [("table", "", 2500, 50000)]),
 "C14": ("exploration", TBL + "read is complete or fails", "Append and primary-key tables of up to 6 commits; data files are of the harness's own format, all other code is real.", [("table", "", 2500, 50000)]),
 "C17": ("exploration", TBL + "sequence of delivered snapshots against the history", "Append tables, 1-2 committers, expiration, one follower in the startup modes latest-full, latest, from-snapshot, from-snapshot-full.", [("table", "", 2000, 40000)]),
 "C18": ("exploration", TBL + "one-snapshot oracle", TBN + "1-2 readers, plans serialised and read back half of the time.", [("table", "", 1800, 36000)]),
 "C42": ("exploration", TBL + "independent evaluation of the filter on the model", "Append and primary-key tables of 2-5 commits per committer; predicates of depth 2 over three columns with values from small ranges and nulls; partition and bucket filters, limits (only without a predicate); the stand-in format skips blocks in which no row matches.", [("table", "", 1800, 36000)]),
 "C43": ("exploration", TBL + "value per row id and column", "1-3 committers with 2-6 commits each of appends and partial-column rewrites; a rewrite covers one or two whole existing files; blob columns are not exercised.", [("table", "", 1600, 32000)]),
 "C44": ("exploration", TBL + "filtered reads through global indexes against the model", "As C43, with bitmap indexes over whole or partial row id ranges of one or two columns, built and committed beside appends and rewrites of the other columns; vector search is not exercised.", [("table", "", 1300, 26000)]),
 "C08": ("exploration", TBL + "ground truth of the published snapshots", "Hint files are removed, made stale, cut, garbled or moved beyond the latest snapshot at seeded moments; a hint naming a living but wrong earliest snapshot is outside.", [("table", "", 2500, 50000)]),
 "C10": ("exploration", TBL + "row id ranges of every published snapshot", TBN + "row-tracking table.", [("table", "", 3000, 60000)]),
 "C11": ("exploration", TBL + "recount of records and watermark model", TBN + "clock jumps up to an hour either way.", [("table", "", 3000, 60000)]),
 "C15": ("exploration", SCHED + "row-by-row oracle, release counting", "Files up to 40 rows, 1-4 readers, 1-4 executor threads, queues of 1-6 batches; preemption at every memory access; sequentially consistent memory.", [("pipe", "", 8000, 160000)]),
 "C16": ("exploration", SCHED + "record-by-record oracle, release counting", "Up to 5 runs and 40 keys, 1-6 projection threads, batches of 1-8; preemption at every memory access; sequentially consistent memory.", [("pipe", "", 8000, 160000)]),
 "C19": ("exploration", FLT + "round-trip equality for intact messages, rejection of shortened ones", "Seeded random commit messages, lists of them, splits and indexed splits (every optional field present and absent, long strings, many files, so that the bytes span several segments) are decoded intact, cut short at 30 lengths, followed by stray bytes and under unknown versions; memory errors are found by AddressSanitizer.", [("index", "", 5000, 150000)]),
 "C20": ("exploration", FLT + "content model", "Seeded random operation sequences over sources with short reads, errors and partial transfers; buffer sizes 1-64 and default.", [("stream", "", 20000, 400000)]),
 "C21": ("exploration", FLT + "content model and recorded offsets", "Seeded random operation sequences incl. invalid ones; sources up to 5 GiB are sparse.", [("stream", "", 20000, 400000)]),
 "C22": ("exploration", FLT + "round-trip equality or error", "Seeded random value sequences, segment sizes, byte orders, sink and source faults, truncation.", [("stream", "", 20000, 400000)]),
 "C36": ("exploration", FLT + "round-trip equality for intact bytes, error-or-usable for damaged bytes", "Seeded random values and seeded truncation, bit flips, length-field and splice damage of every serialized structure of the Arrow-free part; memory errors are found by AddressSanitizer.", [("index", "", 15000, 400000)]),
 "C37": ("exploration", FLT + "superset oracle over the indexed rows", "Seeded random columns, index types, predicates, truncation and read faults with retries; long-lived readers are queried again after faults.", [("index", "", 12000, 300000)]),
 "C23": ("exploration", FLT + "callback count and outcome oracle", "Seeded random asynchronous reads, completion order chosen by the simulator; the threaded part explores schedules of completer threads.", [("stream", "", 15000, 300000), ("streamt", "fully", 3000, 60000), ("posix", "", 4000, 80000)]),
 "C24": ("exploration", FLT + "crash and power-loss model", "Crash, power loss, error, full disk or short transfer at a seeded kernel call of 1-3 stores; namespace changes persist as a prefix, unsynced data is kept, lost, torn or zeroed.", [("posix", "", 30000, 600000)]),
 "C25": ("exploration", SCHED + "one-winner oracle", "2-4 threads in one process; preemption at kernel calls and memory accesses; sequentially consistent memory.", [("posix", "", 30000, 600000)]),
 "C26": ("exploration", FLT + "ground truth of the simulated kernel", "Seeded call sequences up to 35 calls on up to 3 files; success is compared with what the kernel and the medium hold.", [("posix", "", 30000, 600000)]),
 "C27": ("exploration", FLT + "file tree model", "Seeded operation sequences up to 34 operations over 3 levels; concurrent part: 2-4 threads creating overlapping directories.", [("posix", "", 30000, 600000)]),
 "C28": ("exploration", SCHED + "history check", "Seeded random exploration of schedules (preemption at every memory access) and of plug-in creation failures; nothing is exhaustive.", [("conc", "", 12000, 250000)]),
 "C29": ("exploration", SCHED + "exactly-once and termination oracle", "Seeded random exploration of schedules of 1-4 workers, 1-3 submitters, nested submission and destruction; sequentially consistent memory.", [("conc", "", 30000, 600000)]),
 "C30": ("exploration", SCHED + "outcome oracle with throwing tasks", "Seeded random exploration of schedules; tasks return or throw.", [("conc", "", 12000, 250000)]),
 "C31": ("exploration", SCHED + "linearizability check", "Histories of at most 40 operations by 2-4 threads checked by complete search; sequentially consistent memory.", [("conc", "", 30000, 600000)]),
 "C32": ("exploration", SCHED + "linearizability check", "Per-key histories checked by complete search; size is checked against bounds while threads run and exactly at rest.", [("conc", "", 30000, 600000)]),
 "C33": ("exploration", SCHED + "accounting model with refused allocations", "Level bounds (certainly held / possibly held) bracket the reported peak; usage exact at rest.", [("conc", "", 30000, 600000)]),
 "C34": ("exploration", SCHED + "per-counter linearizability check", "Histories of 2-3 threads; merge/overwrite sources are fixed objects, mutual merge separately.", [("conc", "", 30000, 600000)]),
 "C35": ("exploration", SCHED + "constructor count and registration history", "First access by 2-5 threads, registration and lookup histories; sequentially consistent memory, so weak-memory effects of double-checked locking are outside.", [("conc", "", 30000, 600000)]),
}
ASSUME = {"table": ["rename to an existing name fails and is atomic; a closed file is durable", "sequentially consistent memory; threads interleave at file system calls and synchronisation points"], "pipe": ["sequentially consistent memory", "threads interleave at synchronisation points and instrumented memory accesses"], "posix": ["the simulated kernel orders namespace changes (a power loss keeps a prefix of them)", "sequentially consistent memory"], "streamt": ["sequentially consistent memory"], "conc": ["threads interleave at memory accesses of the code under test under sequential consistency; weak-memory reorderings are not explored"]}
NA = {
 "C38": "pure function of a string: no schedule, fault, crash or history is involved, a seeded search over schedules and faults cannot decide it",
 "C39": "pure set algebra on in-memory values: nothing nondeterministic to simulate or inject",
 "C40": "pure value conversions and comparisons: nothing nondeterministic to simulate or inject",
 "C41": "pure evaluation of a predicate on statistics: nothing nondeterministic to simulate or inject",
}
def main():
    checks, man = {}, []
    for p in sorted(C):
        level, tech, note, parts = C[p]
        hs = [x[0] for x in parts]
        checks[p] = {"level": level, "parts": [{"harness": h, "profile": pr, "quick": q, "thorough": t} for h, pr, q, t in parts],
                     "real": sorted({r for h in hs for r in H[h]["real"]}), "stub": sorted({r for h in hs for r in H[h]["stub"]}),
                     "assumptions": sorted({a for h in hs for a in ASSUME.get(h, [])})}
        man.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}", "evidence_file": f"evidence/{p}.json",
                    "technique": tech, "level": level, "level_note": note})
    json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    na = [{"property": k, "reason": v} for k, v in sorted(NA.items())]
    m = {"version": 1, "setup_cmd": "python3 build.py",
         "checks": man, "not_applicable": na,
         "notes": "Deterministic simulation with fault injection; see DESIGN.md. No hooks in /repo: every seam is a plug-in interface, link-time interposition or compiler instrumentation."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print("checks", len(man), "n/a", len(na), "unchecked", [p for p in props if p not in C and p not in NA])
main()
