// Whole tables: writers, committers, readers, expiration and cleaning as clients of one store.
#include "paimon/core/snapshot.h"
#include "paimon/core/utils/snapshot_manager.h"
#include "paimon/common/global_index/bitmap/bitmap_global_index_factory.h"
#include "paimon/global_index/global_indexer.h"
#include "paimon/core/global_index/indexed_split_impl.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/global_index_write_task.h"
#include "paimon/predicate/predicate_builder.h"
#include "world.h"

namespace tfs {
Store* S;
std::vector<std::shared_ptr<Rows>>* R;
const char* OpName(Op o) {
    switch (o) {
        case OPEN: return "open";
        case READ: return "read";
        case CREATE: return "create";
        case WRITE: return "write";
        case FLUSH: return "flush";
        case CLOSE: return "close";
        case MKDIRS: return "mkdirs";
        case RENAME: return "rename";
        case DELETE: return "delete";
        case STAT: return "stat";
        case LIST: return "list";
        case EXISTS: return "exists";
        default: return "?";
    }
}
}  // namespace tfs
namespace tw {
World* W;
}
namespace {
using namespace tw;  // NOLINT

// Which scenario: the property, unless the profile names another one.
std::string P() { return dst::Opt().profile.empty() ? dst::Opt().prop : dst::Opt().profile; }
bool Is(std::initializer_list<const char*> l) {
    for (auto* x : l)
        if (P() == x) return true;
    return false;
}

// Which faults this run has.
struct Plan2 {
    double err = 0, doubt = 0, crash = 0, shrt = 0;
    uint32_t ops = ANY, classes = ALL;
    int stall = 0;
};
Plan2 F;
void DrawFaults(int max_budget, bool hints) {
    F = Plan2();
    if (Pick("stalls", 4) == 1) F.stall = 5;
    if (Pick("faulty", 4) == 0) return;
    W->budget = 1 + Pick("budget", max_budget);
    double rates[] = {0.005, 0.02, 0.08, 0.3};
    double p = rates[Pick("rate", 4)];
    uint32_t kinds = 1 + Pick("kinds", 15);
    if (kinds & 1) F.err = p;
    if (kinds & 2) F.crash = p;
    if (kinds & 4) F.doubt = p;
    if (kinds & 8) F.shrt = p;
    switch (Pick("ops", 5)) {
        case 1: F.ops = READS; break;
        case 2: F.ops = WRITES; break;
        case 3: F.ops = RENAME | CLOSE; break;
        case 4: F.ops = 1u << Pick("op", 12); break;
        default: break;
    }
    switch (Pick("classes", 4)) {
        case 1: F.classes = SNAP; break;
        case 2: F.classes = MANIFEST; break;
        case 3: F.classes = SNAP | MANIFEST; break;
        default: break;
    }
    if (!hints) F.classes &= ~HINT;
}
Client* Start(const std::string& name) {
    Client* c = NewClient(name);
    c->p_err = F.err, c->p_doubt = F.doubt, c->p_crash = F.crash, c->p_short = F.shrt;
    c->ops = F.ops, c->classes = F.classes, c->stall = F.stall;
    return c;
}

void NewWorld() {
    S = new Store();
    R = new std::vector<std::shared_ptr<Rows>>();
    W = new World();
    S->on_publish = OnPublish;
    S->on_delete = OnDelete;
    S->on_create_over = OnCreateOver;
    S->on_written = OnWritten;
}

const char* PTS[] = {"a", "b", "c"};

// A user of the table: writes, commits, crashes, comes back and replays what is pending.
struct Committer {
    std::string user;
    Client* c = nullptr;
    int64_t next_id = 1;
    int incarnation = 0;
    std::vector<CommitRec*> pending;
    bool overwrites = false;
    bool watermarks = false;
    int max_rows = 4;
    bool spared = false;  // no faults for this one
    int bucket = -1;      // primary key tables: the bucket this user owns
    bool keep = false;    // one writer for many commits
    std::unique_ptr<FileStoreWrite> w;

    void Restart() {
        w.reset();
        if (c) c->exec.reset();
        c = Start(user + (incarnation ? "'" + std::to_string(incarnation) : ""));
        if (spared) c->budget = nullptr;
        incarnation++;
    }
    std::vector<Row> NewRows() {
        int n = 1 + Pick("rows", max_rows);
        std::vector<Row> rows;
        for (int i = 0; i < n; i++) {
            Row r{PTS[Pick("pt", 3)], W->next_row, W->next_row * 7};
            W->next_row++;
            if (W->dense) {
                r.id = Pick("id", 4) * (1 + Pick("scale", 8));
                r.v = Pick("null", 5) == 1 ? NUL : (int64_t)Pick("v", 9) - 2;
            }
            if (W->pk) {
                r.id = bucket + W->buckets * (int64_t)Pick("key", 6);
                if (W->seq_field) r.v = 1 + Pick("seq", 5);
                if ((W->engine == "partial-update" || W->engine == "aggregation") && Pick("null", 3) == 1) r.v = NUL;
            }
            rows.push_back(r);
        }
        return rows;
    }
    // Rewrites some columns of rows that are there.
    CommitRec* Patch() {
        std::map<int64_t, Entry> base;
        {
            Atomic a;
            for (auto& [f, e] : W->snaps[W->latest].live)
                if (!W->patches.count(f)) base[*e.first_row_id] = e;
        }
        std::vector<std::pair<Entry, std::vector<std::string>>> jobs;
        for (int n = 1 + Pick("targets", 2); n > 0 && !base.empty(); n--) {
            auto it = std::next(base.begin(), Pick("target", base.size()));
            std::vector<std::string> in[2];
            for (const char* col : {"pt", "id", "v"}) {
                if ((!strcmp(col, "pt") && !W->pkeys.empty()) || W->indexed.count(col)) continue;
                if (int k = Pick("column", 3)) in[k - 1].push_back(col);
            }
            for (auto& x : in) {
                if (x.empty()) continue;
                if (x.size() > 1 && Pick("reorder", 3) == 1) std::swap(x[0], x[1]);
                jobs.push_back({it->second, x});
            }
            base.erase(it);
        }
        if (jobs.empty()) return Append();
        Msgs ms;
        std::vector<Row> all;
        for (auto& [e, cols] : jobs) {
            Status st;
            auto pw = MakeWriter(c, user, {}, &st, cols);
            if (!pw) return Failed("create writer", st);
            std::string pt = RowsOfFile(e.file).at(0).pt;
            for (int64_t done = 0; done < e.rows;) {
                auto rows = NewRows();
                if ((int64_t)rows.size() > e.rows - done) rows.resize(e.rows - done);
                for (auto& r : rows)
                    if (!W->pkeys.empty()) r.pt = pt;
                done += rows.size();
                auto b = MakeBatch(rows, bucket, {}, cols);
                for (auto r : rows) {
                    auto has = [&, &cs = cols](const char* n) { return std::find(cs.begin(), cs.end(), n) != cs.end(); };
                    if (!has("pt")) r.pt = "";
                    if (!has("id")) r.id = NUL;
                    if (!has("v")) r.v = NUL;
                    all.push_back(r);
                }
                st = pw->Write(std::move(b));
                if (!st.ok()) return Failed("write", st);
            }
            auto m = pw->PrepareCommit(/*wait_compaction=*/false, next_id);
            if (!m.ok()) return Failed("prepare", m.status());
            if (c->crashed) return nullptr;
            Atomic a;
            for (auto& x : m.value()) {
                auto* i = dynamic_cast<CommitMessageImpl*>(x.get());
                auto& fs = i->GetNewFilesIncrement().NewFiles();
                if (fs.size() != 1) dst::HarnessError("%d files", (int)fs.size());
                fs[0]->AssignFirstRowId(*e.first_row_id);
                W->patches[fs[0]->file_name] = *e.first_row_id;
                ms.push_back(x);
            }
            st = pw->Close();
        }
        dst::Count("column-rewrites");
        return Record(ms, all, {});
    }
    // Indexes a column of rows that are there and have no index yet.
    CommitRec* Index() {
        std::string col = *std::next(W->indexed.begin(), Pick("column", W->indexed.size()));
        ReadOut o;
        auto splits = PlanOnce(c, std::nullopt, &o);
        if (!o.st.ok()) return Failed("plan", o.st);
        std::shared_ptr<DataSplitImpl> split;
        std::optional<Range> range;
        auto& claimed = W->claimed[col];
        {
            Atomic a;
            std::vector<std::pair<std::shared_ptr<DataSplitImpl>, Range>> open;
            for (auto& x : splits) {
                auto d = std::dynamic_pointer_cast<DataSplitImpl>(x);
                if (!d) dst::HarnessError("split type");
                std::set<int64_t> ids;
                for (auto& f : d->DataFiles())
                    for (int64_t i = 0; i < f->row_count; i++) ids.insert(*f->first_row_id + i);
                for (int64_t i : ids) {
                    if (claimed.count(i)) continue;
                    if (!open.empty() && open.back().first == d && open.back().second.to == i - 1)
                        open.back().second.to = i;
                    else
                        open.push_back({d, Range(i, i)});
                }
            }
            if (open.empty()) return nullptr;
            auto& [d, r] = open[Pick("run", open.size())];
            split = d, range = r;
            if (Pick("part", 3) == 1) {
                range->from += Pick("cutfront", range->Count());
                range->to -= Pick("cutback", range->Count());
            }
            for (int64_t i = range->from; i <= range->to; i++) claimed.insert(i);
        }
        dst::Log("%s indexes %s of rows %lld to %lld", user.c_str(), col.c_str(), (long long)range->from, (long long)range->to);
        auto m = GlobalIndexWriteTask::WriteIndex(TABLE, col, "bitmap", std::make_shared<IndexedSplitImpl>(split, std::vector<Range>{*range}), ClientOpts(c), GetDefaultPool());
        if (!m.ok() || c->crashed) {
            Atomic a;
            for (int64_t i = range->from; i <= range->to; i++) claimed.erase(i);
        }
        if (!m.ok()) return Failed("index", m.status());
        if (c->crashed) return nullptr;
        dst::Count("indexes-built");
        return Record({m.value()}, {}, {});
    }
    // Writes rows and prepares a commit. Null when something failed.
    CommitRec* Prepare() {
        c->doing = "write";
        if (!W->indexed.empty() && W->latest && Pick("index", 3) == 1)
            if (auto* r = Index()) return r;
        if (W->evolve && W->latest && Pick("patch", 3)) return Patch();
        return Append();
    }
    CommitRec* Append() {
        Status st;
        if (!w) w = MakeWriter(c, user, {}, &st);
        if (!w) return Failed("create writer", st);
        std::vector<Row> all;
        std::vector<std::pair<Row, bool>> ops;
        int batches = 1 + Pick("batches", 3);
        for (int b = 0; b < batches; b++) {
            auto rows = NewRows();
            std::vector<RecordBatch::RowKind> kinds;
            if (!W->pkeys.empty())
                for (auto& r : rows) r.pt = rows[0].pt;
            if (W->pk && W->engine == "deduplicate" && Pick("kinds", 2))
                for (size_t i = 0; i < rows.size(); i++) kinds.push_back(Pick("del", 3) == 1 ? RecordBatch::RowKind::DELETE : RecordBatch::RowKind::INSERT);
            st = w->Write(MakeBatch(rows, bucket, kinds));
            if (!st.ok()) return Failed("write", st);
            all.insert(all.end(), rows.begin(), rows.end());
            for (size_t i = 0; i < rows.size(); i++) ops.push_back({rows[i], !kinds.empty() && kinds[i] == RecordBatch::RowKind::DELETE});
        }
        auto m = w->PrepareCommit(/*wait_compaction=*/false, next_id);
        if (!m.ok()) return Failed("prepare", m.status());
        if (c->crashed) return nullptr;
        CommitRec* r = Record(m.value(), all, ops);
        if (!keep) {
            st = w->Close();
            w.reset();
        }
        return r;
    }
    CommitRec* Record(const Msgs& m, const std::vector<Row>& all, const std::vector<std::pair<Row, bool>>& ops) {
        Atomic a;
        auto* r = new CommitRec();
        r->user = user;
        r->id = next_id++;
        r->bytes = Ser(m);
        r->msgs = m;
        std::vector<Row> got;
        for (auto& f : MsgFiles(m)) {
            auto rows = RowsOf(DataPath(f));
            DST_CHECK("C12", "message-names-incomplete-file", rows != nullptr, "%s's commit messages name %s, which is not a complete file", user.c_str(), f.c_str());
            r->files[f] = TableRows(*rows);
            got.insert(got.end(), r->files[f].begin(), r->files[f].end());
        }
        for (auto& x : m)
            for (auto& f : dynamic_cast<CommitMessageImpl*>(x.get())->GetNewFilesIncrement().NewIndexFiles()) r->index[f->FileName()] = f->FileSize();
        r->ops = ops;
        std::string d = W->pk ? "" : Diff(got, all);
        DST_CHECK("C12", "rows-differ", d.empty(), "%s's commit messages hold %s", user.c_str(), d.c_str());
        W->commits[{user, r->id}] = r;
        pending.push_back(r);
        return r;
    }
    CommitRec* Failed(const char* what, const Status& st) {
        dst::Log("%s: %s failed: %s", user.c_str(), what, st.ToString().c_str());
        w.reset();
        Blame(what, st, c->faults > 0 || c->crashed);
        return nullptr;
    }
    void Blame(const char* what, const Status& st, bool excused, bool replay = false) {
        if (excused || W->expiring) return;
        dst::Violate(replay ? At({"C01", "C02", "C08"}) : At({"C01", "C08"}), "fails-without-cause", "%s of %s fails although nothing went wrong: %s", what, user.c_str(), st.ToString().c_str());
    }
    // One call for everything pending. True when it is all applied.
    bool Call(bool first) {
        c->doing = "commit";
        Status st;
        auto fc = MakeCommit(c, user, {}, &st);
        if (!fc) {
            Failed("create committer", st);
            return false;
        }
        int faults0 = c->faults, hints0 = c->hint_faults, pub0 = W->published;
        std::optional<int64_t> wm;
        if (watermarks && Pick("wm", 3)) wm = 100 + Pick("wmval", 50);
        CommitRec* r = pending.back();
        bool over = r->overwrite;
        std::vector<CommitRec*> mine;
        if (over)
            mine = {r};
        else
            mine = pending;
        int open = 0;
        for (auto* x : mine) {
            x->watermark = wm;
            x->running = true;
            if (!x->published) open++;
        }
        auto msgs = [&](CommitRec* x) { return Pick("reload", 2) || !first ? Deser(x->bytes) : x->msgs; };
        Result<int32_t> n = 0;
        if (over && first) {
            if (r->files.empty() && Pick("drop", 2) && !r->parts.empty()) {
                r->watermark = std::nullopt;
                st = fc->DropPartition(r->parts, r->id);
            } else {
                st = fc->Overwrite(r->parts, msgs(r), r->id, wm);
            }
            n = 1;
        } else if (over) {
            n = fc->FilterAndOverwrite(r->parts, msgs(r), r->id, wm);
            st = n.status();
        } else if (first && mine.size() == 1) {
            st = fc->Commit(msgs(r), r->id, wm);
            n = 1;
        } else {
            std::map<int64_t, Msgs> all;
            for (auto* x : mine) all[x->id] = msgs(x);
            n = fc->FilterAndCommit(all, wm);
            st = n.status();
        }
        Atomic a;
        bool crashed = c->crashed;
        dst::Log("%s commit -> %s%s", user.c_str(), st.ToString().c_str(), crashed ? " (crashed)" : "");
        for (auto* x : mine) x->running = false;
        if (crashed) return false;
        if (st.ok()) {
            for (auto* x : mine) {
                DST_CHECK(first ? At({"C01", "C08"}) : At({"C01", "C02", "C08"}), "acknowledged-not-applied", x->published, "the commit of %s/%lld was reported successful but is in no snapshot", user.c_str(), (long long)x->id);
                x->acked = true;
            }
            DST_CHECK("C02", "count-wrong", n.value() == open, "replaying %d commits of %s, %d of them not applied before, reports %d", (int)mine.size(), user.c_str(), open, (int)n.value());
            if (open == 0) dst::Count("replays-of-applied-commits");
            return true;
        }
        int now_open = 0;
        for (auto* x : mine) {
            if (!x->published) now_open++;
        }
        if (now_open == 0 && open > 0 && !r->doubt && !(c->rename_doubt)) {
            if (c->hint_faults > hints0 || P() == "C08") dst::Violate("C08", "published-reported-failed", "the commit of %s/%lld is published as snapshot %lld, but reported failed: %s", user.c_str(), (long long)r->id, (long long)r->published, st.ToString().c_str());
            dst::Violate("C01", "published-reported-failed", "the commit of %s/%lld is published as snapshot %lld, but reported failed: %s", user.c_str(), (long long)r->id, (long long)r->published, st.ToString().c_str());
        }
        // lost races may use up the retries
        Blame("commit", st, c->faults > faults0 || c->faults > 0 || W->published > pub0, !first);
        return false;
    }
    // Until everything pending is applied.
    void Finish(bool first) {
        for (int tries = 0; !pending.empty(); tries++) {
            if (W->expiring) {
                // what is applied and expired since cannot be recognised any more
                Atomic a;
                pending.erase(std::remove_if(pending.begin(), pending.end(), [](CommitRec* r) { return r->published && W->snaps[r->published].gone; }), pending.end());
                if (pending.empty()) return;
            }
            if (tries > 60) dst::Violate("C02", "replay-never-succeeds", "%s cannot get its commit applied", user.c_str());
            bool ok = Call(first && tries == 0);
            if (ok) {
                Atomic a;
                pending.clear();
                return;
            }
            dst::Count("failed-commits");
            // A failed process comes back; one that only got an error may go on.
            if (c->crashed || Pick("restart", 2)) Restart();
        }
    }
    void Run(int commits) {
        Restart();
        for (int i = 0; i < commits; i++) {
            CommitRec* r = nullptr;
            if (overwrites && Pick("kind", 3) == 2 && Pick("empty", 2)) {
                Atomic a;
                r = new CommitRec();
                r->user = user, r->id = next_id++, r->bytes = Ser({});
                W->commits[{user, r->id}] = r;
                pending.push_back(r);
                r->overwrite = true;
            }
            for (int t = 0; !r && t < 30; t++) {
                r = Prepare();
                if (!r && (c->crashed || Pick("restart", 2))) Restart();
            }
            if (!r) continue;
            if (overwrites && !r->overwrite && Pick("over", 3) == 1) r->overwrite = true;
            if (r->overwrite) {
                // addressed: the partitions it writes, plus perhaps more
                std::set<std::string> pts;
                for (auto& [f, rows] : r->files)
                    for (auto& x : rows) pts.insert(x.pt);
                if (W->pkeys.empty() || (r->files.size() && Pick("whole", 4) == 1)) {
                    pts.clear();
                } else if (pts.empty() || Pick("more", 3) == 1) {
                    pts.insert(PTS[Pick("pt", 3)]);
                }
                for (auto& p : pts) r->parts.push_back({{"pt", p}});
            }
            if (!r->overwrite && !W->pk && i + 1 < commits && Pick("later", 5) == 1) continue;  // commit together with the next
            if (r->overwrite && pending.size() > 1) {
                // first what is still open
                pending.pop_back();
                Finish(false);
                Atomic a;
                pending = {r};
            }
            Finish(true);
        }
        Finish(false);
        c->doing = "";
        w.reset();
        c->exec.reset();
    }
};

// Reads published snapshots with the real read path and compares.
void VerifyReads(int how_many) {
    Client* g = NewClient("verifier");
    g->budget = nullptr;
    std::vector<int64_t> ids;
    for (auto& [id, s] : W->snaps)
        if (!s.gone) ids.push_back(id);
    while ((int)ids.size() > how_many) ids.erase(ids.begin() + Pick("skipread", ids.size() - 1));
    for (int64_t id : ids) {
        ReadOut o = ReadSnapshot(g, id);
        Atomic a;
        DST_CHECK(At({"C03", "C01", "C04"}), "snapshot-unreadable", o.st.ok(), "snapshot %lld cannot be read: %s", (long long)id, o.st.ToString().c_str());
        std::string d = Diff(o.rows, ExpectRows(W->snaps[id]));
        DST_CHECK(At({"C03", "C01", "C04"}), "wrong-rows", d.empty(), "snapshot %lld reads as %s", (long long)id, d.c_str());
        dst::Count("snapshots-read");
    }
    g->exec.reset();
}
void CheckLeftovers() {
    Atomic a;
    for (auto& [p, n] : S->nodes) {
        if (n.dir) continue;
        Cls k = ClassOf(p);
        if (k == MANIFEST) DST_CHECK("C05", "manifest-left-behind", W->ever_refs.count(p), "%s is left behind and no snapshot refers to it", p.c_str());
        if (k == SNAP) DST_CHECK("C05", "snapshot-temp-left-behind", SnapId(p) >= 0, "%s is left behind", p.c_str());
    }
}
void TableOptions() {
    auto& o = W->topts;
    o["file-system"] = "simfs";
    o["sim.client"] = "0";
    o["bucket"] = "-1";
    const char* formats[] = {"orc", "parquet", "avro"};
    if (Pick("mformat", 4) == 1) o["manifest.format"] = formats[Pick("mf", 3)];
    if (Pick("fformat", 4) == 1) o["file.format"] = formats[Pick("ff", 2)];
    if (W->pk) {
        o["bucket"] = std::to_string(W->buckets);
        const char* buf[] = {"256 mb", "64 b", "200 b"};
        o["write-buffer-size"] = buf[Pick("wbuf", 3)];
        if (Pick("wbatch", 2)) o["write.batch-size"] = std::to_string(1 + Pick("wb", 4));
        if (Pick("rbatch", 2)) o["read.batch-size"] = std::to_string(1 + Pick("rb", 4));
        const char* sorts[] = {"loser-tree", "min-heap"};
        o["sort-engine"] = sorts[Pick("sort", 2)];
        if (W->engine != "deduplicate") o["merge-engine"] = W->engine;
        if (!W->agg.empty()) o["fields.v.aggregate-function"] = W->agg;
        if (W->seq_field) o["sequence.field"] = "v";
    }
    if (Pick("split", 3) == 1) o["source.split.target-size"] = "100 b", o["source.split.open-file-cost"] = "1 b";
    const char* mins[] = {"30", "2", "3"};
    o["manifest.merge-min-count"] = mins[Pick("mergemin", 3)];
    const char* sizes[] = {"8 mb", "100 b", "300 b"};
    o["manifest.target-file-size"] = sizes[Pick("mtarget", 3)];
    if (Pick("fullc", 3) == 1) o["manifest.full-compaction-threshold-size"] = "200 b";
    if (Pick("tsize", 3) == 1) o["target-file-size"] = "60 b";
    if (Pick("retries", 4) == 1) o["commit.max-retries"] = std::to_string(Pick("nretries", 3));
    if (W->tracking) o["row-tracking.enabled"] = "true";
    if (W->evolve) {
        o["data-evolution.enabled"] = "true";
        o.erase("target-file-size");  // a file that rewrites columns covers all rows of its range
        if (Pick("rbatch", 2)) o["read.batch-size"] = std::to_string(1 + Pick("rb", 4));
    }
}

// Damages hint files the way lost, late, torn or foreign writes do.
void DamageHint() {
    Atomic a;
    bool latest = Pick("which", 2) == 0;
    std::string path = TABLE + "/snapshot/" + (latest ? "LATEST" : "EARLIEST");
    int64_t lo = W->latest;
    for (auto& [id, s] : W->snaps)
        if (S->nodes.count(TABLE + "/snapshot/snapshot-" + std::to_string(id))) lo = std::min(lo, id);
    if (W->latest == 0) return;
    auto it = S->nodes.find(path);
    std::string v;
    switch (Pick("damage", 6)) {
        case 0:
            if (it != S->nodes.end()) S->nodes.erase(it);
            dst::Fault("hint-missing");
            dst::Log("hint %s removed", path.c_str());
            return;
        case 1:  // late write of an old value
            if (latest) {
                v = std::to_string(1 + Pick("old", W->latest));
            } else {
                v = std::to_string(1 + Pick("old", lo));
            }
            dst::Fault("hint-stale");
            break;
        case 2:
            if (it == S->nodes.end() || it->second.data.empty()) return;
            v = it->second.data.substr(0, Pick("cut", it->second.data.size()));
            // an earliest hint cut to the number of a living snapshot cannot be told from a right one
            if (!latest && !v.empty() && atoll(v.c_str()) > lo) return;
            dst::Fault("hint-truncated");
            break;
        case 3: v = std::vector<std::string>{"garbage", "\n", "-3", "0", "99999999999999999999999", "3x"}[Pick("garbage", 6)]; dst::Fault("hint-garbled"); break;
        case 4: v = std::to_string(W->latest + (latest ? 1 : 1000) + Pick("beyond", 3)); dst::Fault("hint-beyond-latest"); break;
        default: v = ""; dst::Fault("hint-empty"); break;
    }
    Node n;
    n.data = v;
    n.mtime = StoreMs();
    n.gen = ++S->gens;
    S->nodes[path] = n;
    dst::Log("hint %s := '%s'", path.c_str(), v.c_str());
}
// Latest and earliest as the table's own code finds them.
void CheckHints(Client* c, bool exact) {
    SnapshotManager m(std::make_shared<SimFS>(c), TABLE);
    int64_t before = W->latest;
    auto l = m.LatestSnapshotId();
    auto ls = m.LatestSnapshot();
    auto e = m.EarliestSnapshotId();
    if (c->faults) return;
    Atomic a;
    int64_t after = W->latest;
    DST_CHECK("C08", "latest-fails", l.ok(), "finding the latest snapshot fails: %s", l.status().ToString().c_str());
    DST_CHECK("C08", "earliest-fails", e.ok(), "finding the earliest snapshot fails: %s", e.status().ToString().c_str());
    int64_t got = l.value().value_or(0);
    DST_CHECK("C08", "wrong-latest", got >= before && got <= after, "the latest snapshot is found to be %lld, it is %lld", (long long)got, (long long)before);
    if (!W->expiring || exact) DST_CHECK("C08", "latest-unreadable", ls.ok(), "reading the latest snapshot fails: %s", ls.status().ToString().c_str());
    if (ls.ok()) DST_CHECK("C08", "wrong-latest", before == 0 || ls.value().has_value(), "a latest snapshot is not found, it is %lld", (long long)before);
    if (!exact) return;
    int64_t lo = 0;
    for (auto& [id, s] : W->snaps)
        if (!lo && S->nodes.count(TABLE + "/snapshot/snapshot-" + std::to_string(id))) lo = id;
    DST_CHECK("C08", "wrong-earliest", e.value().value_or(0) == lo, "the earliest snapshot is found to be %lld, it is %lld", (long long)e.value().value_or(0), (long long)lo);
    dst::Count("hint-lookups-checked");
}
int64_t EarliestFile() {
    for (auto& [id, s] : W->snaps)
        if (S->nodes.count(TABLE + "/snapshot/snapshot-" + std::to_string(id))) return id;
    return 0;
}
// Expires until done or tired. Faults may interrupt it.
bool ExpireOnce(Client* c, int* n = nullptr) {
    c->doing = "expire";
    Status st;
    auto fc = MakeCommit(c, "expirer", {}, &st);
    if (!fc) return false;
    W->expire_from[c->id] = EarliestFile();
    int f0 = c->faults;
    auto r = fc->Expire();
    dst::Log("expire -> %s", r.ok() ? std::to_string(r.value()).c_str() : r.status().ToString().c_str());
    dst::Count(r.ok() ? "expirations" : "failed-expirations");
    Atomic a;
    W->expire_from.erase(c->id);
    if (c->crashed) return false;
    if (r.ok() && n) *n = r.value();
    if (!r.ok() && c->faults == f0 && !W->busy) dst::Violate("C06", "expire-fails", "expiring fails although nothing went wrong: %s", r.status().ToString().c_str());
    return r.ok();
}
void ExpireOptions() {
    W->expiring = true;
    W->retain_min = 1 + Pick("rmin", 3);
    W->retain_max = Pick("rmax", 2) ? W->retain_min + Pick("rmaxd", 3) : 1 << 30;
    W->limit = Pick("limit", 3) ? 10 : 1 + Pick("limitn", 2);
    W->retain_ms = std::vector<int64_t>{1, 50, 3600000}[Pick("age", 3)];
    auto& o = W->topts;
    o["snapshot.num-retained.min"] = std::to_string(W->retain_min);
    if (W->retain_max != 1 << 30) o["snapshot.num-retained.max"] = std::to_string(W->retain_max);
    o["snapshot.expire.limit"] = std::to_string(W->limit);
    o["snapshot.time-retained"] = std::to_string(W->retain_ms) + " ms";
    if (Pick("emptydirs", 2)) o["snapshot.clean-empty-directories"] = "true";
}

void PkWorld(bool engines) {
    W->pk = W->bucketed = true;
    W->buckets = 1 + Pick("buckets", 2);
    if (!engines) return;
    const char* es[] = {"deduplicate", "deduplicate", "partial-update", "aggregation", "aggregation"};
    W->engine = es[Pick("engine", 5)];
    const char* aggs[] = {"sum", "max", "min", "last_non_null_value"};
    if (W->engine == "aggregation") W->agg = aggs[Pick("agg", 4)];
    if (W->engine == "deduplicate" && Pick("seqfield", 3) == 1) W->seq_field = true;
}
std::vector<std::string> PkColumns() {
    if (!W->pk) return {};
    return W->pkeys.empty() ? std::vector<std::string>{"id"} : std::vector<std::string>{"pt", "id"};
}
int Faults() {
    int f = 0;
    for (auto* c : S->clients) f += c->faults;
    return f;
}
void RunCommits() {
    NewWorld();
    if (Pick("partitioned", 3)) W->pkeys = {"pt"};
    W->tracking = P() == "C10" || Pick("tracking", 8) == 1;
    God();
    TableOptions();
    bool expire = P() == "C06" || (P() == "C08" && Pick("expire", 2));
    if (expire) ExpireOptions();
    dst::SetPreempt(0, 0);
    Status st = CreateTable(God(), {});
    if (!st.ok()) dst::HarnessError("create table: %s", st.ToString().c_str());
    dst::SwarmPreempt(false);
    DrawFaults(Is({"C02", "C03", "C05", "C06"}) ? 6 : 4, true);
    if (P() == "C08" && Pick("hintonly", 2)) F.classes = HINT;
    bool spare = P() == "C06" && Pick("spare", 3);
    if (spare) {
        if (Pick("deletes", 2)) F.ops = DELETE, F.classes = ALL;
        if (F.err > 0 || F.crash > 0) F.err = std::max(F.err, 0.05);
    }
    bool gremlin = P() == "C08" && Pick("gremlin", 3);
    int n = 1 + Pick("users", 3);
    std::vector<std::unique_ptr<Committer>> cs;
    std::vector<int> counts;
    for (int i = 0; i < n; i++) {
        cs.push_back(std::make_unique<Committer>());
        cs[i]->user = "u" + std::to_string(i);
        cs[i]->overwrites = P() == "C04" || (Is({"C01", "C03", "C05", "C06", "C11"}) && Pick("overs", 3) == 1);
        cs[i]->watermarks = P() == "C11";
        cs[i]->spared = spare;
        counts.push_back(1 + Pick("commits", expire ? 6 : 4));
    }
    std::vector<std::thread> ts;
    W->busy = n;
    for (int i = 0; i < n; i++) ts.emplace_back([&, i] {
        cs[i]->Run(counts[i]);
        W->busy--;
    });
    if (P() == "C11" && Pick("skew", 2)) {
        dst::Yield("skew");
        dst::SkewUs((int64_t)dst::PickRange("skewms", -3600000, 3600000) * 1000);
        dst::Fault("clock-jump");
    }
    if (gremlin)
        ts.emplace_back([&] {
            for (int k = 0; k < 8 && W->busy; k++) {
                int seen = W->published;
                dst::WaitUntil("gremlin", [&] { return W->published > seen || !W->busy; });
                for (int y = Pick("wait", 30); y > 0; y--) dst::Yield("gremlin");
                DamageHint();
            }
        });
    if (P() == "C08" && Pick("looker", 2))
        ts.emplace_back([&] {
            Client* c = Start("looker");
            for (int k = 0; k < 4; k++) {
                for (int y = Pick("wait", 60); y > 0; y--) dst::Yield("look");
                CheckHints(c, false);
            }
        });
    if (expire)
        ts.emplace_back([&] {
            Client* c = Start("expirer");
            for (int k = 0; k < 6 && W->busy; k++) {
                int seen = W->published;
                dst::WaitUntil("expirer", [&] { return W->published > seen || !W->busy; });
                if (!W->busy && Pick("again", 2)) break;
                bool ok = ExpireOnce(c);
                if (c->crashed || (!ok && Pick("restart", 2))) {
                    c->exec.reset();
                    c = Start("expirer'" + std::to_string(k));
                }
            }
            c->exec.reset();
        });
    for (auto& t : ts) t.join();
    int faults = Faults();
    // a commit that loses at the very rename is in doubt and keeps its files
    if (!faults && !S->renames_lost && !expire) CheckLeftovers();
    W->budget = 0;
    Client* g = NewClient("admin");
    if (P() == "C08") {
        for (int k = 0; k < 3; k++) {
            CheckHints(g, true);
            if (gremlin) DamageHint();
        }
        CheckHints(g, true);
    }
    if (expire) {
        // without further trouble it finishes
        if (Pick("later", 2)) dst::AdvanceUs(3700ll * 1000000);
        int64_t asked = 0;
        for (int k = 0; k < 40; k++) {
            int removed = 0;
            asked = dst::NowUs();
            int64_t from = EarliestFile();
            if (!ExpireOnce(g, &removed)) dst::HarnessError("expire failed");
            DST_CHECK("C06", "count-wrong", removed == EarliestFile() - from, "expiring reports %d snapshots removed, %lld are gone", removed, (long long)(EarliestFile() - from));
            if (!removed) break;
        }
        Atomic a;
        std::set<std::string> needed;
        for (auto& [id, s] : W->snaps) {
            bool file = S->nodes.count(TABLE + "/snapshot/snapshot-" + std::to_string(id));
            DST_CHECK("C06", "half-expired", file == !s.gone, "snapshot %lld is %s after expiring again without trouble", (long long)id, file ? "still there although it began to be removed" : "gone");
            W->expire_from[g->id] = EarliestFile();
            bool all = true;
            for (auto& [o, t] : W->snaps) all = all && (o > id || t.gone || MayExpire(g, t, asked));
            if (file) DST_CHECK("C06", "not-expired", !all || W->limit == 0, "snapshot %lld is kept although the limits allow to remove it", (long long)id);
            if (!s.gone) needed.insert(s.refs.begin(), s.refs.end());
        }
        if (!faults)
            for (auto& [id, s] : W->snaps)
                for (auto& p : s.refs) DST_CHECK("C06", "file-left-behind", !s.gone || needed.count(p) || !S->nodes.count(p), "%s, used only by removed snapshots, is left behind", p.c_str());
    }
    VerifyReads(P() == "C03" || expire ? 4 : 1);
    g->exec.reset();
    if (W->published > 1) dst::NonTrivial();
}
#include "scenes.h"
}  // namespace

void DstInit() {
    auto* f = FactoryCreator::GetInstance();
    f->Register("orc", new SimFormatFactory<0>());
    f->Register("parquet", new SimFormatFactory<1>());
    f->Register("avro", new SimFormatFactory<2>());
    f->Register("simfs", new SimFsFactory());
    // registers itself once it is linked
    if (!BitmapGlobalIndexFactory().Create({}).ok()) dst::HarnessError("bitmap index");
}
void DstRun() {
    dst::SetStepBudget(2000000);
    std::string p = P();
    if (p == "C07") return RunClean();
    if (p == "C09") return RunCreate();
    if (p == "C12") return RunWriter();
    if (p == "C13") return RunKeys();
    if (p == "C14") return RunFaultyReads();
    if (p == "C17") return RunStream();
    if (p == "C18") return RunIsolation();
    if (p == "C42") return RunFilters();
    if (p == "C43" || p == "C44") return RunEvolution();
    RunCommits();
}
const char* DstRule() {
    return "random table options, committers, row batches, overwrites, crashes, storage errors with and without effect, short transfers and stalls; every file system call and synchronisation point is a scheduling point. Non-trivial: at least two snapshots were published";
}
