// Multi-threaded read pipelines: C15 (prefetching reader) and C16 (parallel merge pipeline).
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/abi.h"
#include "arrow/c/bridge.h"
#include "arrow/c/helpers.h"
#include "dst.h"
#include "paimon/common/data/generic_row.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/reader/prefetch_file_batch_reader_impl.h"
#include "paimon/common/types/data_field.h"
#include "paimon/common/types/row_kind.h"
#include "paimon/core/io/async_key_value_producer_and_consumer.h"
#include "paimon/core/io/key_value_meta_projection_consumer.h"
#include "paimon/core/io/key_value_projection_consumer.h"
#include "paimon/core/io/key_value_record_reader.h"
#include "paimon/core/mergetree/compact/deduplicate_merge_function.h"
#include "paimon/core/mergetree/compact/reducer_merge_function_wrapper.h"
#include "paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h"
#include "paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h"
#include "paimon/core/utils/fields_comparator.h"
#include "paimon/executor.h"
#include "paimon/format/reader_builder.h"
#include "paimon/fs/file_system.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/reader/batch_reader.h"

using namespace paimon;  // NOLINT
using dst::Atomic;
using dst::Chance;
using dst::Pick;

namespace {
// ---------------------------------------------------------------- batches under observation
int g_live = 0;     // batches handed out by the sources and not released
int g_made = 0;
struct Tracked {
    ArrowArray inner;
};
void ReleaseTracked(ArrowArray* a) {
    Atomic at;
    auto* t = static_cast<Tracked*>(a->private_data);
    if (t->inner.release) t->inner.release(&t->inner);
    delete t;
    a->release = nullptr;
    g_live--;
}
// Wraps the array so that its release is seen.
void Track(ArrowArray* a) {
    Atomic at;
    auto* t = new Tracked{*a};
    a->private_data = t;
    a->release = ReleaseTracked;
    g_live++;
    g_made++;
}
void ReleaseBatch(BatchReader::ReadBatch&& b) {
    if (b.first && b.first->release) b.first->release(b.first.get());
    if (b.second && b.second->release) b.second->release(b.second.get());
}

// ================================================================ C15
struct FileModel {
    int rows = 0;
    std::vector<std::pair<uint64_t, uint64_t>> groups;  // the format's own row groups
    std::vector<bool> skipped;                          // groups the pushed-down predicate removes
    std::set<int> deleted;                              // rows the reader itself marks invalid
    int batch = 1;
    bool cross = false;         // batches may span groups
    bool honour_ranges = false; // SetReadRanges restricts the reader
    bool honour_selection = false;
    bool need_prefetch = true;
    double p_open = 0, p_build = 0, p_seek = 0, p_read = 0, p_ranges = 0;
    int budget = 0;
    int failures = 0;
    bool Fail(const char* kind, double p) {
        if (budget <= 0 || p <= 0 || !Chance(kind, p)) return false;
        budget--;
        failures++;
        dst::Fault(kind);
        return true;
    }
};
FileModel* F;

class SimReader : public PrefetchFileBatchReader {
 public:
    SimReader() = default;
    ~SimReader() override {
        Enter("destructor");
        Leave();
    }
    void Enter(const char* what) const {
        {
            Atomic a;
            DST_CHECK("C15", "reader-used-concurrently", !busy_, "%s called on a format reader while %s is running on it", what, busy_);
            busy_ = what;
        }
        dst::Yield("reader");
    }
    void Leave() const {
        Atomic a;
        busy_ = nullptr;
    }
    struct Guard {
        const SimReader* r;
        Guard(const SimReader* x, const char* w) : r(x) { r->Enter(w); }
        ~Guard() { r->Leave(); }
    };
    Result<std::unique_ptr<::ArrowSchema>> GetFileSchema() const override {
        auto s = std::make_unique<::ArrowSchema>();
        auto st = arrow::ExportType(*arrow::struct_({arrow::field("v", arrow::int64())}), s.get());
        if (!st.ok()) dst::HarnessError("export type");
        return s;
    }
    Status SetReadSchema(::ArrowSchema* s, const std::shared_ptr<Predicate>&, const std::optional<RoaringBitmap32>& sel) override {
        Guard g(this, "SetReadSchema");
        if (s->release) s->release(s);
        if (F->Fail("schema-error", F->p_ranges)) return Status::IOError("injected: schema");
        sel_ = sel;
        pos_ = 0;
        failed_ = Status::OK();
        ranges_.reset();
        prev_ = std::numeric_limits<uint64_t>::max();
        return Status::OK();
    }
    Result<std::vector<std::pair<uint64_t, uint64_t>>> GenReadRanges(bool* need) const override {
        Guard g(this, "GenReadRanges");
        *need = F->need_prefetch;
        if (F->Fail("ranges-error", F->p_ranges)) return Status::IOError("injected: ranges");
        std::vector<std::pair<uint64_t, uint64_t>> out;
        for (size_t i = 0; i < F->groups.size(); i++)
            if (!F->skipped[i]) out.push_back(F->groups[i]);
        return out;
    }
    Status SetReadRanges(const std::vector<std::pair<uint64_t, uint64_t>>& r) override {
        Guard g(this, "SetReadRanges");
        if (F->Fail("ranges-error", F->p_ranges)) return Status::IOError("injected: ranges");
        if (F->honour_ranges) ranges_ = r;
        return Status::OK();
    }
    Status SeekToRow(uint64_t row) override {
        Guard g(this, "SeekToRow");
        if (F->Fail("seek-error", F->p_seek)) return failed_ = Status::IOError("injected: seek");
        pos_ = row;
        return Status::OK();
    }
    uint64_t GetNextRowToRead() const override { return pos_; }
    uint64_t GetPreviousBatchFirstRowNumber() const override { return prev_; }
    uint64_t GetNumberOfRows() const override { return F->rows; }
    bool SupportPreciseBitmapSelection() const override { return F->honour_selection; }
    std::shared_ptr<Metrics> GetReaderMetrics() const override { return std::make_shared<MetricsImpl>(); }
    void Close() override {
        Guard g(this, "Close");
        closed_ = true;
    }
    Result<ReadBatch> NextBatch() override { return Status::NotImplemented(""); }
    bool Readable(uint64_t row) const {
        for (size_t i = 0; i < F->groups.size(); i++)
            if (row >= F->groups[i].first && row < F->groups[i].second && F->skipped[i]) return false;
        if (ranges_) {
            bool in = false;
            for (auto& r : *ranges_) in |= row >= r.first && row < r.second;
            if (!in) return false;
        }
        return true;
    }
    Result<ReadBatchWithBitmap> NextBatchWithBitmap() override {
        Guard g(this, "NextBatchWithBitmap");
        DST_CHECK("C15", "read-after-close", !closed_, "a format reader is read after it was closed");
        if (!failed_.ok()) return failed_;
        if (F->Fail("read-error", F->p_read)) return failed_ = Status::IOError("injected: read");
        while (true) {
            while (pos_ < static_cast<uint64_t>(F->rows) && !Readable(pos_)) pos_++;
            if (pos_ >= static_cast<uint64_t>(F->rows)) {
                prev_ = F->rows;
                pos_ = F->rows;
                return BatchReader::MakeEofBatchWithBitmap();
            }
            uint64_t end = pos_ + 1 + Pick("batchrows", F->batch);
            uint64_t stop = pos_ + 1;
            while (stop < end && stop < static_cast<uint64_t>(F->rows) && Readable(stop)) {
                if (!F->cross) {
                    bool boundary = false;
                    for (auto& gr : F->groups) boundary |= gr.first == stop;
                    if (boundary) break;
                }
                stop++;
            }
            RoaringBitmap32 bm;
            for (uint64_t r = pos_; r < stop; r++) {
                if (F->deleted.count(r)) continue;
                if (F->honour_selection && sel_ && !sel_->Contains(r)) continue;
                bm.Add(r - pos_);
            }
            uint64_t first = pos_;
            pos_ = stop;
            prev_ = first;
            if (bm.IsEmpty()) continue;
            arrow::Int64Builder b;
            for (uint64_t r = first; r < stop; r++) (void)b.Append(static_cast<int64_t>(r) * 7 + 3);
            std::shared_ptr<arrow::Array> col;
            if (!b.Finish(&col).ok()) dst::HarnessError("finish");
            auto sa = arrow::StructArray::Make({col}, {arrow::field("v", arrow::int64())});
            auto arr = std::make_unique<ArrowArray>();
            auto sch = std::make_unique<ArrowSchema>();
            if (!arrow::ExportArray(*sa.ValueOrDie(), arr.get(), sch.get()).ok()) dst::HarnessError("export");
            Track(arr.get());
            dst::Log("reader gives rows [%llu,%llu)", (unsigned long long)first, (unsigned long long)stop);
            return std::make_pair(std::make_pair(std::move(arr), std::move(sch)), std::move(bm));
        }
    }

 private:
    mutable const char* busy_ = nullptr;
    uint64_t pos_ = 0;
    uint64_t prev_ = std::numeric_limits<uint64_t>::max();
    bool closed_ = false;
    Status failed_;
    std::optional<RoaringBitmap32> sel_;
    std::optional<std::vector<std::pair<uint64_t, uint64_t>>> ranges_;
};
struct NullStream : InputStream {
    Status Seek(int64_t, SeekOrigin) override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return 0; }
    Result<int32_t> Read(char*, uint32_t) override { return 0; }
    Result<int32_t> Read(char*, uint32_t, uint64_t) override { return 0; }
    void ReadAsync(char*, uint32_t, uint64_t, std::function<void(Status)>&& cb) override { cb(Status::OK()); }
    Result<uint64_t> Length() const override { return 0; }
    Status Close() override { return Status::OK(); }
    Result<std::string> GetUri() const override { return std::string("sim"); }
};
struct OpenFs : FileSystem {
    Result<std::unique_ptr<InputStream>> Open(const std::string&) const override {
        dst::Yield("open");
        if (F->Fail("open-error", F->p_open)) return Status::IOError("injected: open");
        return std::unique_ptr<InputStream>(new NullStream());
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string&, bool) const override { return Status::NotImplemented(""); }
    Status Mkdirs(const std::string&) const override { return Status::OK(); }
    Status Rename(const std::string&, const std::string&) const override { return Status::OK(); }
    Status Delete(const std::string&, bool) const override { return Status::OK(); }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string&) const override { return Status::NotExist(""); }
    Status ListDir(const std::string&, std::vector<std::unique_ptr<BasicFileStatus>>*) const override { return Status::OK(); }
    Status ListFileStatus(const std::string&, std::vector<std::unique_ptr<FileStatus>>*) const override { return Status::OK(); }
    Result<bool> Exists(const std::string&) const override { return true; }
};
struct SimBuilder : ReaderBuilder {
    ReaderBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>&) override { return this; }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::shared_ptr<InputStream>&) const override {
        dst::Yield("build");
        if (F->Fail("open-error", F->p_build)) return Status::IOError("injected: build");
        return std::unique_ptr<FileBatchReader>(new SimReader());
    }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::string&) const override { return Status::NotImplemented(""); }
};

// Reads on until `limit` batches, end of file or an error. Returns false when nothing more will come.
struct Reading {
    std::optional<RoaringBitmap32> sel;
    std::vector<int> allowed;       // rows that may be delivered
    std::set<int> required;         // rows that must be delivered before end-of-file
    int64_t last = -1;
    bool eof = false, error = false;
    std::set<int> got;
    Reading(const std::optional<RoaringBitmap32>& s) : sel(s) {
        for (size_t i = 0; i < F->groups.size(); i++) {
            if (F->skipped[i]) continue;
            for (uint64_t r = F->groups[i].first; r < F->groups[i].second; r++) {
                if (F->deleted.count(r)) continue;
                if (F->honour_selection && sel && !sel->Contains(r)) continue;
                allowed.push_back(r);
                if (!sel || sel->Contains(r)) required.insert(r);
            }
        }
    }
};
void ReadOn(FileBatchReader* rd, Reading* st, int limit, int f0) {
    for (int i = 0; i < limit && !st->eof && !st->error; i++) {
        auto r = rd->NextBatchWithBitmap();
        if (!r.ok()) {
            DST_CHECK("C15", "error-without-cause", F->failures > f0, "reading failed though nothing failed: %s", r.status().ToString().c_str());
            DST_CHECK("C15", "error-replaced", r.status().ToString().find("injected") != std::string::npos, "the reported error is not the one that happened: %s", r.status().ToString().c_str());
            dst::Log("read error reported");
            st->error = true;
            // documented: the same error again
            auto again = rd->NextBatchWithBitmap();
            DST_CHECK("C15", "error-forgotten", !again.ok(), "after a reported error the next call returned data");
            return;
        }
        auto [batch, bm] = std::move(r).value();
        if (!batch.first) {
            st->eof = true;
            dst::Log("end of file after %d rows", (int)st->got.size());
            for (int row : st->required) DST_CHECK("C15", "row-lost", st->got.count(row), "row %d of %d was never delivered", row, F->rows);
            auto again = rd->NextBatchWithBitmap();
            DST_CHECK("C15", "data-after-eof", again.ok() ? !again.value().first.first : F->failures > f0, "the call after end-of-file %s", again.ok() ? "returned data" : again.status().ToString().c_str());
            return;
        }
        uint64_t first = rd->GetPreviousBatchFirstRowNumber();
        int64_t n = batch.first->length;
        DST_CHECK("C15", "empty-batch", n > 0 && !bm.IsEmpty(), "a batch without any valid row was returned");
        auto imp = arrow::ImportArray(batch.first.get(), batch.second.get());
        if (!imp.ok()) dst::HarnessError("import: %s", imp.status().ToString().c_str());
        auto sa = std::static_pointer_cast<arrow::StructArray>(imp.ValueOrDie());
        auto col = std::static_pointer_cast<arrow::Int64Array>(sa->field(0));
        for (auto it = bm.Begin(); it != bm.End(); ++it) {
            int64_t i2 = *it;
            DST_CHECK("C15", "bitmap-outside-batch", i2 < n, "valid row %lld in a batch of %lld rows", (long long)i2, (long long)n);
            int64_t row = static_cast<int64_t>(first) + i2;
            DST_CHECK("C15", "wrong-position", col->Value(i2) == row * 7 + 3, "batch said to start at row %llu holds row %lld at index %lld", (unsigned long long)first, (long long)((col->Value(i2) - 3) / 7), (long long)i2);
            DST_CHECK("C15", "row-order", row > st->last, "row %lld after row %lld", (long long)row, (long long)st->last);
            DST_CHECK("C15", "row-not-wanted", std::binary_search(st->allowed.begin(), st->allowed.end(), (int)row), "row %lld was filtered out but delivered", (long long)row);
            // nothing skipped
            for (auto q = st->required.upper_bound((int)st->last); q != st->required.end() && *q < row; ++q)
                dst::Violate("C15", "row-lost", "row %d was skipped: row %lld follows row %lld", *q, (long long)row, (long long)st->last);
            st->last = row;
            st->got.insert((int)row);
        }
        dst::Log("batch at %llu with %lld rows", (unsigned long long)first, (long long)n);
        dst::Count("rows", n);
    }
}
std::optional<RoaringBitmap32> MakeSelection() {
    if (Pick("selected", 2) == 0) return std::nullopt;
    RoaringBitmap32 b;
    int style = Pick("selstyle", 3);
    for (int r = 0; r < F->rows; r++)
        if (style == 0 ? Pick("selrow", 2) : style == 1 ? Chance("selrow", 0.06) : r >= F->rows / 3 && r < F->rows / 2) b.Add(r);
    return b;
}
std::unique_ptr<::ArrowSchema> ReadSchema() {
    auto s = std::make_unique<::ArrowSchema>();
    if (!arrow::ExportSchema(*arrow::schema({arrow::field("v", arrow::int64())}), s.get()).ok()) dst::HarnessError("schema");
    return s;
}
void RunC15() {
    F = new FileModel();
    dst::SwarmPreempt(true);
    dst::SetStepBudget(400000);
    F->rows = Pick("rows", 40);
    int glen = 1 + Pick("group", 12);
    for (int r = 0; r < F->rows;) {
        int n = Pick("ragged", 2) ? 1 + Pick("glen", glen) : glen;
        n = std::min(n, F->rows - r);
        F->groups.push_back({r, r + n});
        F->skipped.push_back(Chance("skip", 0.15));
        r += n;
    }
    if (Pick("dv", 3) == 0)
        for (int r = 0; r < F->rows; r++)
            if (Chance("del", 0.3)) F->deleted.insert(r);
    F->batch = 1 + Pick("batch", 8);
    F->cross = Pick("cross", 2);
    F->honour_ranges = Pick("honour", 2);
    F->honour_selection = Pick("precise", 2);
    F->need_prefetch = !Chance("noprefetch", 0.15);
    if (Pick("faults", 2)) {
        F->budget = 1 + Pick("budget", 2);
        double p = std::vector<double>{0.02, 0.1, 0.3}[Pick("rate", 3)];
        (Pick("where", 4) == 0 ? F->p_open : F->p_read) = p;
        if (Pick("seekf", 3) == 0) F->p_seek = p;
        if (Pick("rangef", 3) == 0) F->p_ranges = p;
        if (Pick("buildf", 5) == 0) F->p_build = p;
    }
    uint32_t par = 1 + Pick("parallel", 4);
    int threads = 1 + Pick("threads", 4);
    uint32_t cap = 1 + Pick("queue", 6);
    bool adaptive = Pick("adaptive", 2);
    auto executor = std::shared_ptr<Executor>(CreateDefaultExecutor(threads));
    auto fs = std::make_shared<OpenFs>();
    SimBuilder builder;
    bool init = Pick("init", 2);
    dst::Log("rows %d groups %d parallel %u threads %d queue %u batch %d", F->rows, (int)F->groups.size(), par, threads, cap, F->batch);
    {
        auto r = PrefetchFileBatchReaderImpl::Create("/f", &builder, fs, par, F->batch, cap, adaptive, executor, init);
        if (!r.ok()) {
            DST_CHECK("C15", "error-without-cause", F->failures > 0, "creating the reader failed though nothing failed: %s", r.status().ToString().c_str());
            dst::NonTrivial();
            return;
        }
        auto rd = std::move(r).value();
        std::optional<RoaringBitmap32> sel;
        int rounds = 1 + dst::Choose("rounds", 3, 0.4);
        bool usable = init;
        for (int round = 0; round < rounds; round++) {
            int f0 = F->failures;
            if (round > 0 || !init || Pick("schema", 2)) {
                sel = MakeSelection();
                auto s = ReadSchema();
                Status st = rd->SetReadSchema(s.get(), nullptr, sel);
                if (!st.ok()) {
                    DST_CHECK("C15", "error-without-cause", F->failures > 0, "SetReadSchema failed though nothing failed: %s", st.ToString().c_str());
                    usable = false;
                    break;
                }
                usable = true;
            }
            if (!usable) break;
            Reading reading(sel);
            if (!rd->NeedPrefetch() && Pick("fallback", 2)) {
                // the caller reads the first reader directly instead
                break;
            }
            int limit = Pick("stopearly", 2) ? (int)Pick("limit", 8) : 1000;
            ReadOn(rd.get(), &reading, limit, f0);
            if (reading.eof || reading.got.size() > 1) dst::NonTrivial();
        }
        switch (Pick("end", 3)) {
            case 0: rd->Close(); break;
            case 1: rd->Close(); rd->Close(); break;
            default: break;
        }
        rd.reset();
    }
    executor.reset();
    Atomic a;
    DST_CHECK("C15", "batch-leaked", g_live == 0, "%d of %d batches were neither delivered nor released", g_live, g_made);
}

// ================================================================ C16
int g_rows_live = 0;
struct CountedRow : GenericRow {
    explicit CountedRow(int n) : GenericRow(n) {
        Atomic a;
        g_rows_live++;
    }
    ~CountedRow() override {
        Atomic a;
        g_rows_live--;
    }
};
struct Rec {
    int64_t key, seq, val;
    bool del;
};
struct PipeModel {
    std::vector<std::vector<Rec>> runs;
    double p_src = 0, p_conv = 0, p_create = 0;
    int budget = 0, failures = 0;
    int converters = 0;
    bool Fail(const char* kind, double p) {
        if (budget <= 0 || p <= 0 || !Chance(kind, p)) return false;
        budget--;
        failures++;
        dst::Fault(kind);
        return true;
    }
};
PipeModel* P;
KeyValue MakeKv(const Rec& r) {
    auto key = std::make_shared<CountedRow>(1);
    key->SetField(0, r.key);
    auto val = std::make_unique<CountedRow>(2);
    val->SetField(0, r.key);
    val->SetField(1, r.val);
    const RowKind* kind = r.del ? RowKind::Delete() : RowKind::Insert();
    return KeyValue(kind, r.seq, 0, std::move(key), std::move(val));
}
struct RunReader : KeyValueRecordReader {
    const std::vector<Rec>* recs;
    size_t pos = 0;
    struct It : KeyValueRecordReader::Iterator {
        const std::vector<Rec>* recs;
        size_t pos, end;
        bool HasNext() const override { return pos < end; }
        Result<KeyValue> Next() override {
            dst::Yield("record");
            if (P->Fail("source-error", P->p_src)) return Status::IOError("injected: record");
            return MakeKv((*recs)[pos++]);
        }
    };
    Result<std::unique_ptr<KeyValueRecordReader::Iterator>> NextBatch() override {
        dst::Yield("run");
        if (P->Fail("source-error", P->p_src)) return Status::IOError("injected: run");
        if (pos >= recs->size()) return std::unique_ptr<KeyValueRecordReader::Iterator>();
        auto it = std::make_unique<It>();
        it->recs = recs;
        it->pos = pos;
        pos = std::min(recs->size(), pos + 1 + Pick("chunk", 6));
        it->end = pos;
        return std::unique_ptr<KeyValueRecordReader::Iterator>(std::move(it));
    }
    std::shared_ptr<Metrics> GetReaderMetrics() const override { return std::make_shared<MetricsImpl>(); }
    void Close() override {}
};
// A merge reader that simply plays the records of the first run.
struct PlainMerge : SortMergeReader {
    size_t pos = 0;
    struct It : SortMergeReader::Iterator {
        PlainMerge* m;
        size_t end;
        std::optional<KeyValue> kv;
        Result<bool> HasNext() override {
            dst::Yield("merge");
            if (P->Fail("source-error", P->p_src)) return Status::IOError("injected: merge");
            if (m->pos >= end) return false;
            kv = MakeKv(P->runs[0][m->pos++]);
            return true;
        }
        KeyValue&& Next() override { return std::move(*kv); }
    };
    Result<std::unique_ptr<SortMergeReader::Iterator>> NextBatch() override {
        if (P->Fail("source-error", P->p_src)) return Status::IOError("injected: merge");
        if (pos >= P->runs[0].size()) return std::unique_ptr<SortMergeReader::Iterator>();
        auto it = std::make_unique<It>();
        it->m = this;
        it->end = std::min(P->runs[0].size(), pos + 1 + Pick("chunk", 6));
        return std::unique_ptr<SortMergeReader::Iterator>(std::move(it));
    }
    std::shared_ptr<Metrics> GetReaderMetrics() const override { return std::make_shared<MetricsImpl>(); }
    void Close() override {}
};
ArrowArray* ArrayOf(const BatchReader::ReadBatch& b) { return b.first.get(); }
ArrowArray* ArrayOf(const KeyValueBatch& b) { return b.batch.get(); }
template <typename R>
struct Conv : RowToArrowArrayConverter<KeyValue, R> {
    std::unique_ptr<RowToArrowArrayConverter<KeyValue, R>> real;
    explicit Conv(std::unique_ptr<RowToArrowArrayConverter<KeyValue, R>> r)
        : RowToArrowArrayConverter<KeyValue, R>(1, {}, nullptr, nullptr), real(std::move(r)) {}
    Result<R> NextBatch(const std::vector<KeyValue>& rows) override {
        dst::Yield("convert");
        if (P->Fail("convert-error", P->p_conv)) return Status::Invalid("injected: convert");
        auto r = real->NextBatch(rows);
        if (r.ok()) Track(ArrayOf(r.value()));
        return r;
    }
};
struct PipeOut {
    std::vector<Rec> got;
    bool eof = false, error = false;
};
void TakeBatch(BatchReader::ReadBatch&& b, PipeOut* out) {
    auto imp = arrow::ImportArray(b.first.get(), b.second.get());
    if (!imp.ok()) dst::HarnessError("import: %s", imp.status().ToString().c_str());
    auto sa = std::static_pointer_cast<arrow::StructArray>(imp.ValueOrDie());
    auto k = std::static_pointer_cast<arrow::Int64Array>(sa->field(0));
    auto v = std::static_pointer_cast<arrow::Int64Array>(sa->field(1));
    for (int64_t i = 0; i < sa->length(); i++) out->got.push_back({k->Value(i), -1, v->Value(i), false});
}
void TakeBatch(KeyValueBatch&& b, PipeOut* out) {
    auto type = arrow::struct_({arrow::field("_SEQUENCE_NUMBER", arrow::int64()), arrow::field("_VALUE_KIND", arrow::int8()),
                                arrow::field("k", arrow::int64()), arrow::field("v", arrow::int64())});
    auto imp = arrow::ImportArray(b.batch.get(), type);
    if (!imp.ok()) dst::HarnessError("import: %s", imp.status().ToString().c_str());
    auto sa = std::static_pointer_cast<arrow::StructArray>(imp.ValueOrDie());
    auto s = std::static_pointer_cast<arrow::Int64Array>(sa->field(0));
    auto kd = std::static_pointer_cast<arrow::Int8Array>(sa->field(1));
    auto k = std::static_pointer_cast<arrow::Int64Array>(sa->field(2));
    auto v = std::static_pointer_cast<arrow::Int64Array>(sa->field(3));
    int64_t dels = 0, mn = INT64_MAX, mx = INT64_MIN;
    for (int64_t i = 0; i < sa->length(); i++) {
        bool del = kd->Value(i) == RowKind::Delete()->ToByteValue();
        dels += del;
        mn = std::min(mn, s->Value(i)), mx = std::max(mx, s->Value(i));
        out->got.push_back({k->Value(i), s->Value(i), v->Value(i), del});
    }
    if (sa->length() > 0) {
        DST_CHECK("C16", "batch-summary-wrong", b.delete_row_count == dels && b.min_sequence_number == mn && b.max_sequence_number == mx, "batch says %lld deletes, sequence %lld..%lld; its rows have %lld, %lld..%lld",
                  (long long)b.delete_row_count, (long long)b.min_sequence_number, (long long)b.max_sequence_number, (long long)dels, (long long)mn, (long long)mx);
        DST_CHECK("C16", "batch-summary-wrong", b.min_key && b.max_key && b.min_key->GetLong(0) == k->Value(0) && b.max_key->GetLong(0) == k->Value(sa->length() - 1), "key range of a batch is not that of its rows");
    }
}
bool Eof(const BatchReader::ReadBatch& b) { return BatchReader::IsEofBatch(b); }
bool Eof(const KeyValueBatch& b) { return !b.batch; }
template <typename R>
void RunPipe(std::unique_ptr<SortMergeReader> src, const std::vector<Rec>& expect, int batch, int threads) {
    std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    auto schema = arrow::schema({arrow::field("k", arrow::int64()), arrow::field("v", arrow::int64())});
    auto full = arrow::schema({arrow::field("_SEQUENCE_NUMBER", arrow::int64()), arrow::field("_VALUE_KIND", arrow::int8()),
                               arrow::field("k", arrow::int64()), arrow::field("v", arrow::int64())});
    std::function<Result<std::unique_ptr<RowToArrowArrayConverter<KeyValue, R>>>()> create = [&]() -> Result<std::unique_ptr<RowToArrowArrayConverter<KeyValue, R>>> {
        if (P->Fail("create-error", P->p_create)) return Status::Invalid("injected: create");
        P->converters++;
        std::unique_ptr<RowToArrowArrayConverter<KeyValue, R>> real;
        if constexpr (std::is_same_v<R, KeyValueBatch>) {
            auto c = KeyValueMetaProjectionConsumer::Create(full, pool);
            if (!c.ok()) dst::HarnessError("consumer: %s", c.status().ToString().c_str());
            real = std::move(c).value();
        } else {
            auto c = KeyValueProjectionConsumer::Create(schema, {0, 1}, pool);
            if (!c.ok()) dst::HarnessError("consumer: %s", c.status().ToString().c_str());
            real = std::move(c).value();
        }
        return std::unique_ptr<RowToArrowArrayConverter<KeyValue, R>>(new Conv<R>(std::move(real)));
    };
    PipeOut out;
    {
        AsyncKeyValueProducerAndConsumer<KeyValue, R> pipe(std::move(src), create, batch, threads, pool);
        int limit = Pick("stopearly", 2) ? (int)Pick("limit", 10) : 100000;
        for (int i = 0; i < limit; i++) {
            auto r = pipe.NextBatch();
            if (!r.ok()) {
                DST_CHECK("C16", "error-without-cause", P->failures > 0, "failed though nothing failed: %s", r.status().ToString().c_str());
                DST_CHECK("C16", "error-replaced", r.status().ToString().find("injected") != std::string::npos, "the reported error is not the one that happened: %s", r.status().ToString().c_str());
                out.error = true;
                dst::Log("error reported");
                if (P->p_create == 0) {
                    auto again = pipe.NextBatch();
                    DST_CHECK("C16", "error-forgotten", !again.ok(), "after a reported error the next call succeeded");
                }
                break;
            }
            if (Eof(r.value())) {
                out.eof = true;
                auto again = pipe.NextBatch();
                DST_CHECK("C16", "data-after-eof", again.ok() && Eof(again.value()), "the call after end-of-data %s", again.ok() ? "returned data" : "failed");
                break;
            }
            TakeBatch(std::move(r).value(), &out);
        }
        dst::Log("took %d records, eof %d, error %d", (int)out.got.size(), out.eof, out.error);
        if (Pick("close", 2)) pipe.Close();
    }
    Atomic a;
    auto same = [](const Rec& x, const Rec& y) { return x.key == y.key && x.val == y.val && (x.seq == -1 || x.seq == y.seq) && (x.seq == -1 || x.del == y.del); };
    if (out.eof) DST_CHECK("C16", "failure-hidden", P->failures == 0, "end-of-data was reported although a step failed");
    // every record at most once, in order with one thread, all of them at end-of-data
    if (threads == 1) {
        for (size_t i = 0; i < out.got.size(); i++)
            DST_CHECK("C16", "wrong-record", i < expect.size() && same(out.got[i], expect[i]), "record %d of the output is key %lld value %lld, expected %s", (int)i, (long long)out.got[i].key, (long long)out.got[i].val,
                      i < expect.size() ? ("key " + std::to_string(expect[i].key) + " value " + std::to_string(expect[i].val)).c_str() : "nothing");
    } else {
        std::vector<bool> used(expect.size());
        for (auto& g : out.got) {
            bool found = false;
            for (size_t i = 0; i < expect.size() && !found; i++)
                if (!used[i] && same(g, expect[i])) used[i] = found = true;
            DST_CHECK("C16", "wrong-record", found, "key %lld value %lld was delivered once too often or never existed", (long long)g.key, (long long)g.val);
        }
    }
    if (out.eof) DST_CHECK("C16", "record-lost", out.got.size() == expect.size(), "end-of-data after %d of %d records", (int)out.got.size(), (int)expect.size());
    if (out.eof || !out.got.empty() || out.error) dst::NonTrivial();
    DST_CHECK("C16", "batch-leaked", g_live == 0, "%d of %d batches were neither delivered nor released", g_live, g_made);
}
void RunC16() {
    P = new PipeModel();
    dst::SwarmPreempt(true);
    dst::SetStepBudget(400000);
    int kind = Pick("source", 3);
    int nruns = kind == 0 ? 1 : 1 + Pick("runs", 5);
    int keys = std::vector<int>{3, 12, 40}[Pick("keys", 3)];
    int64_t seq = 1;
    std::vector<Rec> all;
    std::map<int64_t, Rec> newest;
    P->runs.resize(nruns);
    // sequence numbers are unique over all runs but not ordered by run
    std::vector<std::pair<int, int>> cells;
    for (int r = 0; r < nruns; r++) {
        double dens = 0.2 * (1 + Pick("density", 5));
        for (int k = 0; k < keys; k++)
            if (Chance("has", dens)) cells.push_back({r, k});
    }
    bool mix = Pick("mixseq", 2);
    if (mix)
        for (size_t i = cells.size(); i > 1; i--) std::swap(cells[i - 1], cells[Pick("shuffle", i)]);
    for (auto [r, k] : cells) {
        Rec x{k, seq, seq * 10 + k, Chance("delete", 0.15)};
        seq++;
        P->runs[r].push_back(x);
        if (!newest.count(k) || newest[k].seq < x.seq) newest[k] = x;
    }
    for (auto& run : P->runs) std::sort(run.begin(), run.end(), [](const Rec& a, const Rec& b) { return a.key < b.key; });
    std::vector<Rec> expect;
    for (auto& [k, r] : newest) expect.push_back(r);
    if (Pick("faults", 2)) {
        P->budget = 1 + Pick("budget", 2);
        double p = std::vector<double>{0.02, 0.1, 0.3}[Pick("rate", 3)];
        switch (Pick("where", 4)) {
            case 0: P->p_conv = p; break;
            case 1: P->p_create = p; break;
            case 2: P->p_conv = P->p_src = p; break;
            default: P->p_src = p; break;
        }
    }
    int batch = 1 + Pick("batch", 8), threads = 1 + Pick("threads", 6);
    dst::Log("source %d, %d runs, %d records, batch %d, %d threads", kind, nruns, (int)expect.size(), batch, threads);
    std::unique_ptr<SortMergeReader> src;
    if (kind == 0) {
        src = std::make_unique<PlainMerge>();
    } else {
        std::vector<std::unique_ptr<KeyValueRecordReader>> rs;
        for (auto& run : P->runs) {
            auto r = std::make_unique<RunReader>();
            r->recs = &run;
            rs.push_back(std::move(r));
        }
        auto cmp = FieldsComparator::Create({DataField(0, arrow::field("k", arrow::int64()))}, /*is_ascending_order=*/true, /*use_view=*/false);
        if (!cmp.ok()) dst::HarnessError("comparator: %s", cmp.status().ToString().c_str());
        std::shared_ptr<FieldsComparator> c = std::move(cmp).value();
        auto wrap = std::make_shared<ReducerMergeFunctionWrapper>(std::make_unique<DeduplicateMergeFunction>(false));
        if (kind == 1)
            src = std::make_unique<SortMergeReaderWithLoserTree>(std::move(rs), c, nullptr, wrap);
        else
            src = std::make_unique<SortMergeReaderWithMinHeap>(std::move(rs), c, nullptr, wrap);
    }
    if (Pick("writer", 3) == 0)
        RunPipe<KeyValueBatch>(std::move(src), expect, batch, threads);
    else
        RunPipe<BatchReader::ReadBatch>(std::move(src), expect, batch, threads);
    Atomic a;
    DST_CHECK("C16", "record-leaked", g_rows_live == 0, "%d rows are still held after the pipeline is gone", g_rows_live);
}
}  // namespace

void DstInit() {}
void DstRun() {
    if (dst::Opt().prop == "C15") return RunC15();
    if (dst::Opt().prop == "C16") return RunC16();
    dst::HarnessError("unknown property %s", dst::Opt().prop.c_str());
}
const char* DstRule() {
    return dst::Opt().prop == "C15"
               ? "random files (rows, row groups, filtered groups, deleted rows), reader counts, executor sizes, queue sizes, selections and batch sizes; reading to the end or stopping early, re-targeting, closing; storage errors in open/seek/read/ranges; every synchronisation point and memory access a scheduling point. Non-trivial: at least two rows read or end of file reached, or creation failed"
               : "random sorted runs merged by the loser tree, the heap or played directly, through 1-6 projection threads with batch sizes 1-8; stopping early, errors in the source, in a conversion or in creating a converter; every synchronisation point and memory access a scheduling point. Non-trivial: something was delivered, or an error or end-of-data reported";
}
