// A shared file store with per-client file systems, and a stand-in file format, for the table
// harness. The store is the only thing that survives a client's crash.
#pragma once
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "arrow/api.h"
#include "arrow/c/abi.h"
#include "arrow/c/bridge.h"
#include "arrow/c/helpers.h"
#include "dst.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/executor.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/format/column_stats.h"
#include "paimon/predicate/compound_predicate.h"
#include "paimon/predicate/leaf_predicate.h"
#include "paimon/predicate/literal.h"
#include "paimon/format/file_format.h"
#include "paimon/format/file_format_factory.h"
#include "paimon/format/format_writer.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/reader/prefetch_file_batch_reader.h"

namespace tfs {
using namespace paimon;  // NOLINT
using dst::Atomic;
using dst::Chance;
using dst::Pick;

// ================================================================ the store
enum Cls : uint32_t { SNAP = 1, HINT = 2, MANIFEST = 4, DATA = 8, SCHEMA = 16, OTHER = 32, ALL = 63 };
enum Op : uint32_t {
    OPEN = 1, READ = 2, CREATE = 4, WRITE = 8, FLUSH = 16, CLOSE = 32, MKDIRS = 64, RENAME = 128,
    DELETE = 256, STAT = 512, LIST = 1024, EXISTS = 2048,
    ANY = 4095, READS = OPEN | READ | STAT | LIST | EXISTS, WRITES = CREATE | WRITE | FLUSH | CLOSE | MKDIRS | RENAME | DELETE
};

struct Node {
    bool dir = false;
    std::string data;
    int64_t mtime = 0;  // ms
    uint64_t gen = 0;   // which creation this is
    bool open = false;  // still being written
};

// One incarnation of a process.
struct Client {
    int id = 0;
    std::string name;
    std::string doing;       // what the client is at, for blaming
    bool crashed = false;
    double p_err = 0;        // operation fails without effect
    double p_doubt = 0;      // operation takes effect, but reports failure
    double p_crash = 0;
    double p_short = 0;      // short reads and writes
    uint32_t ops = ANY, classes = ALL;
    int* budget = nullptr;   // faults left
    int faults = 0;          // faults that hit this client
    int rename_doubt = 0;    // snapshot publications with an unknown outcome
    int hint_faults = 0;
    int read_faults = 0;
    int stall = 0;           // 1/1000: long pauses between operations
    bool quiet = false;      // no scheduling points: the harness's own view
    std::shared_ptr<Executor> exec;
};

struct Store {
    std::map<std::string, Node> nodes;
    uint64_t gens = 0;
    bool full = false;
    int renames_lost = 0;  // renames that found their target taken
    std::set<std::string> undeleted;  // deletions refused without effect
    std::vector<Client*> clients;
    std::map<std::string, std::string> by_name;  // file name -> last path, for files outside snapshot/
    // observers, called with the effect already applied (delete: before)
    std::function<void(Client*, const std::string& path)> on_publish, on_create_over, on_written, on_closed;
    std::function<void(Client*, const std::string& path, const Node&)> on_delete;
};
extern Store* S;

inline std::string Norm(std::string p) {
    std::string o;
    for (char c : p) {
        if (c == '/' && !o.empty() && o.back() == '/') continue;
        o += c;
    }
    while (o.size() > 1 && o.back() == '/') o.pop_back();
    return o;
}
inline std::string Base(const std::string& p) { return p.substr(p.rfind('/') + 1); }
inline std::string Parent(const std::string& p) {
    size_t i = p.rfind('/');
    return i == 0 || i == std::string::npos ? "/" : p.substr(0, i);
}
inline bool Has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
inline Cls ClassOf(const std::string& p) {
    std::string b = Base(p);
    if (b == "EARLIEST" || b == "LATEST") return HINT;
    if (Has(p, "/snapshot")) return SNAP;
    if (Has(p, "/manifest")) return MANIFEST;
    if (Has(p, "/schema")) return SCHEMA;
    if (Has(p, "/bucket-")) return DATA;
    return OTHER;
}
inline int64_t SnapId(const std::string& p) {  // -1 when p is not a snapshot file
    std::string b = Base(p);
    if (b.compare(0, 9, "snapshot-") != 0 || Base(Parent(p)) != "snapshot") return -1;
    char* e;
    int64_t v = strtoll(b.c_str() + 9, &e, 10);
    return *e || b.size() == 9 ? -1 : v;
}
const char* OpName(Op o);

enum Fate { GO, FAIL, DOUBT, CRASH_BEFORE, CRASH_AFTER, SHORT };
inline Fate Enter(Client* c, Op op, const std::string& path) {
    if (c->quiet) return GO;
    dst::Yield("fs");
    if (c->crashed) return FAIL;
    if (c->stall && Chance("stall", c->stall / 1000.0)) {
        dst::Fault("stall");
        dst::SleepUs(1000 * (1 + Pick("stallms", 5000)));
        if (c->crashed) return FAIL;
    }
    dst::AdvanceUs(50);
    dst::Log("%s %s %s", c->name.c_str(), OpName(op), path.c_str());
    if (!c->budget || *c->budget <= 0 || !(c->ops & op) || !(c->classes & ClassOf(path))) return GO;
    auto hit = [&](const char* kind) {
        --*c->budget;
        c->faults++;
        if (ClassOf(path) == HINT) c->hint_faults++;
        if (op & READS) c->read_faults++;
        dst::Fault(kind);
    };
    if (c->p_crash > 0 && Chance("crash", c->p_crash)) {
        hit("crash");
        return (op & WRITES) && Pick("crashwhen", 2) ? CRASH_AFTER : CRASH_BEFORE;
    }
    if (c->p_err > 0 && Chance("ioerr", c->p_err)) {
        hit((op & READS) ? "read-error" : "write-error");
        return FAIL;
    }
    if (c->p_doubt > 0 && (op & (WRITES & ~WRITE)) && Chance("doubt", c->p_doubt)) {
        hit("in-doubt-error");
        return DOUBT;
    }
    if (c->p_short > 0 && (op & (READ | WRITE)) && Chance("short", c->p_short)) {
        hit(op == READ ? "short-read" : "short-write");
        return SHORT;
    }
    return GO;
}
inline Status Injected(const char* what, const std::string& path) { return Status::IOError("injected: ", what, " ", path); }
// What is left to report after the effect was (or was not) applied.
#define TFS_DONE(c, fate, what, path)                                     \
    do {                                                                  \
        if ((fate) == CRASH_AFTER) (c)->crashed = true;                   \
        if ((fate) == CRASH_AFTER || (fate) == DOUBT) return Injected(what, path); \
    } while (0)
#define TFS_ENTER(c, fate, op, what, path)                                \
    Fate fate = Enter(c, op, path);                                       \
    if (fate == CRASH_BEFORE) (c)->crashed = true;                        \
    if (fate == CRASH_BEFORE || fate == FAIL) return Injected(what, path)

inline int64_t StoreMs() { return dst::NowUs() / 1000; }
inline void MakeDirs(const std::string& p) {
    if (p.empty() || p == "/" || S->nodes.count(p)) return;
    MakeDirs(Parent(p));
    Node n;
    n.dir = true;
    n.mtime = StoreMs();
    S->nodes[p] = n;
}

class SimIn : public InputStream {
 public:
    SimIn(Client* c, std::string path, std::string data) : c_(c), path_(std::move(path)), data_(std::move(data)) {}
    Status Close() override { return Status::OK(); }
    Status Seek(int64_t off, SeekOrigin o) override {
        int64_t p = o == FS_SEEK_SET ? off : o == FS_SEEK_CUR ? pos_ + off : (int64_t)data_.size() + off;
        if (p < 0 || p > (int64_t)data_.size()) return Status::Invalid("seek out of range");
        pos_ = p;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos_; }
    Result<int32_t> Read(char* b, uint32_t n) override {
        Result<int32_t> r = Read(b, n, pos_);
        if (r.ok()) pos_ += r.value();
        return r;
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t off) override {
        TFS_ENTER(c_, f, READ, "read", path_);
        Atomic a;
        uint64_t have = off < data_.size() ? data_.size() - off : 0;
        uint32_t k = std::min<uint64_t>(n, have);
        if (f == SHORT && k > 0) k = Pick("shortlen", k);
        memcpy(b, data_.data() + (k ? off : 0), k);
        return static_cast<int32_t>(k);
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off, std::function<void(Status)>&& cb) override {
        Result<int32_t> r = Read(b, n, off);
        cb(!r.ok() ? r.status() : r.value() == (int32_t)n ? Status::OK() : Status::IOError("short read"));
    }
    Result<std::string> GetUri() const override { return path_; }
    Result<uint64_t> Length() const override {
        TFS_ENTER(c_, f, STAT, "length", path_);
        return data_.size();
    }

 private:
    Client* c_;
    std::string path_, data_;
    int64_t pos_ = 0;
};

class SimOut : public OutputStream {
 public:
    SimOut(Client* c, std::string path, uint64_t gen) : c_(c), path_(std::move(path)), gen_(gen) {}
    Node* Mine() {
        auto it = S->nodes.find(path_);
        return it == S->nodes.end() || it->second.gen != gen_ ? nullptr : &it->second;
    }
    Result<int32_t> Write(const char* b, uint32_t n) override {
        if (closed_) return Status::Invalid("write to a closed file ", path_);
        TFS_ENTER(c_, f, WRITE, "write", path_);
        Atomic a;
        uint32_t k = n;
        if (S->full && !c_->quiet) {
            dst::Fault("disk-full");
            c_->faults++;
            k = n ? Pick("fullat", n) : 0;
        } else if ((f == SHORT || f == CRASH_AFTER) && n > 0) {
            k = Pick("shortlen", n + (f == CRASH_AFTER));
        }
        if (Node* nd = Mine()) {
            nd->data.append(b, k);
            nd->mtime = StoreMs();
            if (S->on_written) S->on_written(c_, path_);
        }
        pos_ += k;
        if (f == CRASH_AFTER) c_->crashed = true;
        if (f == CRASH_AFTER) return Injected("write", path_);
        if (S->full && !c_->quiet) return Injected("no space left", path_);
        return static_cast<int32_t>(k);
    }
    Status Flush() override {
        Fate f = Enter(c_, FLUSH, path_);
        Atomic a;
        Node* nd = Mine();
        if (f == CRASH_BEFORE) c_->crashed = true;
        if (f == CRASH_BEFORE || f == FAIL) {
            // what was written since the last flush did not get there
            if (nd && nd->data.size() > flushed_) {
                nd->data.resize(flushed_);
                if (S->on_written) S->on_written(c_, path_);
            }
            return Injected("flush", path_);
        }
        if (nd) flushed_ = nd->data.size();
        TFS_DONE(c_, f, "flush", path_);
        return Status::OK();
    }
    Status Close() override {
        if (closed_) return Status::OK();
        TFS_ENTER(c_, f, CLOSE, "close", path_);
        closed_ = true;
        if (Node* nd = Mine()) nd->open = false;
        if (S->on_closed) S->on_closed(c_, path_);
        TFS_DONE(c_, f, "close", path_);
        return Status::OK();
    }
    Result<int64_t> GetPos() const override { return pos_; }
    Result<std::string> GetUri() const override { return path_; }

 private:
    size_t flushed_ = 0;
    Client* c_;
    std::string path_;
    uint64_t gen_;
    int64_t pos_ = 0;
    bool closed_ = false;
};

struct Stat : public FileStatus {
    std::string path;
    bool dir;
    uint64_t len;
    int64_t mtime;
    uint64_t GetLen() const override { return len; }
    bool IsDir() const override { return dir; }
    std::string GetPath() const override { return path; }
    int64_t GetModificationTime() const override { return mtime; }
};
struct BStat : public BasicFileStatus {
    std::string path;
    bool dir;
    bool IsDir() const override { return dir; }
    std::string GetPath() const override { return path; }
};

class SimFS : public FileSystem {
 public:
    explicit SimFS(Client* c) : c_(c) {}
    // The memory stays: a call through a dead file system ends as a pure virtual call, always.
    static void operator delete(void*) {}
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override {
        std::string path = Norm(p);
        TFS_ENTER(c_, f, OPEN, "open", path);
        Atomic a;
        auto it = S->nodes.find(path);
        if (it == S->nodes.end()) return Status::NotExist("File '", path, "' not exists");
        if (it->second.dir) return Status::IOError("is a directory: ", path);
        return std::unique_ptr<InputStream>(new SimIn(c_, path, it->second.data));
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string& p, bool overwrite) const override {
        std::string path = Norm(p);
        TFS_ENTER(c_, f, CREATE, "create", path);
        Atomic a;
        auto it = S->nodes.find(path);
        if (it != S->nodes.end()) {
            if (it->second.dir) return Status::IOError("is a directory: ", path);
            if (!overwrite) return Status::Invalid("do not allow overwrite, but the file ", path, " already exists");
            if (S->on_create_over) S->on_create_over(c_, path);
        }
        if (S->full && !c_->quiet) {
            dst::Fault("disk-full");
            c_->faults++;
            return Injected("no space left", path);
        }
        MakeDirs(Parent(path));
        Node n;
        n.gen = ++S->gens;
        n.open = true;
        n.mtime = StoreMs();
        S->nodes[path] = n;
        if (!Has(path, "/snapshot/")) S->by_name[Base(path)] = path;
        if (SnapId(path) >= 0 && S->on_publish) S->on_publish(c_, path);  // visible from here on
        TFS_DONE(c_, f, "create", path);
        return std::unique_ptr<OutputStream>(new SimOut(c_, path, n.gen));
    }
    Status Mkdirs(const std::string& p) const override {
        std::string path = Norm(p);
        TFS_ENTER(c_, f, MKDIRS, "mkdirs", path);
        Atomic a;
        for (std::string q = path; q.size() > 1; q = Parent(q)) {
            auto it = S->nodes.find(q);
            if (it != S->nodes.end() && !it->second.dir) return Status::IOError("not a directory: ", q);
        }
        MakeDirs(path);
        TFS_DONE(c_, f, "mkdirs", path);
        return Status::OK();
    }
    Status Rename(const std::string& s, const std::string& d) const override {
        std::string src = Norm(s), dst = Norm(d);
        TFS_ENTER(c_, f, RENAME, "rename", dst);
        Atomic a;
        auto it = S->nodes.find(src);
        if (it == S->nodes.end()) return Status::NotExist("rename: src file not exist ", src);
        if (S->nodes.count(dst)) S->renames_lost++;
        if (S->nodes.count(dst)) return Status::Invalid("rename: dst file already exist ", dst);
        if (it->second.dir) return Status::IOError("renaming directories is not simulated");
        Node n = it->second;
        S->nodes.erase(it);
        MakeDirs(Parent(dst));
        S->nodes[dst] = n;
        if (SnapId(dst) >= 0 && (f == DOUBT || f == CRASH_AFTER)) c_->rename_doubt++;
        if (S->on_publish) S->on_publish(c_, dst);
        TFS_DONE(c_, f, "rename", dst);
        return Status::OK();
    }
    Status Delete(const std::string& p, bool recursive) const override {
        std::string path = Norm(p);
        Fate f = Enter(c_, DELETE, path);
        if (f == CRASH_BEFORE) c_->crashed = true;
        if (f == CRASH_BEFORE || f == FAIL) {
            Atomic a;
            S->undeleted.insert(path);
            return Injected("delete", path);
        }
        Atomic a;
        auto it = S->nodes.find(path);
        if (it == S->nodes.end()) return Status::NotExist("delete: no such file ", path);
        if (it->second.dir) {
            std::vector<std::string> below;
            for (auto j = S->nodes.upper_bound(path + "/"); j != S->nodes.end() && j->first.compare(0, path.size() + 1, path + "/") == 0; ++j) below.push_back(j->first);
            if (!below.empty() && !recursive) return Status::IOError("directory not empty ", path);
            for (auto b = below.rbegin(); b != below.rend(); ++b) Drop(*b);
        }
        Drop(path);
        TFS_DONE(c_, f, "delete", path);
        return Status::OK();
    }
    void Drop(const std::string& path) const {
        auto it = S->nodes.find(path);
        if (S->on_delete && !it->second.dir) S->on_delete(c_, path, it->second);
        S->nodes.erase(path);
    }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& p) const override {
        std::string path = Norm(p);
        TFS_ENTER(c_, f, STAT, "stat", path);
        Atomic a;
        auto it = S->nodes.find(path);
        if (it == S->nodes.end()) return Status::NotExist("no such file ", path);
        return std::unique_ptr<FileStatus>(One(path, it->second));
    }
    static Stat* One(const std::string& path, const Node& n) {
        auto* s = new Stat();
        s->path = path, s->dir = n.dir, s->len = n.data.size(), s->mtime = n.mtime;
        return s;
    }
    template <typename F>
    Status Each(const std::string& path, F f) const {
        auto it = S->nodes.find(path);
        if (it == S->nodes.end()) return Status::OK();
        if (!it->second.dir) return Status::IOError("not a directory: ", path);
        std::string pre = path == "/" ? "/" : path + "/";
        for (auto j = S->nodes.lower_bound(pre); j != S->nodes.end() && j->first.compare(0, pre.size(), pre) == 0; ++j)
            if (j->first.find('/', pre.size()) == std::string::npos && j->first != path) f(j->first, j->second);
        return Status::OK();
    }
    Status ListDir(const std::string& p, std::vector<std::unique_ptr<BasicFileStatus>>* out) const override {
        std::string path = Norm(p);
        TFS_ENTER(c_, f, LIST, "list", path);
        Atomic a;
        return Each(path, [&](const std::string& q, const Node& n) {
            auto* s = new BStat();
            s->path = q, s->dir = n.dir;
            out->emplace_back(s);
        });
    }
    Status ListFileStatus(const std::string& p, std::vector<std::unique_ptr<FileStatus>>* out) const override {
        std::string path = Norm(p);
        TFS_ENTER(c_, f, LIST, "list", path);
        Atomic a;
        auto it = S->nodes.find(path);
        if (it != S->nodes.end() && !it->second.dir) {
            out->emplace_back(One(path, it->second));
            return Status::OK();
        }
        return Each(path, [&](const std::string& q, const Node& n) { out->emplace_back(One(q, n)); });
    }
    Result<bool> Exists(const std::string& p) const override {
        std::string path = Norm(p);
        TFS_ENTER(c_, f, EXISTS, "exists", path);
        Atomic a;
        return S->nodes.count(path) > 0;
    }

 private:
    Client* c_;
};

// ================================================================ the file format
// A file is a sequence of 48-byte blocks, one per batch, and a 48-byte footer. The blocks name the
// rows, which are kept by the harness; a reader delivers them only if it got the exact bytes.
struct Rows {
    char format = 0;  // which format wrote it
    std::shared_ptr<arrow::DataType> type;
    std::vector<std::shared_ptr<arrow::StructArray>> chunks;
    std::string bytes;
    bool finished = false;
    int64_t count = 0;
};
extern std::vector<std::shared_ptr<Rows>>* R;
constexpr int BLK = 48;

inline std::string Block(const char* kind, uint64_t id, uint64_t no, uint64_t rows, const std::string& before) {
    char b[BLK + 1];
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](const std::string& s) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; };
    mix(before);
    mix(kind + std::to_string(id) + ":" + std::to_string(no) + ":" + std::to_string(rows));
    snprintf(b, sizeof b, "%.4s%08llx%06llx%08llx%016llx\n....", kind, (unsigned long long)id, (unsigned long long)no, (unsigned long long)rows, (unsigned long long)h);
    return std::string(b, BLK - 1) + "\n";
}
// The rows of complete file contents; null when the bytes are not exactly a finished file.
inline std::shared_ptr<Rows> Decode(const std::string& data) {
    if (data.size() < BLK || data.compare(data.size() - BLK, 4, "FOOT") != 0) return nullptr;
    uint64_t id = strtoull(data.substr(data.size() - BLK + 4, 8).c_str(), nullptr, 16);
    if (id >= R->size() || !(*R)[id]->finished || (*R)[id]->bytes != data) return nullptr;
    return (*R)[id];
}
inline std::shared_ptr<Rows> RowsOf(const std::string& path) {
    auto it = S->nodes.find(path);
    return it == S->nodes.end() || it->second.dir || it->second.open ? nullptr : Decode(it->second.data);
}

class SimWriter : public FormatWriter {
 public:
    SimWriter(std::shared_ptr<OutputStream> out, std::shared_ptr<arrow::DataType> type, char format) : out_(std::move(out)), rows_(std::make_shared<Rows>()) {
        rows_->type = std::move(type);
        rows_->format = format;
        id_ = R->size();
        R->push_back(rows_);
    }
    Status Put(const std::string& b) {
        auto r = out_->Write(b.data(), b.size());
        if (!r.ok()) return r.status();
        if (r.value() != (int32_t)b.size()) return Status::IOError("short write");
        return Status::OK();
    }
    Status AddBatch(::ArrowArray* batch) override {
        std::string b;
        {
            Atomic a;
            auto arr = arrow::ImportArray(batch, rows_->type);
            if (!arr.ok()) return Status::Invalid("import: ", arr.status().ToString());
            auto copy = arrow::Concatenate({*arr}, arrow::default_memory_pool());
            if (!copy.ok()) dst::HarnessError("cannot copy a batch: %s", copy.status().ToString().c_str());
            auto sa = std::static_pointer_cast<arrow::StructArray>(*copy);
            rows_->chunks.push_back(sa);
            rows_->count += sa->length();
            b = Block("BLCK", id_, rows_->chunks.size(), sa->length(), rows_->bytes);
            rows_->bytes += b;
        }
        return Put(b);
    }
    Status Flush() override { return Status::OK(); }
    Status Finish() override {
        std::string b;
        {
            Atomic a;
            b = Block("FOOT", id_, rows_->chunks.size(), rows_->count, rows_->bytes);
            rows_->bytes += b;
            rows_->finished = true;
        }
        return Put(b);
    }
    // the real formats look at their size only when asked to, which takes a thousand rows
    Result<bool> ReachTargetSize(bool, int64_t target) const override { return (int64_t)rows_->bytes.size() >= target; }
    std::shared_ptr<Metrics> GetWriterMetrics() const override { return std::make_shared<MetricsImpl>(); }

 private:
    std::shared_ptr<OutputStream> out_;
    std::shared_ptr<Rows> rows_;
    uint64_t id_;
};

// A value of a row: null, number or text.
struct Val {
    bool null = true;
    int64_t n = 0;
    std::string s;
    bool text = false;
};
// The truth of a predicate, independent of the library's own evaluation. A comparison with null is
// false. nullopt: it names a column the row does not have.
inline std::optional<bool> Holds(const Predicate& p, const std::function<std::optional<Val>(const std::string&)>& get) {
    if (auto* c = dynamic_cast<const CompoundPredicate*>(&p)) {
        bool conj = c->GetFunction().GetType() == Function::Type::AND, unknown = false;
        for (auto& k : c->Children()) {
            auto r = Holds(*k, get);
            if (!r)
                unknown = true;
            else if (*r != conj)
                return !conj;
        }
        if (unknown) return std::nullopt;
        return conj;
    }
    auto& l = dynamic_cast<const LeafPredicate&>(p);
    auto v = get(l.FieldName());
    if (!v) return std::nullopt;
    auto t = l.GetFunction().GetType();
    if (t == Function::Type::IS_NULL) return v->null;
    if (t == Function::Type::IS_NOT_NULL) return !v->null;
    if (v->null) return false;
    auto cmp = [&](const Literal& x) {
        if (v->text) return v->s.compare(x.GetValue<std::string>());
        int64_t y = x.GetValue<int64_t>();
        return v->n < y ? -1 : v->n > y ? 1 : 0;
    };
    bool any = false;
    for (auto& x : l.Literals()) any |= !x.IsNull() && cmp(x) == 0;
    if (t == Function::Type::IN) return any;
    if (t == Function::Type::NOT_IN) return !any;
    int c = cmp(l.Literals().at(0));
    switch (t) {
        case Function::Type::EQUAL: return c == 0;
        case Function::Type::NOT_EQUAL: return c != 0;
        case Function::Type::GREATER_THAN: return c > 0;
        case Function::Type::GREATER_OR_EQUAL: return c >= 0;
        case Function::Type::LESS_THAN: return c < 0;
        case Function::Type::LESS_OR_EQUAL: return c <= 0;
        default: dst::HarnessError("predicate function %d", (int)t);
    }
    return std::nullopt;
}
class SimReaderT : public PrefetchFileBatchReader {
 public:
    SimReaderT(std::shared_ptr<InputStream> in, int batch, char format) : format_(format), in_(std::move(in)), batch_(std::max(1, batch)) {}
    Status Init() {
        PAIMON_ASSIGN_OR_RAISE(len_, in_->Length());
        if (len_ < BLK) return Status::Invalid("not a file of this format");
        std::string foot(BLK, 0);
        PAIMON_RETURN_NOT_OK(Get(&foot, len_ - BLK));
        Atomic a;
        if (foot.compare(0, 4, "FOOT") != 0) return Status::Invalid("bad footer");
        uint64_t id = strtoull(foot.substr(4, 8).c_str(), nullptr, 16);
        if (id >= R->size()) return Status::Invalid("bad footer");
        rows_ = (*R)[id];
        if (rows_->format != format_) return Status::Invalid("a file of another format");
        if (!rows_->finished || rows_->bytes.size() != len_ || rows_->bytes.compare(len_ - BLK, BLK, foot) != 0) return Status::Invalid("bad footer");
        type_ = rows_->type;
        return Status::OK();
    }
    Status Get(std::string* b, uint64_t off) {
        auto r = in_->Read(b->data(), b->size(), off);
        if (!r.ok()) return r.status();
        if (r.value() != (int32_t)b->size()) return Status::IOError("unexpected end of file");
        return Status::OK();
    }
    Result<std::unique_ptr<::ArrowSchema>> GetFileSchema() const override {
        auto s = std::make_unique<::ArrowSchema>();
        if (!arrow::ExportType(*rows_->type, s.get()).ok()) dst::HarnessError("export type");
        return s;
    }
    // Like real formats this one leaves out whole blocks in which the predicate holds for no row.
    // and those with no selected row.
    bool Skip(const std::shared_ptr<arrow::StructArray>& ch, uint64_t first) const {
        if (selection_) {
            bool any = false;
            for (int64_t i = 0; i < ch->length() && !any; i++) any = selection_->Contains((int32_t)(first + i));
            if (!any) return true;
        }
        if (!predicate_) return false;
        for (int64_t i = 0; i < ch->length(); i++) {
            auto r = Holds(*predicate_, [&](const std::string& name) -> std::optional<Val> {
                auto col = ch->GetFieldByName(name);
                if (!col) return std::nullopt;
                Val v;
                v.null = col->IsNull(i);
                if (col->type()->id() == arrow::Type::STRING) {
                    v.text = true;
                    if (!v.null) v.s = std::string(std::static_pointer_cast<arrow::StringArray>(col)->GetView(i));
                } else if (col->type()->id() == arrow::Type::INT64) {
                    if (!v.null) v.n = std::static_pointer_cast<arrow::Int64Array>(col)->Value(i);
                } else {
                    return std::nullopt;
                }
                return v;
            });
            if (!r || *r) return false;
        }
        return true;
    }
    Status SetReadSchema(::ArrowSchema* s, const std::shared_ptr<Predicate>& predicate, const std::optional<RoaringBitmap32>& selection) override {
        Atomic a;
        auto t = arrow::ImportType(s);
        if (!t.ok()) return Status::Invalid("bad read schema");
        for (auto& f : (*t)->fields())
            if (static_cast<const arrow::StructType&>(*rows_->type).GetFieldIndex(f->name()) < 0) return Status::Invalid("no column ", f->name());
        type_ = *t;
        predicate_ = predicate;
        selection_ = selection;
        pos_ = 0;
        prev_ = std::numeric_limits<uint64_t>::max();
        return Status::OK();
    }
    Result<ReadBatch> NextBatch() override {
        uint64_t c = 0, first = 0;
        {
            Atomic a;
            for (; c < rows_->chunks.size(); first += rows_->chunks[c++]->length()) {
                uint64_t end = first + rows_->chunks[c]->length();
                if (end <= pos_) continue;
                if (!Skip(rows_->chunks[c], first)) break;
                pos_ = end;
            }
        }
        if (pos_ >= (uint64_t)rows_->count) {
            prev_ = rows_->count;
            return MakeEofBatch();
        }
        std::string b(BLK, 0);
        PAIMON_RETURN_NOT_OK(Get(&b, c * BLK));
        Atomic a;
        if (rows_->bytes.compare(c * BLK, BLK, b) != 0) return Status::Invalid("bad block");
        auto& ch = rows_->chunks[c];
        int64_t off = pos_ - first, n = std::min<int64_t>(batch_, ch->length() - off);
        arrow::ArrayVector cols;
        for (auto& f : type_->fields()) {
            auto col = ch->GetFieldByName(f->name());
            auto copy = arrow::Concatenate({col->Slice(off, n)}, arrow::default_memory_pool());
            if (!copy.ok()) dst::HarnessError("cannot copy a column");
            cols.push_back(*copy);
        }
        auto sa = std::make_shared<arrow::StructArray>(type_, n, cols);
        prev_ = pos_;
        pos_ += n;
        ReadBatch out{std::make_unique<::ArrowArray>(), std::make_unique<::ArrowSchema>()};
        if (!arrow::ExportArray(*sa, out.first.get(), out.second.get()).ok()) dst::HarnessError("export");
        return out;
    }
    uint64_t GetPreviousBatchFirstRowNumber() const override { return prev_; }
    uint64_t GetNumberOfRows() const override { return rows_->count; }
    bool SupportPreciseBitmapSelection() const override { return false; }
    Status SeekToRow(uint64_t r) override {
        pos_ = r;
        return Status::OK();
    }
    uint64_t GetNextRowToRead() const override { return pos_; }
    Result<std::vector<std::pair<uint64_t, uint64_t>>> GenReadRanges(bool* need) const override {
        *need = true;
        std::vector<std::pair<uint64_t, uint64_t>> out;
        uint64_t at = 0;
        Atomic a;
        for (auto& c : rows_->chunks) {
            if (c->length() && !Skip(c, at)) out.push_back({at, at + c->length()});
            at += c->length();
        }
        return out;
    }
    Status SetReadRanges(const std::vector<std::pair<uint64_t, uint64_t>>&) override { return Status::OK(); }
    std::shared_ptr<Metrics> GetReaderMetrics() const override { return std::make_shared<MetricsImpl>(); }
    void Close() override {}

 private:
    char format_;
    std::shared_ptr<InputStream> in_;
    int64_t batch_;
    uint64_t len_ = 0, pos_ = 0, prev_ = std::numeric_limits<uint64_t>::max();
    std::shared_ptr<Rows> rows_;
    std::shared_ptr<arrow::DataType> type_;
    std::shared_ptr<Predicate> predicate_;
    std::optional<RoaringBitmap32> selection_;
};

class SimReaderBuilder : public ReaderBuilder {
 public:
    SimReaderBuilder(int b, char format) : batch_(b), format_(format) {}
    ReaderBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>&) override { return this; }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::shared_ptr<InputStream>& in) const override {
        auto r = std::make_unique<SimReaderT>(in, batch_, format_);
        PAIMON_RETURN_NOT_OK(r->Init());
        return std::unique_ptr<FileBatchReader>(std::move(r));
    }
    Result<std::unique_ptr<FileBatchReader>> Build(const std::string&) const override { return Status::NotImplemented("by path"); }

 private:
    int batch_;
    char format_;
};
class SimWriterBuilder : public WriterBuilder {
 public:
    SimWriterBuilder(std::shared_ptr<arrow::DataType> t, char format) : type_(std::move(t)), format_(format) {}
    WriterBuilder* WithMemoryPool(const std::shared_ptr<MemoryPool>&) override { return this; }
    Result<std::unique_ptr<FormatWriter>> Build(const std::shared_ptr<OutputStream>& out, const std::string&) override {
        Atomic a;
        return std::unique_ptr<FormatWriter>(new SimWriter(out, type_, format_));
    }

 private:
    std::shared_ptr<arrow::DataType> type_;
    char format_;
};
// Real extractors read the finished file again.
class SimStats : public FormatStatsExtractor {
 public:
    SimStats(std::shared_ptr<arrow::DataType> t, char format) : type_(std::move(t)), format_(format) {}
    Result<ColumnStatsVector> Extract(const std::shared_ptr<FileSystem>& fs, const std::string& path, const std::shared_ptr<MemoryPool>& pool) override {
        PAIMON_ASSIGN_OR_RAISE(auto r, ExtractWithFileInfo(fs, path, pool));
        return r.first;
    }
    Result<std::pair<ColumnStatsVector, FileInfo>> ExtractWithFileInfo(const std::shared_ptr<FileSystem>& fs, const std::string& path, const std::shared_ptr<MemoryPool>&) override {
        PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<InputStream> in, fs->Open(path));
        SimReaderT rd(in, 1, format_);
        PAIMON_RETURN_NOT_OK(rd.Init());
        Atomic a;
        auto rows = RowsOf(Norm(path));
        if (!rows) return Status::Invalid("statistics of an incomplete file");
        ColumnStatsVector out;
        for (auto& f : type_->fields()) out.push_back(One(f, *rows));
        return std::make_pair(out, FileInfo(rows->count));
    }
    template <typename A, typename V>
    static void MinMax(const Rows& rows, const std::string& name, std::optional<V>* mn, std::optional<V>* mx, int64_t* nulls) {
        for (auto& c : rows.chunks) {
            auto col = std::static_pointer_cast<A>(c->GetFieldByName(name));
            for (int64_t i = 0; i < col->length(); i++) {
                if (col->IsNull(i)) {
                    ++*nulls;
                    continue;
                }
                V v(col->GetView(i));
                if (!*mn || v < **mn) *mn = v;
                if (!*mx || **mx < v) *mx = v;
            }
        }
    }
    static std::shared_ptr<ColumnStats> One(const std::shared_ptr<arrow::Field>& f, const Rows& rows) {
        int64_t nulls = 0;
#define TFS_NUM(ID, A, V, MAKE)                                                             \
    case arrow::Type::ID: {                                                                 \
        std::optional<V> mn, mx;                                                            \
        MinMax<arrow::A, V>(rows, f->name(), &mn, &mx, &nulls);                             \
        return std::shared_ptr<ColumnStats>(ColumnStats::MAKE(mn, mx, nulls));              \
    }
        switch (f->type()->id()) {
            TFS_NUM(INT8, Int8Array, int8_t, CreateTinyIntColumnStats)
            TFS_NUM(INT32, Int32Array, int32_t, CreateIntColumnStats)
            TFS_NUM(INT64, Int64Array, int64_t, CreateBigIntColumnStats)
            TFS_NUM(STRING, StringArray, std::string, CreateStringColumnStats)
            default: dst::HarnessError("statistics for %s", f->type()->ToString().c_str());
        }
#undef TFS_NUM
    }

 private:
    std::shared_ptr<arrow::DataType> type_;
    char format_;
};
class SimFormat : public FileFormat {
 public:
    explicit SimFormat(std::string id) : id_(std::move(id)) {}
    const std::string& Identifier() const override { return id_; }
    Result<std::unique_ptr<ReaderBuilder>> CreateReaderBuilder(int32_t b) const override { return std::unique_ptr<ReaderBuilder>(new SimReaderBuilder(b, id_[0])); }
    static std::shared_ptr<arrow::DataType> Type(::ArrowSchema* s) {
        Atomic a;
        auto t = arrow::ImportType(s);
        if (!t.ok()) dst::HarnessError("import type: %s", t.status().ToString().c_str());
        return *t;
    }
    Result<std::unique_ptr<WriterBuilder>> CreateWriterBuilder(::ArrowSchema* s, int32_t) const override { return std::unique_ptr<WriterBuilder>(new SimWriterBuilder(Type(s), id_[0])); }
    Result<std::unique_ptr<FormatStatsExtractor>> CreateStatsExtractor(::ArrowSchema* s) const override { return std::unique_ptr<FormatStatsExtractor>(new SimStats(Type(s), id_[0])); }

 private:
    std::string id_;
};
template <int N>
class SimFormatFactory : public FileFormatFactory {
 public:
    const char* Identifier() const override { return N == 0 ? "orc" : N == 1 ? "parquet" : "avro"; }
    Result<std::unique_ptr<FileFormat>> Create(const std::map<std::string, std::string>&) const override { return std::unique_ptr<FileFormat>(new SimFormat(Identifier())); }
};
class SimFsFactory : public FileSystemFactory {
 public:
    const char* Identifier() const override { return "simfs"; }
    Result<std::unique_ptr<FileSystem>> Create(const std::string&, const std::map<std::string, std::string>& o) const override {
        auto it = o.find("sim.client");
        if (it == o.end()) dst::HarnessError("file system without a client");
        return std::unique_ptr<FileSystem>(new SimFS(S->clients.at(std::stoi(it->second))));
    }
};
}  // namespace tfs
