// The table under test and everything the harness knows about it.
#pragma once
#include <thread>

#include "paimon/catalog/catalog.h"
#include "paimon/catalog/identifier.h"
#include "paimon/commit_context.h"
#include "paimon/commit_message.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/defs.h"
#include "paimon/executor.h"
#include "paimon/file_store_commit.h"
#include "paimon/file_store_write.h"
#include "paimon/orphan_files_cleaner.h"
#include "paimon/read_context.h"
#include "paimon/record_batch.h"
#include "paimon/scan_context.h"
#include "paimon/table/source/plan.h"
#include "paimon/table/source/split.h"
#include "paimon/table/source/table_read.h"
#include "paimon/table/source/table_scan.h"
#include "paimon/write_context.h"
#include "tablefs.h"

namespace tw {
using namespace tfs;  // NOLINT
using Msgs = std::vector<std::shared_ptr<CommitMessage>>;
using Opts = std::map<std::string, std::string>;

const std::string ROOT = "/wh";
const std::string TABLE = "/wh/db.db/t";

constexpr int64_t NUL = std::numeric_limits<int64_t>::min();  // v is null
struct Row {
    std::string pt;
    int64_t id, v;
    bool operator<(const Row& o) const { return std::tie(pt, id, v) < std::tie(o.pt, o.id, o.v); }
    bool operator==(const Row& o) const { return pt == o.pt && id == o.id && v == o.v; }
};
inline std::string Str(const Row& r) { return "(" + r.pt + "," + std::to_string(r.id) + "," + std::to_string(r.v) + ")"; }

struct Entry {
    int kind;
    int bucket;
    std::string file;
    int64_t rows;
    std::optional<int64_t> first_row_id;
};
using Live = std::map<std::string, Entry>;

// One logical commit: what a user asked to be applied once.
struct CommitRec {
    std::string user;
    int64_t id = 0;
    bool overwrite = false;
    std::vector<std::map<std::string, std::string>> parts;  // overwrite: addressed partitions
    std::map<std::string, std::vector<Row>> files;          // new files and the rows written into them
    std::optional<int64_t> watermark;
    std::vector<std::pair<Row, bool>> ops;                  // primary key tables: rows in the order written, true = delete
    std::string bytes;   // serialised messages, as a checkpoint would keep them
    Msgs msgs;
    int64_t published = 0;  // snapshot id
    bool acked = false;
    bool replayed = false;
    bool doubt = false;     // the publication's outcome was hidden from the committer
    bool running = false;   // a commit call for it is under way
    std::map<std::string, int64_t> index;  // index files and their sizes
};

struct Snap {
    int64_t id = 0;
    std::string json, base, delta, user, kind;
    int64_t identifier = 0, total = 0, delta_count = 0, time = 0, schema = 0;
    std::optional<int64_t> watermark, next_row_id;
    Live live;
    std::set<std::string> refs;   // paths this snapshot needs
    std::set<std::string> named;  // data files its manifests name, those recorded as removed included
    std::set<std::string> index;  // its index files
    CommitRec* rec = nullptr;
    bool gone = false;            // expired
    int64_t published_us = 0;
};

// A key's state in a primary key table.
struct Version {
    Row row;
    bool del;
};
using Keys = std::map<std::pair<std::string, int64_t>, Version>;
// One run of the orphan cleaner.
struct Cleaning {
    int64_t older = 0;
    std::set<std::string> deleted, retain;
};

// A row of a data evolution table.
struct Evo {
    Row row;
    int64_t seq;  // the last snapshot that wrote any of its columns
};

struct World {
    bool pk = false;
    bool dense = false;                       // values from small ranges, with nulls
    std::string engine = "deduplicate", agg;
    bool seq_field = false;
    std::map<int64_t, Keys> keys;             // per snapshot
    std::map<int, Cleaning> cleaning;         // per client
    std::vector<std::string> pkeys;           // partition keys
    bool bucketed = false;
    int buckets = 1;
    bool tracking = false;
    bool evolve = false;                      // data evolution: columns are written on their own
    std::set<std::string> indexed;            // columns with a global index; they are not rewritten
    std::map<std::string, std::set<int64_t>> claimed;  // per column: row ids some index covers
    std::map<std::string, int64_t> patches;   // files that rewrite columns: the first row id they are for
    std::map<int64_t, std::map<int64_t, Evo>> evo;  // per snapshot and row id
    Opts topts;                               // table options
    std::map<int64_t, Snap> snaps;
    std::map<std::pair<std::string, int64_t>, CommitRec*> commits;
    std::set<std::string> ever_refs;
    int64_t latest = 0;
    int64_t next_row = 1;                     // unique row values
    int64_t next_row_id = 0;                  // row tracking: ids handed out
    int budget = 0;
    bool expiring = false;                    // expiration takes part in this run
    // expiration limits
    int retain_min = 10, retain_max = 1 << 30, limit = 10;
    int64_t retain_ms = 3600000;
    std::map<int, int64_t> expire_from;       // per client: earliest snapshot when its expiration started
    int published = 0;
    int busy = 0;                             // committers still at work
};
extern World* W;

// ---------------------------------------------------------------- the store, seen from outside
inline std::string JsonStr(const std::string& j, const char* key) {
    std::string k = std::string("\"") + key + "\"";
    size_t i = j.find(k);
    if (i == std::string::npos) return "";
    i = j.find(':', i + k.size()) + 1;
    while (i < j.size() && isspace((unsigned char)j[i])) i++;
    if (j[i] == '"') return j.substr(i + 1, j.find('"', i + 1) - i - 1);
    size_t e = i;
    while (e < j.size() && j[e] != ',' && j[e] != '}' && !isspace((unsigned char)j[e])) e++;
    std::string v = j.substr(i, e - i);
    return v == "null" ? "" : v;
}
inline std::optional<int64_t> JsonInt(const std::string& j, const char* key) {
    std::string s = JsonStr(j, key);
    if (s.empty()) return std::nullopt;
    return strtoll(s.c_str(), nullptr, 10);
}
template <typename A>
inline std::shared_ptr<A> Col(const std::shared_ptr<arrow::StructArray>& a, const char* name) {
    auto c = std::dynamic_pointer_cast<A>(a->GetFieldByName(name));
    if (!c) dst::HarnessError("no column %s", name);
    return c;
}
// The property a finding counts for: the one being checked if the finding breaks it, else the first.
inline const char* At(std::initializer_list<const char*> props) {
    for (const char* p : props)
        if (dst::Opt().prop == p) return p;
    return *props.begin();
}
// Complete rows of a metadata file or a violation.
inline std::shared_ptr<Rows> Meta(const Snap& s, const std::string& path, const char* what) {
    auto r = RowsOf(path);
    if (!r) {
        auto it = S->nodes.find(path);
        dst::Violate(At({"C03", "C01"}), "metadata-missing", "snapshot %lld refers to %s %s, which %s", (long long)s.id, what, path.c_str(), it == S->nodes.end() ? "does not exist" : "is not complete");
    }
    return r;
}
inline std::string DataPath(const std::string& file) {
    auto it = S->by_name.find(file);
    return it == S->by_name.end() ? "?" + file : it->second;
}
inline std::vector<Entry> ReadList(Snap* s, const std::string& list) {
    std::vector<Entry> out;
    std::string lp = TABLE + "/manifest/" + list;
    s->refs.insert(lp);
    auto l = Meta(*s, lp, "manifest list");
    for (auto& c : l->chunks) {
        auto names = Col<arrow::StringArray>(c, "_FILE_NAME");
        auto na = Col<arrow::Int64Array>(c, "_NUM_ADDED_FILES"), nd = Col<arrow::Int64Array>(c, "_NUM_DELETED_FILES");
        for (int64_t i = 0; i < c->length(); i++) {
            std::string mp = TABLE + "/manifest/" + std::string(names->GetView(i));
            s->refs.insert(mp);
            auto m = Meta(*s, mp, "manifest");
            int64_t add = 0, del = 0;
            for (auto& d : m->chunks) {
                auto kind = Col<arrow::Int8Array>(d, "_KIND");
                auto bucket = Col<arrow::Int32Array>(d, "_BUCKET");
                auto file = Col<arrow::StructArray>(d, "_FILE");
                auto fn = Col<arrow::StringArray>(file, "_FILE_NAME");
                auto rc = Col<arrow::Int64Array>(file, "_ROW_COUNT"), fr = Col<arrow::Int64Array>(file, "_FIRST_ROW_ID");
                for (int64_t k = 0; k < d->length(); k++) {
                    Entry e{kind->Value(k), bucket->Value(k), std::string(fn->GetView(k)), rc->Value(k), std::nullopt};
                    if (!fr->IsNull(k)) e.first_row_id = fr->Value(k);
                    (e.kind == 0 ? add : del)++;
                    out.push_back(e);
                    s->named.insert(DataPath(e.file));
                }
            }
            DST_CHECK("C11", "manifest-counts-wrong", add == na->Value(i) && del == nd->Value(i), "manifest %s of snapshot %lld has %lld added and %lld deleted files, its list says %lld and %lld", mp.c_str(), (long long)s->id,
                      (long long)add, (long long)del, (long long)na->Value(i), (long long)nd->Value(i));
        }
    }
    return out;
}
inline Live Apply(const Snap& s, const Live& from, const std::vector<Entry>& es) {
    std::map<std::string, int> n;
    std::map<std::string, Entry> any = from;
    for (auto& [f, e] : from) n[f] = 1;
    for (auto& e : es) {
        n[e.file] += e.kind == 0 ? 1 : -1;
        if (e.kind == 0 || !any.count(e.file)) any[e.file] = e;
    }
    Live out;
    for (auto& [f, k] : n) {
        DST_CHECK(At({"C01", "C02", "C03", "C04"}), "file-counted-wrong", k == 0 || k == 1, "snapshot %lld has data file %s %d times", (long long)s.id, f.c_str(), k);
        if (k == 1) out[f] = any[f];
    }
    return out;
}
// Columns that are not there read as empty.
inline bool Has(const std::shared_ptr<arrow::StructArray>& a, const char* name) { return a->GetFieldByName(name) != nullptr; }
inline std::vector<Row> TableRows(const std::shared_ptr<arrow::StructArray>& c) {
    std::vector<Row> out(c->length(), Row{"", NUL, NUL});
    for (int64_t i = 0; i < c->length(); i++) {
        if (Has(c, "pt")) {
            auto pt = Col<arrow::StringArray>(c, "pt");
            out[i].pt = pt->IsNull(i) ? "null" : std::string(pt->GetView(i));
        }
        for (auto [n, p] : {std::pair<const char*, int64_t*>{"id", &out[i].id}, {"v", &out[i].v}}) {
            if (!Has(c, n)) continue;
            auto x = Col<arrow::Int64Array>(c, n);
            if (!x->IsNull(i)) *p = x->Value(i);
        }
    }
    return out;
}
inline std::vector<Row> TableRows(const Rows& r) {
    std::vector<Row> out;
    for (auto& c : r.chunks) {
        auto x = TableRows(c);
        out.insert(out.end(), x.begin(), x.end());
    }
    return out;
}
// What one more row makes of a key, by the table's merge engine.
inline void Merge(Keys* keys, const Row& r, bool del) {
    std::pair<std::string, int64_t> k{W->pkeys.empty() ? "" : r.pt, r.id};
    auto it = keys->find(k);
    if (it == keys->end()) {
        (*keys)[k] = {r, del};
        return;
    }
    Version& o = it->second;
    if (W->engine == "first-row") return;
    if (W->engine == "deduplicate") {
        if (!W->seq_field || r.v >= o.row.v) o = {r, del};
        return;
    }
    o.row.pt = r.pt;
    if (r.v == NUL) return;
    if (o.row.v == NUL || W->engine == "partial-update") o.row.v = r.v;
    else if (W->agg == "sum") o.row.v += r.v;
    else if (W->agg == "max") o.row.v = std::max(o.row.v, r.v);
    else if (W->agg == "min") o.row.v = std::min(o.row.v, r.v);
    else o.row.v = r.v;
}
inline const std::vector<Row>& RowsOfFile(const std::string& file) {
    for (auto& [k, c] : W->commits)
        if (c->files.count(file)) return c->files[file];
    dst::HarnessError("unknown data file %s", file.c_str());
}
inline bool Addressed(const CommitRec& c, const std::string& pt) {
    if (c.parts.empty()) return true;
    for (auto& p : c.parts)
        if (p.at("pt") == pt) return true;
    return false;
}

inline void OnPublish(Client* c, const std::string& path) {
    int64_t id = SnapId(path);
    if (id < 0) return;
    Snap s;
    s.id = id;
    s.json = S->nodes[path].data;
    s.published_us = dst::NowUs();
    auto jid = JsonInt(s.json, "id"), ident = JsonInt(s.json, "commitIdentifier"), total = JsonInt(s.json, "totalRecordCount"), dc = JsonInt(s.json, "deltaRecordCount"),
         time = JsonInt(s.json, "timeMillis"), schema = JsonInt(s.json, "schemaId");
    DST_CHECK(At({"C03", "C01"}), "snapshot-file-damaged", jid && ident && total && dc && time && schema && s.json.back() == '}', "snapshot %lld was published with damaged contents", (long long)id);
    s.base = JsonStr(s.json, "baseManifestList"), s.delta = JsonStr(s.json, "deltaManifestList"), s.user = JsonStr(s.json, "commitUser"), s.kind = JsonStr(s.json, "commitKind");
    s.identifier = *ident, s.total = *total, s.delta_count = *dc, s.time = *time, s.schema = *schema;
    s.watermark = JsonInt(s.json, "watermark"), s.next_row_id = JsonInt(s.json, "nextRowId");
    dst::Log("published %lld: %s/%lld %s total %lld", (long long)id, s.user.c_str(), (long long)s.identifier, s.kind.c_str(), (long long)s.total);
    DST_CHECK(At({"C01", "C08"}), "gap-or-reuse", *jid == id && id == W->latest + 1, "snapshot %lld (says %lld) was published while the latest is %lld", (long long)id, (long long)*jid, (long long)W->latest);
    auto it = W->commits.find({s.user, s.identifier});
    DST_CHECK("C01", "unknown-commit", it != W->commits.end(), "snapshot %lld belongs to %s/%lld, which nobody asked for", (long long)id, s.user.c_str(), (long long)s.identifier);
    CommitRec* r = it->second;
    s.rec = r;
    DST_CHECK("C02", "applied-twice", r->published == 0, "commit %s/%lld was applied in snapshot %lld and again in %lld", s.user.c_str(), (long long)s.identifier, (long long)r->published, (long long)id);
    DST_CHECK(At({"C01", "C02"}), "published-unasked", r->running, "commit %s/%lld appears in snapshot %lld after its commit call returned", s.user.c_str(), (long long)s.identifier, (long long)id);
    DST_CHECK("C03", "snapshot-not-closed", !S->nodes[path].open, "snapshot %lld was published while its file is still open", (long long)id);
    // contents
    static const Live empty;
    const Live& before = W->latest ? W->snaps[W->latest].live : empty;
    s.refs.insert(path);
    s.refs.insert(TABLE + "/schema/schema-" + std::to_string(s.schema));
    auto base = ReadList(&s, s.base), delta = ReadList(&s, s.delta);
    Live b = Apply(s, empty, base);
    auto same = [](const Live& x, const Live& y) {
        if (x.size() != y.size()) return false;
        for (auto& [f, e] : x) {
            auto i = y.find(f);
            if (i == y.end() || i->second.bucket != e.bucket || i->second.rows != e.rows || i->second.first_row_id != e.first_row_id) return false;
        }
        return true;
    };
    if (!same(b, before)) {
        std::string lost, extra;
        for (auto& [f, e] : before)
            if (!b.count(f)) lost += f + " ";
        for (auto& [f, e] : b)
            if (!before.count(f)) extra += f + " ";
        dst::Violate(At({"C01", "C03", "C04"}), "base-differs", "the base of snapshot %lld is not snapshot %lld: lost [%s] extra [%s]", (long long)id, (long long)W->latest, lost.c_str(), extra.c_str());
    }
    std::set<std::string> added, deleted, want_deleted;
    for (auto& e : delta) {
        auto& set = e.kind == 0 ? added : deleted;
        DST_CHECK(At({"C01", "C02"}), "changed-twice", set.insert(e.file).second, "snapshot %lld lists the change of %s twice", (long long)id, e.file.c_str());
    }
    if (r->overwrite)
        for (auto& [f, e] : before)
            if (Addressed(*r, RowsOfFile(f).at(0).pt)) want_deleted.insert(f);
    std::set<std::string> want_added;
    for (auto& [f, rows] : r->files) want_added.insert(f);
    DST_CHECK(r->overwrite ? At({"C01", "C04"}) : "C01", "commit-torn", added == want_added, "snapshot %lld adds %d files, commit %s/%lld has %d", (long long)id, (int)added.size(), s.user.c_str(), (long long)s.identifier, (int)want_added.size());
    for (auto& f : want_deleted) DST_CHECK("C04", "not-overwritten", deleted.count(f), "the overwrite in snapshot %lld keeps %s of an addressed partition", (long long)id, f.c_str());
    for (auto& f : deleted)
        if (!want_deleted.count(f)) {
            if (r->overwrite) dst::Violate("C04", "wrong-data-overwritten", "the overwrite in snapshot %lld removes %s, which is not in an addressed partition", (long long)id, f.c_str());
            dst::Violate(At({"C01", "C03"}), "commit-torn", "snapshot %lld removes %s, the commit did not ask for it", (long long)id, f.c_str());
        }
    s.live = Apply(s, b, delta);
    // everything it refers to is there
    for (auto& [f, e] : s.live) {
        std::string p = DataPath(f);
        auto rows = RowsOf(p);
        DST_CHECK("C03", "data-file-missing", rows != nullptr, "snapshot %lld refers to data file %s, which %s", (long long)id, p.c_str(), S->nodes.count(p) ? "is not complete" : "does not exist");
        DST_CHECK("C11", "file-row-count", rows->count == e.rows, "data file %s has %lld rows, snapshot %lld says %lld", f.c_str(), (long long)rows->count, (long long)id, (long long)e.rows);
        s.refs.insert(p);
    }
    DST_CHECK("C03", "schema-missing", S->nodes.count(TABLE + "/schema/schema-" + std::to_string(s.schema)), "snapshot %lld refers to schema %lld, which does not exist", (long long)id, (long long)s.schema);
    // the index files, each a complete file
    std::set<std::string> want_index = W->latest ? W->snaps[W->latest].index : std::set<std::string>();
    for (auto& [f, n] : r->index) want_index.insert(f);
    if (std::string im = JsonStr(s.json, "indexManifest"); !im.empty()) {
        std::string ip = TABLE + "/manifest/" + im;
        s.refs.insert(ip);
        for (auto& ch : Meta(s, ip, "index manifest")->chunks) {
            auto name = Col<arrow::StringArray>(ch, "_FILE_NAME");
            auto size = Col<arrow::Int64Array>(ch, "_FILE_SIZE");
            for (int64_t i = 0; i < ch->length(); i++) {
                std::string p = DataPath(std::string(name->GetView(i)));
                auto n = S->nodes.find(p);
                DST_CHECK(At({"C03", "C44"}), "index-file-missing", n != S->nodes.end() && !n->second.open && (int64_t)n->second.data.size() == size->Value(i), "snapshot %lld refers to index file %s of %lld bytes, which %s", (long long)id, p.c_str(), (long long)size->Value(i),
                          n == S->nodes.end() ? "does not exist" : "is not complete");
                s.refs.insert(p);
                s.index.insert(std::string(name->GetView(i)));
            }
        }
    }
    DST_CHECK(At({"C01", "C44"}), "index-files-wrong", s.index == want_index, "snapshot %lld has %d index files, %d are expected", (long long)id, (int)s.index.size(), (int)want_index.size());
    // accounting
    int64_t live_rows = 0, d = 0, prev = W->latest ? W->snaps[W->latest].total : 0;
    for (auto& [f, e] : s.live) live_rows += e.rows;
    for (auto& e : delta) d += e.kind == 0 ? e.rows : -e.rows;
    DST_CHECK("C11", "total-wrong", s.total == live_rows && s.delta_count == d && s.total == prev + s.delta_count, "snapshot %lld says total %lld delta %lld; its live files have %lld rows, its changes %lld, the previous total is %lld", (long long)id,
              (long long)s.total, (long long)s.delta_count, (long long)live_rows, (long long)d, (long long)prev);
    std::optional<int64_t> pw = W->latest ? W->snaps[W->latest].watermark : std::nullopt, want = pw;
    if (r->watermark && (!want || *want < *r->watermark)) want = r->watermark;
    DST_CHECK("C11", "watermark-backwards", !pw || (s.watermark && *s.watermark >= *pw), "the watermark moves from %lld to %lld in snapshot %lld", (long long)pw.value_or(-1), (long long)s.watermark.value_or(-1), (long long)id);
    DST_CHECK("C11", "watermark-wrong", s.watermark == want, "snapshot %lld has watermark %lld, expected %lld", (long long)id, (long long)s.watermark.value_or(-1), (long long)want.value_or(-1));
    // row ids
    if (W->tracking) {
        int64_t start = W->next_row_id;
        std::map<int64_t, int64_t> ranges;
        for (auto& e : delta) {
            if (e.kind != 0) continue;
            if (auto it = W->patches.find(e.file); it != W->patches.end()) {
                DST_CHECK("C43", "row-ids-changed", e.first_row_id == it->second, "data file %s of snapshot %lld rewrites columns of the rows from %lld on, its row ids start at %lld", e.file.c_str(), (long long)id, (long long)it->second,
                          (long long)e.first_row_id.value_or(-1));
                continue;
            }
            DST_CHECK("C10", "no-row-id", e.first_row_id.has_value(), "data file %s of snapshot %lld has no row ids", e.file.c_str(), (long long)id);
            DST_CHECK("C10", "row-ids-overlap", *e.first_row_id >= start, "data file %s of snapshot %lld starts at row id %lld; ids up to %lld are taken", e.file.c_str(), (long long)id, (long long)*e.first_row_id, (long long)start - 1);
            DST_CHECK("C10", "row-ids-overlap", ranges.emplace(*e.first_row_id, e.rows).second, "two files of snapshot %lld start at row id %lld", (long long)id, (long long)*e.first_row_id);
        }
        int64_t at = start;
        for (auto& [f, n] : ranges) {
            DST_CHECK("C10", "row-ids-not-contiguous", f == at, "snapshot %lld hands out row id %lld where %lld is next", (long long)id, (long long)f, (long long)at);
            at += n;
        }
        DST_CHECK("C10", "next-row-id-wrong", s.next_row_id && *s.next_row_id == at, "snapshot %lld has next row id %lld, %lld ids are handed out", (long long)id, (long long)s.next_row_id.value_or(-1), (long long)at);
        W->next_row_id = at;
        for (auto& [f, e] : s.live) DST_CHECK("C10", "row-id-changed", e.first_row_id.has_value(), "data file %s lost its row ids in snapshot %lld", f.c_str(), (long long)id);
    }
    if (W->evolve) {
        auto& m = W->evo[id];
        m = W->evo[W->latest];
        for (auto& e : delta) {
            int64_t at = *e.first_row_id;
            for (auto& ch : RowsOf(DataPath(e.file))->chunks)
                for (auto& x : TableRows(ch)) {
                    Evo& o = m[at++];
                    if (Has(ch, "pt")) o.row.pt = x.pt;
                    if (Has(ch, "id")) o.row.id = x.id;
                    if (Has(ch, "v")) o.row.v = x.v;
                    o.seq = id;
                }
        }
    }
    if (W->pk) {
        Keys& k = W->keys[id];
        k = W->keys[W->latest];
        for (auto& [row, del] : r->ops) Merge(&k, row, del);
    }
    r->published = id;
    if (c->rename_doubt) r->doubt = true;
    for (auto& p : s.refs) W->ever_refs.insert(p);
    W->snaps[id] = s;
    W->latest = id;
    W->published++;
    dst::StateStr(s.user + s.kind + std::to_string(id) + "/" + std::to_string(s.live.size()) + "/" + std::to_string(base.size()));
}

// May this snapshot be expired now, by this client?
inline bool MayExpire(Client* c, const Snap& s, int64_t now_us = 0) {
    auto it = W->expire_from.find(c->id);
    if (it == W->expire_from.end()) return false;
    if (s.id > W->latest - W->retain_min) return false;
    if (s.id >= it->second + W->limit) return false;
    if (s.id <= W->latest - W->retain_max) return true;
    return s.time < (now_us ? now_us : dst::NowUs()) / 1000 - W->retain_ms;
}
// File names the cleaner takes for its own.
inline bool Recognised(const std::string& name) {
    auto starts = [&](const char* p) { return name.compare(0, strlen(p), p) == 0; };
    auto ends = [&](const char* p) { return name.size() >= strlen(p) && name.compare(name.size() - strlen(p), strlen(p), p) == 0; };
    return starts("manifest-") || (starts(".") && ends(".tmp")) || (starts("data-") && (ends(".orc") || ends(".parquet") || ends(".avro") || ends(".lance")));
}
inline void OnDelete(Client* c, const std::string& path, const Node& n) {
    if (c->doing == "clean") {
        Cleaning& k = W->cleaning[c->id];
        DST_CHECK("C07", "young-file-deleted", n.mtime < k.older, "cleaning deletes %s of %lld, which is not older than %lld", path.c_str(), (long long)n.mtime, (long long)k.older);
        DST_CHECK("C07", "foreign-file-deleted", Recognised(Base(path)), "cleaning deletes %s, which is no file of the table", path.c_str());
        DST_CHECK("C07", "retained-file-deleted", !k.retain.count(Base(path)), "cleaning deletes %s, which the caller asked to retain", path.c_str());
        k.deleted.insert(path);
    }
    for (auto& [id, s] : W->snaps) {
        if (s.gone || !s.refs.count(path)) continue;
        if (c->doing == "expire" && MayExpire(c, s)) {
            for (auto& [o, t] : W->snaps) DST_CHECK("C06", "not-the-oldest", o >= id || t.gone || MayExpire(c, t), "snapshot %lld is taken apart while the older %lld is retained", (long long)id, (long long)o);
            s.gone = true;
            dst::Log("snapshot %lld expires", (long long)id);
            continue;
        }
        const char* prop = c->doing == "expire" ? "C06" : c->doing == "clean" ? "C07" : c->doing == "write" ? "C12" : "C05";
        dst::Violate(At({prop, "C03"}), "live-file-deleted", "%s (%s) deletes %s, which snapshot %lld needs", c->name.c_str(), c->doing.c_str(), path.c_str(), (long long)id);
    }
}
inline void OnCreateOver(Client* c, const std::string& path) {
    if (ClassOf(path) == HINT) return;
    for (auto& [id, s] : W->snaps)
        if (!s.gone && s.refs.count(path)) dst::Violate(At({"C01", "C03"}), "live-file-overwritten", "%s (%s) overwrites %s, which snapshot %lld needs", c->name.c_str(), c->doing.c_str(), path.c_str(), (long long)id);
}
inline void OnWritten(Client* c, const std::string& path) { OnCreateOver(c, path); }

// ---------------------------------------------------------------- clients
inline Client* NewClient(const std::string& name) {
    Atomic a;
    auto* c = new Client();
    c->id = S->clients.size();
    c->name = name;
    c->budget = &W->budget;
    S->clients.push_back(c);
    return c;
}
inline Client* God() {
    static Client* g = nullptr;
    if (!g) {
        g = NewClient("harness");
        g->budget = nullptr;
    }
    return g;
}
inline Opts ClientOpts(Client* c) {
    Opts o;
    o["file-system"] = "simfs";
    o["sim.client"] = std::to_string(c->id);
    o["enable-pk-commit-in-inte-test"] = "";
    return o;
}
inline std::shared_ptr<Executor> Exec(Client* c) {
    if (!c->exec) c->exec = std::shared_ptr<Executor>(CreateDefaultExecutor(1 + Pick("workers", 2)));
    return c->exec;
}
inline std::shared_ptr<arrow::Schema> TableSchemaOf() {
    return arrow::schema({arrow::field("pt", arrow::utf8()), arrow::field("id", arrow::int64()), arrow::field("v", arrow::int64())});
}
inline Status CreateTable(Client* c, const std::vector<std::string>& pk, bool ignore = false) {
    PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<Catalog> cat, Catalog::Create(ROOT, ClientOpts(c)));
    PAIMON_RETURN_NOT_OK(cat->CreateDatabase("db", {}, /*ignore_if_exists=*/true));
    ::ArrowSchema cs;
    if (!arrow::ExportSchema(*TableSchemaOf(), &cs).ok()) dst::HarnessError("export schema");
    Status s = cat->CreateTable(Identifier("db", "t"), &cs, W->pkeys, pk, W->topts, ignore);
    if (cs.release) cs.release(&cs);
    return s;
}
inline std::unique_ptr<FileStoreWrite> MakeWriter(Client* c, const std::string& user, const Opts& extra, Status* st, const std::vector<std::string>& cols = {}) {
    Opts o = ClientOpts(c);
    for (auto& [k, v] : extra) o[k] = v;
    WriteContextBuilder b(TABLE, user);
    if (!cols.empty()) b.WithWriteSchema(cols);
    auto ctx = b.SetOptions(o).WithStreamingMode(true).WithExecutor(Exec(c)).Finish();
    if (!ctx.ok()) {
        *st = ctx.status();
        return nullptr;
    }
    auto w = FileStoreWrite::Create(std::move(ctx).value());
    *st = w.status();
    return w.ok() ? std::move(w).value() : nullptr;
}
inline std::unique_ptr<FileStoreCommit> MakeCommit(Client* c, const std::string& user, const Opts& extra, Status* st) {
    Opts o = ClientOpts(c);
    for (auto& [k, v] : extra) o[k] = v;
    CommitContextBuilder b(TABLE, user);
    auto ctx = b.SetOptions(o).WithExecutor(Exec(c)).Finish();
    if (!ctx.ok()) {
        *st = ctx.status();
        return nullptr;
    }
    auto w = FileStoreCommit::Create(std::move(ctx).value());
    *st = w.status();
    return w.ok() ? std::move(w).value() : nullptr;
}
inline std::unique_ptr<RecordBatch> MakeBatch(const std::vector<Row>& rows, int bucket, const std::vector<RecordBatch::RowKind>& kinds = {}, const std::vector<std::string>& cols = {}) {
    Atomic a;
    arrow::StringBuilder pt(arrow::default_memory_pool());
    arrow::Int64Builder id(arrow::default_memory_pool()), v(arrow::default_memory_pool());
    for (auto& r : rows)
        if (!pt.Append(r.pt).ok() || !id.Append(r.id).ok() || !(r.v == NUL ? v.AppendNull() : v.Append(r.v)).ok()) dst::HarnessError("append");
    auto sa = std::make_shared<arrow::StructArray>(arrow::struct_(TableSchemaOf()->fields()), rows.size(), arrow::ArrayVector{*pt.Finish(), *id.Finish(), *v.Finish()});
    if (!cols.empty()) {
        arrow::FieldVector fs;
        arrow::ArrayVector as;
        for (auto& n : cols) fs.push_back(TableSchemaOf()->GetFieldByName(n)), as.push_back(sa->GetFieldByName(n));
        sa = std::make_shared<arrow::StructArray>(arrow::struct_(fs), rows.size(), as);
    }
    ::ArrowArray ca;
    if (!arrow::ExportArray(*sa, &ca).ok()) dst::HarnessError("export");
    RecordBatchBuilder b(&ca);
    if (!W->pkeys.empty()) b.SetPartition({{"pt", rows.at(0).pt}});
    if (W->bucketed) b.SetBucket(bucket);
    if (!kinds.empty()) b.SetRowKinds(kinds);
    auto r = b.Finish();
    if (!r.ok()) dst::HarnessError("batch: %s", r.status().ToString().c_str());
    return std::move(r).value();
}
// The files a set of messages names.
inline std::vector<std::string> MsgFiles(const Msgs& ms) {
    std::vector<std::string> out;
    for (auto& m : ms) {
        auto* i = dynamic_cast<CommitMessageImpl*>(m.get());
        if (!i) dst::HarnessError("message type");
        for (auto& f : i->GetNewFilesIncrement().NewFiles()) out.push_back(f->file_name);
        for (auto& f : i->GetCompactIncrement().CompactAfter()) out.push_back(f->file_name);
    }
    return out;
}
inline std::string Ser(const Msgs& m) {
    auto r = CommitMessage::SerializeList(m, GetDefaultPool());
    if (!r.ok()) dst::HarnessError("serialise: %s", r.status().ToString().c_str());
    return r.value();
}
inline Msgs Deser(const std::string& b) {
    auto r = CommitMessage::DeserializeList(CommitMessage::CurrentVersion(), b.data(), b.size(), GetDefaultPool());
    if (!r.ok()) dst::Violate("C19", "intact-bytes-rejected", "commit messages do not come back: %s", r.status().ToString().c_str());
    return std::move(r).value();
}

// ---------------------------------------------------------------- reading
struct ReadOut {
    Status st;
    std::vector<Row> rows;
    int64_t snapshot = -1;
    bool planned = false;
};
inline void Collect(const std::vector<std::shared_ptr<Split>>& splits, Client* c, ReadOut* out, const std::function<void(ReadContextBuilder&)>& tune = nullptr,
                    const std::function<void(const std::shared_ptr<arrow::StructArray>&)>& sink = nullptr) {
    ReadContextBuilder rb(TABLE);
    rb.SetOptions(ClientOpts(c)).WithExecutor(Exec(c));
    if (tune) tune(rb);
    auto ctx = rb.Finish();
    out->st = ctx.status();
    if (!ctx.ok()) return;
    auto read = TableRead::Create(std::move(ctx).value());
    out->st = read.status();
    if (!read.ok()) return;
    auto reader = read.value()->CreateReader(splits);
    out->st = reader.status();
    if (!reader.ok()) return;
    for (int n = 0; n < 100000; n++) {
        auto b = reader.value()->NextBatch();
        out->st = b.status();
        if (!b.ok()) break;
        if (BatchReader::IsEofBatch(b.value())) break;
        auto [arr, sch] = std::move(b).value();
        Atomic a;
        auto ia = arrow::ImportArray(arr.get(), sch.get());
        if (!ia.ok()) dst::HarnessError("import: %s", ia.status().ToString().c_str());
        auto sa = std::static_pointer_cast<arrow::StructArray>(*ia);
        if (sink) {
            sink(sa);
            continue;
        }
        auto pt = Col<arrow::StringArray>(sa, "pt");
        auto id = Col<arrow::Int64Array>(sa, "id"), v = Col<arrow::Int64Array>(sa, "v");
        for (int64_t i = 0; i < sa->length(); i++) out->rows.push_back({pt->IsNull(i) ? "null" : std::string(pt->GetView(i)), id->Value(i), v->IsNull(i) ? NUL : v->Value(i)});
    }
    if (Pick("closereader", 2)) reader.value()->Close();
}
inline std::vector<std::shared_ptr<Split>> PlanOnce(Client* c, std::optional<int64_t> snapshot, ReadOut* out, const Opts& extra = {}, const std::function<void(ScanContextBuilder&)>& tune = nullptr) {
    ScanContextBuilder sb(TABLE);
    if (tune) tune(sb);
    Opts o = ClientOpts(c);
    for (auto& [k, v] : extra) o[k] = v;
    if (snapshot) o["scan.snapshot-id"] = std::to_string(*snapshot);
    auto ctx = sb.SetOptions(o).WithExecutor(Exec(c)).Finish();
    out->st = ctx.status();
    if (!ctx.ok()) return {};
    auto scan = TableScan::Create(std::move(ctx).value());
    out->st = scan.status();
    if (!scan.ok()) return {};
    auto plan = scan.value()->CreatePlan();
    out->st = plan.status();
    if (!plan.ok()) return {};
    out->planned = true;
    out->snapshot = plan.value()->SnapshotId().value_or(0);
    return plan.value()->Splits();
}
inline ReadOut ReadSnapshot(Client* c, std::optional<int64_t> snapshot) {
    ReadOut out;
    auto splits = PlanOnce(c, snapshot, &out);
    if (out.st.ok()) Collect(splits, c, &out);
    return out;
}
inline std::vector<Row> ExpectRows(const Snap& s) {
    std::vector<Row> out;
    if (W->pk) {
        for (auto& [k, v] : W->keys[s.id])
            if (!v.del) out.push_back(v.row);
        return out;
    }
    if (W->evolve) {
        for (auto& [k, v] : W->evo[s.id]) out.push_back(v.row);
        return out;
    }
    for (auto& [f, e] : s.live) {
        auto& r = RowsOfFile(f);
        out.insert(out.end(), r.begin(), r.end());
    }
    return out;
}
inline std::string Diff(std::vector<Row> got, std::vector<Row> want) {
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got == want) return "";
    std::vector<Row> miss, more;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(more));
    std::string s = std::to_string(got.size()) + " rows, expected " + std::to_string(want.size());
    if (!miss.empty()) s += "; missing " + std::to_string(miss.size()) + " e.g. " + Str(miss[0]);
    if (!more.empty()) s += "; too many " + std::to_string(more.size()) + " e.g. " + Str(more[0]);
    return s;
}
}  // namespace tw
