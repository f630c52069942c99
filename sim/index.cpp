// Stored structures under damage and faults: C36 (decoding), C37 (file indexes) and C19 (messages
// between processes).

#include <algorithm>
#include <map>
#include <optional>
#include <set>

#include "arrow/api.h"
#include "arrow/c/bridge.h"
#include "dst.h"
#include "paimon/commit_message.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/data/blob_descriptor.h"
#include "paimon/common/file_index/bitmap/bitmap_file_index.h"
#include "paimon/common/file_index/bitmap/bitmap_file_index_meta_v1.h"
#include "paimon/common/file_index/bitmap/bitmap_file_index_meta_v2.h"
#include "paimon/common/file_index/bloomfilter/bloom_filter_file_index.h"
#include "paimon/common/file_index/bloomfilter/fast_hash.h"
#include "paimon/common/file_index/bsi/bit_slice_index_bitmap_file_index.h"
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/bloom_filter64.h"
#include "paimon/common/utils/delta_varint_compressor.h"
#include "paimon/core/deletionvectors/bitmap_deletion_vector.h"
#include "paimon/core/deletionvectors/deletion_vector.h"
#include "paimon/core/global_index/indexed_split_impl.h"
#include "paimon/core/index/index_file_meta.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/io/data_file_path_factory.h"
#include "paimon/core/io/file_index_evaluator.h"
#include "paimon/core/stats/simple_stats.h"
#include "paimon/core/table/sink/commit_message_impl.h"
#include "paimon/core/table/source/data_split_impl.h"
#include "paimon/core/table/source/deletion_file.h"
#include "paimon/data/timestamp.h"
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_format.h"
#include "paimon/file_index/file_index_writer.h"
#include "paimon/fs/file_system.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/predicate_builder.h"
#include "paimon/utils/roaring_bitmap32.h"
#include "paimon/utils/roaring_bitmap64.h"
#include "streams.h"

using namespace paimon;  // NOLINT
using dst::Chance;
using dst::Pick;
using simio::Faults;
using simio::Source;

// A decoder asked for an unreasonable amount of memory dies here (asan: allocation-size-too-big).
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:max_allocation_size_mb=256:allocator_may_return_null=0:handle_abort=0:abort_on_error=0";
}

namespace {
typedef unsigned long long ull;
std::shared_ptr<MemoryPool> g_pool;

// Bytes in an exactly sized heap block, so that a stray access is seen.
struct Exact {
    char* p;
    size_t n;
    explicit Exact(const std::string& s) : p(static_cast<char*>(malloc(s.size() ? s.size() : 1))), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { free(p); }
    Exact(const Exact&) = delete;
};
std::string Str(const Bytes* b) { return std::string(b->data(), b->size()); }

// ------------------------------------------------------------------ damage
enum Mode { kIntact, kTruncated, kForeign, kDamaged };
// The first `header` bytes are a version or magic number.
Mode Damage(std::string* s, size_t header = 0) {
    uint64_t m = Pick("mode", 4);
    if (m <= 1 && header && Pick("foreign", 4) == 1) {
        dst::Fault("foreign_header");
        (*s)[Pick("at", header)] ^= 1 + Pick("flip", 255);
        return kForeign;
    }
    if (m <= 1 || s->empty()) return kIntact;
    if (m == 2) {
        dst::Fault("truncated");
        size_t cut = 1 + Pick("cut", std::min<size_t>(s->size(), Chance("cutany", 0.5) ? s->size() : 12));
        s->resize(s->size() - cut);
        dst::Log("truncated to %d", (int)s->size());
        return kTruncated;
    }
    dst::Fault("damaged_bytes");
    int k = 1 + Pick("hits", 3);
    for (int i = 0; i < k; i++) {
        // most structure sits near the front
        size_t at = Chance("front", 0.6) ? Pick("at", std::min<size_t>(s->size(), 40)) : Pick("at", s->size());
        switch (Pick("how", 5)) {
            case 0: (*s)[at] ^= 1 << Pick("bit", 8); break;
            case 1: (*s)[at] = static_cast<char>(0xff); break;
            case 2: (*s)[at] = static_cast<char>(Pick("byte", 256)); break;
            case 3: {  // an integer field, either byte order
                static const uint32_t v[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 0x00010000, 0x40000000, 255, 0x01000000};
                uint32_t x = v[Pick("int", 10)];
                if (Pick("order", 2)) x = __builtin_bswap32(x);
                for (size_t j = 0; j < 4 && at + j < s->size(); j++) (*s)[at + j] = reinterpret_cast<char*>(&x)[j];
                break;
            }
            default: {  // a hole
                size_t n = std::min<size_t>(1 + Pick("hole", 32), s->size() - at);
                std::fill(s->begin() + at, s->begin() + at + n, 0);
            }
        }
    }
    dst::Log("damaged");
    return kDamaged;
}
void Judge(const char* what, Mode m, bool ok, const std::string& why, const std::string& got, const std::string& want) {
    dst::Log("%s mode %d -> %s", what, (int)m, ok ? "ok" : "error");
    if (m == kIntact) {
        DST_CHECK("C36", "intact-rejected", ok, "%s: bytes just encoded were rejected: %s", what, why.c_str());
        DST_CHECK("C36", "decoded-differently", got == want, "%s: decoded value differs\n got %.300s\nwant %.300s", what, got.c_str(), want.c_str());
    } else if (m == kTruncated) {
        DST_CHECK("C36", "truncated-accepted", !ok, "%s: truncated bytes were accepted as %.200s", what, got.c_str());
        dst::NonTrivial();
    } else {
        DST_CHECK("C36", "foreign-accepted", m != kForeign || !ok, "%s: bytes of another version or kind were accepted as %.200s", what, got.c_str());
        dst::NonTrivial();
    }
}

// ------------------------------------------------------------------ value makers
std::set<int32_t> MakeSet32(bool small = false) {
    std::set<int32_t> s;
    int parts = Pick("parts", small ? 2 : 4);
    for (int i = 0; i < parts; i++) {
        int64_t base = Pick("key", small ? 1 : 5) * 65536ll;
        if (!small && Chance("high", 0.1)) base = 0x7fff0000ll;
        switch (Pick("shape", small ? 2 : 4)) {
            case 0: {  // sparse
                int n = 1 + Pick("n", 12);
                for (int j = 0; j < n; j++) s.insert(base + dst::Aux() % 65536);
                break;
            }
            case 1: {  // run
                int64_t st = dst::Aux() % 60000;
                int n = 1 + Pick("n", 200);
                for (int j = 0; j < n; j++) s.insert(std::min<int64_t>(base + st + j, 0x7fffffff));
                break;
            }
            case 2: {  // dense, becomes a bitset container
                int n = 4090 + Pick("dn", 20);
                for (int j = 0; j < n; j++) s.insert(base + j * 13 % 65536);
                break;
            }
            default: s.insert(base + (Pick("edge", 2) ? 65535 : 0));
        }
    }
    return s;
}
template <class T>
std::string SetStr(const T& s) {
    std::string r = std::to_string(s.size()) + ":";
    for (auto v : s) r += std::to_string(v) + ",";
    return r;
}
RoaringBitmap32 ToBitmap(const std::set<int32_t>& s) {
    RoaringBitmap32 b;
    for (auto v : s) b.Add(v);
    return b;
}
const int kMaxIter = 2000000;
std::string BmStr(const RoaringBitmap32& b) {
    std::string r = std::to_string(b.Cardinality()) + ":";
    int n = 0;
    for (auto it = b.Begin(); it != b.End(); ++it) {
        r += std::to_string(*it) + ",";
        if (++n > kMaxIter) break;
    }
    return r;
}
std::string BmStr(const RoaringBitmap64& b) {
    std::string r = std::to_string(b.Cardinality()) + ":";
    int n = 0;
    for (auto it = b.Begin(); it != b.End(); ++it) {
        r += std::to_string(*it) + ",";
        if (++n > kMaxIter) break;
    }
    return r;
}
// A decoded value must be usable.
void Use(const RoaringBitmap32& b) {
    RoaringBitmap32 o = RoaringBitmap32::From({1, 5, 70000});
    RoaringBitmap32 c = b;
    c |= o;
    (void)c.Contains(5);
    c &= b;
    c -= o;
    auto bytes = b.Serialize(g_pool.get());
    (void)bytes;
}
std::set<int64_t> MakeSet64() {
    std::set<int64_t> s;
    int parts = Pick("parts64", 4);
    for (int i = 0; i < parts; i++) {
        int64_t hi = std::vector<int64_t>{0, 1, 0x7fffffff, 5}[Pick("hi", 4)] << 32;
        for (auto v : MakeSet32(Chance("small", 0.7))) s.insert(hi + v);
        if (Chance("edge64", 0.2)) s.insert(hi + 0xffffffffll);
    }
    return s;
}
RoaringBitmap64 ToBitmap(const std::set<int64_t>& s) {
    RoaringBitmap64 b;
    for (auto v : s) b.Add(v);
    return b;
}

// ------------------------------------------------------------------ C36
void Bitmap32Case() {
    auto s = MakeSet32();
    std::string enc = Str(ToBitmap(s).Serialize(g_pool.get()).get());
    RoaringBitmap32 d;
    if (Chance("dirty", 0.3)) d = RoaringBitmap32::From({3, 9});  // the target may hold something
    if (Chance("instream", 0.5)) {
        // several bitmaps behind each other in one stream
        auto s2 = MakeSet32(true);
        std::string enc2 = Str(ToBitmap(s2).Serialize(g_pool.get()).get());
        std::string all = "xy" + enc + enc2;
        Mode m = Damage(&all);
        Exact e(all);
        ByteArrayInputStream in(e.p, e.n);
        RoaringBitmap32 d2;
        Status st = in.Seek(2, FS_SEEK_SET);
        if (st.ok()) st = d.Deserialize(&in);
        if (st.ok()) st = d2.Deserialize(&in);
        std::string got;
        if (st.ok()) {
            got = BmStr(d) + "|" + BmStr(d2);
            Use(d);
        }
        Judge("bitmap32 stream", m, st.ok(), st.ToString(), got, SetStr(s) + "|" + SetStr(s2));
        if (m == kIntact) {
            auto p = in.GetPos();
            DST_CHECK("C36", "stream-position", p.ok() && p.value() == static_cast<int64_t>(all.size()), "bitmap32: the stream stands at %lld of %d after decoding", p.ok() ? (long long)p.value() : -1ll, (int)all.size());
        }
    } else {
        Mode m = Damage(&enc);
        Exact e(enc);
        Status st = d.Deserialize(e.p, e.n);
        std::string got;
        if (st.ok()) {
            got = BmStr(d);
            Use(d);
        }
        Judge("bitmap32", m, st.ok(), st.ToString(), got, SetStr(s));
    }
}
void Bitmap64Case() {
    auto s = MakeSet64();
    std::string enc = Str(ToBitmap(s).Serialize(g_pool.get()).get());
    RoaringBitmap64 d;
    if (Chance("dirty", 0.3)) d = RoaringBitmap64::From({3, 9});
    bool stream = Chance("instream", 0.5);
    if (stream) {
        auto s2 = MakeSet64();
        std::string enc2 = Str(ToBitmap(s2).Serialize(g_pool.get()).get());
        std::string all = enc + enc2;
        Mode m = Damage(&all);
        Exact e(all);
        ByteArrayInputStream in(e.p, e.n);
        RoaringBitmap64 d2;
        Status st = d.Deserialize(&in);
        if (st.ok()) st = d2.Deserialize(&in);
        std::string got;
        if (st.ok()) got = BmStr(d) + "|" + BmStr(d2);
        Judge("bitmap64 stream", m, st.ok(), st.ToString(), got, SetStr(s) + "|" + SetStr(s2));
        if (m == kIntact) {
            auto p = in.GetPos();
            DST_CHECK("C36", "stream-position", p.ok() && p.value() == static_cast<int64_t>(all.size()), "bitmap64: the stream stands at %lld of %d after decoding", p.ok() ? (long long)p.value() : -1ll, (int)all.size());
        }
    } else {
        Mode m = Damage(&enc);
        Exact e(enc);
        Status st = d.Deserialize(e.p, e.n);
        std::string got;
        if (st.ok()) {
            got = BmStr(d);
            RoaringBitmap64 c = d;
            c |= RoaringBitmap64::From({1, 1ll << 33});
            c &= d;
        }
        Judge("bitmap64", m, st.ok(), st.ToString(), got, SetStr(s));
    }
}
void BsiCase() {
    int64_t lo = Pick("min", 2) ? 0 : static_cast<int64_t>(dst::Aux() % 1000);
    int bits = Pick("bits", 40);
    int64_t hi = lo + static_cast<int64_t>(dst::Aux() % ((1ull << bits)));
    if (Chance("full", 0.05)) lo = 0, hi = INT64_MAX;
    auto ap = BitSliceIndexRoaringBitmap::Appender::Create(lo, hi);
    if (!ap.ok()) dst::HarnessError("bsi appender: %s", ap.status().ToString().c_str());
    std::map<int32_t, int64_t> rows;
    int n = Pick("rows", 20);
    for (int i = 0; i < n; i++) {
        int32_t rid = static_cast<int32_t>(dst::Aux() % 200);
        if (rows.count(rid)) continue;
        int64_t v = Chance("edge", 0.3) ? (Pick("e", 2) ? lo : hi) : lo + static_cast<int64_t>(dst::Aux() % (static_cast<uint64_t>(hi - lo) + 1));
        rows[rid] = v;
        Status st = ap.value()->Append(rid, v);
        DST_CHECK("C36", "append-refused", st.ok(), "bit-sliced index refused value %lld of [%lld,%lld]: %s", (long long)v, (long long)lo, (long long)hi, st.ToString().c_str());
    }
    std::string enc = Str(ap.value()->Serialize(g_pool).get());
    Mode m = Damage(&enc);
    Exact e(enc);
    auto in = std::make_shared<ByteArrayInputStream>(e.p, e.n);
    auto r = BitSliceIndexRoaringBitmap::Create(in);
    std::string got, want;
    int q = 1 + Pick("queries", 4);
    std::vector<std::pair<int, int64_t>> qs;
    for (int i = 0; i < q; i++) {
        int64_t lit;
        if (!rows.empty() && Chance("hit", 0.6)) {
            auto it = rows.begin();
            std::advance(it, Pick("row", rows.size()));
            lit = it->second + static_cast<int64_t>(Pick("d", 3)) - 1;
        } else {
            lit = Pick("lk", 3) == 0 ? lo - 1 : Pick("lk2", 2) ? hi : hi / 2;
        }
        qs.push_back({static_cast<int>(Pick("op", 5)), lit});
    }
    for (auto& [op, lit] : qs) {
        std::set<int32_t> w;
        for (auto& [rid, v] : rows) {
            bool hit = op == 0 ? v == lit : op == 1 ? v < lit : op == 2 ? v <= lit : op == 3 ? v > lit : v >= lit;
            if (hit) w.insert(rid);
        }
        want += std::to_string(op) + "(" + std::to_string(lit) + ")" + SetStr(w) + ";";
        if (r.ok()) {
            auto& b = *r.value();
            Result<RoaringBitmap32> x = op == 0 ? b.Equal(lit) : op == 1 ? b.LessThan(lit) : op == 2 ? b.LessOrEqual(lit) : op == 3 ? b.GreaterThan(lit) : b.GreaterOrEqual(lit);
            got += std::to_string(op) + "(" + std::to_string(lit) + ")" + (x.ok() ? BmStr(x.value()) : x.status().ToString()) + ";";
        }
    }
    Judge("bit-sliced index", m, r.ok(), r.ok() ? "" : r.status().ToString(), got, want);
}
Literal IntLit(int64_t v) { return Literal(static_cast<int32_t>(v)); }
void MetaCase() {
    bool v2 = Pick("v2", 2);
    bool text = Pick("text", 2);
    FieldType ft = text ? FieldType::STRING : FieldType::INT;
    std::map<int, std::pair<int, int>> want;
    int n = Pick("entries", 12);
    std::vector<BitmapFileIndexMeta::Entry> entries;
    int32_t off = 0;
    bool has_null = Pick("null", 2);
    int32_t null_off = has_null && Pick("nullinline", 2) ? -1 - static_cast<int32_t>(Pick("row", 50)) : 0;
    int32_t null_len = 1 + Pick("nlen", 30);
    if (has_null && null_off == 0) off += null_len;
    auto lit = [&](int v) {
        if (!text) return IntLit(v * 3 - 10);
        std::string s = "k" + std::string(1 + v % 3, 'a') + std::to_string(1000 + v);
        return Literal(FieldType::STRING, s.data(), s.size());
    };
    std::vector<int> keys;
    for (int i = 0; i < n; i++) keys.push_back(i * 2);
    for (int k : keys) {
        if (Chance("inline", 0.4)) {
            int32_t o = -1 - static_cast<int32_t>(Pick("row", 50));
            entries.emplace_back(lit(k), o, -1);
            want[k] = {o, -1};
        } else {
            int32_t l = 1 + Pick("len", 40);
            entries.emplace_back(lit(k), off, l);
            want[k] = {off, l};
            off += l;
        }
    }
    BitmapFileIndexMeta::Entry ne(Literal(ft), null_off, null_off < 0 ? -1 : null_len);
    auto out = std::make_shared<MemorySegmentOutputStream>(64, g_pool);
    out->SetOrder(ByteOrder::PAIMON_BIG_ENDIAN);
    int lead = Pick("lead", 20);
    for (int i = 0; i < lead; i++) out->WriteValue<int8_t>(7);
    std::map<std::string, std::string> opts;
    if (Pick("blocks", 2)) opts[BitmapFileIndex::INDEX_BLOCK_SIZE] = std::to_string(32 + Pick("bs", 60)) + "b";
    Status st;
    int rows = 50;
    if (v2) {
        BitmapFileIndexMetaV2 w(ft, rows, has_null, ne, std::move(entries), opts, g_pool);
        st = w.Serialize(out);
    } else {
        BitmapFileIndexMetaV1 w(ft, rows, has_null, ne, std::move(entries), g_pool);
        st = w.Serialize(out);
    }
    DST_CHECK("C36", "encode-failed", st.ok(), "bitmap index metadata v%d: %s", v2 ? 2 : 1, st.ToString().c_str());
    std::string enc = Str(MemorySegmentUtils::CopyToBytes(out->Segments(), 0, out->CurrentSize(), g_pool.get()).get());
    int64_t body = enc.size();
    int total = enc.size() - lead + off;
    Mode m = Damage(&enc);
    Faults f;
    std::shared_ptr<InputStream> in;
    Exact e(enc);
    if (Pick("src", 2)) {
        f.p_short = 0.3 * Pick("pshort", 3);
        f.p_err = 0.1 * Pick("perr", 3);
        auto s = std::make_shared<Source>(&f);
        s->text = &enc;
        s->len = enc.size();
        in = s;
    } else {
        in = std::make_shared<ByteArrayInputStream>(e.p, e.n);
    }
    std::shared_ptr<BitmapFileIndexMeta> meta;
    if (v2)
        meta = std::make_shared<BitmapFileIndexMetaV2>(ft, total, g_pool);
    else
        meta = std::make_shared<BitmapFileIndexMetaV1>(ft, lead, total, g_pool);
    st = in->Seek(std::min<size_t>(lead, enc.size()), FS_SEEK_SET);
    if (st.ok()) st = meta->Deserialize(in);
    bool faulty = f.errors + f.shorts > 0;
    if (!st.ok()) {
        if (m == kIntact && !faulty) dst::Violate("C36", "intact-rejected", "bitmap index metadata v%d: %s", v2 ? 2 : 1, st.ToString().c_str());
        dst::Log("meta rejected");
        dst::NonTrivial();
        return;
    }
    if (m == kTruncated && lead + 9 > static_cast<int>(enc.size())) dst::Violate("C36", "truncated-accepted", "bitmap index metadata v%d: a header of %d bytes was accepted", v2 ? 2 : 1, (int)enc.size() - lead);
    if (m == kIntact) {
        DST_CHECK("C36", "decoded-differently", meta->GetRowCount() == rows, "bitmap index metadata v%d: row count %d", v2 ? 2 : 1, meta->GetRowCount());
        DST_CHECK("C36", "decoded-differently", meta->GetBodyStart() == body, "bitmap index metadata v%d: body starts at %lld, expected %lld", v2 ? 2 : 1, (long long)meta->GetBodyStart(), (long long)body);
    }
    for (int k = -1; k <= n * 2; k++) {
        for (int tries = 0; tries < 2; tries++) {
            uint64_t b4 = f.errors + f.shorts;
            auto r = k < 0 ? meta->FindEntry(Literal(ft)) : meta->FindEntry(lit(k));
            bool hurt = f.errors + f.shorts > b4;
            if (m == kDamaged) break;
            if (!r.ok()) {
                DST_CHECK("C36", "intact-rejected", hurt || m == kTruncated, "bitmap index metadata v%d: FindEntry failed: %s", v2 ? 2 : 1, r.status().ToString().c_str());
                continue;
            }
            bool expect = k < 0 ? has_null : want.count(k);
            const char* after = tries ? " (on a second try)" : "";
            DST_CHECK("C36", "decoded-differently", (r.value() != nullptr) == expect, "bitmap index metadata v%d: key %d %s%s", v2 ? 2 : 1, k, expect ? "is missing" : "was found though never written", after);
            if (expect && k >= 0) {
                DST_CHECK("C36", "decoded-differently", r.value()->offset == want[k].first && (want[k].first < 0 || r.value()->length == want[k].second), "bitmap index metadata v%d: key %d is at %d+%d, expected %d+%d%s", v2 ? 2 : 1, k,
                          r.value()->offset, r.value()->length, want[k].first, want[k].second, after);
            } else if (expect) {
                DST_CHECK("C36", "decoded-differently", r.value()->offset == null_off && (null_off < 0 || r.value()->length == null_len), "bitmap index metadata v%d: the null entry is at %d+%d, expected %d+%d%s", v2 ? 2 : 1,
                          r.value()->offset, r.value()->length, null_off, null_len, after);
            }
            break;
        }
    }
    if (m == kTruncated || m == kDamaged || faulty) dst::NonTrivial();
}

struct OneFileFs : public FileSystem {
    std::string content;
    Faults* f = nullptr;
    double p_open = 0;
    Result<std::unique_ptr<InputStream>> Open(const std::string& path) const override {
        if (p_open > 0 && Chance("fs.open", p_open)) {
            f->errors++;
            dst::Fault("open_error");
            return Status::IOError("injected open error");
        }
        auto s = std::make_unique<Source>(f);
        s->text = &content;
        s->len = content.size();
        return std::unique_ptr<InputStream>(std::move(s));
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string&, bool) const override { return Status::NotImplemented("no"); }
    Status Mkdirs(const std::string&) const override { return Status::NotImplemented("no"); }
    Status Rename(const std::string&, const std::string&) const override { return Status::NotImplemented("no"); }
    Status Delete(const std::string&, bool) const override { return Status::NotImplemented("no"); }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string&) const override { return Status::NotImplemented("no"); }
    Status ListDir(const std::string&, std::vector<std::unique_ptr<BasicFileStatus>>*) const override { return Status::NotImplemented("no"); }
    Status ListFileStatus(const std::string&, std::vector<std::unique_ptr<FileStatus>>*) const override { return Status::NotImplemented("no"); }
    Result<bool> Exists(const std::string&) const override { return true; }
};

std::string DvStr(DeletionVector* dv) {
    auto* b = dynamic_cast<BitmapDeletionVector*>(dv);
    return b ? BmStr(*b->GetBitmap()) : "?";
}
void DeletionVectorCase() {
    auto s = MakeSet32();
    BitmapDeletionVector dv{RoaringBitmap32()};
    for (auto v : s) {
        if (Pick("checked", 2)) {
            auto r = dv.CheckedDelete(v);
            DST_CHECK("C36", "checked-delete", r.ok() && r.value(), "deletion vector: first deletion of %d reported %s", v, r.ok() ? "already deleted" : r.status().ToString().c_str());
        } else {
            (void)dv.Delete(v);
        }
    }
    auto enc = dv.SerializeToBytes(g_pool);
    DST_CHECK("C36", "encode-failed", enc.ok(), "deletion vector: %s", enc.status().ToString().c_str());
    std::string bytes = Str(enc.value().get());
    if (Pick("file", 2)) {
        // as stored in an index file: length, vector, checksum; several behind each other
        auto be = [](uint32_t v) {
            v = __builtin_bswap32(v);
            return std::string(reinterpret_cast<char*>(&v), 4);
        };
        std::string lead(Pick("lead", 30), 'q');
        OneFileFs fs;
        Faults f;
        fs.f = &f;
        f.p_short = 0.3 * Pick("pshort", 3);
        f.p_err = 0.15 * Pick("perr", 3);
        fs.p_open = 0.1 * Pick("popen", 2);
        std::string all = lead + be(bytes.size()) + bytes + be(1234) + be(bytes.size()) + bytes;
        Mode m = Damage(&all);
        if (m == kTruncated && all.size() >= lead.size() + 4 + bytes.size()) m = kIntact;  // the cut is behind it
        fs.content = all;
        DeletionFile df("f", lead.size(), bytes.size(), std::nullopt);
        auto r = DeletionVector::Read(&fs, df, g_pool.get());
        if (!r.ok() && f.errors + f.shorts > 0) {
            dst::Log("read failed after a fault");
            dst::NonTrivial();
            return;
        }
        if (f.errors) DST_CHECK("C36", "fault-ignored", m == kDamaged || (r.ok() && DvStr(r.value().get()) == SetStr(s)), "deletion vector: a failing read was ignored");
        Judge("deletion vector file", m, r.ok(), r.ok() ? "" : r.status().ToString(), r.ok() ? DvStr(r.value().get()) : "", SetStr(s));
    } else {
        Mode m = Damage(&bytes, 4);
        Exact e(bytes);
        auto r = BitmapDeletionVector::Deserialize(e.p, e.n, g_pool.get());
        if (r.ok() && m == kIntact) {
            for (int i = 0; i < 20; i++) {
                int64_t p = s.empty() || Pick("q", 2) ? static_cast<int64_t>(dst::Aux() % 300000) : *std::next(s.begin(), Pick("i", s.size()));
                auto d = r.value()->IsDeleted(p);
                DST_CHECK("C36", "decoded-differently", d.ok() && d.value() == (s.count(p) > 0), "deletion vector: position %lld reported %s", (long long)p, d.ok() ? (d.value() ? "deleted" : "live") : d.status().ToString().c_str());
            }
        }
        Judge("deletion vector", m, r.ok(), r.ok() ? "" : r.status().ToString(), r.ok() ? DvStr(r.value().get()) : "", SetStr(s));
    }
}
void ResultCase() {
    auto s = MakeSet64();
    while (s.size() > 300) s.erase(s.begin());
    bool vec = Pick("vec", 2);
    std::shared_ptr<GlobalIndexResult> res;
    std::string want = SetStr(s);
    if (vec) {
        std::vector<float> sc;
        for (size_t i = 0; i < s.size(); i++) sc.push_back(static_cast<float>(dst::Aux() % 1000) / 7);
        if (!s.empty())
            for (auto x : sc) want += std::to_string(x) + ",";
        res = std::make_shared<BitmapVectorSearchGlobalIndexResult>(ToBitmap(s), std::move(sc));
    } else {
        res = std::make_shared<BitmapGlobalIndexResult>([s]() -> Result<RoaringBitmap64> { return ToBitmap(s); });
    }
    auto enc = GlobalIndexResult::Serialize(res, g_pool);
    DST_CHECK("C36", "encode-failed", enc.ok(), "index result: %s", enc.status().ToString().c_str());
    std::string bytes = Str(enc.value().get());
    Mode m = Damage(&bytes, 4);
    Exact e(bytes);
    auto r = GlobalIndexResult::Deserialize(e.p, e.n, g_pool);
    std::string got;
    if (r.ok()) {
        if (auto v = std::dynamic_pointer_cast<BitmapVectorSearchGlobalIndexResult>(r.value())) {
            auto b = v->GetBitmap();
            got = BmStr(*b.value());
            for (auto x : v->GetScores()) got += std::to_string(x) + ",";
            auto it = v->CreateVectorSearchIterator();
            while (it.ok() && it.value()->HasNext()) it.value()->NextWithScore();
        } else if (auto b2 = std::dynamic_pointer_cast<BitmapGlobalIndexResult>(r.value())) {
            auto b = b2->GetBitmap();
            got = b.ok() ? BmStr(*b.value()) : b.status().ToString();
        }
    }
    Judge(vec ? "scored index result" : "index result", m, r.ok(), r.ok() ? "" : r.status().ToString(), got, want);
}
void VarintCase() {
    std::vector<int64_t> v;
    int n = Pick("n", 30);
    int64_t cur = 0;
    for (int i = 0; i < n; i++) {
        switch (Pick("vk", 5)) {
            case 0: cur += Pick("d", 200); break;
            case 1: cur -= Pick("d", 200000); break;
            case 2: cur = static_cast<int64_t>(dst::Aux()); break;
            case 3: cur = Pick("ext", 2) ? INT64_MAX : INT64_MIN; break;
            default: cur = static_cast<int64_t>(dst::Aux() >> Pick("sh", 64));
        }
        v.push_back(cur);
    }
    auto enc = DeltaVarintCompressor::Compress(v);
    std::string bytes(enc.begin(), enc.end());
    Mode m = Damage(&bytes);
    std::vector<char> in(bytes.begin(), bytes.end());
    in.shrink_to_fit();
    auto r = DeltaVarintCompressor::Decompress(in);
    std::string got = r.ok() ? SetStr(r.value()) : "";
    if (m == kTruncated && (bytes.empty() || !(static_cast<unsigned char>(bytes.back()) & 0x80))) {
        // cut between two elements: the rest must be a prefix
        DST_CHECK("C36", "decoded-differently", r.ok() && r.value().size() <= v.size() && std::equal(r.value().begin(), r.value().end(), v.begin()), "integer list: cut between two elements, the rest is not a prefix");
        return;
    }
    Judge("integer list", m, r.ok(), r.ok() ? "" : r.status().ToString(), got, SetStr(v));
}
void BlobCase() {
    std::string uri;
    int n = Chance("longuri", 0.1) ? 1 + Pick("un", 70000) : Pick("un", 60);
    for (int i = 0; i < n; i++) uri.push_back(static_cast<char>(dst::Aux()));
    static const int64_t edge[] = {0, 1, 4096, INT64_MAX, 1ll << 33};
    int64_t off = edge[Pick("off", 5)], len = Pick("dyn", 3) == 0 ? -1 : edge[Pick("len", 5)];
    auto d = BlobDescriptor::Create(uri, off, len);
    DST_CHECK("C36", "encode-failed", d.ok(), "blob descriptor: %s", d.status().ToString().c_str());
    std::string bytes = Str(d.value()->Serialize(g_pool).get());
    Mode m = Damage(&bytes, 1);
    Exact e(bytes);
    auto r = BlobDescriptor::Deserialize(e.p, e.n);
    auto show = [](BlobDescriptor& b) { return b.Uri() + "@" + std::to_string(b.Offset()) + "+" + std::to_string(b.Length()); };
    Judge("blob descriptor", m, r.ok(), r.ok() ? "" : r.status().ToString(), r.ok() ? show(*r.value()) : "", show(*d.value()));
}

// ------------------------------------------------------------------ C37
enum Ty { kInt, kBig, kStr, kTiny, kSmall, kBool, kDate, kTsMs, kTsUs, kTyN };
const int64_t kMin64 = INT64_MIN;
struct Column {
    std::string name;
    Ty ty;
    int64_t step = 1;  // distance of neighbouring values
    std::vector<std::optional<int64_t>> rows;
    std::shared_ptr<arrow::DataType> Type() const {
        switch (ty) {
            case kInt: return arrow::int32();
            case kBig: return arrow::int64();
            case kStr: return arrow::utf8();
            case kTiny: return arrow::int8();
            case kSmall: return arrow::int16();
            case kBool: return arrow::boolean();
            case kDate: return arrow::date32();
            case kTsMs: return arrow::timestamp(arrow::TimeUnit::MILLI);
            default: return arrow::timestamp(arrow::TimeUnit::MICRO);
        }
    }
    FieldType Field() const {
        static const FieldType t[] = {FieldType::INT, FieldType::BIGINT, FieldType::STRING, FieldType::TINYINT, FieldType::SMALLINT, FieldType::BOOLEAN, FieldType::DATE, FieldType::TIMESTAMP, FieldType::TIMESTAMP};
        return t[ty];
    }
    static std::string Text(int64_t v) {
        char b[32];
        snprintf(b, sizeof b, "s%04lld", (long long)(v + 1000));
        return std::string(b) + std::string(v & 1 ? 5 : 0, 'x');
    }
    Literal Lit(int64_t v) const {
        switch (ty) {
            case kInt: return Literal(static_cast<int32_t>(v));
            case kBig: return Literal(static_cast<int64_t>(v));
            case kStr: {
                std::string s = Text(v);
                return Literal(FieldType::STRING, s.data(), s.size());
            }
            case kTiny: return Literal(static_cast<int8_t>(v));
            case kSmall: return Literal(static_cast<int16_t>(v));
            case kBool: return Literal(v != 0);
            case kDate: return Literal(FieldType::DATE, static_cast<int32_t>(v));
            case kTsMs: return Literal(Timestamp(v, 0));
            default: return Literal(Timestamp(v / 1000 - (v % 1000 < 0), (v % 1000 + (v % 1000 < 0 ? 1000 : 0)) * 1000));
        }
    }
    std::shared_ptr<arrow::Array> Array() const {
        auto mb = arrow::MakeBuilder(Type());
        auto b = std::move(mb).ValueOrDie();
        for (auto& v : rows) {
            arrow::Status st;
            if (!v) {
                st = b->AppendNull();
            } else {
                switch (ty) {
                    case kInt: st = static_cast<arrow::Int32Builder*>(b.get())->Append(*v); break;
                    case kBig: st = static_cast<arrow::Int64Builder*>(b.get())->Append(*v); break;
                    case kStr: st = static_cast<arrow::StringBuilder*>(b.get())->Append(Text(*v)); break;
                    case kTiny: st = static_cast<arrow::Int8Builder*>(b.get())->Append(*v); break;
                    case kSmall: st = static_cast<arrow::Int16Builder*>(b.get())->Append(*v); break;
                    case kBool: st = static_cast<arrow::BooleanBuilder*>(b.get())->Append(*v != 0); break;
                    case kDate: st = static_cast<arrow::Date32Builder*>(b.get())->Append(*v); break;
                    default: st = static_cast<arrow::TimestampBuilder*>(b.get())->Append(*v); break;
                }
            }
            if (!st.ok()) dst::HarnessError("array builder: %s", st.ToString().c_str());
        }
        std::shared_ptr<arrow::Array> a;
        if (!b->Finish(&a).ok()) dst::HarnessError("array finish");
        return a;
    }
};
struct Pred {
    int op = 0;  // 0 eq 1 ne 2 lt 3 le 4 gt 5 ge 6 null 7 notnull 8 in 9 notin 10 and 11 or 12 between
    int col = 0;
    std::vector<int64_t> v;
    std::vector<Pred> kids;
    bool Match(const std::vector<Column>& cols, size_t row) const {
        if (op == 10) {
            for (auto& k : kids)
                if (!k.Match(cols, row)) return false;
            return true;
        }
        if (op == 11) {
            for (auto& k : kids)
                if (k.Match(cols, row)) return true;
            return false;
        }
        auto x = cols[col].rows[row];
        if (op == 6) return !x;
        if (op == 7) return x.has_value();
        if (!x) return false;
        switch (op) {
            case 0: return *x == v[0];
            case 1: return *x != v[0];
            case 2: return *x < v[0];
            case 3: return *x <= v[0];
            case 4: return *x > v[0];
            case 5: return *x >= v[0];
            case 8: return std::count(v.begin(), v.end(), *x) > 0;
            case 9: return std::count(v.begin(), v.end(), *x) == 0;
            default: return *x >= v[0] && *x <= v[1];
        }
    }
    std::shared_ptr<Predicate> Build(const std::vector<Column>& cols) const {
        if (op == 10 || op == 11) {
            std::vector<std::shared_ptr<Predicate>> ps;
            for (auto& k : kids) ps.push_back(k.Build(cols));
            auto r = op == 10 ? PredicateBuilder::And(ps) : PredicateBuilder::Or(ps);
            if (!r.ok()) dst::HarnessError("predicate: %s", r.status().ToString().c_str());
            return r.value();
        }
        const Column& c = cols[col];
        FieldType t = c.Field();
        std::vector<Literal> ls;
        for (auto x : v) ls.push_back(c.Lit(x));
        switch (op) {
            case 0: return PredicateBuilder::Equal(col, c.name, t, ls[0]);
            case 1: return PredicateBuilder::NotEqual(col, c.name, t, ls[0]);
            case 2: return PredicateBuilder::LessThan(col, c.name, t, ls[0]);
            case 3: return PredicateBuilder::LessOrEqual(col, c.name, t, ls[0]);
            case 4: return PredicateBuilder::GreaterThan(col, c.name, t, ls[0]);
            case 5: return PredicateBuilder::GreaterOrEqual(col, c.name, t, ls[0]);
            case 6: return PredicateBuilder::IsNull(col, c.name, t);
            case 7: return PredicateBuilder::IsNotNull(col, c.name, t);
            case 8: return PredicateBuilder::In(col, c.name, t, ls);
            case 9: return PredicateBuilder::NotIn(col, c.name, t, ls);
            default: return PredicateBuilder::Between(col, c.name, t, ls[0], ls[1]);
        }
    }
    std::string Show(const std::vector<Column>& cols) const {
        static const char* n[] = {"=", "!=", "<", "<=", ">", ">=", "is null", "is not null", "in", "not in", "and", "or", "between"};
        if (op == 10 || op == 11) {
            std::string s = "(";
            for (auto& k : kids) s += (s.size() > 1 ? std::string(" ") + n[op] + " " : "") + k.Show(cols);
            return s + ")";
        }
        std::string s = cols[col].name + " " + n[op];
        for (auto x : v) s += " " + std::to_string(x);
        return s;
    }
};
int64_t Spread(const Column& c, int64_t v) {
    if (c.step == 1) return v;
    v *= c.step;
    if (Pick("near", 4) == 0) v += static_cast<int64_t>(Pick("off", 3)) - 1;
    return v;
}
int64_t DomainValue(const Column& c, int width) {
    if (c.ty == kBool) return Pick("val", 2);
    int64_t v = static_cast<int64_t>(Pick("val", width)) - (c.ty == kStr ? 0 : width / 3);
    return Spread(c, v);
}
int64_t LitValue(const Column& c, int width) {
    if (c.ty == kBool) return Pick("lit", 2);
    if (Chance("extreme", 0.06)) {
        switch (c.ty) {
            case kInt: case kDate: return Pick("ex", 2) ? INT32_MAX : INT32_MIN;
            case kBig: return Pick("ex", 2) ? INT64_MAX : kMin64;
            case kTiny: return Pick("ex", 2) ? 127 : -128;
            case kSmall: return Pick("ex", 2) ? 32767 : -32768;
            default: break;
        }
    }
    return Spread(c, static_cast<int64_t>(Pick("lit", width + 4)) - 2 - (c.ty == kStr ? 0 : width / 3));
}
Pred MakePred(const std::vector<Column>& cols, int width, int depth) {
    Pred p;
    if (depth > 0 && Chance("compound", 0.4)) {
        p.op = 10 + Pick("andor", 2);
        int n = 2 + Pick("kids", 2);
        for (int i = 0; i < n; i++) p.kids.push_back(MakePred(cols, width, depth - 1));
        return p;
    }
    p.col = Pick("pcol", cols.size());
    static const int ops[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12};
    p.op = ops[Pick("pop", 11)];
    const Column& c = cols[p.col];
    if (c.ty == kBool && p.op >= 2 && p.op <= 5) p.op = 0;
    if (c.ty == kBool && p.op == 12) p.op = 0;
    int n = p.op == 6 || p.op == 7 ? 0 : p.op == 8 || p.op == 9 ? 1 + Pick("inlen", 4) : p.op == 12 ? 2 : 1;
    for (int i = 0; i < n; i++) p.v.push_back(LitValue(c, width));
    if (p.op == 12 && p.v[0] > p.v[1]) std::swap(p.v[0], p.v[1]);
    return p;
}
std::string BE32(uint32_t v) {
    v = __builtin_bswap32(v);
    return std::string(reinterpret_cast<char*>(&v), 4);
}
std::string BE64(uint64_t v) {
    v = __builtin_bswap64(v);
    return std::string(reinterpret_cast<char*>(&v), 8);
}
std::string Utf(const std::string& s) {
    uint16_t n = __builtin_bswap16(static_cast<uint16_t>(s.size()));
    return std::string(reinterpret_cast<char*>(&n), 2) + s;
}
// An index payload for the column, written by the library's own writer where it has one.
std::string BitmapPayload(const Column& c) {
    std::map<std::string, std::string> o;
    o[BitmapFileIndex::VERSION] = Pick("ver", 2) ? "2" : "1";
    if (Pick("blk", 2)) o[BitmapFileIndex::INDEX_BLOCK_SIZE] = std::to_string(40 + Pick("blksz", 80)) + "b";
    BitmapFileIndex idx(o);
    auto schema = arrow::schema({arrow::field(c.name, c.Type())});
    ArrowSchema cs;
    if (!arrow::ExportSchema(*schema, &cs).ok()) dst::HarnessError("export schema");
    auto w = idx.CreateWriter(&cs, g_pool);
    if (!w.ok()) dst::HarnessError("bitmap writer: %s", w.status().ToString().c_str());
    auto sa = arrow::StructArray::Make({c.Array()}, {arrow::field(c.name, c.Type())});
    auto st = std::move(sa).ValueOrDie();
    // in one or two batches
    size_t cutat = c.rows.empty() ? 0 : Pick("batchcut", c.rows.size() + 1);
    for (int part = 0; part < 2; part++) {
        int64_t a = part ? cutat : 0, n = part ? c.rows.size() - cutat : cutat;
        if (n == 0) continue;
        auto sl = arrow::MakeArray(st->data());
        ArrowArray ca;
        auto piece = n == static_cast<int64_t>(c.rows.size()) ? sl : sl->Slice(a, n);
        if (!arrow::ExportArray(*piece, &ca).ok()) dst::HarnessError("export array");
        Status r = w.value()->AddBatch(&ca);
        if (!r.ok()) dst::Violate("C37", "index-write-failed", "bitmap index writer: %s", r.ToString().c_str());
    }
    auto b = w.value()->SerializedBytes();
    if (!b.ok()) dst::Violate("C37", "index-write-failed", "bitmap index writer: %s", b.status().ToString().c_str());
    return Str(b.value().get());
}
std::string BsiPayload(const Column& c) {
    // positive and negative rows are kept apart, as the format prescribes
    int64_t pmin = 0, pmax = 0, nmin = 0, nmax = 0;
    bool hp = false, hn = false;
    for (auto& v : c.rows) {
        if (!v) continue;
        if (*v >= 0) {
            pmin = hp ? std::min(pmin, *v) : *v, pmax = hp ? std::max(pmax, *v) : *v, hp = true;
        } else {
            nmin = hn ? std::min(nmin, -*v) : -*v, nmax = hn ? std::max(nmax, -*v) : -*v, hn = true;
        }
    }
    auto part = [&](bool neg, int64_t lo, int64_t hi) {
        auto ap = BitSliceIndexRoaringBitmap::Appender::Create(lo, hi);
        if (!ap.ok()) dst::HarnessError("appender: %s", ap.status().ToString().c_str());
        for (size_t i = 0; i < c.rows.size(); i++) {
            if (!c.rows[i] || (*c.rows[i] < 0) != neg) continue;
            Status st = ap.value()->Append(i, neg ? -*c.rows[i] : *c.rows[i]);
            if (!st.ok()) dst::Violate("C37", "index-write-failed", "bit-sliced index appender: %s", st.ToString().c_str());
        }
        return Str(ap.value()->Serialize(g_pool).get());
    };
    std::string s = std::string(1, 1) + BE32(c.rows.size());
    s += std::string(1, hp ? 1 : 0);
    if (hp) s += part(false, pmin, pmax);
    s += std::string(1, hn ? 1 : 0);
    if (hn) s += part(true, nmin, nmax);
    return s;
}
std::string BloomPayload(const Column& c) {
    // the writer's estimate may exceed the rows it then gets
    int items = std::max<int>(1, c.rows.size()) * std::vector<int>{1, 1, 10, 1000}[Pick("estimate", 4)];
    double fpp = std::vector<double>{0.1, 0.01, 0.3}[Pick("fpp", 3)];
    int32_t nb = static_cast<int32_t>(-items * std::log(fpp) / (std::log(2) * std::log(2)));
    int bits = nb + (8 - (nb % 8));
    int k = std::max(1, static_cast<int>(std::round(static_cast<double>(bits) / items * std::log(2))));
    auto bytes = std::make_shared<Bytes>(bits / 8, g_pool.get());
    memset(bytes->data(), 0, bytes->size());
    auto h = FastHash::GetHashFunction(c.Type());
    if (!h.ok()) dst::HarnessError("hash: %s", h.status().ToString().c_str());
    for (auto& v : c.rows)
        if (v) {
            uint64_t x = static_cast<uint64_t>(h.value()(c.Lit(*v)));
            uint32_t h1 = static_cast<uint32_t>(x), h2 = static_cast<uint32_t>(x >> 32);
            for (int i = 1; i <= k; i++) {
                uint32_t m = h1 + static_cast<uint32_t>(i) * h2;
                if (m >> 31) m = ~m;
                m %= bits;
                bytes->data()[m / 8] |= static_cast<char>(1 << (m % 8));
            }
        }
    return BE32(k) + Str(bytes.get());
}
std::string Container(const std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::optional<std::string>>>>>& cols) {
    // header length is known once the names are; payloads follow it
    size_t head = 8 + 4 + 4 + 4;
    for (auto& [n, idx] : cols) {
        head += 2 + n.size() + 4;
        for (auto& [t, p] : idx) head += 2 + t.size() + 8;
    }
    head += 4;  // redundant length
    std::string h = BE64(FileIndexFormat::MAGIC) + BE32(FileIndexFormat::V_1) + BE32(head) + BE32(cols.size()), body;
    for (auto& [n, idx] : cols) {
        h += Utf(n) + BE32(idx.size());
        for (auto& [t, p] : idx) {
            h += Utf(t);
            if (!p) {
                h += BE32(static_cast<uint32_t>(FileIndexFormat::EMPTY_INDEX_FLAG)) + BE32(0);
            } else {
                h += BE32(head + body.size()) + BE32(p->size());
                body += *p;
            }
        }
    }
    h += BE32(0);
    return h + body;
}
struct Query {
    Pred p;
    std::set<int32_t> match;
};
// "never hides a matching row"
bool g_damaged = false;  // the index bytes are damaged: only memory safety is judged
bool Superset(const Query& q, const std::shared_ptr<FileIndexResult>& res, const std::vector<Column>& cols, const std::string& ctx, std::string* why) {
    if (auto bm = std::dynamic_pointer_cast<BitmapIndexResult>(res)) {
        auto b = bm->GetBitmap();
        if (!b.ok()) {
            *why = b.status().ToString();
            return false;
        }
        if (g_damaged) {
            (void)BmStr(*b.value());
            return true;
        }
        for (auto r : q.match)
            DST_CHECK("C37", "matching-row-hidden", b.value()->Contains(r), "%s: row %d matches %s but the index leaves it out (index answer %s)", ctx.c_str(), r, q.p.Show(cols).c_str(), b.value()->ToString().substr(0, 200).c_str());
        dst::Log("bitmap answer, %d of %d rows match", (int)b.value()->Cardinality(), (int)q.match.size());
        return true;
    }
    auto r = res->IsRemain();
    if (!r.ok()) {
        *why = r.status().ToString();
        return false;
    }
    if (g_damaged) return true;
    DST_CHECK("C37", "matching-row-hidden", r.value() || q.match.empty(), "%s: %d rows match %s but the index says skip", ctx.c_str(), (int)q.match.size(), q.p.Show(cols).c_str());
    dst::Log("answer %s, %d rows match", r.value() ? "remain" : "skip", (int)q.match.size());
    return true;
}
void IndexRun() {
    int ncol = 1 + Pick("cols", 2);
    int nrow = Chance("big", 0.1) ? 1 + Pick("rows", 400) : Pick("rows", 24);
    int width = std::vector<int>{4, 12, 60}[Pick("width", 3)];
    std::vector<Column> cols(ncol);
    for (int i = 0; i < ncol; i++) {
        cols[i].name = "f" + std::to_string(i);
        cols[i].ty = static_cast<Ty>(Pick("type", kTyN));
        if (Chance("wide", 0.4)) {
            static const int64_t big[] = {1 << 15, (1ll << 31) - 1, 1ll << 33, 1ll << 40, 1ll << 50};
            if (cols[i].ty == kBig) cols[i].step = big[Pick("step", 5)];
            if (cols[i].ty == kInt || cols[i].ty == kDate) cols[i].step = 1 << (8 + Pick("step", 10));
            if (cols[i].ty == kTsMs || cols[i].ty == kTsUs) cols[i].step = Pick("step", 2) ? 86400000 : 1ll << 33;
        }
        double pn = 0.2 * Pick("nulls", 4);
        if (Chance("allnull", 0.04)) pn = 1;
        for (int r = 0; r < nrow; r++) {
            if (Chance("null", pn))
                cols[i].rows.push_back(std::nullopt);
            else
                cols[i].rows.push_back(DomainValue(cols[i], width));
        }
    }
    std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::optional<std::string>>>>> cont;
    std::string kinds;
    for (auto& c : cols) {
        std::vector<std::pair<std::string, std::optional<std::string>>> idx;
        bool all_null = std::all_of(c.rows.begin(), c.rows.end(), [](auto& v) { return !v; });
        if (Pick("bm", 2)) idx.push_back({"bitmap", BitmapPayload(c)});
        if (c.ty != kStr && c.ty != kBool && Pick("bsi", 2)) idx.push_back({"bsi", BsiPayload(c)});
        if (c.ty != kBool && Pick("bloom", 2)) idx.push_back({"bloom-filter", BloomPayload(c)});
        if (all_null && Pick("empty", 2)) idx = {{"bitmap", std::nullopt}};
        if (Chance("unknown", 0.1)) idx.push_back({"from-the-future", std::string("???")});
        for (auto& [t, p] : idx) kinds += c.name + ":" + t + (p ? "" : "(empty)") + " ";
        if (!idx.empty() || Pick("listed", 2)) cont.push_back({c.name, idx});
    }
    std::string content = Container(cont);
    bool trunc = false;
    g_damaged = false;
    if (dst::Opt().prop == "C36") {
        Mode m = Damage(&content);
        g_damaged = m == kDamaged;
        trunc = m == kTruncated;
    } else if (Chance("trunc", 0.15)) {
        trunc = true;
        size_t cut = 1 + Pick("cutlen", content.size());
        content.resize(content.size() - cut);
        dst::Fault("truncated_index");
    }
    dst::Log("index [%s] rows %d%s", kinds.c_str(), nrow, trunc ? " truncated" : "");
    arrow::FieldVector fv;
    for (auto& c : cols) fv.push_back(arrow::field(c.name, c.Type()));
    auto schema = arrow::schema(fv);
    Faults f;
    double perr = 0.12 * Pick("perr", 3), pshort = 0.15 * Pick("pshort", 3);
    int nq = 1 + Pick("queries", 6);
    std::string ctx = "index " + kinds + (trunc ? "(truncated) " : "");
    OneFileFs fs_impl;
    auto fs = std::shared_ptr<OneFileFs>(&fs_impl, [](OneFileFs*) {});
    fs_impl.content = content;
    fs_impl.f = &f;
    auto make_query = [&] {
        Query q;
        q.p = MakePred(cols, width, 2);
        for (int r = 0; r < nrow; r++)
            if (q.p.Match(cols, r)) q.match.insert(r);
        return q;
    };
    auto fail_ok = [&](uint64_t before, const std::string& why) {
        DST_CHECK("C37", "index-unusable", trunc || g_damaged || f.errors + f.shorts > before, "%s: an intact index was refused without any fault: %s", ctx.c_str(), why.c_str());
        dst::NonTrivial();
        dst::Log("error");
    };
    if (Pick("api", 2)) {
        // through the evaluator, as table scans and reads do
        bool embedded = Pick("embedded", 2);
        std::shared_ptr<Bytes> eb;
        if (embedded) {
            eb = std::make_shared<Bytes>(content.size(), g_pool.get());
            memcpy(eb->data(), content.data(), content.size());
        }
        std::vector<std::optional<std::string>> extra;
        if (!embedded) extra.push_back("data-1.orc.index");
        auto meta = std::make_shared<DataFileMeta>("data-1.orc", 1000, nrow, BinaryRow::EmptyRow(), BinaryRow::EmptyRow(), SimpleStats::EmptyStats(), SimpleStats::EmptyStats(), 0, 0, 0, 0, extra, Timestamp(0, 0), 0, eb,
                                                   std::nullopt, std::nullopt, std::nullopt, std::nullopt, std::nullopt);
        auto pf = std::make_shared<DataFilePathFactory>();
        if (!pf->Init("/t/bucket-0", "orc", "data-", nullptr).ok()) dst::HarnessError("path factory");
        for (int i = 0; i < nq; i++) {
            Query q = make_query();
            f.p_err = perr, f.p_short = pshort, fs_impl.p_open = perr / 2;
            uint64_t before = f.errors + f.shorts;
            auto pred = q.p.Build(cols);
            Result<std::shared_ptr<FileIndexResult>> r = embedded && Pick("scan", 2) ? FileIndexEvaluator::Evaluate(schema, pred, meta, g_pool) : FileIndexEvaluator::Evaluate(schema, pred, pf, meta, fs, g_pool);
            std::string why;
            for (int t = 0; t < 3; t++) {  // lazily read answers may be asked again after an error
                if (!r.ok()) {
                    fail_ok(before, r.status().ToString());
                    break;
                }
                if (Superset(q, r.value(), cols, ctx, &why)) break;
                fail_ok(before, why);
                if (t == 1) f.p_err = f.p_short = 0;
            }
        }
    } else {
        // long-lived readers of one open index file
        f.p_err = perr / 2, f.p_short = pshort / 2, fs_impl.p_open = 0;
        auto open = fs->Open("x");
        std::shared_ptr<InputStream> in = std::move(open).value();
        uint64_t before = f.errors + f.shorts;
        auto fr = FileIndexFormat::CreateReader(in, g_pool);
        if (!fr.ok()) {
            fail_ok(before, fr.status().ToString());
            return;
        }
        std::vector<std::vector<std::shared_ptr<FileIndexReader>>> readers(ncol);
        for (int i = 0; i < ncol; i++) {
            ArrowSchema cs;
            if (!arrow::ExportSchema(*schema, &cs).ok()) dst::HarnessError("export schema");
            before = f.errors + f.shorts;
            auto rr = fr.value()->ReadColumnIndex(cols[i].name, &cs);
            if (!rr.ok()) {
                fail_ok(before, rr.status().ToString());
                return;
            }
            readers[i] = rr.value();
        }
        for (int i = 0; i < nq; i++) {
            Query q;
            q.p = MakePred(cols, width, 0);
            if (q.p.op == 12) q.p.op = 0;
            for (int r = 0; r < nrow; r++)
                if (q.p.Match(cols, r)) q.match.insert(r);
            const Column& c = cols[q.p.col];
            std::vector<Literal> ls;
            for (auto x : q.p.v) ls.push_back(c.Lit(x));
            if (readers[q.p.col].empty()) continue;
            auto rd = readers[q.p.col][Pick("reader", readers[q.p.col].size())];
            f.p_err = perr, f.p_short = pshort;
            before = f.errors + f.shorts;
            auto ask = [&]() -> Result<std::shared_ptr<FileIndexResult>> {
                switch (q.p.op) {
                    case 0: return rd->VisitEqual(ls[0]);
                    case 1: return rd->VisitNotEqual(ls[0]);
                    case 2: return rd->VisitLessThan(ls[0]);
                    case 3: return rd->VisitLessOrEqual(ls[0]);
                    case 4: return rd->VisitGreaterThan(ls[0]);
                    case 5: return rd->VisitGreaterOrEqual(ls[0]);
                    case 6: return rd->VisitIsNull();
                    case 7: return rd->VisitIsNotNull();
                    case 8: return rd->VisitIn(ls);
                    default: return rd->VisitNotIn(ls);
                }
            };
            auto r = ask();
            std::string why;
            for (int t = 0; t < 3; t++) {
                if (!r.ok()) {
                    fail_ok(before, r.status().ToString());
                    r = ask();
                    continue;
                }
                if (Superset(q, r.value(), cols, ctx, &why)) break;
                fail_ok(before, why);
                if (t == 1) f.p_err = f.p_short = 0;
                if (Pick("askagain", 2)) r = ask();
            }
        }
    }
    if (f.errors + f.shorts > 0) dst::NonTrivial();
}

// ------------------------------------------------------------------ messages between processes (C19)
std::string Text(size_t max) {
    size_t n = Chance("textlong", 0.1) ? dst::Aux() % (max + 1) : Pick("textlen", 20);
    std::string s(n, ' ');
    for (auto& c : s) c = static_cast<char>(Chance("textany", 0.02) ? dst::Aux() % 256 : 'a' + dst::Aux() % 26);
    return s;
}
int64_t Num() {
    static const int64_t v[] = {0, 1, -1, 127, 128, 65535, 0x7fffffffll, 0x80000000ll, INT64_MAX, INT64_MIN};
    return Chance("numedge", 0.4) ? v[Pick("num", 10)] : static_cast<int64_t>(dst::Aux() >> (dst::Aux() % 64));
}
BinaryRow MakeRow() {
    int n = Pick("arity", 5);
    if (n == 0) return BinaryRow::EmptyRow();
    BinaryRow row(n);
    BinaryRowWriter w(&row, 0, g_pool.get());
    for (int i = 0; i < n; i++) {
        switch (Pick("field", 5)) {
            case 0: w.SetNullAt(i); break;
            case 1: w.WriteInt(i, static_cast<int32_t>(Num())); break;
            case 2: w.WriteLong(i, Num()); break;
            default: w.WriteString(i, BinaryString::FromString(Text(300), g_pool.get()));
        }
    }
    w.Complete();
    return row;
}
SimpleStats MakeStats() {
    if (Pick("nostats", 2)) return SimpleStats::EmptyStats();
    std::vector<int64_t> nulls(Pick("nulls", 5));
    for (auto& x : nulls) x = Num();
    return SimpleStats(MakeRow(), MakeRow(), BinaryArray::FromLongArray(nulls, g_pool.get()));
}
std::vector<std::string> Names(int max) {
    std::vector<std::string> v(Pick("names", max + 1));
    for (auto& s : v) s = Text(60);
    return v;
}
std::shared_ptr<DataFileMeta> MakeFile() {
    std::vector<std::optional<std::string>> extra;
    for (auto& s : Names(3)) extra.push_back(s);
    std::shared_ptr<Bytes> emb;
    if (Pick("embedded", 2)) emb = std::make_shared<Bytes>(Text(9000), g_pool.get());
    auto opt = [](const char* n) { return Pick(n, 2) != 0; };
    return std::make_shared<DataFileMeta>(
        Text(200), Num(), Num(), MakeRow(), MakeRow(), MakeStats(), MakeStats(), Num(), Num(), Num(), static_cast<int>(Pick("level", 6)), extra,
        Timestamp(static_cast<int64_t>(dst::Aux() % 4102444800000ull), 0), opt("dels") ? std::optional<int64_t>(Num()) : std::nullopt, emb,
        opt("source") ? std::optional<FileSource>(Pick("append", 2) ? FileSource::Append() : FileSource::Compact()) : std::nullopt,
        opt("scols") ? std::optional<std::vector<std::string>>(Names(4)) : std::nullopt, opt("ext") ? std::optional<std::string>(Text(300)) : std::nullopt,
        opt("rowid") ? std::optional<int64_t>(Num()) : std::nullopt, opt("wcols") ? std::optional<std::vector<std::string>>(Names(4)) : std::nullopt);
}
std::vector<std::shared_ptr<DataFileMeta>> MakeFiles() {
    int n = Chance("manyfiles", 0.02) ? 10 + Pick("more", 40) : Pick("files", 3);
    std::vector<std::shared_ptr<DataFileMeta>> v;
    for (int i = 0; i < n; i++) v.push_back(MakeFile());
    return v;
}
std::vector<std::shared_ptr<IndexFileMeta>> MakeIndexFiles() {
    std::vector<std::shared_ptr<IndexFileMeta>> v;
    int n = Pick("indexes", 3);
    for (int i = 0; i < n; i++) {
        std::optional<LinkedHashMap<std::string, DeletionVectorMeta>> dv;
        if (Pick("dv", 2)) {
            LinkedHashMap<std::string, DeletionVectorMeta> m;
            int k = 1 + Pick("dvs", 4);
            for (int j = 0; j < k; j++) {
                std::string name = Text(50) + std::to_string(j);
                m.insert(name, DeletionVectorMeta(name, static_cast<int32_t>(Num()), static_cast<int32_t>(Num()), Pick("card", 2) ? std::optional<int64_t>(Num()) : std::nullopt));
            }
            dv = m;
        }
        std::optional<GlobalIndexMeta> g;
        if (Pick("global", 2)) {
            std::optional<std::vector<int32_t>> extra;
            if (Pick("gextra", 2)) {
                std::vector<int32_t> e(Pick("gn", 4));
                for (auto& x : e) x = static_cast<int32_t>(Num());
                extra = e;
            }
            g = GlobalIndexMeta(Num(), Num(), static_cast<int32_t>(Num()), extra, Pick("gmeta", 2) ? std::make_shared<Bytes>(Text(5000), g_pool.get()) : nullptr);
        }
        v.push_back(std::make_shared<IndexFileMeta>(Text(20), Text(60), Num(), Num(), dv, Pick("iext", 2) ? std::optional<std::string>(Text(100)) : std::nullopt, g));
    }
    return v;
}
std::shared_ptr<CommitMessage> MakeMessage() {
    return std::make_shared<CommitMessageImpl>(MakeRow(), static_cast<int32_t>(Num()), Pick("total", 2) ? std::optional<int32_t>(static_cast<int32_t>(Num())) : std::nullopt,
                                               DataIncrement(MakeFiles(), MakeFiles(), MakeFiles(), MakeIndexFiles(), MakeIndexFiles()),
                                               CompactIncrement(MakeFiles(), MakeFiles(), MakeFiles(), MakeIndexFiles(), MakeIndexFiles()));
}
std::vector<std::optional<DeletionFile>> MakeDeletions(size_t n) {
    std::vector<std::optional<DeletionFile>> v;
    if (n == 0 || Pick("nodel", 2)) return v;
    for (size_t i = 0; i < n; i++) {
        if (Pick("hasdel", 2)) {
            v.push_back(DeletionFile(Text(200), Num(), Num(), Pick("delcard", 2) ? std::optional<int64_t>(Pick("delcardv", 100000)) : std::nullopt));
        } else {
            v.push_back(std::nullopt);
        }
    }
    return v;
}
std::shared_ptr<DataSplitImpl> MakeSplit() {
    auto files = MakeFiles();
    auto before = MakeFiles();
    auto bd = MakeDeletions(before.size());
    auto dd = MakeDeletions(files.size());
    int32_t bucket = static_cast<int32_t>(Num());
    if (bucket == -1) bucket = 0;
    DataSplitImpl::Builder b(MakeRow(), bucket, Text(1000), std::move(files));
    b.WithSnapshot(Num()).WithBeforeFiles(std::move(before)).IsStreaming(Pick("streaming", 2)).RawConvertible(Pick("raw", 2));
    if (Pick("stotal", 2)) b.WithTotalBuckets(static_cast<int32_t>(Num()));
    if (!bd.empty()) b.WithBeforeDeletionFiles(bd);
    if (!dd.empty()) b.WithDataDeletionFiles(dd);
    auto r = b.Build();
    if (!r.ok()) dst::HarnessError("building a split: %s", r.status().ToString().c_str());
    return r.value();
}
// Lengths at which the message is cut: some of the last ones, which miss least, and any others.
template <class F>
void EveryCut(size_t n, F f) {
    for (int i = 0; i < 10 && n > 0; i++) f(n - 1 - dst::Aux() % std::min<size_t>(n, 24));
    for (int i = 0; i < 20 && n > 0; i++) f(dst::Aux() % n);
}
void MessageRun() {
    auto eq = [](const std::shared_ptr<CommitMessage>& a, const std::shared_ptr<CommitMessage>& b) {
        auto x = std::dynamic_pointer_cast<CommitMessageImpl>(a), y = std::dynamic_pointer_cast<CommitMessageImpl>(b);
        return x && y && *x == *y;
    };
    int cuts = 0;
    int kind = Pick("kind", 4);
    std::string bytes;
    if (kind == 0) {
        auto m = MakeMessage();
        auto ser = CommitMessage::Serialize(m, g_pool);
        DST_CHECK("C19", "not-serialized", ser.ok(), "a commit message cannot be serialized: %s", ser.status().ToString().c_str());
        bytes = ser.value();
        Exact e(bytes);
        auto back = CommitMessage::Deserialize(CommitMessage::CurrentVersion(), e.p, e.n, g_pool);
        DST_CHECK("C19", "intact-rejected", back.ok(), "an intact commit message of %d bytes is rejected: %s", (int)e.n, back.status().ToString().c_str());
        DST_CHECK("C19", "not-equal", eq(m, back.value()), "a commit message of %d bytes comes back different", (int)e.n);
        auto again = CommitMessage::Serialize(back.value(), g_pool);
        DST_CHECK("C19", "not-equal", again.ok() && again.value() == bytes, "a commit message of %d bytes comes back different (bytes)", (int)e.n);
        auto newer = CommitMessage::Deserialize(CommitMessage::CurrentVersion() + 1 + Pick("newer", 3), e.p, e.n, g_pool);
        DST_CHECK("C19", "unknown-version", !newer.ok(), "a commit message of an unknown version is accepted");
        EveryCut(bytes.size(), [&](size_t n) {
            Exact c(bytes.substr(0, n));
            auto r = CommitMessage::Deserialize(CommitMessage::CurrentVersion(), c.p, c.n, g_pool);
            DST_CHECK("C19", "truncated-accepted", !r.ok(), "%d of the %d bytes of a commit message are accepted", (int)n, (int)bytes.size());
            cuts++;
        });
    } else if (kind == 1) {
        std::vector<std::shared_ptr<CommitMessage>> list;
        int n = Pick("messages", 4);
        for (int i = 0; i < n; i++) list.push_back(MakeMessage());
        auto ser = CommitMessage::SerializeList(list, g_pool);
        DST_CHECK("C19", "not-serialized", ser.ok(), "commit messages cannot be serialized: %s", ser.status().ToString().c_str());
        bytes = ser.value();
        Exact e(bytes);
        auto back = CommitMessage::DeserializeList(CommitMessage::CurrentVersion(), e.p, e.n, g_pool);
        DST_CHECK("C19", "intact-rejected", back.ok(), "an intact list of %d commit messages is rejected: %s", n, back.status().ToString().c_str());
        DST_CHECK("C19", "not-equal", back.value().size() == list.size(), "%d commit messages come back as %d", n, (int)back.value().size());
        for (int i = 0; i < n; i++) DST_CHECK("C19", "not-equal", eq(list[i], back.value()[i]), "commit message %d of %d comes back different", i, n);
        EveryCut(bytes.size(), [&](size_t k) {
            Exact c(bytes.substr(0, k));
            auto r = CommitMessage::DeserializeList(CommitMessage::CurrentVersion(), c.p, c.n, g_pool);
            DST_CHECK("C19", "truncated-accepted", !r.ok(), "%d of the %d bytes of %d commit messages are accepted", (int)k, (int)bytes.size(), n);
            cuts++;
        });
    } else {
        auto data = MakeSplit();
        std::shared_ptr<Split> split = data;
        std::shared_ptr<IndexedSplitImpl> indexed;
        if (kind == 3) {
            std::vector<Range> ranges;
            int n = Pick("ranges", 6);
            for (int i = 0; i < n; i++) {
                int64_t a = Num(), b = Num();
                ranges.emplace_back(std::min(a, b), std::max(a, b));
            }
            std::vector<float> scores(Pick("scores", 6));
            for (auto& x : scores) x = static_cast<float>(dst::Aux() % 1000) / 8;
            indexed = std::make_shared<IndexedSplitImpl>(data, ranges, scores);
            split = indexed;
        }
        auto ser = Split::Serialize(split, g_pool);
        DST_CHECK("C19", "not-serialized", ser.ok(), "a split cannot be serialized: %s", ser.status().ToString().c_str());
        bytes = ser.value();
        Exact e(bytes);
        auto back = Split::Deserialize(e.p, e.n, g_pool);
        DST_CHECK("C19", "intact-rejected", back.ok(), "an intact split of %d bytes is rejected: %s", (int)e.n, back.status().ToString().c_str());
        bool same;
        if (indexed) {
            auto b = std::dynamic_pointer_cast<IndexedSplitImpl>(back.value());
            same = b && *b == *indexed;
        } else {
            auto b = std::dynamic_pointer_cast<DataSplitImpl>(back.value());
            same = b && *b == *data;
        }
        DST_CHECK("C19", "not-equal", same, "a split of %d bytes comes back different", (int)e.n);
        auto again = Split::Serialize(back.value(), g_pool);
        DST_CHECK("C19", "not-equal", again.ok() && again.value() == bytes, "a split of %d bytes comes back different (bytes)", (int)e.n);
        EveryCut(bytes.size(), [&](size_t k) {
            Exact c(bytes.substr(0, k));
            auto r = Split::Deserialize(c.p, c.n, g_pool);
            DST_CHECK("C19", "truncated-accepted", !r.ok(), "%d of the %d bytes of a split are accepted", (int)k, (int)bytes.size());
            cuts++;
        });
        std::string tail = bytes + std::string(2 + Pick("tail", 20), static_cast<char>(dst::Aux()));
        Exact t(tail);
        auto r = Split::Deserialize(t.p, t.n, g_pool);
        DST_CHECK("C19", "trailing-accepted", !r.ok(), "a split followed by %d stray bytes is accepted", (int)(tail.size() - bytes.size()));
    }
    for (int i = 0; i < cuts; i++) dst::Fault("truncated");
    dst::Log("kind %d, %d bytes, %d cuts", kind, (int)bytes.size(), cuts);
    dst::StateStr(std::to_string(kind) + ":" + bytes);
    dst::NonTrivial();
}
}  // namespace

void DstInit() { g_pool = GetDefaultPool(); }
const char* DstRule() {
    if (dst::Opt().prop == "C19") return "a run serializes one message and decodes it intact and cut short at many lengths; every run is non-trivial";
    return dst::Opt().prop == "C36" ? "a run encodes one structure and decodes it intact, truncated, damaged or through a faulty source; non-trivial = damaged, truncated or faulted"
                                    : "a run builds one index file over generated rows and asks 1-6 queries; non-trivial = a read of the index failed, was short, or the file was truncated";
}
void DstRun() {
    if (dst::Opt().prop == "C19") {
        MessageRun();
        return;
    }
    if (dst::Opt().prop == "C37") {
        IndexRun();
        return;
    }
    switch (Pick("kind", 10)) {
        case 0: Bitmap32Case(); break;
        case 1: Bitmap64Case(); break;
        case 2: BsiCase(); break;
        case 3: MetaCase(); break;
        case 4: DeletionVectorCase(); break;
        case 5: ResultCase(); break;
        case 6: VarintCase(); break;
        case 7: BlobCase(); break;
        default: IndexRun(); break;
    }
}
