// Input/output streams over faulty sources and sinks: C20-C23.
#include <sys/mman.h>

#include <algorithm>
#include <thread>

#include "dst.h"
#include "paimon/common/io/data_output_stream.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/common/io/offset_input_stream.h"
#include "paimon/common/memory/memory_segment_utils.h"
#include "paimon/common/utils/stream_utils.h"
#include "paimon/io/buffered_input_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "streams.h"

using namespace paimon;  // NOLINT
using dst::Chance;
using dst::Pick;
using simio::ByteAt;
using simio::Faults;
using simio::Sink;
using simio::Source;

namespace {
typedef unsigned long long ull;

// A stack of stream layers and the window of the content it must present.
struct Stack {
    std::shared_ptr<InputStream> in;
    uint64_t salt = 0, base = 0, len = 0;
    const std::string* text = nullptr;
    bool buffered_below = false;  // positional reads may be refused
    std::string name;
    std::shared_ptr<std::string> own;
    const char* raw = nullptr;     // content lives in memory
    char At(uint64_t i) const {
        if (raw) return raw[base + i];
        return text ? (*text)[base + i] : ByteAt(salt, base + i);
    }
};

const uint64_t kGi = 1ull << 30;

// ---- sparse in-memory source of several GiB, created on demand
struct Huge {
    char* p = nullptr;
    uint64_t len = 0;
} g_huge;
Huge& GetHuge() {
    if (!g_huge.p) {
        g_huge.len = 5 * kGi;
        void* m = mmap(nullptr, g_huge.len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) dst::HarnessError("mmap of the sparse source failed");
        g_huge.p = static_cast<char*>(m);
        for (uint64_t c : {uint64_t(0), kGi, 2 * kGi, 4 * kGi, 5 * kGi}) {
            for (int64_t d = -200; d < 200; d++) {
                int64_t i = static_cast<int64_t>(c) + d;
                if (i >= 0 && i < static_cast<int64_t>(g_huge.len)) g_huge.p[i] = ByteAt(7, i) | 1;
            }
        }
    }
    return g_huge;
}

uint64_t PickLen(bool big) {
    if (!big) return Pick("len", 260);
    switch (Pick("biglen", 4)) {
        case 0: return 2 * kGi - 50 + Pick("biglo", 100);
        case 1: return 4 * kGi - 50 + Pick("biglo", 100);
        case 2: return 3 * kGi + Pick("biglo", 100);
        default: return 5 * kGi;
    }
}
// A position that is interesting in a window of n bytes.
uint64_t PickPos(uint64_t n) {
    if (n < 400) return Pick("pos", n + 1);
    uint64_t c[] = {0, 2 * kGi, 4 * kGi, n, n / 2};
    uint64_t b = c[Pick("posc", 5)];
    int64_t p = static_cast<int64_t>(b) + static_cast<int64_t>(Pick("posd", 120)) - 60;
    if (p < 0) p = 0;
    if (p > static_cast<int64_t>(n)) p = n;
    return p;
}

Stack MakeLeaf(Faults* f, bool big, bool memory) {
    Stack s;
    s.salt = dst::Aux() % 1000003;
    if (memory) {
        if (big) {
            Huge& h = GetHuge();
            s.raw = h.p;
            s.len = std::min(PickLen(true), h.len);
        } else {
            s.len = PickLen(false);
            s.own = std::make_shared<std::string>();
            for (uint64_t i = 0; i < s.len; i++) s.own->push_back(ByteAt(s.salt, i));
            s.own->shrink_to_fit();
            // exact-size heap block so that a stray access is seen
            char* p = static_cast<char*>(malloc(s.len ? s.len : 1));
            memcpy(p, s.own->data(), s.len);
            s.raw = p;
        }
        s.in = std::make_shared<ByteArrayInputStream>(s.raw, s.len);
        s.name = "bytes";
    } else {
        auto src = std::make_shared<Source>(f);
        src->salt = s.salt;
        src->len = s.len = PickLen(big);
        s.in = src;
        s.name = "source";
    }
    return s;
}
bool AddWindow(Stack* s, Faults* f, const char* prop) {
    uint64_t off = PickPos(s->len);
    int64_t n;
    bool to_end = Chance("win.end", 0.3);
    n = to_end ? -1 : static_cast<int64_t>(PickPos(s->len - off));
    bool bad = Chance("win.bad", 0.15);
    int64_t o = off;
    if (bad) {
        switch (Pick("win.badkind", 4)) {
            case 0: o = -1 - static_cast<int64_t>(Pick("win.badlo", 5)); break;
            case 1: o = s->len + 1 + Pick("win.badlo", 5); break;
            case 2: n = -2 - static_cast<int64_t>(Pick("win.badlo", 5)); break;
            default: n = s->len - off + 1 + Pick("win.badlo", 5); break;
        }
    }
    uint64_t e0 = f->errors;
    auto r = OffsetInputStream::Create(s->in, n, o);
    dst::Log("window(%lld,%lld) over %llu: %d", (long long)o, (long long)n, (ull)s->len, (int)r.ok());
    if (bad) {
        DST_CHECK(prop, "bad-window-accepted", !r.ok(), "a window (offset %lld, length %lld) was created over %llu bytes", (long long)o, (long long)n, (ull)s->len);
        return true;
    }
    if (!r.ok()) {
        DST_CHECK(prop, "window-refused", f->errors > e0, "a valid window (offset %lld, length %lld) over %llu bytes was refused: %s", (long long)o, (long long)n, (ull)s->len, r.status().ToString().c_str());
        return false;
    }
    s->in = std::shared_ptr<InputStream>(std::move(r).value());
    s->base += off;
    s->len = to_end ? s->len - off : n;
    s->name = "window(" + s->name + ")";
    return true;
}
void AddBuffer(Stack* s) {
    static const std::shared_ptr<MemoryPool> pool = GetMemoryPool();
    int32_t sz = static_cast<int32_t>(1 + Pick("buf.size", 40));
    s->in = std::make_shared<BufferedInputStream>(s->in, sz, pool.get());
    s->buffered_below = true;
    s->name = "buffered[" + std::to_string(sz) + "](" + s->name + ")";
}

bool SameBytes(const Stack& s, uint64_t at, const char* b, uint64_t n, uint64_t* bad) {
    for (uint64_t i = 0; i < n; i++)
        if (b[i] != s.At(at + i)) {
            *bad = i;
            return false;
        }
    return true;
}

// Destination buffer of exactly n bytes with a check that nothing beyond the result is relied upon.
struct Buf {
    std::unique_ptr<char[]> p;
    explicit Buf(uint64_t n) : p(new char[n ? n : 1]) { memset(p.get(), 0x5a, n ? n : 1); }
};

// ================================================================ C20 / C21
// strict: a failing call must leave the position alone (windows, in-memory); otherwise (buffered)
// the position after a failure is whatever is reported, as long as bytes agree with it.
void RunOps(Stack& s, Faults* f, const char* prop, bool strict) {
    int64_t pos = 0;
    {   // a freshly made stream stands at the start of its window
        uint64_t e0 = f->errors;
        auto r = s.in->GetPos();
        if (r.ok())
            DST_CHECK(prop, "initial-position", r.value() == 0, "%s starts at %lld", s.name.c_str(), (long long)r.value());
        else
            DST_CHECK(prop, "unjustified-error", f->errors > e0, "%s GetPos failed: %s", s.name.c_str(), r.status().ToString().c_str());
    }
    int ops = 3 + static_cast<int>(Pick("ops", 14));
    bool after_failure = false;
    int64_t len = static_cast<int64_t>(s.len);
    for (int i = 0; i < ops; i++) {
        uint64_t e0 = f->errors, m0 = f->moved;
        int kind = static_cast<int>(Pick("op", 10));
        bool failed = false;
        if (kind <= 3) {  // sequential read
            uint64_t left = pos <= len ? len - pos : 0;
            uint32_t n = static_cast<uint32_t>(Pick("op.n", 48));
            if (Chance("op.over", 0.12)) n = static_cast<uint32_t>(std::min<uint64_t>(left, 2000) + 1 + Pick("op.overn", 9));
            Buf b(n);
            auto r = s.in->Read(b.p.get(), n);
            if (r.ok()) {
                int64_t v = r.value();
                dst::Log("read %u at %lld -> %lld", n, (long long)pos, (long long)v);
                DST_CHECK(prop, "read-count", v >= 0 && v <= static_cast<int64_t>(n), "%s: read of %u returned %lld", s.name.c_str(), n, (long long)v);
                DST_CHECK(prop, "read-outside-window", pos + v <= len, "%s: read of %u at %lld returned %lld bytes, the window has %lld", s.name.c_str(), n, (long long)pos, (long long)v, (long long)len);
                uint64_t bad = 0;
                DST_CHECK(prop, after_failure ? "wrong-bytes-after-failure" : "wrong-bytes", SameBytes(s, pos, b.p.get(), v, &bad),
                          "%s: byte %llu of a read of %u at position %lld differs from the content", s.name.c_str(), (ull)bad, n, (long long)pos);
                if (v < static_cast<int64_t>(n) && pos + v < len)
                    DST_CHECK(prop, "short-result", strict && f->shorts > 0, "%s: read of %u at %lld returned only %lld although %lld follow", s.name.c_str(), n, (long long)pos, (long long)v, (long long)(len - pos));
                pos += v;
            } else {
                failed = true;
                dst::Log("read %u at %lld -> error", n, (long long)pos);
                bool reason = f->errors > e0 || static_cast<int64_t>(n) > len - pos;
                DST_CHECK(prop, after_failure ? "stuck-after-failure" : "unjustified-error", reason, "%s: read of %u at %lld (length %lld) failed without a fault: %s", s.name.c_str(), n, (long long)pos, (long long)len, r.status().ToString().c_str());
                if (!strict) {
                    // resynchronise from the reported position
                    Result<int64_t> g = s.in->GetPos();
                    for (int k = 0; k < 50 && !g.ok(); k++) g = s.in->GetPos();
                    if (!g.ok()) return;
                    bool nested = s.name.find("buffered", 1) != std::string::npos;  // the inner layer keeps part of a failed refill
                    int64_t hi = f->moved > m0 || nested ? len : std::min<int64_t>(len, pos + n);
                    if (pos <= len)
                        DST_CHECK(prop, "position-after-failure", g.value() >= pos && g.value() <= std::max(hi, pos), "%s: a failed read of %u moved the position from %lld to %lld (length %lld)", s.name.c_str(), n, (long long)pos, (long long)g.value(), (long long)len);
                    pos = g.value();
                }
            }
        } else if (kind <= 5) {  // positional read
            uint64_t off = Chance("op.wild", 0.1) ? (Chance("op.wilder", 0.5) ? ~0ull - Pick("op.wildlo", 40) : s.len + 1 + Pick("op.wildlo", 40)) : PickPos(s.len);
            uint32_t n = static_cast<uint32_t>(Pick("op.n", 48));
            bool inside = off <= s.len && n <= s.len - off;
            Buf b(n);
            auto r = s.in->Read(b.p.get(), n, off);
            dst::Log("pread %u at %llu -> %d", n, (ull)off, r.ok() ? r.value() : -1);
            if (r.ok()) {
                int64_t v = r.value();
                DST_CHECK(prop, "read-count", v >= 0 && v <= static_cast<int64_t>(n), "%s: positional read of %u returned %lld", s.name.c_str(), n, (long long)v);
                DST_CHECK(prop, "read-outside-window", v == 0 || (off <= s.len && static_cast<uint64_t>(v) <= s.len - off), "%s: positional read of %u at %llu returned %lld bytes, the window has %llu", s.name.c_str(), n, (ull)off, (long long)v, (ull)s.len);
                uint64_t bad = 0;
                DST_CHECK(prop, "wrong-bytes-positional", SameBytes(s, off, b.p.get(), v, &bad), "%s: byte %llu of a positional read of %u at %llu differs", s.name.c_str(), (ull)bad, n, (ull)off);
                if (v < static_cast<int64_t>(n) && inside)
                    DST_CHECK(prop, "short-result", f->shorts > 0, "%s: positional read of %u at %llu returned only %lld", s.name.c_str(), n, (ull)off, (long long)v);
            } else {
                failed = true;
                DST_CHECK(prop, after_failure ? "stuck-after-failure" : "unjustified-error", s.buffered_below || f->errors > e0 || !inside, "%s: positional read of %u at %llu (length %llu) failed without a fault: %s", s.name.c_str(), n, (ull)off, (ull)s.len, r.status().ToString().c_str());
            }
        } else if (kind <= 8) {  // seek
            SeekOrigin o = static_cast<SeekOrigin>(Pick("op.origin", 3));
            int64_t target = PickPos(s.len);
            if (Chance("op.wild", 0.15)) {
                switch (Pick("op.wildkind", 3)) {
                    case 0: target = -1 - static_cast<int64_t>(Pick("op.wildlo", 40)); break;
                    case 1: target = len + 1 + Pick("op.wildlo", 40); break;
                    default: target = (int64_t(1) << (31 + Pick("op.wildbit", 3))) * (Chance("op.wildneg", 0.5) ? -1 : 1) + Pick("op.wildlo", 300); break;
                }
            }
            int64_t arg = o == FS_SEEK_SET ? target : o == FS_SEEK_CUR ? target - pos : target - len;
            Status st = s.in->Seek(arg, o);
            dst::Log("seek %lld (origin %d) -> %d", (long long)arg, (int)o, (int)st.ok());
            bool inside = target >= 0 && target <= len;
            if (st.ok()) {
                DST_CHECK(prop, "seek-outside-accepted", inside, "%s: seek to %lld accepted, length %lld", s.name.c_str(), (long long)target, (long long)len);
                pos = target;
            } else {
                failed = true;
                DST_CHECK(prop, after_failure ? "stuck-after-failure" : "unjustified-error", f->errors > e0 || !inside, "%s: seek to %lld (length %lld, origin %d) failed without a fault: %s", s.name.c_str(), (long long)target, (long long)len, (int)o, st.ToString().c_str());
            }
        } else {
            auto r = s.in->Length();
            if (r.ok())
                DST_CHECK(prop, "length", r.value() == s.len, "%s: length %llu, expected %llu", s.name.c_str(), (ull)r.value(), (ull)s.len);
            else
                DST_CHECK(prop, "unjustified-error", f->errors > e0, "%s: Length failed: %s", s.name.c_str(), r.status().ToString().c_str());
        }
        if (failed) {
            after_failure = true;
            dst::Count("failed_calls");
        }
        uint64_t e1 = f->errors;
        auto g = s.in->GetPos();
        if (g.ok())
            DST_CHECK(prop, failed ? "position-after-failure" : "position", g.value() == pos, "%s: position %lld, expected %lld%s", s.name.c_str(), (long long)g.value(), (long long)pos, failed ? " (after a failed call)" : "");
        else
            DST_CHECK(prop, "unjustified-error", f->errors > e1, "%s: GetPos failed: %s", s.name.c_str(), g.status().ToString().c_str());
        dst::StateStr(s.name + ":" + std::to_string(std::min<int64_t>(pos, 300)) + ":" + std::to_string(kind) + ":" + std::to_string(failed));
        dst::Count("stream_calls");
    }
    if (after_failure || f->shorts) dst::NonTrivial();
}

void Swarm(Faults* f) {
    static const double pe[] = {0, 0.03, 0.15};
    static const double ps[] = {0, 0.2, 0.7};
    f->p_err = pe[Pick("swarm.err", 3)];
    f->p_short = ps[Pick("swarm.short", 3)];
    f->p_meta = Pick("swarm.meta", 3) == 2 ? 0.03 : 0;
    f->p_move = Pick("swarm.move", 2) ? 0.5 : 0;
}

void RunC20() {
    Faults f;
    Swarm(&f);
    Stack s = MakeLeaf(&f, false, false);
    AddBuffer(&s);
    if (Chance("c20.two", 0.15)) AddBuffer(&s);
    RunOps(s, &f, "C20", false);
}
void RunC21() {
    Faults f;
    Swarm(&f);
    f.p_meta = 0;
    bool big = Chance("big", 0.25);
    bool memory = Chance("leaf.mem", 0.5);
    if (memory) f.p_err = f.p_short = 0;
    Stack s = MakeLeaf(&f, big, memory);
    int windows = static_cast<int>(Pick("c21.windows", 3));
    if (!memory && windows == 0) windows = 1;
    for (int i = 0; i < windows; i++)
        if (!AddWindow(&s, &f, "C21")) return;
    if (s.name.find("window") == std::string::npos && !memory) return;
    RunOps(s, &f, "C21", true);
    if (memory && windows == 0) {  // the raw pointer follows the position
        auto* b = static_cast<ByteArrayInputStream*>(s.in.get());
        auto g = b->GetPos();
        if (g.ok()) DST_CHECK("C21", "raw-pointer", b->GetRawData() == s.raw + g.value(), "GetRawData does not point at position %lld", (long long)g.value());
    }
}

// ================================================================ C22
struct Val {
    int t;
    int64_t i = 0;
    std::string s;
};
enum { V_BOOL, V_CHAR, V_I16, V_U16, V_I32, V_I64, V_STR, V_BYTES, V_F32, V_I8, V_RAW };

Val MakeVal(bool segmented) {
    Val v;
    v.t = static_cast<int>(Pick("v.t", 9));
    if (v.t == V_F32 && !segmented) v.t = V_I32;
    switch (v.t) {
        case V_STR:
        case V_BYTES: {
            uint64_t n = Pick("v.len", 30);
            if (Chance("v.long", 0.06)) {
                static const uint64_t ls[] = {127, 255, 256, 32767, 32768, 65535};
                n = ls[Pick("v.longlen", 6)];
            }
            if (v.t == V_STR && Chance("v.toolong", 0.02)) n = 65536 + Pick("v.over", 40);
            for (uint64_t k = 0; k < n; k++) v.s.push_back(ByteAt(n, k));
            break;
        }
        default: {
            static const int64_t sp[] = {0, 1, -1, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, 0x0102030405060708ll};
            v.i = sp[Pick("v.i", 18)];
        }
    }
    return v;
}
void RefBytes(const Val& v, bool little, std::string* out) {
    auto put = [&](uint64_t x, int n) {
        for (int k = 0; k < n; k++) out->push_back(static_cast<char>(x >> (8 * (little ? k : n - 1 - k))));
    };
    switch (v.t) {
        case V_BOOL: put(v.i & 1, 1); break;
        case V_CHAR: put(v.i, 1); break;
        case V_I16: case V_U16: put(v.i, 2); break;
        case V_I32: put(v.i, 4); break;
        case V_I64: put(v.i, 8); break;
        case V_F32: { float f = static_cast<float>(static_cast<int32_t>(v.i)) / 3; uint32_t u; memcpy(&u, &f, 4); put(u, 4); break; }
        case V_STR: put(v.s.size(), 2); *out += v.s; break;
        case V_BYTES: *out += v.s; break;
    }
}
std::shared_ptr<MemoryPool> Pool() {
    static const std::shared_ptr<MemoryPool> p = GetMemoryPool();
    return p;
}
std::shared_ptr<Bytes> ToBytes(const std::string& s) { return std::shared_ptr<Bytes>(Bytes::AllocateBytes(s, Pool().get())); }

// Reads the next value; returns 0 ok, 1 error, 2 wrong value.
int ReadBack(const DataInputStream& in, const Val& v, std::string* what) {
    auto num = [&](auto r, auto want) {
        if (!r.ok()) { *what = r.status().ToString(); return 1; }
        if (memcmp(&r.value(), &want, sizeof(want)) != 0) { *what = "value differs"; return 2; }
        return 0;
    };
    switch (v.t) {
        case V_BOOL: return num(in.ReadValue<bool>(), static_cast<bool>(v.i & 1));
        case V_CHAR: if (Pick("v.asi8", 2)) return num(in.ReadValue<int8_t>(), static_cast<int8_t>(v.i)); return num(in.ReadValue<char>(), static_cast<char>(v.i));
        case V_I16: return num(in.ReadValue<int16_t>(), static_cast<int16_t>(v.i));
        case V_U16: return num(in.ReadValue<uint16_t>(), static_cast<uint16_t>(v.i));
        case V_I32: return num(in.ReadValue<int32_t>(), static_cast<int32_t>(v.i));
        case V_I64: return num(in.ReadValue<int64_t>(), static_cast<int64_t>(v.i));
        case V_F32: return num(in.ReadValue<float>(), static_cast<float>(static_cast<int32_t>(v.i)) / 3);
        case V_STR: {
            auto r = in.ReadString();
            if (!r.ok()) { *what = r.status().ToString(); return 1; }
            if (r.value() != v.s) { *what = "string differs, length " + std::to_string(r.value().size()) + " instead of " + std::to_string(v.s.size()); return 2; }
            return 0;
        }
        default: {
            if (Pick("v.viaraw", 2)) {
                Buf b(v.s.size());
                Status st = in.Read(b.p.get(), v.s.size());
                if (!st.ok()) { *what = st.ToString(); return 1; }
                if (memcmp(b.p.get(), v.s.data(), v.s.size())) { *what = "bytes differ"; return 2; }
                return 0;
            }
            Bytes b(v.s.size(), Pool().get());
            Status st = in.ReadBytes(&b);
            if (!st.ok()) { *what = st.ToString(); return 1; }
            if (memcmp(b.data(), v.s.data(), v.s.size())) { *what = "bytes differ"; return 2; }
            return 0;
        }
    }
}

void RunC22() {
    bool segmented = Chance("segmented", 0.5);
    bool little = Chance("little", 0.5);
    ByteOrder order = little ? ByteOrder::PAIMON_LITTLE_ENDIAN : ByteOrder::PAIMON_BIG_ENDIAN;
    int n = 1 + static_cast<int>(Pick("n", 14));
    std::vector<Val> vals;
    Faults wf;
    if (!segmented) {
        static const double pe[] = {0, 0, 0.05};
        wf.p_err = pe[Pick("w.err", 3)];
        wf.p_short = pe[Pick("w.short", 3)];
    }
    std::string got, ref;
    bool write_failed = false;
    if (segmented) {
        int32_t seg = static_cast<int32_t>(1 + Pick("segsize", 40));
        if (Chance("seg.odd", 0.2)) seg = 4096;
        MemorySegmentOutputStream out(seg, Pool());
        out.SetOrder(order);
        int64_t expect = 0;
        for (int k = 0; k < n; k++) {
            Val v = MakeVal(true);
            switch (v.t) {
                case V_BOOL: out.WriteValue<bool>(v.i & 1); break;
                case V_CHAR: out.WriteValue<char>(v.i); break;
                case V_I16: out.WriteValue<int16_t>(v.i); break;
                case V_U16: out.WriteValue<uint16_t>(v.i); break;
                case V_I32: out.WriteValue<int32_t>(v.i); break;
                case V_I64: out.WriteValue<int64_t>(v.i); break;
                case V_F32: out.WriteValue<float>(static_cast<float>(static_cast<int32_t>(v.i)) / 3); break;
                case V_STR:
                    try {
                        out.WriteString(v.s);
                    } catch (const std::exception& e) {
                        DST_CHECK("C22", "unjustified-error", v.s.size() > 65535, "writing a string of %d bytes failed: %s", (int)v.s.size(), e.what());
                        DST_CHECK("C22", "segment-size", out.CurrentSize() == expect, "a refused string left %lld bytes, expected %lld", (long long)out.CurrentSize(), (long long)expect);
                        continue;
                    }
                    DST_CHECK("C22", "long-string-shortened", v.s.size() <= 65535, "a string of %d bytes was accepted behind a 16 bit length", (int)v.s.size());
                    break;
                default: {
                    auto b = ToBytes(v.s);
                    int how = static_cast<int>(Pick("how", 3));
                    if (how == 0) out.WriteBytes(b);
                    else if (how == 1) out.Write(v.s.data(), v.s.size());
                    else if (v.s.empty()) out.WriteBytes(b);
                    else {  // a slice of a larger segment
                        auto padded = ToBytes("xy" + v.s + "z");
                        out.Write(MemorySegment::Wrap(padded), 2, v.s.size());
                    }
                }
            }
            vals.push_back(v);
            RefBytes(v, little, &ref);
            expect = ref.size();
            DST_CHECK("C22", "segment-size", out.CurrentSize() == expect, "after %d values CurrentSize is %lld, expected %lld (segment size %d)", k + 1, (long long)out.CurrentSize(), (long long)expect, seg);
            dst::Log("wrote type %d size %lld", v.t, (long long)expect);
        }
        auto bytes = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, static_cast<int32_t>(out.CurrentSize()), Pool().get());
        got.assign(bytes->data(), bytes->size());
        dst::StateStr("seg" + std::to_string(seg) + ":" + std::to_string(expect % seg));
    } else {
        auto sink = std::make_shared<Sink>(&wf);
        DataOutputStream out(sink);
        out.SetOrder(order);
        for (int k = 0; k < n && !write_failed; k++) {
            Val v = MakeVal(false);
            uint64_t e0 = wf.errors, s0 = wf.shorts;
            std::string before = sink->data;
            Status st;
            switch (v.t) {
                case V_BOOL: st = out.WriteValue<bool>(v.i & 1); break;
                case V_CHAR: st = out.WriteValue<char>(static_cast<char>(v.i)); break;
                case V_I16: st = out.WriteValue<int16_t>(static_cast<int16_t>(v.i)); break;
                case V_U16: st = out.WriteValue<uint16_t>(static_cast<uint16_t>(v.i)); break;
                case V_I32: st = out.WriteValue<int32_t>(static_cast<int32_t>(v.i)); break;
                case V_I64: st = out.WriteValue<int64_t>(v.i); break;
                case V_STR: st = out.WriteString(v.s); break;
                default: st = out.WriteBytes(ToBytes(v.s)); break;
            }
            dst::Log("write type %d len %d -> %d", v.t, (int)v.s.size(), (int)st.ok());
            if (st.ok()) {
                std::string one;
                RefBytes(v, little, &one);
                DST_CHECK("C22", "incomplete-write-reported-ok", wf.errors == e0, "a write of type %d reported success although the sink failed", v.t);
                DST_CHECK("C22", v.t == V_STR && v.s.size() > 65535 ? "long-string-shortened" : "written-bytes", sink->data == before + one,
                          "a write of type %d (%d bytes of text) reported success but the sink holds %d new bytes, expected %d", v.t, (int)v.s.size(), (int)(sink->data.size() - before.size()), (int)one.size());
                vals.push_back(v);
                ref += one;
            } else {
                bool reason = wf.errors > e0 || wf.shorts > s0 || (v.t == V_STR && v.s.size() > 65535);
                DST_CHECK("C22", "unjustified-error", reason, "a write of type %d failed without a fault: %s", v.t, st.ToString().c_str());
                write_failed = true;
                got = before;
                dst::NonTrivial();
            }
        }
        if (!write_failed) got = sink->data;
    }
    DST_CHECK("C22", "byte-layout", got == ref, "the bytes written differ from the documented layout (%d vs %d bytes)", (int)got.size(), (int)ref.size());
    // ---- read back, whole or truncated, over a possibly faulty stack
    bool trunc = !ref.empty() && Chance("trunc", 0.35);
    std::string content = got;
    if (trunc) {
        content.resize(Pick("trunc.at", got.size()));
        dst::Fault("truncation");
        dst::NonTrivial();
    }
    Faults rf;
    static const double pe[] = {0, 0, 0.04};
    rf.p_err = pe[Pick("r.err", 3)];
    rf.p_short = pe[Pick("r.short", 3)] * 4;
    Stack s;
    std::unique_ptr<char[]> exact(new char[content.size() ? content.size() : 1]);
    memcpy(exact.get(), content.data(), content.size());
    if (Chance("r.mem", 0.4)) {
        s.in = std::make_shared<ByteArrayInputStream>(exact.get(), content.size());
    } else {
        auto src = std::make_shared<Source>(&rf);
        src->text = &content;
        src->len = content.size();
        s.in = src;
        s.len = content.size();
        if (Chance("r.buf", 0.5)) AddBuffer(&s);
    }
    DataInputStream in(s.in);
    in.SetOrder(order);
    uint64_t at = 0;
    for (size_t k = 0; k < vals.size(); k++) {
        std::string one, what;
        RefBytes(vals[k], little, &one);
        uint64_t e0 = rf.errors, s0 = rf.shorts;
        int rc = ReadBack(in, vals[k], &what);
        dst::Log("read type %d -> %d", vals[k].t, rc);
        bool fits = at + one.size() <= content.size();
        DST_CHECK("C22", trunc ? "truncated-value-returned" : "wrong-value", rc != 2, "value %d (type %d, at byte %llu) came back wrong: %s", (int)k, vals[k].t, (ull)at, what.c_str());
        DST_CHECK("C22", "truncated-value-returned", rc != 0 || fits, "value %d (type %d) was returned although the input ends inside it", (int)k, vals[k].t);
        if (rc == 1) {
            DST_CHECK("C22", "unjustified-error", !fits || rf.errors > e0 || rf.shorts > s0, "value %d (type %d, %d bytes at %llu of %llu) could not be read without a fault: %s", (int)k, vals[k].t, (int)one.size(), (ull)at, (ull)content.size(), what.c_str());
            dst::NonTrivial();
            break;
        }
        at += one.size();
        auto p = in.GetPos();
        if (p.ok()) DST_CHECK("C22", "position", p.value() == static_cast<int64_t>(at), "position %lld after value %d, expected %llu", (long long)p.value(), (int)k, (ull)at);
        dst::Count("values_read_back");
    }
    if (segmented && vals.size() > 3) dst::NonTrivial();
}

// ================================================================ C23
struct AsyncRec {
    uint64_t off;
    uint32_t n;
    bool inside;
    std::unique_ptr<char[]> buf;
    int calls = 0;
    bool ok = false;
    std::string msg;
};
void RunC23Direct() {
    Faults f;
    static const double pe[] = {0, 0.1, 0.3};
    f.p_err = pe[Pick("swarm.err", 3)];
    f.p_short = pe[Pick("swarm.short", 3)];
    bool memory = Chance("leaf.mem", 0.4);
    bool big = Chance("big", 0.15);
    if (memory) f.p_err = f.p_short = 0;
    Stack s;
    std::vector<Source::Pending> pending;
    {
        Faults quiet;
        s = MakeLeaf(memory ? &quiet : &f, big, memory);
        double pe2 = f.p_err;
        f.p_err = 0;
        if (!memory) {
            static_cast<Source*>(s.in.get())->pending = &pending;
            f.p_async = 0.7;
        }
        int windows = static_cast<int>(Pick("c23.windows", 3));
        for (int i = 0; i < windows; i++)
            if (!AddWindow(&s, &f, "C21")) return;
        f.p_err = pe2;
    }
    bool buffered = Chance("c23.buf", 0.15);
    if (buffered) AddBuffer(&s);
    int64_t pos = PickPos(s.len);
    {
        double e = f.p_err;
        f.p_err = 0;
        if (!s.in->Seek(pos, FS_SEEK_SET).ok()) return;
        f.p_err = e;
    }
    int n = 1 + static_cast<int>(Pick("n", 6));
    std::vector<std::unique_ptr<AsyncRec>> recs;
    auto complete_some = [&](bool all) {
        while (!pending.empty() && (all || Chance("complete", 0.5))) {
            size_t k = Pick("which", pending.size());
            auto w = pending[k].run;
            pending.erase(pending.begin() + k);
            w();
        }
    };
    for (int i = 0; i < n; i++) {
        auto r = std::make_unique<AsyncRec>();
        r->off = Chance("wild", 0.2) ? (Chance("wilder", 0.4) ? ~0ull - Pick("wildlo", 40) : s.len + Pick("wildlo", 40)) : PickPos(s.len);
        r->n = static_cast<uint32_t>(Pick("size", 40));
        r->inside = r->off <= s.len && r->n <= s.len - r->off;
        r->buf.reset(new char[r->n ? r->n : 1]);
        memset(r->buf.get(), 0x5a, r->n ? r->n : 1);
        AsyncRec* p = r.get();
        recs.push_back(std::move(r));
        uint64_t e0 = f.errors, s0 = f.shorts;
        (void)e0;
        (void)s0;
        s.in->ReadAsync(p->buf.get(), p->n, p->off, [p, &s, &f](Status st) {
            p->calls++;
            DST_CHECK("C23", "callback-twice", p->calls == 1, "%s: the callback of a read of %u at %llu was called %d times", s.name.c_str(), p->n, (ull)p->off, p->calls);
            p->ok = st.ok();
            p->msg = st.ToString();
            dst::Log("callback %u@%llu %d", p->n, (ull)p->off, (int)st.ok());
            if (st.ok()) {
                DST_CHECK("C23", "success-out-of-range", p->inside || p->n == 0, "%s: asynchronous read of %u at %llu of %llu reported success", s.name.c_str(), p->n, (ull)p->off, (ull)s.len);
                uint64_t bad = 0;
                DST_CHECK("C23", "success-with-wrong-bytes", SameBytes(s, p->off, p->buf.get(), p->n, &bad), "%s: asynchronous read of %u at %llu reported success but byte %llu is wrong", s.name.c_str(), p->n, (ull)p->off, (ull)bad);
            }
        });
        complete_some(false);
        if (Chance("seekbetween", 0.3)) {
            int64_t np = PickPos(s.len);
            if (s.in->Seek(np, FS_SEEK_SET).ok()) pos = np;
        }
        dst::Count("async_reads");
    }
    complete_some(true);
    for (auto& r : recs) {
        DST_CHECK("C23", "callback-missing", r->calls == 1, "%s: the callback of a read of %u at %llu was never called", s.name.c_str(), r->n, (ull)r->off);
        if (!r->ok) DST_CHECK("C23", "unjustified-error", buffered || !r->inside || f.errors || f.shorts, "%s: asynchronous read of %u at %llu of %llu failed without a fault: %s", s.name.c_str(), r->n, (ull)r->off, (ull)s.len, r->msg.c_str());
    }
    f.p_err = 0;
    auto g = s.in->GetPos();
    DST_CHECK("C23", "position-moved", g.ok() && g.value() == pos, "%s: asynchronous reads moved the position to %lld, expected %lld", s.name.c_str(), g.ok() ? (long long)g.value() : -1ll, (long long)pos);
    dst::StateStr(s.name + std::to_string(n));
    if (f.errors || f.shorts || !memory) dst::NonTrivial();
}

#ifndef DST_PLAIN_HARNESS
// Reading a whole stream with asynchronous chunk reads completed by other threads in any order.
void RunC23Fully() {
    dst::SwarmPreempt(true);
    Faults f;
    static const double pe[] = {0, 0, 0.2};
    f.p_err = pe[Pick("swarm.err", 3)];
    f.p_short = pe[Pick("swarm.short", 3)];
    f.p_async = Chance("late", 0.8) ? 0.9 : 0;
    static const uint64_t lens[] = {0, 1, 1000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 2 << 20, (2 << 20) + 77, (3 << 20) + 5};
    std::string content;
    content.resize(lens[Pick("len", 9)]);
    for (size_t i = 0; i < content.size(); i += 1 + (i % 251)) content[i] = ByteAt(3, i);
    auto src = std::make_unique<Source>(&f);
    src->text = &content;
    src->len = content.size();
    std::vector<Source::Pending> pending;
    src->pending = &pending;
    bool stop = false;
    int workers = 1 + static_cast<int>(Pick("workers", 3));
    std::vector<std::thread> ts;
    for (int w = 0; w < workers; w++)
        ts.emplace_back([&] {
            for (;;) {
                dst::WaitUntil("completion", [&] { return stop || !pending.empty(); });
                std::function<void()> run;
                {
                    dst::Atomic a;
                    if (pending.empty()) {
                        if (stop) return;
                        continue;
                    }
                    size_t k = Pick("which", pending.size());
                    run = pending[k].run;
                    pending.erase(pending.begin() + k);
                }
                run();
            }
        });
    int mode = static_cast<int>(Pick("mode", 3));
    std::unique_ptr<InputStream> in = std::move(src);
    bool ok = false;
    std::string msg, got;
    if (mode == 0) {
        std::unique_ptr<char[]> buf(new char[content.size() + 1]);
        memset(buf.get(), 0x5a, content.size() + 1);
        Status st = StreamUtils::ReadAsyncFully(std::move(in), buf.get());
        ok = st.ok();
        msg = st.ToString();
        got.assign(buf.get(), content.size());
    } else if (mode == 1) {
        auto r = StreamUtils::ReadAsyncFully(std::move(in), Pool());
        ok = r.ok();
        if (ok) got.assign(r.value()->data(), r.value()->size());
        else msg = r.status().ToString();
    } else {
        auto r = StreamUtils::ReadFully(std::move(in), Pool());
        ok = r.ok();
        if (ok) got.assign(r.value()->data(), r.value()->size());
        else msg = r.status().ToString();
    }
    {
        dst::Atomic a;
        stop = true;
    }
    for (auto& t : ts) t.join();
    dst::Log("read fully mode %d len %d -> %d", mode, (int)content.size(), (int)ok);
    if (ok) {
        DST_CHECK("C23", "fully-wrong-bytes", got == content, "reading %d bytes fully (mode %d) reported success with wrong content", (int)content.size(), mode);
        DST_CHECK("C23", "fully-swallowed-error", f.errors == 0 && f.shorts == 0, "reading fully (mode %d) reported success although %d chunk reads failed", mode, (int)(f.errors + f.shorts));
    } else {
        DST_CHECK("C23", "unjustified-error", f.errors || f.shorts, "reading fully (mode %d) failed without a fault: %s", mode, msg.c_str());
    }
    DST_CHECK("C23", "callback-missing", pending.empty(), "%d chunk reads were never completed", (int)pending.size());
    dst::StateStr(std::to_string(mode) + ":" + std::to_string(content.size()) + ":" + std::to_string(ok));
    if (mode != 2) dst::NonTrivial();
}
#endif
}  // namespace

void DstInit() {}
const char* DstRule() {
    const std::string& p = dst::Opt().prop;
    if (p == "C20") return "stacks of buffered streams (buffer 1-40) over simulated sources of 0-259 bytes; 3-16 calls each; the source shortens or fails calls at seeded points; non-trivial: a call failed or was shortened";
    if (p == "C21") return "in-memory streams and 1-2 nested windows, small or around 2/4 GiB, 3-16 calls with in- and out-of-range arguments; non-trivial: a call failed or was shortened";
    if (p == "C22") return "1-14 values of 8 kinds through file-like or segmented output (segment 1-40 or 4096 bytes, both byte orders), read back whole or truncated over faulty stacks; non-trivial: a fault, truncation or more than 3 values over segments";
    return "asynchronous reads on stream stacks with late completions in seeded order, errors and short reads, or whole-stream reads completed by threads; non-trivial: a fault or a late completion was possible";
}
void DstRun() {
    const std::string& p = dst::Opt().prop;
    if (p == "C20") RunC20();
    else if (p == "C21") RunC21();
    else if (p == "C22") RunC22();
    else if (p == "C23") {
#ifndef DST_PLAIN_HARNESS
        if (dst::Opt().profile == "fully") { RunC23Fully(); return; }
#endif
        RunC23Direct();
    } else dst::HarnessError("unknown property %s", p.c_str());
}
