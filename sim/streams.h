// Simulated sources and sinks: seeded short transfers, errors and late completions.
#pragma once
#include <stdint.h>
#include <string.h>

#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "dst.h"
#include "paimon/fs/file_system.h"
#include "paimon/result.h"
#include "paimon/status.h"

namespace simio {
using namespace paimon;  // NOLINT

// Byte i of the simulated content.
inline char ByteAt(uint64_t salt, uint64_t i) {
    uint64_t z = (i + salt) * 0x9E3779B97F4A7C15ull;
    z ^= z >> 29;
    z *= 0xBF58476D1CE4E5B9ull;
    return static_cast<char>(z >> 56);
}

struct Faults {
    double p_err = 0, p_short = 0, p_move = 0, p_meta = 0, p_async = 0;
    uint64_t errors = 0, shorts = 0, moved = 0;  // injected so far
};

struct Source : public InputStream {
    uint64_t salt = 0, len = 0;
    const std::string* text = nullptr;  // explicit content instead of the generated one
    int64_t pos = 0;
    Faults* f;
    bool allow_past_end = false;
    struct Pending {
        std::function<void()> run;
    };
    std::vector<Pending>* pending = nullptr;  // late completions
    std::string uri = "sim://source";

    explicit Source(Faults* faults) : f(faults) {}
    bool Err(const char* what) {
        if (f->p_err > 0 && dst::Chance("src.err", f->p_err)) {
            f->errors++;
            dst::Fault(what);
            dst::Log("fault %s", what);
            return true;
        }
        return false;
    }
    void Fill(char* b, uint64_t off, uint64_t n) const {
        if (text)
            memcpy(b, text->data() + off, n);
        else
            for (uint64_t i = 0; i < n; i++) b[i] = ByteAt(salt, off + i);
    }
    uint64_t Shorten(uint64_t n) {
        if (n > 1 && f->p_short > 0 && dst::Chance("src.short", f->p_short)) {
            f->shorts++;
            dst::Fault("short_read");
            uint64_t k = 1 + dst::Pick("src.shortlen", n - 1);
            dst::Log("short read %llu of %llu", (unsigned long long)k, (unsigned long long)n);
            return k;
        }
        return n;
    }
    Status Seek(int64_t offset, SeekOrigin origin) override {
        if (Err("seek_error")) return Status::IOError("injected seek error");
        int64_t p = offset;
        if (origin == FS_SEEK_CUR) p = pos + offset;
        if (origin == FS_SEEK_END) p = static_cast<int64_t>(len) + offset;
        if (p < 0 || (p > static_cast<int64_t>(len) && !allow_past_end)) return Status::Invalid("seek out of range");
        pos = p;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override {
        if (f->p_meta > 0 && dst::Chance("src.pos", f->p_meta)) {
            f->errors++;
            dst::Fault("position_error");
            return Status::IOError("injected position error");
        }
        return pos;
    }
    Result<int32_t> Read(char* buffer, uint32_t size) override {
        if (Err("read_error")) {
            if (f->p_move > 0 && dst::Chance("src.move", f->p_move) && pos < static_cast<int64_t>(len)) {
                uint64_t k = std::min<uint64_t>({size, len - pos, 1 + dst::Pick("src.movelen", 9)});
                Fill(buffer, pos, k);  // part of the transfer happened before the error
                pos += k;
                f->moved++;
                dst::Log("the failing read moved %llu", (unsigned long long)k);
            }
            return Status::IOError("injected read error");
        }
        uint64_t avail = pos >= static_cast<int64_t>(len) ? 0 : len - pos;
        uint64_t n = std::min<uint64_t>(size, avail);
        n = Shorten(n);
        Fill(buffer, pos, n);
        pos += n;
        return static_cast<int32_t>(n);
    }
    Result<int32_t> ReadAt(char* buffer, uint32_t size, uint64_t offset) {
        if (Err("read_error")) return Status::IOError("injected read error");
        uint64_t avail = offset >= len ? 0 : len - offset;
        uint64_t n = std::min<uint64_t>(size, avail);
        n = Shorten(n);
        Fill(buffer, offset, n);
        return static_cast<int32_t>(n);
    }
    Result<int32_t> Read(char* buffer, uint32_t size, uint64_t offset) override { return ReadAt(buffer, size, offset); }
    void ReadAsync(char* buffer, uint32_t size, uint64_t offset, std::function<void(Status)>&& callback) override {
        auto work = [this, buffer, size, offset, cb = std::move(callback)]() {
            Result<int32_t> r = ReadAt(buffer, size, offset);
            if (!r.ok())
                cb(r.status());
            else if (static_cast<uint32_t>(r.value()) != size)
                cb(Status::IOError("short asynchronous read"));
            else
                cb(Status::OK());
        };
        if (pending && dst::Chance("src.late", f->p_async)) {
            dst::Fault("late_completion");
            dst::Atomic a;
            pending->push_back({work});
        } else {
            work();
        }
    }
    Status Close() override { return Status::OK(); }
    Result<std::string> GetUri() const override { return uri; }
    Result<uint64_t> Length() const override {
        if (f->p_meta > 0 && dst::Chance("src.len", f->p_meta)) {
            f->errors++;
            dst::Fault("length_error");
            return Status::IOError("injected length error");
        }
        return len;
    }
};

struct Sink : public OutputStream {
    std::string data;
    Faults* f;
    explicit Sink(Faults* faults) : f(faults) {}
    Result<int32_t> Write(const char* b, uint32_t n) override {
        if (f->p_err > 0 && dst::Chance("sink.err", f->p_err)) {
            f->errors++;
            dst::Fault("write_error");
            return Status::IOError("injected write error");
        }
        if (n > 0 && f->p_short > 0 && dst::Chance("sink.short", f->p_short)) {
            f->shorts++;
            dst::Fault("short_write");
            uint64_t k = dst::Pick("sink.shortlen", n);
            data.append(b, k);
            return static_cast<int32_t>(k);
        }
        data.append(b, n);
        return static_cast<int32_t>(n);
    }
    Status Flush() override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return static_cast<int64_t>(data.size()); }
    Result<std::string> GetUri() const override { return std::string("sim://sink"); }
    Status Close() override { return Status::OK(); }
};
}  // namespace simio
