// Local file system against a simulated POSIX kernel: C24-C27 and the local stream part of C23.
#include <errno.h>

#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "dst.h"
#include "kernel.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/local/local_file_system.h"
#include "paimon/status.h"

using namespace paimon;  // NOLINT
using dst::Aux;
using dst::Chance;
using dst::Log;
using dst::Pick;

namespace {

std::string Bytes(size_t n) {
    std::string s(n, '\0');
    for (size_t i = 0; i < n;) {
        uint64_t a = Aux();
        for (int k = 0; k < 8 && i < n; ++k, ++i) s[i] = static_cast<char>(a >> (8 * k));
    }
    // no zero bytes: a hole must differ from content
    for (auto& c : s)
        if (!c) c = 'z';
    return s;
}
size_t SomeSize() {
    static const size_t k[] = {17, 0, 1, 100, 4095, 4096, 4097, 5000, 8192, 20000, 70000};
    size_t s = k[Pick("size", 11)];
    if (s > 1 && Chance("size.jit", 0.3)) s -= Aux() % std::min<size_t>(s, 50);
    return s;
}
std::string Brief(const std::string& s) { return std::to_string(s.size()) + " bytes #" + std::to_string(dst::HashStr(s) % 100000); }

// Ways to spell the same local path.
std::string Spell(const std::string& p) {
    switch (dst::Choose("spell", 7, 0.35)) {
        case 1: return "file:" + p;
        case 2: return "file://" + p;
        case 3: return "FILE:" + p;
        case 4: return "file:///" + p.substr(1);
        case 5: {  // doubled slash inside
            size_t i = p.rfind('/');
            return i > 0 ? p.substr(0, i) + "/" + p.substr(i) : p;
        }
        case 6: return "File://" + p;
        default: return p;
    }
}

void SwarmRates(double base) {
    pk::Rates r;
    double* all[] = {&r.open, &r.stat, &r.access, &r.read, &r.write, &r.sync, &r.close, &r.mkdir, &r.rename, &r.unlink, &r.opendir, &r.readdir, &r.closedir, &r.seek};
    for (double* x : all)
        if (Chance("swarm", 0.5)) *x = base;
    pk::g_rates = r;
}

// ---------------------------------------------------------------- C24
void RunAtomicStore() {
    pk::On(Chance("fsync.meta", 0.5));
    LocalFileSystem fs;
    pk::PutDir("/w/keep");
    pk::PutFile("/w/keep/other", "other");
    int n = 1 + static_cast<int>(Pick("stores", 3));
    struct Store {
        std::string path, content;
        bool existed = false;
        std::string before;
        int state = 0;  // 0 not begun, 1 running, 2 ok, 3 failed
    };
    std::vector<Store> st(n);
    for (int i = 0; i < n; ++i) {
        static const char* dirs[] = {"/w/keep/", "/w/", "/w/new/", "/w/new/deep/er/"};
        st[i].path = std::string(dirs[Pick("dir", 4)]) + "t" + std::to_string(i);
        st[i].content = Bytes(SomeSize());
        if (Chance("existing", 0.15)) {
            st[i].existed = true;
            st[i].before = Bytes(20);
            pk::PutFile(st[i].path, st[i].before);
        }
    }
    uint64_t mode = Pick("mode", 5);  // 0 crash, 1 one fault, 2 several faults, 3 full disk, 4 short transfers only
    bool power = false;
    if (mode == 0) {
        power = Chance("power", 0.6);
        pk::CrashAfter(1 + Pick("crash.at", 22 * n));
        if (Chance("crash.short", 0.3)) pk::g_rates.short_io = 0.5;
    } else if (mode == 1 || mode == 2) {
        SwarmRates(mode == 1 ? 0.12 : 0.2);
        pk::g_fault_budget = mode == 1 ? 1 : 100;
        if (Chance("short", 0.3)) pk::g_rates.short_io = 0.4;
    } else if (mode == 3) {
        int64_t total = 0;
        for (auto& s : st) total += s.content.size();
        pk::g_rates.capacity = static_cast<int64_t>(Pick("capacity", total + 40));
    } else {
        pk::g_rates.short_io = 0.6;
    }
    bool cleanup_hit = false;
    bool reader = Chance("reader", 0.35);
    if (reader) dst::SwarmPreempt(false);
    bool done = false;
    std::thread rd;
    if (reader) {
        rd = std::thread([&] {
            for (int k = 0; k < 12 && !done; ++k) {
                Store& s = st[Pick("rd.which", n)];
                std::string got;
                Status r = fs.ReadFile(s.path, &got);
                if (r.ok() && !pk::Crashed()) {
                    bool good = got == s.content || (s.existed && got == s.before);
                    DST_CHECK("C24", "partial-visible", good, "a reader saw %s at %s while it was being stored (%s)", Brief(got).c_str(), s.path.c_str(), Brief(s.content).c_str());
                }
                dst::Yield("reader");
            }
        });
    }
    for (auto& s : st) {
        uint64_t f0 = pk::Faults();
        s.state = 1;
        Status r = fs.AtomicStore(Spell(s.path), s.content);
        s.state = r.ok() ? 2 : 3;
        Log("store %s %s -> %s", s.path.c_str(), Brief(s.content).c_str(), r.ok() ? "ok" : r.ToString().c_str());
        if (pk::Crashed()) break;
        std::string now;
        bool there = pk::Get(s.path, &now);
        if (r.ok()) {
            DST_CHECK("C24", "replaced", !s.existed, "storing over the existing %s succeeded", s.path.c_str());
            DST_CHECK("C24", "incomplete", there && now == "F" + s.content, "store succeeded but %s holds %s instead of %s", s.path.c_str(), there ? Brief(now.substr(1)).c_str() : "nothing", Brief(s.content).c_str());
        } else {
            if (s.existed) {
                DST_CHECK("C24", "target-changed", there && now == "F" + s.before, "a failed store changed the existing %s", s.path.c_str());
            } else {
                DST_CHECK("C24", "target-left", !there, "a failed store left %s holding %s: %s", s.path.c_str(), there ? Brief(now.substr(1)).c_str() : "", r.ToString().c_str());
            }
            DST_CHECK("C24", "failed-without-cause", s.existed || pk::Faults() != f0 || mode == 3 || (reader && mode <= 2), "nothing went wrong but the store failed: %s", r.ToString().c_str());
            dst::Count("failed_stores");
        }
        if (pk::g_fault_budget >= 0 && (mode == 1 || mode >= 3) && !reader) {
            // whatever failed, cleaning up was possible
            if (mode == 1 && pk::Faults() != f0 && (r.ok() || s.existed)) cleanup_hit = true;
            std::set<std::string> ok;
            for (auto& t : st) ok.insert(t.path);
            for (auto& e : pk::Dump()) {
                if (e.second[0] != 'F' || ok.count(e.first) || e.first == "/w/keep/other") continue;
                if (cleanup_hit) continue;
                dst::Violate("C24", "leftover", "%s was left behind by the store of %s (%s)", e.first.c_str(), s.path.c_str(), r.ToString().c_str());
            }
        }
    }
    done = true;
    bool crashed = pk::Crashed() || mode == 0;  // at the latest, right after the last store
    if (reader) rd.join();
    if (crashed) {
        dst::Fault(power ? "power_loss" : "process_crash");
        pk::Restart(power);
        dst::NonTrivial();
        auto d = pk::Dump();
        for (auto& s : st) {
            auto it = d.find(s.path);
            if (it == d.end()) {
                DST_CHECK("C24", "existing-lost", !s.existed, "%s existed before and is gone after the crash", s.path.c_str());
                DST_CHECK("C24", "stored-lost", s.state != 2 || power, "%s was stored and is gone after a process crash", s.path.c_str());
                continue;
            }
            if (s.existed) {
                DST_CHECK("C24", "existing-changed", it->second == "F" + s.before, "%s existed before and holds %s after the crash", s.path.c_str(), Brief(it->second.substr(1)).c_str());
            } else {
                DST_CHECK("C24", "torn", it->second == "F" + s.content, "after the crash %s holds %s, not all of the stored %s", s.path.c_str(), Brief(it->second.substr(1)).c_str(), Brief(s.content).c_str());
                dst::Count("complete_after_crash");
            }
        }
        // the restarted process can store at the same places
        pk::g_rates = pk::Rates();
        for (auto& s : st) {
            if (d.count(s.path)) continue;
            Status r = fs.AtomicStore(s.path, s.content);
            DST_CHECK("C24", "blocked-after-crash", r.ok(), "storing %s again after the crash fails: %s", s.path.c_str(), r.ToString().c_str());
        }
    } else if (pk::Faults() || pk::Shorts()) {
        dst::NonTrivial();
    }
    std::string oth;
    DST_CHECK("C24", "bystander", pk::Get("/w/keep/other", &oth) && oth == "Fother", "another file was changed");
    for (auto& s : st) dst::StateStr(std::to_string(s.state) + (s.existed ? "e" : "n"));
    dst::State(pk::Calls());
}

// ---------------------------------------------------------------- C25
void RunExclusive() {
    dst::SwarmPreempt(true);
    pk::On(true);
    LocalFileSystem fs;
    pk::PutDir("/w/d");
    pk::g_noreplace = !Chance("old.fs", 0.25);
    bool rename_only = !pk::g_noreplace;
    bool faults = Chance("faults", 0.25);
    if (faults) SwarmRates(0.05);
    int names = 1 + static_cast<int>(Pick("names", 2));
    int nthreads = 2 + static_cast<int>(Pick("threads", 3));
    struct Name {
        std::string path, before;
        bool existed = false;
    };
    std::vector<Name> nm(names);
    for (int i = 0; i < names; ++i) {
        nm[i].path = (Chance("deep", 0.3) ? "/w/d/new/x" : "/w/d/x") + std::to_string(i);
        if (Chance("pre", 0.2)) {
            nm[i].existed = true;
            nm[i].before = Bytes(30);
            pk::PutFile(nm[i].path, nm[i].before);
        }
    }
    struct Op {
        int tid, kind, name;
        std::string content;
        bool ok = false, begun = false, clean = true;
    };
    std::vector<Op> ops;
    for (int t = 0; t < nthreads; ++t) {
        int k = 1 + static_cast<int>(Pick("per", 2));
        for (int j = 0; j < k; ++j) {
            Op o;
            o.tid = t;
            o.kind = rename_only ? static_cast<int>(Pick("kind", 2)) : static_cast<int>(Pick("kind", 5));
            o.name = static_cast<int>(Pick("name", names));
            // a thread does not race with itself in order to keep "its content" unambiguous
            o.content = "T" + std::to_string(t) + "." + std::to_string(j) + Bytes(Pick("big", 2) ? 9000 : 12);
            ops.push_back(o);
        }
    }
    for (size_t i = 0; i < ops.size(); ++i)
        if (ops[i].kind == 1 || ops[i].kind == 4) {
            std::string src = "/w/src" + std::to_string(i);
            if (ops[i].kind == 4) {
                pk::PutFile(src + "/inside", ops[i].content);
            } else {
                pk::PutFile(src, ops[i].content);
            }
        }
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; ++t) {
        th.emplace_back([&, t] {
            for (size_t i = 0; i < ops.size(); ++i) {
                Op& o = ops[i];
                if (o.tid != t) continue;
                o.begun = true;
                std::string p = Spell(nm[o.name].path);
                uint64_t f0 = pk::Faults();
                Status r;
                switch (o.kind) {
                    case 0: r = fs.AtomicStore(p, o.content); break;
                    case 1:
                    case 4: r = fs.Rename(Spell("/w/src" + std::to_string(i)), p); break;
                    case 2: r = fs.WriteFile(p, o.content, /*overwrite=*/false); break;
                    default: {
                        auto out = fs.Create(p, /*overwrite=*/false);
                        if (!out.ok()) {
                            r = out.status();
                            break;
                        }
                        o.ok = true;
                        auto w = out.value()->Write(o.content.data(), o.content.size());
                        Status fl = out.value()->Flush();
                        Status c = out.value()->Close();
                        if (!w.ok() || !fl.ok() || !c.ok()) o.clean = false;
                        r = Status::OK();
                    }
                }
                o.ok = r.ok();
                if (pk::Faults() != f0) o.clean = o.clean && o.ok && !faults;
                Log("op%d kind %d on %s -> %s", (int)i, o.kind, nm[o.name].path.c_str(), r.ok() ? "ok" : r.ToString().c_str());
            }
        });
    }
    for (auto& x : th) x.join();
    auto d = pk::Dump();
    for (int i = 0; i < names; ++i) {
        std::vector<Op*> won;
        int tried = 0;
        for (auto& o : ops)
            if (o.name == i) {
                ++tried;
                if (o.ok) won.push_back(&o);
            }
        auto it = d.find(nm[i].path);
        std::string now = it == d.end() ? "" : it->second;
        if (nm[i].existed) {
            DST_CHECK("C25", "existing-replaced", now == "F" + nm[i].before, "%s existed and was replaced", nm[i].path.c_str());
            DST_CHECK("C25", "won-existing", won.empty(), "an exclusive operation on the existing %s succeeded", nm[i].path.c_str());
            continue;
        }
        if (tried > 1) dst::NonTrivial();
        DST_CHECK("C25", "two-winners", won.size() <= 1, "%d operations on %s succeeded (kinds %d and %d)", (int)won.size(), nm[i].path.c_str(), won[0]->kind, won.size() > 1 ? won[1]->kind : -1);
        if (!faults && tried > 0) {
            DST_CHECK("C25", "no-winner", won.size() == 1, "%d operations raced for %s and none succeeded", tried, nm[i].path.c_str());
        }
        if (won.size() == 1 && won[0]->clean) {
            if (won[0]->kind == 4) {
                auto in = d.find(nm[i].path + "/inside");
                DST_CHECK("C25", "wrong-content", now == "D" && in != d.end() && in->second == "F" + won[0]->content, "%s is not the directory that was renamed to it", nm[i].path.c_str());
            } else {
                DST_CHECK("C25", "wrong-content", now == "F" + won[0]->content, "%s holds %s, not the winner's %s", nm[i].path.c_str(), it == d.end() ? "nothing" : Brief(now.substr(1)).c_str(), Brief(won[0]->content).c_str());
            }
        }
        dst::StateStr(std::to_string(tried) + "/" + (won.empty() ? "-" : std::to_string(won[0]->kind)));
    }
    dst::State(dst::Switches());
}

// ---------------------------------------------------------------- C26
struct OutModel {
    std::unique_ptr<OutputStream> s;
    std::string path, written;
    bool bad = false;  // a call failed: what is in the file is unknown
};
struct InModel {
    std::unique_ptr<InputStream> s;
    std::string path, content;
    int64_t pos = 0;
    bool pos_known = true;
    bool err = false;  // a read failed: stdio streams stay in error
};

void CheckTreeUnchanged(const char* what, const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
    DST_CHECK("C26", "side-effect", a == b, "%s changed the file tree", what);
}

void RunIoFaults() {
    pk::On(true);
    LocalFileSystem fs;
    uint64_t mode = Pick("mode", 4);  // 0 clean, 1 short transfers, 2 faults, 3 both
    pk::PutDir("/w/d");
    std::map<std::string, std::string> files;
    for (int i = 0; i < 3; ++i) {
        std::string p = "/w/d/f" + std::to_string(i);
        files[p] = Bytes(SomeSize());
        pk::PutFile(p, files[p]);
    }
    pk::PutDir("/w/d/sub");
    if (mode & 1) pk::g_rates.short_io = Chance("short.much", 0.5) ? 0.9 : 0.3;
    double sh = pk::g_rates.short_io;
    if (mode & 2) {
        SwarmRates(0.08);
        pk::g_rates.short_io = sh;
        if (Chance("full", 0.15)) {
            int64_t used = 0;
            for (auto& f : files) used += static_cast<int64_t>(f.second.size());
            pk::g_rates.capacity = used + static_cast<int64_t>(Pick("room", 60000));
        }
    }
    std::vector<OutModel> outs;
    std::vector<InModel> ins;
    int nops = 5 + static_cast<int>(Pick("ops", 30));
    int seq = 0;
    for (int k = 0; k < nops; ++k) {
        dst::AdvanceUs(1000 + Aux() % 3000000);
        uint64_t f0 = pk::Faults();
        auto must = [&](bool ok, const char* what, const std::string& why) {
            if (!ok && pk::Faults() == f0 && pk::g_rates.capacity < 0)
                dst::Violate("C26", "failed-without-cause", "%s failed although every call of the kernel succeeded: %s", what, why.c_str());
        };
        std::string fp = "/w/d/f" + std::to_string(Pick("which", 3));
        switch (Pick("op", 18)) {
            case 0: {  // open for reading
                auto r = fs.Open(Spell(fp));
                must(r.ok(), "Open", r.status().ToString());
                if (r.ok()) {
                    InModel m;
                    m.s = std::move(r).value();
                    m.path = fp;
                    m.content = files[fp];
                    ins.push_back(std::move(m));
                }
                break;
            }
            case 1:
            case 2:
            case 3: {  // sequential read
                if (ins.empty()) break;
                InModel& m = ins[Pick("in", ins.size())];
                size_t want = SomeSize();
                std::string buf(want + 8, '\x55');
                auto r = m.s->Read(&buf[0], want);
                Log("read %d at %lld -> %s", (int)want, (long long)m.pos, r.ok() ? "ok" : r.status().ToString().c_str());
                DST_CHECK("C26", "overrun", buf.substr(want) == std::string(8, '\x55'), "a read of %d bytes wrote past the buffer", (int)want);
                if (!m.pos_known) {
                    if (!r.ok() && pk::Faults() != f0) m.err = true;
                    break;
                }
                bool fits = m.pos + static_cast<int64_t>(want) <= static_cast<int64_t>(m.content.size());
                if (r.ok()) {
                    DST_CHECK("C26", "read-past-end", fits, "reading %d bytes at %lld of a %d byte file reported success", (int)want, (long long)m.pos, (int)m.content.size());
                    DST_CHECK("C26", "read-count", r.value() == static_cast<int32_t>(want), "read of %d bytes returned %d", (int)want, r.value());
                    DST_CHECK("C26", "read-bytes", m.content.compare(m.pos, want, buf, 0, want) == 0, "read of %d bytes at %lld returned wrong bytes", (int)want, (long long)m.pos);
                    m.pos += want;
                } else {
                    if (fits && !m.err) must(false, "Read", r.status().ToString());
                    m.pos_known = false;
                    if (pk::Faults() != f0) m.err = true;
                }
                break;
            }
            case 4:
            case 5: {  // positional read
                if (ins.empty()) break;
                InModel& m = ins[Pick("in", ins.size())];
                size_t want = SomeSize();
                int64_t off = static_cast<int64_t>(Pick("off", m.content.size() + 20));
                std::string buf(want + 8, '\x55');
                auto r = m.s->Read(&buf[0], want, off);
                bool fits = off + static_cast<int64_t>(want) <= static_cast<int64_t>(m.content.size());
                DST_CHECK("C26", "overrun", buf.substr(want) == std::string(8, '\x55'), "a read of %d bytes wrote past the buffer", (int)want);
                if (r.ok()) {
                    if (want) DST_CHECK("C26", "read-past-end", fits, "reading %d bytes at %lld of a %d byte file reported success", (int)want, (long long)off, (int)m.content.size());
                    DST_CHECK("C26", "read-count", r.value() == static_cast<int32_t>(want), "read of %d bytes returned %d", (int)want, r.value());
                    if (want) DST_CHECK("C26", "read-bytes", m.content.compare(off, want, buf, 0, want) == 0, "positional read of %d bytes at %lld returned wrong bytes", (int)want, (long long)off);
                } else if (fits) {
                    must(false, "positional Read", r.status().ToString());
                }
                break;
            }
            case 6: {  // seek
                if (ins.empty()) break;
                InModel& m = ins[Pick("in", ins.size())];
                int64_t to = static_cast<int64_t>(Pick("to", m.content.size() + 1));
                int how = static_cast<int>(Pick("how", 3));
                if (!m.pos_known) how = 0;
                Status r = how == 0 ? m.s->Seek(to, FS_SEEK_SET) : how == 1 ? m.s->Seek(to - m.pos, FS_SEEK_CUR) : m.s->Seek(to - static_cast<int64_t>(m.content.size()), FS_SEEK_END);
                must(r.ok(), "Seek", r.ToString());
                if (r.ok()) {
                    // after a failed read the stream may stay in error, which later reads report
                    m.pos = to;
                    m.pos_known = true;
                } else {
                    m.pos_known = false;
                }
                break;
            }
            case 7: {  // position and length
                if (ins.empty()) break;
                InModel& m = ins[Pick("in", ins.size())];
                auto p = m.s->GetPos();
                if (p.ok() && m.pos_known) DST_CHECK("C26", "position", p.value() == m.pos, "position %lld reported as %lld", (long long)m.pos, (long long)p.value());
                must(p.ok(), "GetPos", p.status().ToString());
                f0 = pk::Faults();
                auto l = m.s->Length();
                if (l.ok()) DST_CHECK("C26", "length", l.value() == m.content.size(), "length %d reported as %llu", (int)m.content.size(), (unsigned long long)l.value());
                must(l.ok(), "Length", l.status().ToString());
                break;
            }
            case 8: {  // close input
                if (ins.empty()) break;
                size_t i = Pick("in", ins.size());
                Status r = ins[i].s->Close();
                must(r.ok(), "Close", r.ToString());
                ins.erase(ins.begin() + i);
                break;
            }
            case 9: {  // create
                OutModel o;
                o.path = "/w/o" + std::to_string(seq++);
                if (Chance("nested", 0.3)) o.path = "/w/n" + std::to_string(seq) + "/q/o";
                auto r = fs.Create(Spell(o.path), Chance("overwrite", 0.5));
                must(r.ok(), "Create", r.status().ToString());
                if (r.ok()) {
                    std::string now;
                    DST_CHECK("C26", "create", pk::Get(o.path, &now) && now == "F", "%s was created but is not an empty file", o.path.c_str());
                    o.s = std::move(r).value();
                    outs.push_back(std::move(o));
                }
                break;
            }
            case 10:
            case 11: {  // write
                if (outs.empty()) break;
                OutModel& o = outs[Pick("out", outs.size())];
                std::string c = Bytes(SomeSize());
                auto r = o.s->Write(c.data(), c.size());
                Log("write %d to %s -> %s", (int)c.size(), o.path.c_str(), r.ok() ? "ok" : r.status().ToString().c_str());
                if (o.bad) break;
                must(r.ok(), "Write", r.status().ToString());
                if (r.ok()) {
                    DST_CHECK("C26", "write-count", r.value() == static_cast<int32_t>(c.size()), "write of %d bytes returned %d", (int)c.size(), r.value());
                    o.written += c;
                } else {
                    o.bad = true;
                }
                break;
            }
            case 12: {  // flush
                if (outs.empty()) break;
                OutModel& o = outs[Pick("out", outs.size())];
                Status r = o.s->Flush();
                Log("flush %s -> %s", o.path.c_str(), r.ok() ? "ok" : r.ToString().c_str());
                if (o.bad) break;
                must(r.ok(), "Flush", r.ToString());
                if (r.ok()) {
                    std::string syn;
                    DST_CHECK("C26", "flush-lied", pk::Synced(o.path, &syn) && syn == o.written, "Flush of %s succeeded but %s of %s are on the medium", o.path.c_str(), Brief(syn).c_str(), Brief(o.written).c_str());
                } else {
                    o.bad = true;
                }
                break;
            }
            case 13: {  // close output
                if (outs.empty()) break;
                size_t i = Pick("out", outs.size());
                OutModel& o = outs[i];
                auto pos = o.s->GetPos();
                if (pos.ok() && !o.bad) DST_CHECK("C26", "position", pos.value() == static_cast<int64_t>(o.written.size()), "%d bytes written, position %lld", (int)o.written.size(), (long long)pos.value());
                uint64_t f1 = pk::Faults();
                Status r = o.s->Close();
                Log("close %s -> %s", o.path.c_str(), r.ok() ? "ok" : r.ToString().c_str());
                if (!o.bad) {
                    if (pk::Faults() == f1) must(r.ok(), "Close", r.ToString());
                    std::string now;
                    if (r.ok()) {
                        DST_CHECK("C26", "close-lied", pk::Get(o.path, &now) && now == "F" + o.written, "Close of %s succeeded but it holds %s of %s", o.path.c_str(), Brief(now.empty() ? now : now.substr(1)).c_str(), Brief(o.written).c_str());
                        DST_CHECK("C26", "close-lied", pk::Faults() == f1, "closing %s failed in the kernel and was reported as success", o.path.c_str());
                    }
                }
                outs.erase(outs.begin() + i);
                break;
            }
            case 14: {  // whole files
                std::string p = "/w/whole" + std::to_string(seq++), c = Bytes(SomeSize());
                Status r = fs.WriteFile(Spell(p), c, Chance("overwrite", 0.5));
                must(r.ok(), "WriteFile", r.ToString());
                if (r.ok()) {
                    std::string syn;
                    DST_CHECK("C26", "writefile-lied", pk::Synced(p, &syn) && syn == c, "WriteFile succeeded but %s of %s are on the medium", Brief(syn).c_str(), Brief(c).c_str());
                    f0 = pk::Faults();
                    std::string got;
                    Status q = fs.ReadFile(Spell(p), &got);
                    must(q.ok(), "ReadFile", q.ToString());
                    if (q.ok()) DST_CHECK("C26", "readfile", got == c, "ReadFile returned %s of %s", Brief(got).c_str(), Brief(c).c_str());
                }
                break;
            }
            case 15: {  // listing
                auto before = pk::Dump();
                std::set<std::string> want, got;
                for (auto& e : before)
                    if (e.first.compare(0, 5, "/w/d/") == 0 && e.first.find('/', 5) == std::string::npos) want.insert(e.first + (e.second == "D" ? "/" : ""));
                Status r;
                if (Chance("basic", 0.5)) {
                    std::vector<std::unique_ptr<BasicFileStatus>> v;
                    r = fs.ListDir(Spell("/w/d"), &v);
                    for (auto& x : v) got.insert("/w/d/" + x->GetPath().substr(x->GetPath().rfind('/') + 1) + (x->IsDir() ? "/" : ""));
                } else {
                    std::vector<std::unique_ptr<FileStatus>> v;
                    r = fs.ListFileStatus(Spell("/w/d"), &v);
                    for (auto& x : v) {
                        std::string p = "/w/d/" + x->GetPath().substr(x->GetPath().rfind('/') + 1);
                        got.insert(p + (x->IsDir() ? "/" : ""));
                        if (r.ok() && files.count(p)) DST_CHECK("C26", "length", x->GetLen() == files[p].size(), "listed length of %s is %llu", p.c_str(), (unsigned long long)x->GetLen());
                    }
                }
                must(r.ok(), "listing", r.ToString());
                if (r.ok()) DST_CHECK("C26", "incomplete-listing", got == want, "a listing with %d of %d entries was reported as success", (int)got.size(), (int)want.size());
                CheckTreeUnchanged("listing", before, pk::Dump());
                break;
            }
            case 16: {  // exists and status
                std::string p = Chance("absent", 0.4) ? "/w/d/absent" : fp;
                std::string now;
                bool there = pk::Get(p, &now);
                auto e = fs.Exists(Spell(p));
                must(e.ok(), "Exists", e.status().ToString());
                if (e.ok()) DST_CHECK("C26", "exists", e.value() == there, "Exists(%s) answers %d", p.c_str(), (int)e.value());
                f0 = pk::Faults();
                auto s = fs.GetFileStatus(Spell(p));
                if (s.ok()) {
                    DST_CHECK("C26", "status", there && s.value()->GetLen() == now.size() - 1 && !s.value()->IsDir(), "status of %s is wrong", p.c_str());
                    DST_CHECK("C26", "status", s.value()->GetModificationTime() / 1000 == pk::MtimeMs(p) / 1000, "modification time of %s is %lld instead of %lld", p.c_str(), (long long)s.value()->GetModificationTime(), (long long)pk::MtimeMs(p));
                } else if (there) {
                    must(false, "GetFileStatus", s.status().ToString());
                    DST_CHECK("C26", "status", !s.status().IsNotExist(), "GetFileStatus says %s does not exist, it does", p.c_str());
                }
                break;
            }
            default: {  // delete, rename, mkdirs
                std::string p = "/w/t" + std::to_string(seq++), c = Bytes(10);
                pk::PutFile(p + "/a", c);
                pk::PutFile(p + "/s/b", c);
                auto before = pk::Dump();
                uint64_t w = Pick("what", 3);
                if (w == 0) {
                    Status r = fs.Delete(Spell(p), true);
                    must(r.ok(), "Delete", r.ToString());
                    std::string now;
                    if (r.ok()) DST_CHECK("C26", "delete-lied", !pk::Get(p, &now), "Delete succeeded but %s is still there", p.c_str());
                } else if (w == 1) {
                    Status r = fs.Rename(Spell(p + "/a"), Spell(p + "/z/y"));
                    must(r.ok(), "Rename", r.ToString());
                    std::string now;
                    if (r.ok()) {
                        DST_CHECK("C26", "rename-lied", pk::Get(p + "/z/y", &now) && now == "F" + c && !pk::Get(p + "/a", &now), "Rename succeeded but nothing was renamed");
                    } else {
                        DST_CHECK("C26", "rename-effect", pk::Get(p + "/a", &now) && !pk::Get(p + "/z/y", &now), "Rename failed but the file was moved");
                    }
                } else {
                    Status r = fs.Mkdirs(Spell(p + "/m/n/o"));
                    must(r.ok(), "Mkdirs", r.ToString());
                    std::string now;
                    if (r.ok()) DST_CHECK("C26", "mkdirs-lied", pk::Get(p + "/m/n/o", &now) && now == "D", "Mkdirs succeeded but the directory is not there");
                }
                auto after = pk::Dump();
                for (auto& e : before)
                    if (e.first.compare(0, p.size(), p) != 0) DST_CHECK("C26", "side-effect", after.count(e.first) && after[e.first] == e.second, "%s was changed by an operation on %s", e.first.c_str(), p.c_str());
                break;
            }
        }
    }
    if (pk::Faults() || pk::Shorts()) dst::NonTrivial();
    dst::State(pk::Calls());
    dst::State(pk::Faults());
}

// ---------------------------------------------------------------- C27
struct Tree {
    std::map<std::string, std::string> n;  // like pk::Dump
    bool Has(const std::string& p) const { return p == "" || n.count(p); }
    bool IsDir(const std::string& p) const { return p == "" || (n.count(p) && n.at(p) == "D"); }
    static std::string Parent(const std::string& p) { return p.substr(0, p.rfind('/')); }
    // Some proper ancestor is a file.
    bool Blocked(const std::string& p) const {
        for (std::string q = Parent(p); !q.empty(); q = Parent(q))
            if (Has(q) && !IsDir(q)) return true;
        return false;
    }
    void Mk(const std::string& p) {
        if (p.empty() || Has(p)) return;
        Mk(Parent(p));
        n[p] = "D";
    }
    std::vector<std::string> Below(const std::string& p) const {
        std::vector<std::string> v;
        for (auto& e : n)
            if (e.first.compare(0, p.size() + 1, p + "/") == 0) v.push_back(e.first);
        return v;
    }
    void Del(const std::string& p) {
        for (auto& q : Below(p)) n.erase(q);
        n.erase(p);
    }
    void Move(const std::string& a, const std::string& b) {
        for (auto& q : Below(a)) {
            n[b + q.substr(a.size())] = n[q];
            n.erase(q);
        }
        n[b] = n[a];
        n.erase(a);
    }
};
std::string SomePath() {
    static const char* names[] = {"a", "b", "ab", "c d", ".h", "a.tmp"};
    int depth = 1 + static_cast<int>(Pick("depth", 3));
    std::string p = "/w";
    for (int i = 0; i < depth; ++i) p += std::string("/") + names[Pick("nm", i == 0 ? 3 : 6)];
    return p;
}
std::string Diff(const std::map<std::string, std::string>& want, const std::map<std::string, std::string>& got) {
    for (auto& e : want) {
        auto it = got.find(e.first);
        if (it == got.end()) return e.first + " is missing";
        if (it->second != e.second) return e.first + " is " + it->second.substr(0, 20) + " instead of " + e.second.substr(0, 20);
    }
    for (auto& e : got)
        if (!want.count(e.first)) return e.first + " should not be there";
    return "";
}

void RunTree() {
    pk::On(true);
    LocalFileSystem fs;
    // things outside that nothing may touch
    pk::PutFile("/outside/keep/x", "keep");
    pk::PutFile("/w2/y", "keep");
    pk::PutDir("/w");
    Tree t;
    t.n = pk::Dump();
    if (Chance("links", 0.3)) {
        // links inside the tree; deleting what holds them must not reach through them
        pk::PutLink("/w/a/lnk", "/outside/keep");
        t.Mk("/w/a");
        t.n["/w/a/lnk"] = "L/outside/keep";
        if (Chance("dangling", 0.3)) {
            pk::PutLink("/w/a/dang", "/nowhere/at/all");
            t.n["/w/a/dang"] = "L/nowhere/at/all";
        }
    }
    auto through_link = [&](const std::string& p) {
        for (std::string q = p; !q.empty(); q = Tree::Parent(q))
            if (t.n.count(q) && t.n[q][0] == 'L') return true;
        return false;
    };
    int nops = 4 + static_cast<int>(Pick("ops", 30));
    for (int k = 0; k < nops; ++k) {
        std::string p = SomePath();
        if (through_link(p)) continue;
        uint64_t op = Pick("op", 11);
        Log("op %d %s", (int)op, p.c_str());
        bool loose_parent = false;
        std::string loose;
        switch (op) {
            case 0:
            case 1: {
                bool ow = Chance("ow", 0.5);
                bool can = !t.Blocked(p) && !(t.Has(p) && (t.IsDir(p) || !ow));
                auto r = fs.Create(Spell(p), ow);
                DST_CHECK("C27", "create", r.ok() == can, "Create(%s, overwrite=%d) %s", p.c_str(), (int)ow, r.ok() ? "succeeded" : r.status().ToString().c_str());
                if (r.ok()) {
                    std::string c = Bytes(Aux() % 50);
                    auto w = r.value()->Write(c.data(), c.size());
                    auto uri = r.value()->GetUri();
                    DST_CHECK("C27", "uri", uri.ok() && uri.value() == p, "the stream created at %s says %s", p.c_str(), uri.ok() ? uri.value().c_str() : "error");
                    Status c2 = r.value()->Close();
                    DST_CHECK("C27", "create", w.ok() && c2.ok(), "writing %s failed", p.c_str());
                    t.Mk(Tree::Parent(p));
                    t.n[p] = "F" + c;
                }
                break;
            }
            case 2:
            case 3: {
                bool can = !t.Blocked(p) && (!t.Has(p) || t.IsDir(p));
                Status r = fs.Mkdirs(Spell(p) + (Chance("trail", 0.3) ? "/" : ""));
                DST_CHECK("C27", "mkdirs", r.ok() == can, "Mkdirs(%s) %s", p.c_str(), r.ok() ? "succeeded" : r.ToString().c_str());
                if (r.ok()) t.Mk(p);
                break;
            }
            case 4:
            case 5: {
                std::string q = SomePath();
                if (through_link(q)) continue;
                bool has_link = false;
                for (auto& e : t.Below(p)) has_link |= t.n[e][0] == 'L';
                bool can = t.Has(p) && !t.Blocked(p) && !t.Has(q) && !t.Blocked(q) && !(q.compare(0, p.size() + 1, p + "/") == 0);
                Status r = fs.Rename(Spell(p), Spell(q));
                Log("  to %s", q.c_str());
                DST_CHECK("C27", "rename", r.ok() == can, "Rename(%s, %s) %s", p.c_str(), q.c_str(), r.ok() ? "succeeded" : r.ToString().c_str());
                if (!t.Has(p) && !t.Blocked(p)) DST_CHECK("C27", "rename-status", r.IsNotExist(), "renaming the absent %s is reported as %s", p.c_str(), r.ToString().c_str());
                if (r.ok()) {
                    t.Mk(Tree::Parent(q));
                    t.Move(p, q);
                } else if (t.Has(p) && !t.Has(q)) {
                    loose_parent = true;  // directories above the target may have been made
                    loose = Tree::Parent(q);
                }
                break;
            }
            case 6:
            case 7: {
                bool rec = Chance("rec", 0.6);
                bool nonempty = t.IsDir(p) && !t.Below(p).empty();
                bool can = !t.Blocked(p) && t.Has(p) && (rec || !nonempty);
                Status r = fs.Delete(Spell(p), rec);
                bool links = false;
                for (auto& e : t.Below(p)) links |= t.n[e][0] == 'L';
                if (t.Has(p) && !t.Blocked(p)) {
                    DST_CHECK("C27", "delete", r.ok() == can, "Delete(%s, recursive=%d) %s", p.c_str(), (int)rec, r.ok() ? "succeeded" : r.ToString().c_str());
                }
                if (r.ok() && can) t.Del(p);
                (void)links;
                break;
            }
            case 8: {
                if (t.Blocked(p)) break;
                auto r = fs.Exists(Spell(p));
                DST_CHECK("C27", "exists", r.ok() && r.value() == t.Has(p), "Exists(%s) is %s", p.c_str(), r.ok() ? (r.value() ? "true" : "false") : r.status().ToString().c_str());
                break;
            }
            case 9: {
                if (t.Blocked(p)) break;
                auto r = fs.GetFileStatus(Spell(p));
                DST_CHECK("C27", "status", r.ok() == t.Has(p), "GetFileStatus(%s) %s", p.c_str(), r.ok() ? "succeeded" : r.status().ToString().c_str());
                if (r.ok()) {
                    DST_CHECK("C27", "status", r.value()->IsDir() == t.IsDir(p) && (t.IsDir(p) || r.value()->GetLen() == t.n[p].size() - 1), "status of %s is wrong", p.c_str());
                    DST_CHECK("C27", "status", r.value()->GetPath() == p, "status of %s names %s", p.c_str(), r.value()->GetPath().c_str());
                } else {
                    DST_CHECK("C27", "status", r.status().IsNotExist(), "GetFileStatus of the absent %s says %s", p.c_str(), r.status().ToString().c_str());
                }
                break;
            }
            default: {
                if (t.Blocked(p)) break;
                std::set<std::string> want, got;
                bool link = false;
                for (auto& e : t.Below(p))
                    if (e.find('/', p.size() + 1) == std::string::npos) {
                        link |= t.n[e][0] == 'L';
                        want.insert(e + (t.IsDir(e) ? "/" : ""));
                    }
                if (link) break;
                Status r;
                bool basic = Chance("basic", 0.5);
                if (basic) {
                    std::vector<std::unique_ptr<BasicFileStatus>> v;
                    r = fs.ListDir(Spell(p), &v);
                    for (auto& x : v) got.insert(x->GetPath() + (x->IsDir() ? "/" : ""));
                } else {
                    std::vector<std::unique_ptr<FileStatus>> v;
                    r = fs.ListFileStatus(Spell(p), &v);
                    for (auto& x : v) {
                        got.insert(x->GetPath() + (x->IsDir() ? "/" : ""));
                        if (!x->IsDir() && t.Has(x->GetPath())) DST_CHECK("C27", "list", x->GetLen() == t.n[x->GetPath()].size() - 1, "listed length of %s is wrong", x->GetPath().c_str());
                    }
                    if (t.Has(p) && !t.IsDir(p)) want = {p};
                }
                if (basic && t.Has(p) && !t.IsDir(p)) {
                    DST_CHECK("C27", "list", !r.ok(), "ListDir of the file %s succeeded", p.c_str());
                } else {
                    DST_CHECK("C27", "list", r.ok(), "listing %s: %s", p.c_str(), r.ToString().c_str());
                    std::set<std::string> g2;
                    DST_CHECK("C27", "list", got == want, "listing %s gives %d entries instead of %d (first %s)", p.c_str(), (int)got.size(), (int)want.size(), got.empty() ? "-" : got.begin()->c_str());
                }
            }
        }
        auto d = pk::Dump();
        if (loose_parent) {
            Tree alt = t;
            for (std::string q = loose; !q.empty(); q = Tree::Parent(q))
                if (d.count(q) && d[q] == "D" && !alt.Has(q)) alt.Mk(q);
            if (alt.n == d) t = alt;
        }
        std::string df = Diff(t.n, d);
        if (!df.empty()) {
            bool outside = df.compare(0, 8, "/outside") == 0 || df.compare(0, 3, "/w2") == 0;
            dst::Violate("C27", outside ? "outside-touched" : "tree", "after operation %d on %s: %s", (int)op, p.c_str(), df.c_str());
        }
        DST_CHECK("C27", "handles", pk::OpenHandles() == 0, "operation %d on %s left a descriptor open", (int)op, p.c_str());
    }
    dst::NonTrivial();
    for (auto& e : t.n) dst::StateStr(e.first + e.second.substr(0, 1));
}

void RunMkdirs() {
    dst::SwarmPreempt(true);
    pk::On(true);
    LocalFileSystem fs;
    pk::PutDir("/w");
    int nt = 2 + static_cast<int>(Pick("threads", 3));
    std::vector<std::vector<std::string>> want(nt);
    std::vector<std::thread> th;
    for (int i = 0; i < nt; ++i) {
        int k = 1 + static_cast<int>(Pick("per", 3));
        for (int j = 0; j < k; ++j) {
            std::string p = "/w";
            int d = 1 + static_cast<int>(Pick("depth", 4));
            for (int x = 0; x < d; ++x) p += Chance("alt", 0.25) ? "/b" : "/a";
            want[i].push_back(p);
        }
    }
    for (int i = 0; i < nt; ++i) {
        th.emplace_back([&, i] {
            int j = 0;
            for (auto& p : want[i]) {
                int what = static_cast<int>(Pick("what", 3));
                std::string f = p + "/f" + std::to_string(i) + "_" + std::to_string(j++);
                Status r;
                if (what == 0) {
                    r = fs.Mkdirs(Spell(p));
                } else if (what == 1) {
                    r = fs.WriteFile(f, "x", false);
                } else {
                    r = fs.AtomicStore(f, "x");
                }
                DST_CHECK("C27", "concurrent-mkdirs", r.ok(), "creating %s next to other threads: %s", p.c_str(), r.ToString().c_str());
                std::string now;
                DST_CHECK("C27", "concurrent-mkdirs", pk::Get(p, &now) && now == "D", "%s is missing after it was created", p.c_str());
            }
        });
    }
    for (auto& x : th) x.join();
    dst::NonTrivial();
    dst::State(dst::Switches());
}

// ---------------------------------------------------------------- C23, local streams
void RunLocalAsync() {
    dst::SwarmPreempt(true);
    pk::On(true);
    LocalFileSystem fs;
    std::string c = Bytes(SomeSize());
    pk::PutFile("/w/f", c);
    if (Chance("short", 0.6)) pk::g_rates.short_io = 0.5;
    if (Chance("err", 0.5)) pk::g_rates.read = 0.15;
    pk::Rates later = pk::g_rates;
    pk::g_rates = pk::Rates();
    auto in = fs.Open("/w/f");
    if (!in.ok()) dst::HarnessError("open: %s", in.status().ToString().c_str());
    InputStream* s = in.value().get();
    int64_t pos = static_cast<int64_t>(Pick("pos", c.size() + 1));
    if (!s->Seek(pos, FS_SEEK_SET).ok()) dst::HarnessError("seek");
    pk::g_rates = later;
    int nt = 1 + static_cast<int>(Pick("threads", 3));
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) {
        th.emplace_back([&] {
            int k = 1 + static_cast<int>(Pick("per", 4));
            for (int j = 0; j < k; ++j) {
                size_t n = SomeSize();
                uint64_t off = Pick("off", c.size() + 30);
                std::string buf(n + 4, '\x55');
                int calls = 0;
                Status got;
                uint64_t f0 = pk::Faults();
                s->ReadAsync(&buf[0], n, off, [&](Status st) {
                    ++calls;
                    got = st;
                });
                DST_CHECK("C23", "callback-count", calls == 1, "the callback of an asynchronous read was called %d times", calls);
                bool fits = off + n <= c.size();
                if (got.ok() && n) {
                    DST_CHECK("C23", "async-past-end", fits, "an asynchronous read of %d bytes at %llu of %d succeeded", (int)n, (unsigned long long)off, (int)c.size());
                    DST_CHECK("C23", "async-bytes", c.compare(off, n, buf, 0, n) == 0, "an asynchronous read of %d bytes at %llu delivered wrong bytes", (int)n, (unsigned long long)off);
                }
                if (!got.ok() && fits) DST_CHECK("C23", "async-failed", pk::Faults() != f0 || nt > 1, "an asynchronous read failed without cause: %s", got.ToString().c_str());
                DST_CHECK("C23", "overrun", buf.substr(n) == "\x55\x55\x55\x55", "an asynchronous read wrote past its buffer");
            }
        });
    }
    for (auto& x : th) x.join();
    pk::g_rates = pk::Rates();
    auto p = s->GetPos();
    DST_CHECK("C23", "async-moved", p.ok() && p.value() == pos, "asynchronous reads moved the position from %lld", (long long)pos);
    if (pos < static_cast<int64_t>(c.size())) {
        char ch;
        auto r = s->Read(&ch, 1);
        DST_CHECK("C23", "async-moved", r.ok() && ch == c[pos], "asynchronous reads disturbed the sequential read at %lld", (long long)pos);
    }
    if (pk::Faults() || pk::Shorts() || nt > 1) dst::NonTrivial();
    dst::State(dst::Switches());
}

}  // namespace

void DstInit() {}
void DstRun() {
    const std::string& p = dst::Opt().prop;
    if (p == "C24") RunAtomicStore();
    else if (p == "C25") RunExclusive();
    else if (p == "C26") RunIoFaults();
    else if (p == "C27") Pick("part", 3) == 2 ? RunMkdirs() : RunTree();
    else if (p == "C23") RunLocalAsync();
    else dst::HarnessError("unknown property %s", p.c_str());
    pk::Off();
}
const char* DstRule() {
    const std::string& p = dst::Opt().prop;
    if (p == "C24") return "seeded atomic stores with a crash, power loss, error, full disk or short transfers at a chosen kernel call, sometimes next to a reader; non-trivial: the crash or a fault took place";
    if (p == "C25") return "2-4 threads racing with exclusive create, rename and atomic store for one or two names under seeded schedules; non-trivial: at least two operations raced for one absent name";
    if (p == "C26") return "seeded sequences of stream, listing, status and whole-file calls with kernel errors, short transfers and a full disk; non-trivial: a fault or a short transfer took place";
    if (p == "C27") return "seeded operation sequences over a small tree incl. links and scheme spellings compared with a tree model, and threads creating overlapping directories; every run counts";
    return "seeded concurrent asynchronous reads of a local file with short reads and read errors; non-trivial: a fault took place or several threads read";
}
