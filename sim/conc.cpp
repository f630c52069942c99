// Concurrency utilities under access-level scheduling: C28-C35.
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>

#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "dst.h"
#include "lin.h"
#include "paimon/common/executor/future.h"
#include "paimon/common/factories/io_hook.h"
#include "paimon/common/fs/resolving_file_system.h"
#include "paimon/common/metrics/metrics_impl.h"
#include "paimon/common/utils/concurrent_hash_map.h"
#include "paimon/common/utils/threadsafe_queue.h"
#include "paimon/executor.h"
#include "paimon/factories/factory.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/fs/file_system.h"
#include "paimon/fs/file_system_factory.h"
#include "paimon/memory/memory_pool.h"
#if __has_include("paimon/common/factories/singleton.cpp")
#include "paimon/common/factories/singleton.cpp"  // the template's definition lives there
#define HAVE_SINGLETON_CPP 1
#endif

using namespace paimon;  // NOLINT
using dst::Atomic;
using dst::Chance;
using dst::Pick;

static void Join(std::vector<std::thread>& ts) {
    for (auto& t : ts) t.join();
}

// ================================================================ C29 executor
namespace {
struct TaskRec {
    int runs = 0;
    bool accepted = false;   // Add returned before destruction started
    bool started = false, finished = false;
    bool own_thread = true;
    int64_t add_inv = -1, add_ret = -1, start = -1;
};
struct ExecWorld {
    std::vector<TaskRec> recs;
    int64_t clk = 0;
    bool destroying = false;
    bool destroyed = false;
    int in_progress = 0, max_in_progress = 0;
    std::set<int> submit_tids;
    std::set<int> worker_tids;
    int n = 1;
};
ExecWorld* W;

int NewTask() {
    Atomic a;
    W->recs.push_back(TaskRec());
    return static_cast<int>(W->recs.size()) - 1;
}
void Submit(Executor* ex, int depth);
void Body(Executor* ex, int id, int depth, int work) {
    {
        Atomic a;
        TaskRec& r = W->recs[id];
        r.runs++;
        DST_CHECK("C29", "task-run-twice", r.runs == 1, "task %d ran %d times", id, r.runs);
        DST_CHECK("C29", "task-after-destruction", !W->destroyed, "task %d ran after the executor was destroyed", id);
        r.started = true;
        r.start = W->clk++;
        DST_CHECK("C29", "task-on-foreign-thread", !W->submit_tids.count(dst::Tid()) , "task %d ran on the submitting thread t%d", id, dst::Tid());
        W->worker_tids.insert(dst::Tid());
        W->in_progress++;
        W->max_in_progress = std::max(W->max_in_progress, W->in_progress);
        // tasks whose submission completed before mine began and which have not started
        int earlier = 0;
        for (auto& o : W->recs)
            if (o.add_ret >= 0 && !o.started && o.accepted && o.add_ret < r.add_inv) earlier++;
        DST_CHECK("C29", "task-order", earlier <= W->n - 1, "task %d started while %d earlier submitted tasks had not (workers: %d)", id, earlier, W->n);
        dst::Log("task %d starts", id);
    }
    for (int i = 0; i < work; i++) dst::Yield("work");
    if (depth > 0 && ex) {
        int k = static_cast<int>(Pick("c29.sub", 3));
        for (int i = 0; i < k; i++) Submit(ex, depth - 1);
    }
    {
        Atomic a;
        W->recs[id].finished = true;
        W->in_progress--;
        dst::Log("task %d ends", id);
    }
}
void Submit(Executor* ex, int depth) {
    int id = NewTask();
    int work = static_cast<int>(Pick("c29.work", 4));
    {
        Atomic a;
        W->recs[id].add_inv = W->clk++;
    }
    ex->Add([ex, id, depth, work]() { Body(ex, id, depth, work); });
    {
        Atomic a;
        TaskRec& r = W->recs[id];
        r.add_ret = W->clk++;
        r.accepted = !W->destroying;
    }
}
}  // namespace

static void RunC29() {
    W = new ExecWorld();
    dst::SwarmPreempt(true);
    W->n = 1 + static_cast<int>(Pick("c29.threads", 4));
    int mode = static_cast<int>(Pick("c29.mode", 4));
    dst::Log("executor with %d threads, mode %d", W->n, mode);
    W->submit_tids.insert(dst::Tid());
    std::unique_ptr<Executor> ex = CreateDefaultExecutor(W->n);
    dst::NonTrivial();
    if (mode == 0) {
        // n tasks that only finish when all n are in progress
        int n = W->n, arrived = 0, done = 0;
        for (int i = 0; i < n; i++)
            ex->Add([&]() {
                {
                    Atomic a;
                    arrived++;
                }
                dst::WaitUntil("n tasks in progress", [&] { return arrived == n; });
                Atomic a;
                done++;
            });
        dst::WaitUntil("barrier tasks done", [&] { return done == n; });
        if (Chance("c29.empty", 0.5)) ex->Add(std::function<void()>());
        ex.reset();
        return;
    }
    int subs = mode == 1 ? 1 : 1 + static_cast<int>(Pick("c29.submitters", 3));
    int per = 1 + static_cast<int>(Pick("c29.tasks", 5));
    int depth = static_cast<int>(Pick("c29.depth", 3));
    std::vector<std::thread> ts;
    for (int s = 0; s < subs; s++)
        ts.emplace_back([&]() {
            {
                Atomic a;
                W->submit_tids.insert(dst::Tid());
            }
            for (int i = 0; i < per; i++) Submit(ex.get(), depth);
        });
    Join(ts);
    if (mode == 3) {
        // everything must finish without destruction pushing it
        dst::WaitUntil("all tasks done", [&] {
            for (auto& r : W->recs)
                if (!r.finished) return false;
            return true;
        });
        dst::Log("all done before destruction");
    }
    size_t pending = 0;
    {
        Atomic a;
        W->destroying = true;
        for (auto& r : W->recs) pending += !r.started;
        dst::Log("destroying with %zu tasks pending", pending);
    }
    dst::Count("destroyed_with_pending_tasks", pending > 0);
    ex.reset();
    Atomic a;
    W->destroyed = true;
    for (size_t i = 0; i < W->recs.size(); i++) {
        TaskRec& r = W->recs[i];
        if (r.accepted) {
            DST_CHECK("C29", "task-lost", r.runs == 1, "task %zu was accepted but ran %d times by the end of destruction", i, r.runs);
            DST_CHECK("C29", "task-unfinished", r.finished, "task %zu not finished when destruction returned", i);
        }
    }
    DST_CHECK("C29", "too-many-in-progress", W->max_in_progress <= W->n, "%d tasks in progress with %d workers", W->max_in_progress, W->n);
    DST_CHECK("C29", "too-many-threads", (int)W->worker_tids.size() <= W->n, "%zu worker threads instead of %d", W->worker_tids.size(), W->n);
}

// ================================================================ C30 futures
struct MoveOnlyResult {
    std::unique_ptr<int> v;
};
static void RunC30() {
    dst::SwarmPreempt(true);
    int n = 1 + static_cast<int>(Pick("c30.threads", 4));
    int m = 1 + static_cast<int>(Pick("c30.tasks", 7));
    bool throwing = Chance("c30.throwing", 0.5);
    bool nested = n > 1 && Chance("c30.nested", 0.3);
    int callers = 1 + static_cast<int>(Pick("c30.callers", 3));
    std::unique_ptr<Executor> ex = CreateDefaultExecutor(n);
    std::vector<std::thread> ts;
    dst::NonTrivial();
    auto caller = [&](int c) {
        std::vector<std::future<int>> fs;
        std::vector<std::future<void>> vs;
        std::vector<std::future<MoveOnlyResult>> ms;
        std::vector<int> kind(m);
        int ran = 0;
        for (int i = 0; i < m; i++) {
            kind[i] = throwing ? static_cast<int>(Pick("c30.kind", 3)) : 0;
            int work = static_cast<int>(Pick("c30.work", 3));
            auto body = [i, c, work, k = kind[i], &ran]() -> int {
                for (int w = 0; w < work; w++) dst::Yield("work");
                {
                    Atomic a;
                    ran++;
                }
                if (k == 1) throw std::runtime_error("task " + std::to_string(i));
                if (k == 2) throw i;
                return c * 1000 + i;
            };
            fs.push_back(Via(ex.get(), body));
            vs.push_back(Via(ex.get(), [i, work, k = kind[i]]() {
                for (int w = 0; w < work; w++) dst::Yield("work");
                if (k) throw std::runtime_error("void task " + std::to_string(i));
            }));
            ms.push_back(Via(ex.get(), [i]() { return MoveOnlyResult{std::make_unique<int>(i)}; }));
        }
        if (!throwing) {
            std::vector<int> r = CollectAll(fs);
            Atomic a;
            DST_CHECK("C30", "collect-size", (int)r.size() == m, "collected %zu of %d", r.size(), m);
            for (int i = 0; i < m; i++)
                DST_CHECK("C30", "collect-order", r[i] == c * 1000 + i, "result %d is %d, expected %d", i, r[i], c * 1000 + i);
            DST_CHECK("C30", "collect-before-done", ran == m, "CollectAll returned after %d of %d tasks", ran, m);
            dst::Log("caller %d collected %d", c, m);
        } else {
            if (Chance("c30.collect", 0.4)) {
                // the first failure reaches the caller; what follows it is still there
                int first = 0, exc = 0;
                while (first < m && !kind[first]) first++;
                std::string what;
                try {
                    CollectAll(fs);
                } catch (const std::runtime_error& e) {
                    exc = 1;
                    what = e.what();
                } catch (int v) {
                    exc = 2;
                    what = "task " + std::to_string(v);
                }
                Atomic a;
                DST_CHECK("C30", "collect-outcome", exc == (first < m ? kind[first] : 0), "CollectAll: exception kind %d, the first failing task's is %d", exc, first < m ? kind[first] : 0);
                if (exc) DST_CHECK("C30", "collect-outcome", what == "task " + std::to_string(first), "CollectAll reports '%s', task %d failed first", what.c_str(), first);
            }
            for (int i = 0; i < m; i++) {
                if (!fs[i].valid()) continue;
                int got = -1, exc = 0;
                std::string what;
                try {
                    got = fs[i].get();
                } catch (const std::runtime_error& e) {
                    exc = 1;
                    what = e.what();
                } catch (int v) {
                    exc = 2;
                    what = std::to_string(v);
                } catch (...) {
                    exc = 3;
                }
                Atomic a;
                dst::Log("caller %d future %d: value %d exception %d %s", c, i, got, exc, what.c_str());
                DST_CHECK("C30", "wrong-outcome", exc == kind[i], "future %d: outcome %d, task's outcome %d (%s)", i, exc, kind[i], what.c_str());
                if (exc == 0) DST_CHECK("C30", "wrong-value", got == c * 1000 + i, "future %d has %d", i, got);
                if (exc == 1) DST_CHECK("C30", "wrong-exception", what == "task " + std::to_string(i), "future %d has '%s'", i, what.c_str());
                if (exc == 2) DST_CHECK("C30", "wrong-exception", what == std::to_string(i), "future %d has '%s'", i, what.c_str());
                if (exc) dst::Fault("task_exception");
            }
        }
        if (!throwing) {
            Wait(vs);
        } else {
            if (Chance("c30.wait", 0.4)) {
                bool any = false, exc = false;
                for (int k : kind) any |= k != 0;
                try {
                    Wait(vs);
                } catch (const std::runtime_error&) {
                    exc = true;
                }
                DST_CHECK("C30", "wait-outcome", exc == any, "Wait: exception %d although %s task failed", exc, any ? "a" : "no");
            }
            for (int i = 0; i < m; i++) {
                if (!vs[i].valid()) continue;
                bool exc = false;
                try {
                    vs[i].get();
                } catch (const std::runtime_error&) {
                    exc = true;
                }
                DST_CHECK("C30", "void-outcome", exc == (kind[i] != 0), "void future %d: exception %d", i, exc);
            }
        }
        auto mr = CollectAll(ms);
        for (int i = 0; i < m; i++) DST_CHECK("C30", "collect-order", mr[i].v && *mr[i].v == i, "move-only result %d wrong", i);
    };
    for (int c = 0; c < callers; c++) ts.emplace_back(caller, c);
    Join(ts);
    if (nested) {
        auto f = Via(ex.get(), [&]() { return Via(ex.get(), []() { return 7; }).get(); });
        DST_CHECK("C30", "nested", f.get() == 7, "nested future wrong");
    }
    // pool still alive
    DST_CHECK("C30", "pool-dead", Via(ex.get(), []() { return 5; }).get() == 5, "executor unusable");
    ex.reset();
}

// ================================================================ C31 queue
struct QState {
    std::vector<int64_t> q;
    std::string Key() const {
        std::string s;
        for (auto v : q) s += std::to_string(v) + ",";
        return s;
    }
};
static void RunC31() {
    dst::SwarmPreempt(true);
    dst::History h;
    int nt = 2 + static_cast<int>(Pick("c31.threads", 3));
    bool single_consumer = Chance("c31.single", 0.5);
    ThreadsafeQueue<std::shared_ptr<int64_t>> q;
    std::vector<std::thread> ts;
    int64_t next = 1;
    int per = nt == 2 ? 6 : nt == 3 ? 5 : 4;
    dst::NonTrivial();
    std::vector<std::vector<int>> plan(nt);
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < per; i++) plan[t].push_back(static_cast<int>(Pick("c31.op", 8)));
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t]() {
            for (int op : plan[t]) {
                bool consumer = !single_consumer || t == 0;
                if (op == 0 || op == 1 || op == 7 || (!consumer && op < 6)) {
                    int64_t v;
                    {
                        Atomic a;
                        v = next++;
                    }
                    int i = h.Invoke("push", v);
                    auto p = std::make_shared<int64_t>(v);
                    if (op == 1)
                        q.push(p);
                    else
                        q.push(std::move(p));
                    h.Return(i);
                } else if (op == 2 || op == 3) {
                    int i = h.Invoke("pop");
                    auto r = q.try_pop();
                    DST_CHECK("C31", "null-element", !r || *r, "popped an element that was never pushed (empty)");
                    h.Return(i, r ? **r : 0, r.has_value());
                } else if (op == 4 && consumer) {
                    int i = h.Invoke("front");
                    auto* r = q.try_front();
                    // the pointer stays valid for the only consumer
                    if (single_consumer && r) {
                        DST_CHECK("C31", "null-element", *r != nullptr, "peeked an empty element");
                        h.Return(i, **r, true);
                    } else {
                        h.Return(i, r ? -1 : 0, r != nullptr);
                    }
                } else if (op == 5) {
                    int i = h.Invoke("size");
                    h.Return(i, static_cast<int64_t>(q.size()));
                } else {
                    int i = h.Invoke("empty");
                    h.Return(i, q.empty());
                }
            }
        });
    Join(ts);
    // drain
    for (;;) {
        int i = h.Invoke("pop");
        auto r = q.try_pop();
        h.Return(i, r ? **r : 0, r.has_value());
        if (!r) break;
    }
    Atomic a;
    std::function<bool(QState&, const dst::Op&)> step = [](QState& s, const dst::Op& o) {
        if (o.name == "push") {
            s.q.push_back(o.a);
            return true;
        }
        if (o.name == "pop") {
            if (!o.has) return s.q.empty();
            if (s.q.empty() || s.q.front() != o.r) return false;
            s.q.erase(s.q.begin());
            return true;
        }
        if (o.name == "front") {
            if (!o.has) return s.q.empty();
            return !s.q.empty() && (o.r == -1 || s.q.front() == o.r);
        }
        if (o.name == "size") return static_cast<int64_t>(s.q.size()) == o.r;
        return s.q.empty() == (o.r != 0);
    };
    DST_CHECK("C31", "not-linearizable", dst::Linearizable<QState>(h.ops(), QState(), step), "history: %s", h.Text().c_str());
}

// ================================================================ C32 hash map
struct MState {
    int64_t v = -1;
    std::string Key() const { return std::to_string(v); }
};
static void RunC32() {
    dst::SwarmPreempt(true);
    int nt = 2 + static_cast<int>(Pick("c32.threads", 3));
    bool strings = Chance("c32.strings", 0.5);
    ConcurrentHashMap<int, std::string> m1;
    ConcurrentHashMap<std::vector<std::string>, std::string, VectorStringHashCompare> m2;
    // keys whose concatenations collide
    std::vector<std::vector<std::string>> skeys = {{"a", "bc"}, {"ab", "c"}, {"abc"}, {"", "abc"}};
    int nk = 1 + static_cast<int>(Pick("c32.keys", 4));
    std::vector<dst::History> hist(nk);
    int per = nt == 2 ? 7 : nt == 3 ? 5 : 4;
    int64_t ins_started = 0, ins_done = 0, er_started = 0, er_done = 0;
    auto key = [&](int k) { return k * 64; };
    auto val = [](int64_t v) { return std::string("value-number-that-does-not-fit-inline-") + std::to_string(v); };
    auto unval = [](const std::string& s) -> int64_t {
        const std::string p = "value-number-that-does-not-fit-inline-";
        if (s.compare(0, p.size(), p) != 0) return -7;
        return atoll(s.c_str() + p.size());
    };
    int64_t next = 1;
    std::vector<std::thread> ts;
    dst::NonTrivial();
    // pre-size so that rehashing happens inside the run
    int pre = static_cast<int>(Pick("c32.pre", 3)) * 7;
    for (int i = 0; i < pre; i++) {
        m1.Insert(100000 + i, "x");
        m2.Insert({"pre" + std::to_string(i)}, "x");
    }
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t]() {
            for (int i = 0; i < per; i++) {
                int k = static_cast<int>(Pick("c32.key", nk));
                int op = static_cast<int>(Pick("c32.op", 8));
                if (op <= 2) {
                    int64_t v;
                    {
                        Atomic a;
                        v = next++;
                        ins_started++;
                    }
                    int j = hist[k].Invoke("insert", v, k);
                    if (strings)
                        m2.Insert(skeys[k], val(v));
                    else
                        m1.Insert(key(k), val(v));
                    hist[k].Return(j);
                    Atomic a;
                    ins_done++;
                } else if (op <= 5) {
                    int j = hist[k].Invoke("find", 0, k);
                    std::optional<std::string> r = strings ? m2.Find(skeys[k]) : m1.Find(key(k));
                    hist[k].Return(j, r ? unval(*r) : -1, r.has_value());
                } else if (op == 6) {
                    {
                        Atomic a;
                        er_started++;
                    }
                    int j = hist[k].Invoke("erase", 0, k);
                    if (strings)
                        m2.Erase(skeys[k]);
                    else
                        m1.Erase(key(k));
                    hist[k].Return(j);
                    Atomic a;
                    er_done++;
                } else {
                    size_t s = strings ? m2.Size() : m1.Size();
                    Atomic a;
                    DST_CHECK("C32", "size-out-of-bounds", (int64_t)s >= pre && (int64_t)s <= pre + std::min<int64_t>(nk, ins_started), "size %zu, %d keys at most, pre %d", s, nk, pre);
                }
            }
        });
    Join(ts);
    Atomic a;
    size_t present = 0;
    for (int k = 0; k < nk; k++) {
        int j = hist[k].Invoke("find", 0, k);
        std::optional<std::string> r = strings ? m2.Find(skeys[k]) : m1.Find(key(k));
        hist[k].Return(j, r ? unval(*r) : -1, r.has_value());
        present += r.has_value();
        std::function<bool(MState&, const dst::Op&)> step = [](MState& s, const dst::Op& o) {
            if (o.name == "insert") {
                s.v = o.a;
                return true;
            }
            if (o.name == "erase") {
                s.v = -1;
                return true;
            }
            return o.has ? s.v == o.r : s.v == -1;
        };
        DST_CHECK("C32", "not-linearizable", dst::Linearizable<MState>(hist[k].ops(), MState(), step), "key %d history: %s", k, hist[k].Text().c_str());
    }
    size_t s = strings ? m2.Size() : m1.Size();
    DST_CHECK("C32", "size-at-rest", s == present + pre, "size %zu at rest, %zu keys present", s, present + pre);
    for (int i = 0; i < pre; i++) {
        DST_CHECK("C32", "unrelated-key-lost", strings ? m2.Find({"pre" + std::to_string(i)}).has_value() : m1.Find(100000 + i).has_value(), "key inserted before the run is gone");
    }
}

// ================================================================ C33 memory pool
static thread_local bool t_in_pool;
static double g_alloc_fail;
extern "C" int posix_memalign(void** p, size_t al, size_t n) {
    static auto real = reinterpret_cast<int (*)(void**, size_t, size_t)>(dlsym(RTLD_NEXT, "posix_memalign"));
    if (t_in_pool && g_alloc_fail > 0 && Chance("alloc.fail", g_alloc_fail)) {
        dst::Fault("allocation_refused");
        return ENOMEM;
    }
    return real(p, al, n);
}
extern "C" void* aligned_alloc(size_t al, size_t n) {
    static auto real = reinterpret_cast<void* (*)(size_t, size_t)>(dlsym(RTLD_NEXT, "aligned_alloc"));
    if (t_in_pool && g_alloc_fail > 0 && Chance("alloc.fail", g_alloc_fail)) {
        dst::Fault("allocation_refused");
        return nullptr;
    }
    return real(al, n);
}
extern "C" void* realloc(void* p, size_t n) {
    static auto real = reinterpret_cast<void* (*)(void*, size_t)>(dlsym(RTLD_NEXT, "realloc"));
    if (t_in_pool && g_alloc_fail > 0 && n > 0 && Chance("alloc.fail", g_alloc_fail)) {
        dst::Fault("reallocation_refused");
        return nullptr;
    }
    return real(p, n);
}
struct InPool {
    InPool() { t_in_pool = true; }
    ~InPool() { t_in_pool = false; }
};
struct Obj33 {
    int64_t a[5];
    explicit Obj33(bool bad) {
        if (bad) throw std::runtime_error("ctor");
        for (auto& x : a) x = 7;
    }
};
static void RunC33() {
    dst::SwarmPreempt(true);
    int nt = 1 + static_cast<int>(Pick("c33.threads", 4));
    g_alloc_fail = Chance("c33.fail", 0.4) ? 0.15 : 0;
    int per = 2 + static_cast<int>(Pick("c33.ops", 8));
    auto up = GetMemoryPool();
    MemoryPool* pool = up.get();
    // bounds on the true level: lo counts what is certainly held, hi what may be held
    int64_t lo = 0, hi = 0, max_lo = 0, max_hi = 0;
    auto bump = [&]() {
        max_lo = std::max(max_lo, lo);
        max_hi = std::max(max_hi, hi);
    };
    struct Block {
        unsigned char* p;
        size_t n;
        uint64_t al;
        unsigned char pat;
    };
    dst::NonTrivial();
    auto fill = [](Block& b) {
        Atomic a;
        for (size_t i = 0; i < b.n; i++) b.p[i] = static_cast<unsigned char>(b.pat + i);
    };
    auto verify = [](const Block& b, size_t n, const char* when) {
        Atomic a;
        for (size_t i = 0; i < n; i++)
            DST_CHECK("C33", "contents-changed", b.p[i] == static_cast<unsigned char>(b.pat + i), "byte %zu of %zu changed %s", i, b.n, when);
    };
    auto aligned = [](const Block& b, const char* what) {
        uint64_t al = b.al ? b.al : 16;
        DST_CHECK("C33", "misaligned", b.p != nullptr && reinterpret_cast<uintptr_t>(b.p) % al == 0, "%s: block of %zu bytes not aligned to %llu", what, b.n, (unsigned long long)al);
    };
    static const uint64_t als[] = {0, 0, 8, 16, 64, 256, 4096};
    int64_t live_total = 0;
    unsigned char pat = 1;
    auto worker = [&]() {
        std::vector<Block> mine;
        for (int i = 0; i < per; i++) {
            int op = static_cast<int>(Pick("c33.op", 7));
            if (op <= 2 || mine.empty()) {
                Block b;
                b.n = 1 + Pick("c33.size", 5000);
                if (Chance("c33.zero", 0.05)) b.n = 0;
                b.al = als[Pick("c33.al", 7)];
                {
                    Atomic a;
                    b.pat = pat++;
                    hi += b.n;
                    bump();
                }
                bool ok = true;
                try {
                    InPool in;
                    b.p = static_cast<unsigned char*>(pool->Malloc(b.n, b.al));
                    if (!b.p && b.n) ok = false;
                } catch (const std::bad_alloc&) {
                    ok = false;
                }
                Atomic a;
                dst::Log("malloc %zu align %llu -> %s", b.n, (unsigned long long)b.al, ok ? "ok" : "refused");
                if (!ok) {
                    DST_CHECK("C33", "spurious-refusal", g_alloc_fail > 0, "malloc of %zu refused although memory was available", b.n);
                    hi -= b.n;
                    continue;
                }
                lo += b.n;
                live_total += b.n;
                bump();
                if (b.n) aligned(b, "malloc");
                fill(b);
                mine.push_back(b);
            } else if (op <= 4) {
                size_t k = Pick("c33.which", mine.size());
                Block& b = mine[k];
                verify(b, b.n, "before realloc");
                size_t nn = 1 + Pick("c33.size", 5000);
                if (Chance("c33.same", 0.1)) nn = b.n ? b.n : 1;
                if (Chance("c33.near", 0.3)) nn = b.n > 10 ? b.n - Pick("c33.delta", b.n / 3) : b.n + 1;
                {
                    Atomic a;
                    hi += nn;
                    // while the call runs only min(old, new) is certainly held
                    lo -= b.n > nn ? b.n - nn : 0;
                    bump();
                }
                void* np = nullptr;
                bool ok = true;
                try {
                    InPool in;
                    np = pool->Realloc(b.p, b.n, nn, b.al);
                    if (!np) ok = false;
                } catch (const std::bad_alloc&) {
                    ok = false;
                }
                Atomic a;
                dst::Log("realloc %zu -> %zu align %llu: %s", b.n, nn, (unsigned long long)b.al, ok ? "ok" : "refused");
                if (!ok) {
                    DST_CHECK("C33", "spurious-refusal", g_alloc_fail > 0, "realloc to %zu refused although memory was available", nn);
                    // the old block stays as it was
                    lo += b.n > nn ? b.n - nn : 0;
                    hi -= nn;
                    verify(b, b.n, "by a refused realloc");
                    continue;
                }
                Block old = b;
                b.p = static_cast<unsigned char*>(np);
                b.n = nn;
                lo += nn > old.n ? nn - old.n : 0;
                hi -= old.n;
                live_total += (int64_t)nn - (int64_t)old.n;
                bump();
                aligned(b, "realloc");
                verify(b, std::min(old.n, nn), "by realloc");
                b.pat = pat++;
                fill(b);
            } else if (op == 5) {
                size_t k = Pick("c33.which", mine.size());
                Block b = mine[k];
                mine.erase(mine.begin() + k);
                verify(b, b.n, "before free");
                {
                    Atomic a;
                    lo -= b.n;
                }
                pool->Free(b.p, b.n);
                Atomic a;
                hi -= b.n;
                live_total -= b.n;
                dst::Log("free %zu", b.n);
            } else {
                if (Chance("c33.obj", 0.5)) {
                    {
                        Atomic a;
                        hi += sizeof(Obj33);
                        bump();
                    }
                    bool bad = Chance("c33.ctor", 0.3);
                    try {
                        InPool in;
                        auto o = pool->AllocateUnique<Obj33>(bad);
                        t_in_pool = false;
                        DST_CHECK("C33", "object", o && o->a[4] == 7, "object not constructed");
                    } catch (const std::bad_alloc&) {
                    } catch (const std::runtime_error&) {
                    }
                    Atomic a;
                    hi -= sizeof(Obj33);
                }
                int64_t lo1;
                {
                    Atomic a;
                    lo1 = max_lo;
                }
                int64_t pk = static_cast<int64_t>(pool->MaxMemoryUsage());
                (void)pool->CurrentUsage();
                Atomic a;
                DST_CHECK("C33", "peak-too-low", pk >= lo1, "peak %lld below reached level %lld", (long long)pk, (long long)lo1);
            }
        }
        // leave some blocks to the end
        if (Chance("c33.keep", 0.5)) {
            for (auto& b : mine) {
                verify(b, b.n, "at the end");
                {
                    Atomic a;
                    lo -= b.n;
                    live_total -= b.n;
                }
                pool->Free(b.p, b.n);
                Atomic a;
                hi -= b.n;
            }
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++) ts.emplace_back(worker);
    Join(ts);
    Atomic a;
    int64_t cur = static_cast<int64_t>(pool->CurrentUsage()), pk = static_cast<int64_t>(pool->MaxMemoryUsage());
    dst::Log("end: current %lld expected %lld, peak %lld in [%lld,%lld]", (long long)cur, (long long)live_total, (long long)pk, (long long)max_lo, (long long)max_hi);
    DST_CHECK("C33", "usage-wrong", cur == live_total, "current usage %lld, allocated and not freed %lld", (long long)cur, (long long)live_total);
    DST_CHECK("C33", "peak-too-low", pk >= max_lo, "peak %lld although %lld bytes were held at once", (long long)pk, (long long)max_lo);
    DST_CHECK("C33", "peak-too-high", pk <= max_hi, "peak %lld although never more than %lld bytes were held", (long long)pk, (long long)max_hi);
}

// ================================================================ C34 metrics
struct CState {
    bool present = false;
    int64_t v = 0;
    std::string Key() const { return present ? std::to_string(v) : "-"; }
};
static void RunC34() {
    dst::SwarmPreempt(true);
    dst::NonTrivial();
    int mode = static_cast<int>(Pick("c34.mode", 4));
    if (mode == 1) {
        // mutual merge
        auto a = std::make_shared<MetricsImpl>();
        auto b = std::make_shared<MetricsImpl>();
        a->SetCounter("x", 1);
        b->SetCounter("x", 2);
        a->SetCounter("only_a", 10);
        b->SetCounter("only_b", 20);
        std::thread t1([&] { a->Merge(b); });
        std::thread t2([&] { b->Merge(a); });
        t1.join();
        t2.join();
        uint64_t ax = a->GetCounter("x").value(), bx = b->GetCounter("x").value();
        dst::Log("mutual merge a.x=%llu b.x=%llu", (unsigned long long)ax, (unsigned long long)bx);
        bool ok = (ax == 3 && bx == 5) || (ax == 4 && bx == 3) || (ax == 3 && bx == 3) || (ax == 4 && bx == 5);
        DST_CHECK("C34", "mutual-merge", ok && !(ax == 4 && bx == 5), "a.x=%llu b.x=%llu after mutual merge of 1 and 2", (unsigned long long)ax, (unsigned long long)bx);
        auto oa = a->GetCounter("only_b"), ob = b->GetCounter("only_a");
        DST_CHECK("C34", "merge-lost-counter", oa.ok() && oa.value() == 20, "counter only in source missing after merge");
        DST_CHECK("C34", "merge-lost-counter", ob.ok() && ob.value() == 10, "counter only in source missing after merge");
        auto before = a->GetAllCounters();
        std::vector<std::thread> ts;
        for (int i = 0; i < 2; i++) ts.emplace_back([&] { a->Merge(a); });
        Join(ts);
        DST_CHECK("C34", "self-merge", a->GetAllCounters() == before, "self merge changed counters");
        a->Merge(nullptr);
        DST_CHECK("C34", "null-merge", a->GetAllCounters() == before, "null merge changed counters");
        return;
    }
    auto m = std::make_shared<MetricsImpl>();
    const char* names[3] = {"x", "y", "z"};
    std::vector<dst::History> h(3);
    // fixed sources
    std::vector<std::shared_ptr<MetricsImpl>> src;
    std::vector<std::map<std::string, uint64_t>> srcv;
    for (int i = 0; i < 3; i++) {
        auto s = std::make_shared<MetricsImpl>();
        std::map<std::string, uint64_t> mv;
        for (int k = 0; k < 3; k++)
            if (Pick("c34.has", 3) != 1) {
                uint64_t v = 1000 * (i + 1) + 100 * k + 1;
                s->SetCounter(names[k], v);
                mv[names[k]] = v;
            }
        src.push_back(s);
        srcv.push_back(mv);
    }
    int nt = 2 + static_cast<int>(Pick("c34.threads", 2));
    int per = nt == 2 ? 5 : 4;
    auto worker = [&](int t) {
        for (int i = 0; i < per; i++) {
            int op = static_cast<int>(Pick("c34.op", 7));
            int k = static_cast<int>(Pick("c34.key", 3));
            if (op <= 1) {
                uint64_t v = 10 + t * 10 + i;
                int j = h[k].Invoke("set", v);
                m->SetCounter(names[k], v);
                h[k].Return(j);
            } else if (op <= 3) {
                int j = h[k].Invoke("get");
                auto r = m->GetCounter(names[k]);
                h[k].Return(j, r.ok() ? r.value() : 0, r.ok());
            } else if (op == 4) {
                int j[3];
                for (int c = 0; c < 3; c++) j[c] = h[c].Invoke("get");
                auto all = m->GetAllCounters();
                for (int c = 0; c < 3; c++) {
                    auto it = all.find(names[c]);
                    h[c].Return(j[c], it == all.end() ? 0 : it->second, it != all.end());
                }
            } else if (op == 5 || mode == 2) {
                int s = static_cast<int>(Pick("c34.src", 3));
                int j[3];
                for (int c = 0; c < 3; c++)
                    if (srcv[s].count(names[c])) j[c] = h[c].Invoke("add", srcv[s][names[c]]);
                m->Merge(src[s]);
                for (int c = 0; c < 3; c++)
                    if (srcv[s].count(names[c])) h[c].Return(j[c]);
            } else {
                int s = static_cast<int>(Pick("c34.src", 3));
                int j[3];
                for (int c = 0; c < 3; c++) {
                    bool has = srcv[s].count(names[c]);
                    j[c] = h[c].Invoke(has ? "set" : "drop", has ? srcv[s][names[c]] : 0);
                }
                m->Overwrite(src[s]);
                for (int c = 0; c < 3; c++) h[c].Return(j[c]);
            }
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++) ts.emplace_back(worker, t);
    Join(ts);
    Atomic a;
    auto all = m->GetAllCounters();
    for (int c = 0; c < 3; c++) {
        int j = h[c].Invoke("get");
        auto it = all.find(names[c]);
        h[c].Return(j, it == all.end() ? 0 : it->second, it != all.end());
        std::function<bool(CState&, const dst::Op&)> step = [](CState& s, const dst::Op& o) {
            if (o.name == "set") {
                s.present = true;
                s.v = o.a;
                return true;
            }
            if (o.name == "add") {
                s.v = s.present ? s.v + o.a : o.a;
                s.present = true;
                return true;
            }
            if (o.name == "drop") {
                s.present = false;
                s.v = 0;
                return true;
            }
            return o.has ? s.present && s.v == o.r : !s.present;
        };
        DST_CHECK("C34", "not-linearizable", dst::Linearizable<CState>(h[c].ops(), CState(), step), "counter %s history: %s", names[c], h[c].Text().c_str());
    }
    for (int i = 0; i < 3; i++) DST_CHECK("C34", "source-changed", src[i]->GetAllCounters() == srcv[i], "merge or overwrite changed its source");
}

// ================================================================ C35 registries
#ifdef HAVE_SINGLETON_CPP
struct Probe : public Singleton<Probe> {
    static int constructed;
    int magic = 0;
    Probe() {
        for (int i = 0; i < 5; i++) dst::Yield("constructing");
        constructed++;
        magic = 4711;
        for (int i = 0; i < 5; i++) dst::Yield("constructing");
    }
};
int Probe::constructed = 0;
template class paimon::Singleton<Probe>;
#endif
struct FakeFactory : public Factory {
    std::string id;
    int magic = 99;
    explicit FakeFactory(const std::string& i) : id(i) {}
    const char* Identifier() const override { return id.c_str(); }
};
static void RunC35() {
    dst::SwarmPreempt(true);
    dst::NonTrivial();
    int nt = 2 + static_cast<int>(Pick("c35.threads", 4));
    int mode = static_cast<int>(Pick("c35.mode", 4));
    std::vector<std::thread> ts;
    if (mode == 0) {
        std::set<void*> seen, hooks, pools, execs;
        for (int t = 0; t < nt; t++)
            ts.emplace_back([&]() {
#ifdef HAVE_SINGLETON_CPP
                Probe* p = Probe::GetInstance();
                DST_CHECK("C35", "not-constructed", p && p->magic == 4711, "instance visible before its constructor finished");
#else
                void* p = nullptr;
#endif
                IOHook* h = IOHook::GetInstance();
                DST_CHECK("C35", "null-instance", h != nullptr, "null process-wide instance");
                DST_CHECK("C35", "hook", h->IOCount() >= 0 && h->Try("x").ok(), "idle hook fails");
                auto pool = GetDefaultPool();
                DST_CHECK("C35", "null-instance", pool != nullptr, "null default pool");
                Atomic a;
                seen.insert(p);
                hooks.insert(h);
                pools.insert(pool.get());
                dst::Log("got instances");
            });
        Join(ts);
#ifdef HAVE_SINGLETON_CPP
        DST_CHECK("C35", "constructed-twice", Probe::constructed == 1, "%d instances constructed", Probe::constructed);
#endif
        DST_CHECK("C35", "several-instances", seen.size() == 1 && hooks.size() == 1 && pools.size() == 1, "threads got different instances");
        DST_CHECK("C35", "hook-count", IOHook::GetInstance()->IOCount() == nt, "hook counted %lld of %d calls", (long long)IOHook::GetInstance()->IOCount(), nt);
        return;
    }
    if (mode == 1) {
        std::set<Executor*> ex;
        int ran = 0;
        for (int t = 0; t < nt; t++)
            ts.emplace_back([&]() {
                auto e = GetGlobalDefaultExecutor();
                int v = Via(e.get(), []() { return 3; }).get();
                Atomic a;
                ex.insert(e.get());
                ran += v == 3;
            });
        Join(ts);
        DST_CHECK("C35", "several-instances", ex.size() == 1 && ran == nt, "global executor: %zu instances, %d results", ex.size(), ran);
        return;
    }
    auto* fc = FactoryCreator::GetInstance();
    std::set<std::string> initial;
    for (auto& s : fc->GetRegisteredType()) initial.insert(s);
    int names = 1 + static_cast<int>(Pick("c35.names", 4));
    struct Reg {
        bool started = false, done = false;
        Factory* f = nullptr;
    };
    std::vector<Reg> regs(names);
    int nextreg = 0;
    auto nm = [](int i) { return "fake-" + std::string(i % 2 ? "a" : "b") + std::to_string(i); };
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&]() {
            for (int i = 0; i < 5; i++) {
                int op = static_cast<int>(Pick("c35.op", 4));
                if (op == 0) {
                    int k = -1;
                    {
                        Atomic a;
                        if (nextreg < names) {
                            k = nextreg++;
                            regs[k].f = new FakeFactory(nm(k));
                            regs[k].started = true;
                            dst::Log("register %s", nm(k).c_str());
                        }
                    }
                    if (k >= 0) {
                        fc->Register(nm(k), regs[k].f);
                        Atomic a;
                        regs[k].done = true;
                    }
                } else if (op <= 2) {
                    int k = static_cast<int>(Pick("c35.key", names));
                    bool was_done;
                    {
                        Atomic a;
                        was_done = regs[k].done;
                    }
                    Factory* f = fc->Create(nm(k));
                    Atomic a;
                    dst::Log("lookup %s -> %d", nm(k).c_str(), f != nullptr);
                    if (was_done) DST_CHECK("C35", "registered-not-found", f == regs[k].f, "%s registered but lookup gave %s", nm(k).c_str(), f ? "another" : "nothing");
                    if (!regs[k].started) DST_CHECK("C35", "unregistered-found", f == nullptr, "%s found but never registered", nm(k).c_str());
                    if (f) DST_CHECK("C35", "wrong-plugin", f == regs[k].f, "%s resolved to another plug-in", nm(k).c_str());
                } else {
                    std::vector<bool> was(names);
                    {
                        Atomic a;
                        for (int k = 0; k < names; k++) was[k] = regs[k].done;
                    }
                    auto l = fc->GetRegisteredType();
                    Atomic a;
                    std::set<std::string> got(l.begin(), l.end());
                    DST_CHECK("C35", "listing-duplicates", got.size() == l.size(), "listing has duplicates");
                    for (auto& s : initial) DST_CHECK("C35", "listing-incomplete", got.count(s), "%s missing in listing", s.c_str());
                    for (int k = 0; k < names; k++) {
                        if (was[k]) DST_CHECK("C35", "listing-incomplete", got.count(nm(k)), "%s missing in listing", nm(k).c_str());
                        if (!regs[k].started) DST_CHECK("C35", "listing-invented", !got.count(nm(k)), "%s listed but never registered", nm(k).c_str());
                    }
                    dst::Log("listing of %zu", l.size());
                }
            }
        });
    Join(ts);
    for (int k = 0; k < nextreg; k++) DST_CHECK("C35", "registered-not-found", fc->Create(nm(k)) == regs[k].f, "%s lost", nm(k).c_str());
}

// ================================================================ C28 resolving file system
namespace {
struct FsCall {
    std::string method, path;
    int instance;
};
struct FakeFsWorld {
    int next_instance = 0;
    std::vector<std::string> ident;     // per instance
    std::vector<std::string> uri;       // per instance
    double fail = 0;
    std::map<int, bool> last_factory_failed;  // per thread
    std::map<int, FsCall> last_call;          // per thread
};
FakeFsWorld* FW;
class FakeFs : public FileSystem {
 public:
    FakeFs(int id) : id_(id) {}
    void Rec(const std::string& m, const std::string& p) const {
        Atomic a;
        FW->last_call[dst::Tid()] = FsCall{m, p, id_};
    }
    Result<std::unique_ptr<InputStream>> Open(const std::string& path) const override {
        Rec("open", path);
        return Status::NotExist("fake open");
    }
    Result<std::unique_ptr<OutputStream>> Create(const std::string& path, bool overwrite) const override {
        Rec(overwrite ? "create1" : "create0", path);
        return Status::IOError("fake create");
    }
    Status Mkdirs(const std::string& path) const override {
        Rec("mkdirs", path);
        return Status::OK();
    }
    Status Rename(const std::string& src, const std::string& dst) const override {
        Rec("rename", src + "|" + dst);
        return Status::OK();
    }
    Status Delete(const std::string& path, bool recursive) const override {
        Rec(recursive ? "delete1" : "delete0", path);
        return Status::OK();
    }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& path) const override {
        Rec("status", path);
        return Status::NotExist("fake status");
    }
    Status ListDir(const std::string& d, std::vector<std::unique_ptr<BasicFileStatus>>*) const override {
        Rec("listdir", d);
        return Status::OK();
    }
    Status ListFileStatus(const std::string& d, std::vector<std::unique_ptr<FileStatus>>*) const override {
        Rec("liststatus", d);
        return Status::OK();
    }
    Result<bool> Exists(const std::string& path) const override {
        Rec("exists", path);
        return true;
    }

 private:
    int id_;
};
class FakeFsFactory : public FileSystemFactory {
 public:
    explicit FakeFsFactory(const char* id) : id_(id) {}
    const char* Identifier() const override { return id_; }
    Result<std::unique_ptr<FileSystem>> Create(const std::string& path, const std::map<std::string, std::string>& options) const override {
        dst::Yield("factory");
        int inst;
        {
            Atomic a;
            DST_CHECK("C28", "options-lost", options.count("k") && options.at("k") == "v", "options not passed to the plug-in");
            if (FW->fail > 0 && Chance("c28.fail", FW->fail)) {
                FW->last_factory_failed[dst::Tid()] = true;
                dst::Fault("file_system_creation_fails");
                return Status::IOError("fake creation failure");
            }
            inst = FW->next_instance++;
            FW->ident.push_back(id_);
            FW->uri.push_back(path);
        }
        dst::Yield("factory");
        return std::unique_ptr<FileSystem>(new FakeFs(inst));
    }

 private:
    const char* id_;
};
}  // namespace
static void RunC28() {
    dst::SwarmPreempt(true);
    dst::NonTrivial();
    FW = new FakeFsWorld();
    FW->fail = Chance("c28.failing", 0.5) ? 0.3 : 0;
    auto* fc = FactoryCreator::GetInstance();
    fc->Register("fakea", new FakeFsFactory("fakea"));
    fc->Register("fakeb", new FakeFsFactory("fakeb"));
    fc->Register("faked", new FakeFsFactory("faked"));
    std::map<std::string, std::string> map = {{"sa", "fakea"}, {"sb", "fakeb"}, {"file", "fakeb"}, {"bad", "nosuchfs"}};
    std::map<std::string, std::string> opts = {{"k", "v"}};
    ResolvingFileSystem fs(map, "faked", opts);
    struct U {
        const char* scheme;
        const char* auth;
        const char* uri;
        const char* ident;
    };
    static const U us[] = {{"sa", "h1", "sa://h1/p", "fakea"}, {"sa", "h2", "sa://h2/p", "fakea"}, {"sb", "h1", "sb://h1/p", "fakeb"},
                           {"file", "", "file:/tmp/p", "fakeb"}, {"", "", "/tmp/p", "fakeb"}, {"other", "h1", "other://h1/p", "faked"},
                           {"bad", "h", "bad://h/p", "nosuchfs"}, {"sa", "", "sa:///p", "fakea"}};
    std::map<std::string, int> inst;  // key -> instance
    int nt = 2 + static_cast<int>(Pick("c28.threads", 4));
    int nu = 1 + static_cast<int>(Pick("c28.uris", 8));
    auto body = [&](int per) {
        for (int i = 0; i < per; i++) {
            const U& u = us[Pick("c28.uri", nu)];
            int m = static_cast<int>(Pick("c28.method", 11));
            std::string p = std::string(u.uri) + "/f" + std::to_string(m);
            {
                Atomic a;
                FW->last_factory_failed[dst::Tid()] = false;
                FW->last_call.erase(dst::Tid());
            }
            Status st;
            std::string want;
            std::string wantp = p;
            std::vector<std::unique_ptr<BasicFileStatus>> l1;
            std::vector<std::unique_ptr<FileStatus>> l2;
            switch (m) {
                case 0: st = fs.Exists(p).status(); want = "exists"; break;
                case 1: st = fs.Open(p).status(); want = "open"; break;
                case 2: st = fs.Create(p, true).status(); want = "create1"; break;
                case 3: st = fs.Create(p, false).status(); want = "create0"; break;
                case 4: st = fs.Mkdirs(p); want = "mkdirs"; break;
                case 5: st = fs.Rename(p, p + "2"); want = "rename"; wantp = p + "|" + p + "2"; break;
                case 6: st = fs.Delete(p, true); want = "delete1"; break;
                case 7: st = fs.Delete(p, false); want = "delete0"; break;
                case 8: st = fs.GetFileStatus(p).status(); want = "status"; break;
                case 9: st = fs.ListDir(p, &l1); want = "listdir"; break;
                default: st = fs.ListFileStatus(p, &l2); want = "liststatus"; break;
            }
            Atomic a;
            auto it = FW->last_call.find(dst::Tid());
            bool called = it != FW->last_call.end();
            dst::Log("%s %s -> %s", want.c_str(), p.c_str(), called ? ("instance " + std::to_string(it->second.instance)).c_str() : st.ToString().c_str());
            if (!called) {
                bool excuse = FW->last_factory_failed[dst::Tid()] || !strcmp(u.ident, "nosuchfs");
                DST_CHECK("C28", "spurious-failure", excuse, "%s %s failed without a creation failure: %s", want.c_str(), p.c_str(), st.ToString().c_str());
                DST_CHECK("C28", "failure-hidden", !st.ok(), "%s %s reported success although no file system was created", want.c_str(), p.c_str());
                continue;
            }
            bool expect_ok = m != 1 && m != 2 && m != 3 && m != 8;
            DST_CHECK("C28", "result-changed", st.ok() == expect_ok, "%s: result not passed through: %s", want.c_str(), st.ToString().c_str());
            DST_CHECK("C28", "wrong-call", it->second.method == want && it->second.path == wantp, "called %s(%s) instead of %s(%s)", it->second.method.c_str(), it->second.path.c_str(), want.c_str(), wantp.c_str());
            DST_CHECK("C28", "wrong-file-system", FW->ident[it->second.instance] == u.ident, "%s handled by %s instead of %s", p.c_str(), FW->ident[it->second.instance].c_str(), u.ident);
            std::string key = std::string(u.scheme) + "|" + u.auth;
            auto jt = inst.find(key);
            if (jt == inst.end())
                inst[key] = it->second.instance;
            else
                DST_CHECK("C28", "not-shared", jt->second == it->second.instance, "%s used instances %d and %d", key.c_str(), jt->second, it->second.instance);
            for (auto& kv : inst) DST_CHECK("C28", "shared-across-keys", kv.first == key || kv.second != it->second.instance, "%s and %s share an instance", kv.first.c_str(), key.c_str());
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++) ts.emplace_back(body, 4);
    Join(ts);
    // faults stop: everything resolvable must work now
    FW->fail = 0;
    body(6);
    DST_CHECK("C28", "created-more-than-once", FW->next_instance == (int)inst.size(), "%d instances created for %zu scheme/authority pairs", FW->next_instance, inst.size());
}

void DstInit() {}
const char* DstRule() {
    return "one case = one simulated run (thread count, operation plan, preemption rates and every scheduling decision drawn from the seed); "
           "non-trivial = at least two simulated threads operate on the object under test or an allocation/creation/task failure is enabled; distinct = different event-log hash";
}
void DstRun() {
    dst::SetStepBudget(300000);
    const std::string& p = dst::Opt().prop;
    if (p == "C29") RunC29();
    else if (p == "C30") RunC30();
    else if (p == "C31") RunC31();
    else if (p == "C32") RunC32();
    else if (p == "C33") RunC33();
    else if (p == "C34") RunC34();
    else if (p == "C35") RunC35();
    else if (p == "C28") RunC28();
    else dst::HarnessError("unknown property %s", p.c_str());
}
