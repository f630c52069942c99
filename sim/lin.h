// Small history recorder and linearizability search (Wing & Gong, with memoisation).
#pragma once
#include <functional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "dst.h"

namespace dst {
struct Op {
    int thread = 0;
    std::string name;
    int64_t a = 0, b = 0;   // arguments
    int64_t r = 0;          // result
    bool has = true;        // result present
    int64_t inv = 0, ret = -1;
};
class History {
 public:
    int Invoke(const std::string& name, int64_t a = 0, int64_t b = 0) {
        Atomic at;
        Op o;
        o.thread = Tid();
        o.name = name;
        o.a = a;
        o.b = b;
        o.inv = clock_++;
        ops_.push_back(o);
        return static_cast<int>(ops_.size()) - 1;
    }
    void Return(int i, int64_t r = 0, bool has = true) {
        Atomic at;
        ops_[i].r = r;
        ops_[i].has = has;
        ops_[i].ret = clock_++;
        Log("%s(%lld,%lld) -> %s%lld", ops_[i].name.c_str(), (long long)ops_[i].a, (long long)ops_[i].b, has ? "" : "none ",
            (long long)r);
        dst::State(HashStr(ops_[i].name) * 31 + static_cast<uint64_t>(r * 2 + has) + ops_[i].thread * 1000003);
    }
    const std::vector<Op>& ops() const { return ops_; }
    std::string Text() const {
        std::string s;
        for (auto& o : ops_)
            s += "t" + std::to_string(o.thread) + " " + o.name + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ")=" +
                 (o.has ? std::to_string(o.r) : "none") + " [" + std::to_string(o.inv) + "," + std::to_string(o.ret) + "]; ";
        return s;
    }

 private:
    std::vector<Op> ops_;
    int64_t clock_ = 0;
};

// S must be copyable and have a std::string Key() const; step returns false if the op cannot have
// produced its recorded result in that state.
template <typename S>
bool Linearizable(const std::vector<Op>& ops, const S& init, const std::function<bool(S&, const Op&)>& step) {
    if (ops.size() > 62) HarnessError("history too long");
    std::set<std::pair<uint64_t, std::string>> seen;
    std::function<bool(uint64_t, const S&)> go = [&](uint64_t done, const S& st) -> bool {
        if (done == (1ull << ops.size()) - 1) return true;
        if (!seen.insert({done, st.Key()}).second) return false;
        int64_t min_ret = INT64_MAX;
        for (size_t i = 0; i < ops.size(); i++)
            if (!(done >> i & 1) && ops[i].ret >= 0 && ops[i].ret < min_ret) min_ret = ops[i].ret;
        for (size_t i = 0; i < ops.size(); i++) {
            if (done >> i & 1) continue;
            if (ops[i].inv > min_ret) continue;
            S n = st;
            if (!step(n, ops[i])) continue;
            if (go(done | 1ull << i, n)) return true;
        }
        return false;
    };
    return go(0, init);
}
}  // namespace dst
