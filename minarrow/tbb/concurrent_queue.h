// Stand-in for tbb's queues with the same documented behaviour, built on a mutex and condition
// variables so that the simulator schedules them (tbb itself spins and parks in its own runtime).
#pragma once
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <mutex>
#include <utility>

namespace tbb {
template <typename T>
class concurrent_bounded_queue {
 public:
    using size_type = std::ptrdiff_t;
    void set_capacity(size_type n) {
        std::unique_lock<std::mutex> l(m_);
        cap_ = n < 0 ? 0x7fffffff : n;
    }
    size_type capacity() const { return cap_; }
    void push(T&& v) {
        std::unique_lock<std::mutex> l(m_);
        room_.wait(l, [this] { return static_cast<size_type>(q_.size()) < cap_; });
        q_.push_back(std::move(v));
        some_.notify_one();
    }
    void push(const T& v) { push(T(v)); }
    template <typename... A>
    void emplace(A&&... a) {
        push(T(std::forward<A>(a)...));
    }
    bool try_push(T&& v) {
        std::unique_lock<std::mutex> l(m_);
        if (static_cast<size_type>(q_.size()) >= cap_) return false;
        q_.push_back(std::move(v));
        some_.notify_one();
        return true;
    }
    bool try_push(const T& v) { return try_push(T(v)); }
    void pop(T& out) {
        std::unique_lock<std::mutex> l(m_);
        some_.wait(l, [this] { return !q_.empty(); });
        out = std::move(q_.front());
        q_.pop_front();
        room_.notify_one();
    }
    bool try_pop(T& out) {
        std::unique_lock<std::mutex> l(m_);
        if (q_.empty()) return false;
        out = std::move(q_.front());
        q_.pop_front();
        room_.notify_one();
        return true;
    }
    bool empty() const {
        std::unique_lock<std::mutex> l(m_);
        return q_.empty();
    }
    size_type size() const {
        std::unique_lock<std::mutex> l(m_);
        return q_.size();
    }
    void clear() {
        std::unique_lock<std::mutex> l(m_);
        q_.clear();
        room_.notify_all();
    }

 private:
    mutable std::mutex m_;
    std::condition_variable room_, some_;
    std::deque<T> q_;
    size_type cap_ = 0x7fffffff;
};

template <typename T>
class concurrent_queue {
 public:
    void push(T&& v) {
        std::unique_lock<std::mutex> l(m_);
        q_.push_back(std::move(v));
    }
    void push(const T& v) { push(T(v)); }
    bool try_pop(T& out) {
        std::unique_lock<std::mutex> l(m_);
        if (q_.empty()) return false;
        out = std::move(q_.front());
        q_.pop_front();
        return true;
    }
    bool empty() const {
        std::unique_lock<std::mutex> l(m_);
        return q_.empty();
    }
    size_t unsafe_size() const {
        std::unique_lock<std::mutex> l(m_);
        return q_.size();
    }

 private:
    mutable std::mutex m_;
    std::deque<T> q_;
};
}  // namespace tbb
