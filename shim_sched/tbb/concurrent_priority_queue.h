// stand-in for schedule exploration: tbb::concurrent_priority_queue as one monitor
#pragma once
#include <cstddef>
#include <functional>
#include <mutex>
#include <queue>
#include <vector>
namespace tbb {
template <class T, class C = std::less<T>, class A = void> class concurrent_priority_queue {
    struct Q : std::priority_queue<T, std::vector<T>, C> { T take() { std::pop_heap(this->c.begin(), this->c.end(), this->comp); T r = std::move(this->c.back()); this->c.pop_back(); return r; } };
    mutable std::mutex m_; Q q_;
public:
    using value_type = T; using size_type = std::size_t;
    concurrent_priority_queue() = default;
    concurrent_priority_queue(C const&) {}
    explicit concurrent_priority_queue(size_type, C const& = C{}) {}
    void push(T const& v) { std::lock_guard g{m_}; q_.push(v); }
    void push(T&& v) { std::lock_guard g{m_}; q_.push(std::move(v)); }
    template <class... X> void emplace(X&&... x) { std::lock_guard g{m_}; q_.emplace(std::forward<X>(x)...); }
    bool try_pop(T& r) { std::lock_guard g{m_}; if (q_.empty()) return false; r = q_.take(); return true; }
    bool empty() const { std::lock_guard g{m_}; return q_.empty(); }
    size_type size() const { std::lock_guard g{m_}; return q_.size(); }
    void clear() { std::lock_guard g{m_}; while (!q_.empty()) q_.pop(); }
};
}
