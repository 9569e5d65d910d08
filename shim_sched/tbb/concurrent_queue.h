// stand-in for schedule exploration: tbb::concurrent_queue as one monitor
#pragma once
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <mutex>
#include <utility>
namespace tbb {
template <class T, class A = void> class concurrent_queue {
    mutable std::mutex m_; std::deque<T> q_;
public:
    using value_type = T; using size_type = std::size_t; using iterator = typename std::deque<T>::iterator; using const_iterator = typename std::deque<T>::const_iterator;
    concurrent_queue() = default;
    concurrent_queue(concurrent_queue const& o) : q_(o.q_) {}
    concurrent_queue(concurrent_queue&& o) : q_(std::move(o.q_)) {}
    void push(T const& v) { std::lock_guard g{m_}; q_.push_back(v); }
    void push(T&& v) { std::lock_guard g{m_}; q_.push_back(std::move(v)); }
    template <class... X> void emplace(X&&... x) { std::lock_guard g{m_}; q_.emplace_back(std::forward<X>(x)...); }
    bool try_pop(T& r) { std::lock_guard g{m_}; if (q_.empty()) return false; r = std::move(q_.front()); q_.pop_front(); return true; }
    bool empty() const { std::lock_guard g{m_}; return q_.empty(); }
    size_type unsafe_size() const { std::lock_guard g{m_}; return q_.size(); }
    void clear() { std::lock_guard g{m_}; q_.clear(); }
    iterator unsafe_begin() { return q_.begin(); } iterator unsafe_end() { return q_.end(); }
    const_iterator unsafe_begin() const { return q_.begin(); } const_iterator unsafe_end() const { return q_.end(); }
};
template <class T, class A = void> class concurrent_bounded_queue {
    mutable std::mutex m_; std::condition_variable c_; std::deque<T> q_;
public:
    using value_type = T; using size_type = std::ptrdiff_t;
    void push(T v) { { std::lock_guard g{m_}; q_.push_back(std::move(v)); } c_.notify_all(); }
    template <class... X> void emplace(X&&... x) { { std::lock_guard g{m_}; q_.emplace_back(std::forward<X>(x)...); } c_.notify_all(); }
    bool try_pop(T& r) { std::lock_guard g{m_}; if (q_.empty()) return false; r = std::move(q_.front()); q_.pop_front(); return true; }
    void pop(T& r) { std::unique_lock g{m_}; c_.wait(g, [&] { return !q_.empty(); }); r = std::move(q_.front()); q_.pop_front(); }
    bool empty() const { std::lock_guard g{m_}; return q_.empty(); }
    size_type size() const { std::lock_guard g{m_}; return static_cast<size_type>(q_.size()); }
    void set_capacity(size_type) {}
    void clear() { std::lock_guard g{m_}; q_.clear(); }
};
}
