// stand-in for schedule exploration: the documented behaviour of tbb::concurrent_hash_map (accessors hold the element, find waits for
// its holders, erase unlinks and then waits for them) as one monitor, so that schedules branch at operations and not inside the library
#pragma once
#include <condition_variable>
#include <cstddef>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <unordered_map>
#include <utility>
namespace tbb {
template <class K> struct tbb_hash_compare { static std::size_t hash(K const& k) { return std::hash<K>{}(k); } static bool equal(K const& a, K const& b) { return a == b; } };
template <class K, class T, class HC = tbb_hash_compare<K>, class A = void>
class concurrent_hash_map {
public:
    using key_type = K; using mapped_type = T; using value_type = std::pair<K const, T>; using size_type = std::size_t;
private:
    struct node { value_type v; int readers{}; bool writer{}; template <class... X> explicit node(X&&... x) : v(std::forward<X>(x)...) {} };
    using ptr = std::shared_ptr<node>;
    struct H { std::size_t operator()(K const& k) const { return HC{}.hash(k); } };
    struct E { bool operator()(K const& a, K const& b) const { return HC{}.equal(a, b); } };
    using table = std::unordered_map<K, ptr, H, E>;
    struct shared { std::mutex m; std::condition_variable c; table t; };
    std::unique_ptr<shared> s_{std::make_unique<shared>()};
public:
    class const_accessor {
        friend class concurrent_hash_map;
    public:
        using value_type = typename concurrent_hash_map::value_type const;
        const_accessor() = default;
        const_accessor(const_accessor const&) = delete;
        ~const_accessor() { release(); }
        bool empty() const { return !n_; }
        void release() { if (!n_) return; { std::lock_guard g{s_->m}; w_ ? (void) (n_->writer = false) : (void) --n_->readers; } s_->c.notify_all(); n_.reset(); }
        typename concurrent_hash_map::value_type const& operator*() const { return n_->v; }
        typename concurrent_hash_map::value_type const* operator->() const { return &n_->v; }
    protected:
        ptr n_{}; shared* s_{}; bool w_{};
    };
    class accessor : public const_accessor {
    public:
        using value_type = typename concurrent_hash_map::value_type;
        value_type& operator*() const { return this->n_->v; }
        value_type* operator->() const { return &this->n_->v; }
    };
    concurrent_hash_map() = default;
    explicit concurrent_hash_map(size_type) {}
    bool find(const_accessor& a, K const& k) const { return take(a, false, k); }
    bool find(accessor& a, K const& k) { return take(a, true, k); }
    size_type count(K const& k) const { std::lock_guard g{s_->m}; return s_->t.count(k); }
    bool insert(const_accessor& a, K const& k) { return put(a, false, k, std::piecewise_construct, std::forward_as_tuple(k), std::tuple<>{}); }
    bool insert(accessor& a, K const& k) { return put(a, true, k, std::piecewise_construct, std::forward_as_tuple(k), std::tuple<>{}); }
    bool insert(accessor& a, value_type const& v) { return put(a, true, v.first, v); }
    bool insert(const_accessor& a, value_type const& v) { return put(a, false, v.first, v); }
    bool insert(value_type const& v) { std::lock_guard g{s_->m}; return s_->t.emplace(v.first, std::make_shared<node>(v)).second; }
    template <class... X> bool emplace(accessor& a, X&&... x) { return make(a, true, std::make_shared<node>(std::forward<X>(x)...)); }
    template <class... X> bool emplace(const_accessor& a, X&&... x) { return make(a, false, std::make_shared<node>(std::forward<X>(x)...)); }
    template <class X, class... Y, class = std::enable_if_t<!std::is_base_of_v<const_accessor, std::decay_t<X>>>> bool emplace(X&& x, Y&&... y) {
        auto n = std::make_shared<node>(std::forward<X>(x), std::forward<Y>(y)...); std::lock_guard g{s_->m}; return s_->t.emplace(n->v.first, n).second; }
    bool erase(K const& k) {
        std::unique_lock g{s_->m}; auto i = s_->t.find(k); if (i == s_->t.end()) return false;
        auto n = i->second; s_->t.erase(i); s_->c.wait(g, [&] { return !n->writer && !n->readers; }); return true;
    }
    bool erase(const_accessor& a) {
        auto n = a.n_; bool r = false;
        { std::unique_lock g{s_->m}; auto i = s_->t.find(n->v.first); if (i != s_->t.end() && i->second == n) { r = true; s_->t.erase(i); if (!a.w_) s_->c.wait(g, [&] { return n->readers == 1; }); } }
        a.release(); return r;
    }
    void clear() { table t; { std::lock_guard g{s_->m}; t.swap(s_->t); } }
    size_type size() const { std::lock_guard g{s_->m}; return s_->t.size(); }
    bool empty() const { return size() == 0; }
    struct iterator {
        typename table::iterator i; value_type& operator*() const { return i->second->v; } value_type* operator->() const { return &i->second->v; }
        iterator& operator++() { ++i; return *this; } bool operator==(iterator const& o) const { return i == o.i; } bool operator!=(iterator const& o) const { return i != o.i; }
    };
    using const_iterator = iterator;
    iterator begin() const { return {s_->t.begin()}; }
    iterator end() const { return {s_->t.end()}; }
private:
    bool grab(std::unique_lock<std::mutex>& g, const_accessor& a, bool w, K const& k) const {
        for (;;) { auto i = s_->t.find(k); if (i == s_->t.end()) return false; auto n = i->second;
            if (!n->writer && (!w || !n->readers)) { w ? (void) (n->writer = true) : (void) ++n->readers; a.n_ = n; a.s_ = s_.get(); a.w_ = w; return true; }
            s_->c.wait(g); }
    }
    bool take(const_accessor& a, bool w, K const& k) const { a.release(); std::unique_lock g{s_->m}; return grab(g, a, w, k); }
    template <class... X> bool put(const_accessor& a, bool w, K const& k, X&&... x) { a.release(); std::unique_lock g{s_->m}; bool r = !s_->t.count(k); if (r) s_->t.emplace(k, std::make_shared<node>(std::forward<X>(x)...));
        while (!grab(g, a, w, k)) { r = true; s_->t.emplace(k, std::make_shared<node>(std::forward<X>(x)...)); } return r; }
    bool make(const_accessor& a, bool w, ptr n) { a.release(); std::unique_lock g{s_->m}; bool r = s_->t.emplace(n->v.first, n).second; while (!grab(g, a, w, n->v.first)) { r = true; s_->t.emplace(n->v.first, n); } return r; }
};
}
