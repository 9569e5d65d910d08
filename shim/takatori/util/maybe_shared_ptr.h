// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <utility>
namespace takatori::util {
template <class T> class maybe_shared_ptr {
public:
    using element_type = T;
    constexpr maybe_shared_ptr(std::nullptr_t = nullptr) noexcept {}
    maybe_shared_ptr(T* p) noexcept : p_(p) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::shared_ptr<U> s) noexcept : s_(std::move(s)), p_(s_.get()) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : s_(o.ownership()), p_(o.get()) {}
    template <class U, class D, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::unique_ptr<U, D> s) noexcept : s_(std::move(s)), p_(s_.get()) {}
    maybe_shared_ptr& operator=(std::nullptr_t) noexcept { reset(); return *this; }
    T* get() const noexcept { return p_; }
    T& operator*() const noexcept { return *p_; }
    T* operator->() const noexcept { return p_; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    std::shared_ptr<T> const& ownership() const noexcept { return s_; }
    void reset(T* p = nullptr) noexcept { s_.reset(); p_ = p; }
    friend bool operator==(maybe_shared_ptr const& a, maybe_shared_ptr const& b) noexcept { return a.p_ == b.p_; }
    friend bool operator!=(maybe_shared_ptr const& a, maybe_shared_ptr const& b) noexcept { return a.p_ != b.p_; }
    friend bool operator==(maybe_shared_ptr const& a, std::nullptr_t) noexcept { return a.p_ == nullptr; }
    friend bool operator!=(maybe_shared_ptr const& a, std::nullptr_t) noexcept { return a.p_ != nullptr; }
    friend std::ostream& operator<<(std::ostream& o, maybe_shared_ptr const& v) { return o << v.p_; }
private:
    std::shared_ptr<T> s_{}; T* p_{};
};
}
namespace takatori::util { template <class U> maybe_shared_ptr(std::shared_ptr<U>) -> maybe_shared_ptr<U>; template <class U> maybe_shared_ptr(U*) -> maybe_shared_ptr<U>; }
template <class T> struct std::hash<takatori::util::maybe_shared_ptr<T>> { std::size_t operator()(takatori::util::maybe_shared_ptr<T> const& p) const noexcept { return std::hash<T*>{}(p.get()); } };
