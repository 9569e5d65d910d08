// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <bitset>
#include <initializer_list>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template <class E, E First, E Last> class enum_set {
    using U = std::underlying_type_t<E>;
    static constexpr std::size_t N = static_cast<std::size_t>(static_cast<U>(Last) - static_cast<U>(First)) + 1;
    static constexpr std::size_t ix(E e) { return static_cast<std::size_t>(static_cast<U>(e) - static_cast<U>(First)); }
    std::bitset<N> b_{};
public:
    using value_type = E;
    constexpr enum_set() noexcept = default;
    enum_set(std::initializer_list<E> l) { for (auto e : l) b_.set(ix(e)); }
    template <class... R> explicit enum_set(E a, R... r) { for (auto e : {a, r...}) b_.set(ix(e)); }
    bool empty() const noexcept { return b_.none(); }
    std::size_t size() const noexcept { return b_.count(); }
    static constexpr std::size_t capacity() noexcept { return N; }
    bool contains(E e) const noexcept { return ix(e) < N && b_.test(ix(e)); }
    bool operator[](E e) const noexcept { return contains(e); }
    enum_set& insert(E e) noexcept { b_.set(ix(e)); return *this; }
    enum_set& erase(E e) noexcept { b_.reset(ix(e)); return *this; }
    enum_set& clear() noexcept { b_.reset(); return *this; }
    enum_set& operator+=(enum_set const& o) noexcept { b_ |= o.b_; return *this; }
    enum_set& operator-=(enum_set const& o) noexcept { b_ &= ~o.b_; return *this; }
    enum_set& operator|=(enum_set const& o) noexcept { b_ |= o.b_; return *this; }
    enum_set& operator&=(enum_set const& o) noexcept { b_ &= o.b_; return *this; }
    friend bool operator==(enum_set const& a, enum_set const& b) noexcept { return a.b_ == b.b_; }
    friend bool operator!=(enum_set const& a, enum_set const& b) noexcept { return a.b_ != b.b_; }
    class iterator {
    public:
        using value_type = E; using difference_type = std::ptrdiff_t; using pointer = void; using reference = E; using iterator_category = std::input_iterator_tag;
        iterator(enum_set const* s, std::size_t i) : s_(s), i_(i) { skip(); }
        E operator*() const { return static_cast<E>(static_cast<U>(First) + static_cast<U>(i_)); }
        iterator& operator++() { ++i_; skip(); return *this; }
        iterator operator++(int) { auto r = *this; ++*this; return r; }
        friend bool operator==(iterator a, iterator b) { return a.i_ == b.i_; }
        friend bool operator!=(iterator a, iterator b) { return a.i_ != b.i_; }
    private:
        void skip() { while (i_ < N && !s_->b_.test(i_)) ++i_; }
        enum_set const* s_; std::size_t i_;
    };
    iterator begin() const { return {this, 0}; }
    iterator end() const { return {this, N}; }
    friend std::ostream& operator<<(std::ostream& o, enum_set const& s) { o << "{"; bool f = true; for (auto e : s) { if (!f) o << ", "; f = false; o << e; } return o << "}"; }
};
}
