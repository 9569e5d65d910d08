// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <cstddef>
#include <iterator>
#include <ostream>
#include <type_traits>
#include <vector>
namespace takatori::util {
template <class T, class I = T*> class sequence_view {
public:
    using value_type = std::remove_cv_t<T>; using iterator = I; using const_iterator = I; using size_type = std::size_t; using reference = decltype(*std::declval<I>());
    constexpr sequence_view() = default;
    constexpr sequence_view(I b, I e) : b_(b), n_(static_cast<std::size_t>(e - b)) {}
    constexpr sequence_view(I b, std::size_t n) : b_(b), n_(n) {}
    constexpr sequence_view(T* one, std::nullptr_t) : b_(one), n_(1) {}
    constexpr sequence_view(T* one) : b_(one), n_(1) {}
    template <class C, class = std::enable_if_t<!std::is_same_v<std::decay_t<C>, sequence_view> && std::is_convertible_v<decltype(std::data(std::declval<C&>())), T*>>>
    constexpr sequence_view(C&& c) : b_(std::data(c)), n_(std::size(c)) {}
    constexpr I begin() const { return b_; }
    constexpr I end() const { return b_ + n_; }
    constexpr I cbegin() const { return b_; }
    constexpr I cend() const { return b_ + n_; }
    constexpr std::size_t size() const { return n_; }
    constexpr bool empty() const { return n_ == 0; }
    constexpr reference operator[](std::size_t i) const { return b_[i]; }
    constexpr reference at(std::size_t i) const { return b_[i]; }
    constexpr reference front() const { return b_[0]; }
    constexpr reference back() const { return b_[n_ - 1]; }
    constexpr I data() const { return b_; }
    friend std::ostream& operator<<(std::ostream& o, sequence_view const& v) { o << '['; for (std::size_t i = 0; i < v.n_; ++i) { if (i) o << ", "; o << v.b_[i]; } return o << ']'; }
private:
    I b_{}; std::size_t n_{};
};
template <class T> sequence_view(T*) -> sequence_view<T>;
template <class C> sequence_view(C&) -> sequence_view<std::remove_reference_t<decltype(*std::data(std::declval<C&>()))>>;
}
