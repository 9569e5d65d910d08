// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
namespace takatori::util {
template <class T> class basic_buffer_view {
public:
    using value_type = T; using pointer = T*; using const_pointer = T const*; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using iterator = T*; using const_iterator = T const*;
    constexpr basic_buffer_view() noexcept = default;
    constexpr basic_buffer_view(T* p, std::size_t n) noexcept : p_(p), n_(n) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> constexpr basic_buffer_view(basic_buffer_view<U> o) noexcept : p_(o.data()), n_(o.size()) {}
    constexpr T* data() const noexcept { return p_; }
    constexpr std::size_t size() const noexcept { return n_; }
    constexpr bool empty() const noexcept { return n_ == 0; }
    constexpr T* begin() const noexcept { return p_; }
    constexpr T* end() const noexcept { return p_ + n_; }
    constexpr T const* cbegin() const noexcept { return p_; }
    constexpr T const* cend() const noexcept { return p_ + n_; }
    constexpr T& operator[](std::size_t i) const { return p_[i]; }
    constexpr T& at(std::size_t i) const { return p_[i]; }
private:
    T* p_{}; std::size_t n_{};
};
}
