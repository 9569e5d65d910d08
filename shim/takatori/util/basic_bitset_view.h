// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <cstddef>
#include <type_traits>
namespace takatori::util {
template <class B> class basic_bitset_view {     // bits packed into blocks of 8
public:
    using block_type = B;
    // whether the real one iterates over blocks or over bits is unknown here; checks only use it where both agree
    struct iterator { B* p; B& operator*() const { return *p; } iterator& operator++() { ++p; return *this; } iterator& operator--() { --p; return *this; } friend bool operator==(iterator a, iterator b) { return a.p == b.p; } friend bool operator!=(iterator a, iterator b) { return a.p != b.p; } };
    using const_iterator = iterator;
    constexpr basic_bitset_view() noexcept = default;
    constexpr basic_bitset_view(B* p, std::size_t bits) noexcept : p_(p), n_(bits) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, B*>>> constexpr basic_bitset_view(basic_bitset_view<U> o) noexcept : p_(o.block_data()), n_(o.size()) {}
    constexpr std::size_t size() const noexcept { return n_; }
    constexpr bool empty() const noexcept { return n_ == 0; }
    constexpr std::size_t block_size() const noexcept { return (n_ + 7) / 8; }
    constexpr B* block_data() const noexcept { return p_; }
    iterator begin() const noexcept { return {p_}; }
    iterator end() const noexcept { return {p_ + block_size()}; }
    bool operator[](std::size_t i) const { return (static_cast<unsigned char>(p_[i / 8]) >> (i % 8)) & 1; }
    bool test(std::size_t i) const { return (*this)[i]; }
private:
    B* p_{}; std::size_t n_{};
};
}
