// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <cstddef>
#include <memory>
#include <stdexcept>
namespace takatori::util {
template <class T> class optional_ptr {
public:
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {}
    constexpr explicit optional_ptr(T* p) noexcept : p_(p) {}
    constexpr optional_ptr(T& p) noexcept : p_(std::addressof(p)) {}
    constexpr T* get() const noexcept { return p_; }
    constexpr T& value() const { if (!p_) throw std::runtime_error("empty optional_ptr"); return *p_; }
    constexpr T& operator*() const { return *p_; }
    constexpr T* operator->() const { return p_; }
    constexpr bool has_value() const noexcept { return p_ != nullptr; }
    constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    constexpr void reset() noexcept { p_ = nullptr; }
private:
    T* p_{};
};
}
