// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <variant>
namespace takatori::util {
template <class E, class T> class either {
public:
    using error_type = E; using value_type = T;
    either(E e) : v_(std::in_place_index<0>, std::move(e)) {}
    either(T v) : v_(std::in_place_index<1>, std::move(v)) {}
    bool is_error() const { return v_.index() == 0; }
    bool has_value() const { return v_.index() == 1; }
    explicit operator bool() const { return has_value(); }
    E const& error() const { return std::get<0>(v_); }
    T& value() { return std::get<1>(v_); }
    T const& value() const { return std::get<1>(v_); }
    T& operator*() { return value(); }
    T const& operator*() const { return value(); }
    T* operator->() { return &value(); }
    T const* operator->() const { return &value(); }
private:
    std::variant<E, T> v_;
};
}
