// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <memory>
#include <stdexcept>
#include <type_traits>
namespace takatori::util {
template <class T, class U> auto& unsafe_downcast(U& v) { using R = std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>; return static_cast<R&>(v); }
template <class T, class U> auto* unsafe_downcast(U* v) { using R = std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>; return static_cast<R*>(v); }
template <class T, class U> auto& downcast(U& v) { using R = std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>; return dynamic_cast<R&>(v); }
template <class T, class U> auto* downcast(U* v) { using R = std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>; return dynamic_cast<R*>(v); }
template <class T, class U> std::unique_ptr<T> unsafe_downcast(std::unique_ptr<U>&& v) { return std::unique_ptr<T>(static_cast<T*>(v.release())); }
}
