// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <ostream>
#include <type_traits>
namespace takatori::util {
template <class T> class print_support {
public:
    explicit print_support(T const& v) : v_(v) {}
    friend std::ostream& operator<<(std::ostream& o, print_support const& p) { p.put(o, 0); return o; }
private:
    T const& v_;
    template <class U = T> auto put(std::ostream& o, int) const -> decltype(o << std::declval<U const&>(), void()) { o << v_; }
    void put(std::ostream& o, long) const { o << "(object)"; }
};
template <class T> print_support(T const&) -> print_support<T>;
}
