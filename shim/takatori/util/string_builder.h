// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <utility>
#include <sstream>
#include <string>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t {};
    static constexpr to_string_t to_string{};
    template <class T> string_builder& operator<<(T const& v) & { s_ << v; return *this; }
    template <class T> string_builder&& operator<<(T const& v) && { s_ << v; return std::move(*this); }
    std::string operator<<(to_string_t) & { return s_.str(); }
    std::string operator<<(to_string_t) && { return s_.str(); }
    std::ostream& buffer() { return s_; }
    std::string str() const { return s_.str(); }
private:
    std::ostringstream s_;
};
}
