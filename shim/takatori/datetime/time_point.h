// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <takatori/datetime/date.h>
#include <takatori/datetime/time_of_day.h>
namespace takatori::datetime {
class time_point {
public:
    using offset_type = std::chrono::duration<std::int64_t>;
    using subsecond_unit = std::chrono::nanoseconds;
    using difference_type = std::chrono::nanoseconds;
    constexpr time_point() noexcept = default;
    explicit constexpr time_point(offset_type s, subsecond_unit sub = {}) noexcept : s_(s), n_(sub) {}
    constexpr time_point(date d, time_of_day t) noexcept : s_(d.days_since_epoch() * 86400 + static_cast<std::int64_t>(t.time_since_epoch().count() / 1000000000)), n_(static_cast<std::int64_t>(t.time_since_epoch().count() % 1000000000)) {}
    explicit constexpr time_point(date d) noexcept : s_(d.days_since_epoch() * 86400) {}
    template <class D> explicit time_point(std::chrono::time_point<std::chrono::system_clock, D> t) { auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); auto s = ns / 1000000000; if (ns % 1000000000 < 0) --s; s_ = offset_type(s); n_ = subsecond_unit(ns - s * 1000000000); }
    template<class R, class P> time_point& operator+=(std::chrono::duration<R, P> d) {
        auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); s_ += offset_type(ns / 1000000000); auto n = n_.count() + ns % 1000000000;
        if (n < 0) { n += 1000000000; s_ -= offset_type(1); } if (n >= 1000000000) { n -= 1000000000; s_ += offset_type(1); } n_ = subsecond_unit(n); return *this;
    }
    template<class R, class P> time_point& operator-=(std::chrono::duration<R, P> d) { return *this += -std::chrono::duration_cast<std::chrono::nanoseconds>(d); }
    template<class R, class P> friend time_point operator+(time_point a, std::chrono::duration<R, P> d) { a += d; return a; }
    template<class R, class P> friend time_point operator-(time_point a, std::chrono::duration<R, P> d) { a -= d; return a; }
    datetime::date date() const { auto s = s_.count(); return datetime::date((s >= 0 ? s : s - 86399) / 86400); }
    datetime::time_of_day time() const { auto s = s_.count() - date().days_since_epoch() * 86400; return datetime::time_of_day(datetime::time_of_day::time_unit(static_cast<std::uint64_t>(s) * 1000000000ULL + static_cast<std::uint64_t>(n_.count()))); }
    constexpr offset_type seconds_since_epoch() const noexcept { return s_; }
    constexpr subsecond_unit subsecond() const noexcept { return n_; }
    friend constexpr bool operator==(time_point const& a, time_point const& b) noexcept { return a.s_ == b.s_ && a.n_ == b.n_; }
    friend constexpr bool operator!=(time_point const& a, time_point const& b) noexcept { return !(a == b); }
    friend constexpr bool operator<(time_point const& a, time_point const& b) noexcept { return a.s_ != b.s_ ? a.s_ < b.s_ : a.n_ < b.n_; }
    friend constexpr bool operator>(time_point const& a, time_point const& b) noexcept { return b < a; }
    friend constexpr bool operator<=(time_point const& a, time_point const& b) noexcept { return !(b < a); }
    friend constexpr bool operator>=(time_point const& a, time_point const& b) noexcept { return !(a < b); }
    friend std::ostream& operator<<(std::ostream& o, time_point const& v) { return o << "time_point(" << v.s_.count() << "," << v.n_.count() << ")"; }
private:
    offset_type s_{}; subsecond_unit n_{};
};
}
template <> struct std::hash<takatori::datetime::time_point> { std::size_t operator()(takatori::datetime::time_point const& v) const noexcept { return std::hash<std::int64_t>{}(v.seconds_since_epoch().count()) * 31 + std::hash<std::int64_t>{}(v.subsecond().count()); } };
