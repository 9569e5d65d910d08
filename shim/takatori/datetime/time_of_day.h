// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <ostream>
namespace takatori::datetime {
class time_of_day {
public:
    using time_unit = std::chrono::duration<std::uint64_t, std::nano>;
    static constexpr time_unit max_value{24ULL * 3600 * 1000000000 - 1};
    constexpr time_of_day() noexcept = default;
    explicit constexpr time_of_day(time_unit t) noexcept : t_(t) {}
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, std::chrono::nanoseconds sub = {}) noexcept : t_((h * 3600ULL + m * 60ULL + s) * 1000000000ULL + static_cast<std::uint64_t>(sub.count())) {}
    // wraps around at midnight
    template<class R, class P> time_of_day& operator+=(std::chrono::duration<R, P> d) { constexpr std::int64_t day = 24LL * 3600 * 1000000000LL; auto x = (static_cast<std::int64_t>(t_.count()) + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count() % day) % day; if (x < 0) x += day; t_ = time_unit(static_cast<std::uint64_t>(x)); return *this; }
    template<class R, class P> time_of_day& operator-=(std::chrono::duration<R, P> d) { return *this += -std::chrono::duration_cast<std::chrono::nanoseconds>(d); }
    template<class R, class P> friend time_of_day operator+(time_of_day a, std::chrono::duration<R, P> d) { a += d; return a; }
    template<class R, class P> friend time_of_day operator-(time_of_day a, std::chrono::duration<R, P> d) { a -= d; return a; }
    std::uint32_t hour() const { return static_cast<std::uint32_t>(t_.count() / 3600000000000ULL); }
    std::uint32_t minute() const { return static_cast<std::uint32_t>(t_.count() / 60000000000ULL % 60); }
    std::uint32_t second() const { return static_cast<std::uint32_t>(t_.count() / 1000000000ULL % 60); }
    time_unit subsecond() const { return time_unit(t_.count() % 1000000000ULL); }
    constexpr time_unit time_since_epoch() const noexcept { return t_; }
    friend constexpr bool operator==(time_of_day a, time_of_day b) noexcept { return a.t_ == b.t_; }
    friend constexpr bool operator!=(time_of_day a, time_of_day b) noexcept { return a.t_ != b.t_; }
    friend constexpr bool operator<(time_of_day a, time_of_day b) noexcept { return a.t_ < b.t_; }
    friend constexpr bool operator>(time_of_day a, time_of_day b) noexcept { return a.t_ > b.t_; }
    friend constexpr bool operator<=(time_of_day a, time_of_day b) noexcept { return a.t_ <= b.t_; }
    friend constexpr bool operator>=(time_of_day a, time_of_day b) noexcept { return a.t_ >= b.t_; }
    friend std::ostream& operator<<(std::ostream& o, time_of_day v) { return o << "time_of_day(" << v.t_.count() << ")"; }
private:
    time_unit t_{};
};
}
template <> struct std::hash<takatori::datetime::time_of_day> { std::size_t operator()(takatori::datetime::time_of_day v) const noexcept { return std::hash<std::uint64_t>{}(v.time_since_epoch().count()); } };
