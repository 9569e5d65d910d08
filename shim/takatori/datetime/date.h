// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <cstdint>
#include <functional>
#include <ostream>
namespace takatori::datetime {
class date {
public:
    using difference_type = std::int64_t;
    constexpr date() noexcept = default;
    explicit constexpr date(difference_type d) noexcept : d_(d) {}
    constexpr date(std::int32_t y, std::uint32_t m, std::uint32_t d) noexcept {   // proleptic Gregorian
        std::int64_t yy = y; yy -= m <= 2; std::int64_t era = (yy >= 0 ? yy : yy - 399) / 400; auto yoe = static_cast<std::int64_t>(yy - era * 400);
        std::int64_t doy = (153 * (static_cast<std::int64_t>(m) + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; std::int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        d_ = era * 146097 + doe - 719468;
    }
    constexpr difference_type days_since_epoch() const noexcept { return d_; }
    friend constexpr bool operator==(date a, date b) noexcept { return a.d_ == b.d_; }
    friend constexpr bool operator!=(date a, date b) noexcept { return a.d_ != b.d_; }
    friend constexpr bool operator<(date a, date b) noexcept { return a.d_ < b.d_; }
    friend constexpr bool operator>(date a, date b) noexcept { return a.d_ > b.d_; }
    friend constexpr bool operator<=(date a, date b) noexcept { return a.d_ <= b.d_; }
    friend constexpr bool operator>=(date a, date b) noexcept { return a.d_ >= b.d_; }
    friend std::ostream& operator<<(std::ostream& o, date v) { return o << "date(" << v.d_ << ")"; }
private:
    difference_type d_{};
};
}
template <> struct std::hash<takatori::datetime::date> { std::size_t operator()(takatori::datetime::date v) const noexcept { return std::hash<std::int64_t>{}(v.days_since_epoch()); } };
