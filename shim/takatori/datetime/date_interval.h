// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <cstdint>
namespace takatori::datetime {
class date_interval {
public:
    constexpr date_interval() noexcept = default;
    constexpr date_interval(std::int32_t y, std::int32_t m = 0, std::int32_t d = 0) noexcept : y_(y), m_(m), d_(d) {}
    constexpr std::int32_t year() const noexcept { return y_; }
    constexpr std::int32_t month() const noexcept { return m_; }
    constexpr std::int32_t day() const noexcept { return d_; }
    friend constexpr bool operator==(date_interval a, date_interval b) noexcept { return a.y_ == b.y_ && a.m_ == b.m_ && a.d_ == b.d_; }
private:
    std::int32_t y_{}, m_{}, d_{};
};
}
