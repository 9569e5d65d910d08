// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <chrono>
#include <cstdint>
#include <ostream>
namespace takatori::datetime {
class time_interval {
public:
    using time_unit = std::chrono::duration<std::int64_t, std::nano>;
    constexpr time_interval() noexcept = default;
    explicit constexpr time_interval(time_unit t) noexcept : t_(t) {}
    constexpr time_unit offset() const noexcept { return t_; }
    friend constexpr bool operator==(time_interval a, time_interval b) noexcept { return a.t_ == b.t_; }
    friend constexpr bool operator!=(time_interval a, time_interval b) noexcept { return a.t_ != b.t_; }
private:
    time_unit t_{};
};
}
