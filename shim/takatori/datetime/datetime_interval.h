// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <takatori/datetime/date_interval.h>
#include <takatori/datetime/time_interval.h>
namespace takatori::datetime {
class datetime_interval {
public:
    constexpr datetime_interval() noexcept = default;
    explicit constexpr datetime_interval(date_interval d, time_interval t = {}) noexcept : d_(d), t_(t) {}
    explicit constexpr datetime_interval(time_interval t) noexcept : t_(t) {}
    constexpr date_interval date() const noexcept { return d_; }
    constexpr time_interval time() const noexcept { return t_; }
    friend constexpr bool operator==(datetime_interval a, datetime_interval b) noexcept { return a.d_ == b.d_ && a.t_ == b.t_; }
private:
    date_interval d_{}; time_interval t_{};
};
}
