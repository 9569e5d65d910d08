// Stand-in for the takatori library (absent here): text to date and time values, same interface as far as /repo uses it.
#pragma once
#include <takatori/tk.h>
#include <string>
#include <string_view>
#include <variant>
namespace takatori::datetime {
template<class T> class conversion_result {
public:
    conversion_result(T v) : v_(std::in_place_index<0>, v) {}
    conversion_result(std::string e) : v_(std::in_place_index<1>, std::move(e)) {}
    bool is_error() const { return v_.index() == 1; }
    std::string const& error() const { return std::get<1>(v_); }
    T const& value() const { return std::get<0>(v_); }
private: std::variant<T, std::string> v_;
};
struct date_info { std::int32_t year{}; std::uint32_t month{}, day{}; };
struct time_info { std::uint32_t hour{}, minute{}, second{}; std::chrono::nanoseconds subsecond{}; };
struct zone_offset_info { bool plus{}; std::uint32_t hour{}, minute{}; };
struct datetime_info { date_info date{}; time_info time{}; std::optional<zone_offset_info> offset{}; };
namespace details {
// a cursor over the text
struct cur {
    std::string_view s; std::size_t i{};
    bool end() const { return i == s.size(); }
    bool lit(char c) { if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
    template<class U> int digits(U& out, int lo, int hi) { int n = 0; std::uint32_t v = 0; while (n < hi && i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v * 10 + static_cast<std::uint32_t>(s[i] - '0'); ++i; ++n; } out = static_cast<U>(v); return n >= lo ? n : -1; }
    bool date(date_info& d) {
        if (digits(d.year, 1, 4) < 0 || ! lit('-') || digits(d.month, 1, 2) < 0 || ! lit('-') || digits(d.day, 1, 2) < 0) return false;
        static constexpr std::uint32_t n[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        if (d.month < 1 || d.month > 12 || d.day < 1 || d.day > n[d.month - 1]) return false;
        return ! (d.month == 2 && d.day == 29 && (d.year % 4 != 0 || (d.year % 100 == 0 && d.year % 400 != 0)));
    }
    bool time(time_info& t) {
        if (digits(t.hour, 1, 2) < 0 || ! lit(':') || digits(t.minute, 2, 2) < 0) return false;
        if (lit(':')) {
            if (digits(t.second, 2, 2) < 0) return false;
            if (lit('.')) { std::uint32_t f{}; int n = digits(f, 1, 9); if (n < 0) return false; for (; n < 9; ++n) f *= 10; t.subsecond = std::chrono::nanoseconds(f); }
        }
        return t.hour < 24 && t.minute < 60 && t.second < 60;
    }
    bool zone(zone_offset_info& z) {
        if (lit('Z') || lit('z')) { z = {true, 0, 0}; return true; }
        if (lit('+')) z.plus = true; else if (lit('-')) z.plus = false; else return false;
        if (digits(z.hour, 1, 2) < 0) return false;
        if (lit(':') && digits(z.minute, 2, 2) < 0) return false;
        return z.hour < 24 && z.minute < 60;
    }
};
}
inline conversion_result<date_info> parse_date(std::string_view s) { details::cur c{s}; date_info d; if (c.date(d) && c.end()) return d; return std::string("invalid date"); }
inline conversion_result<time_info> parse_time(std::string_view s) { details::cur c{s}; time_info d; if (c.time(d) && c.end()) return d; return std::string("invalid time"); }
inline conversion_result<zone_offset_info> parse_zone_offset(std::string_view s) { details::cur c{s}; zone_offset_info d; if (c.zone(d) && c.end()) return d; return std::string("invalid zone offset"); }
inline conversion_result<datetime_info> parse_datetime(std::string_view s) {
    details::cur c{s}; datetime_info d;
    if (! c.date(d.date)) return std::string("invalid date and time");
    if (c.end()) return d;
    if (! (c.lit('T') || c.lit('t') || c.lit(' ')) || ! c.time(d.time)) return std::string("invalid date and time");
    if (c.end()) return d;
    c.lit(' ');
    zone_offset_info z{};
    if (! c.zone(z) || ! c.end()) return std::string("invalid date and time");
    d.offset = z; return d;
}
}
