// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <cstdint>
#include <functional>
#include <ostream>
#include <string>
#include <stdexcept>
#include "../../decimal.hh"
namespace takatori::decimal {
class triple {
public:
    constexpr triple() noexcept = default;
    constexpr triple(std::int32_t sign, std::uint64_t hi, std::uint64_t lo, std::int32_t exp) noexcept : s_(hi == 0 && lo == 0 ? 0 : sign < 0 ? -1 : sign > 0 ? 1 : 0), hi_(hi), lo_(lo), e_(exp) {}
    constexpr triple(std::int64_t v, std::int32_t exp = 0) noexcept : s_(v < 0 ? -1 : v > 0 ? 1 : 0), hi_(0), lo_(v < 0 ? ~static_cast<std::uint64_t>(v) + 1 : static_cast<std::uint64_t>(v)), e_(exp) {}
    explicit triple(::decimal::Decimal const& v) {
        unsigned __int128 c = 0;
        if (!v.isfinite() || !v.coeff128(c) || v.exponent() > INT32_MAX || v.exponent() < INT32_MIN) throw std::overflow_error("the value does not fit a triple");
        s_ = c == 0 ? 0 : v.sign(); hi_ = static_cast<std::uint64_t>(c >> 64); lo_ = static_cast<std::uint64_t>(c); e_ = static_cast<std::int32_t>(v.exponent());
    }
    explicit triple(mpd_uint128_triple_t const& t) : triple(t.sign ? -1 : 1, t.hi, t.lo, static_cast<std::int32_t>(t.exp)) { if (t.tag != MPD_TRIPLE_NORMAL) throw std::overflow_error("the value does not fit a triple"); }
    explicit operator ::decimal::Decimal() const { return ::decimal::Decimal::of128(s_, static_cast<unsigned __int128>(hi_) << 64 | lo_, e_); }
    constexpr std::int32_t sign() const noexcept { return s_; }
    constexpr std::uint64_t coefficient_high() const noexcept { return hi_; }
    constexpr std::uint64_t coefficient_low() const noexcept { return lo_; }
    constexpr std::int32_t exponent() const noexcept { return e_; }
    friend constexpr bool operator==(triple const& a, triple const& b) noexcept { return a.s_ == b.s_ && a.hi_ == b.hi_ && a.lo_ == b.lo_ && a.e_ == b.e_; }
    friend constexpr bool operator!=(triple const& a, triple const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, triple const& t) {
        unsigned __int128 c = static_cast<unsigned __int128>(t.hi_) << 64 | t.lo_; std::string d; do { d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(c % 10))); c /= 10; } while (c);
        return o << (t.s_ < 0 ? "-" : "") << d << "E" << t.e_;
    }
private:
    std::int32_t s_{}; std::uint64_t hi_{}, lo_{}; std::int32_t e_{};
};
}
template <> struct std::hash<takatori::decimal::triple> { std::size_t operator()(takatori::decimal::triple const& v) const noexcept { return std::hash<std::uint64_t>{}(v.coefficient_low() * 31 + v.coefficient_high()) ^ static_cast<std::size_t>(v.exponent()); } };
