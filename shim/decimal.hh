// Stand-in for libmpdec++ (absent here): as much of decimal::Decimal and decimal::context as /repo's sources under
// check use, with unbounded coefficients. tools/decimal_check.py compares it with Python's decimal module (libmpdec).
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#define MPD_Clamped 0x1U
#define MPD_Conversion_syntax 0x2U
#define MPD_Division_by_zero 0x4U
#define MPD_Division_impossible 0x8U
#define MPD_Division_undefined 0x10U
#define MPD_Inexact 0x40U
#define MPD_Invalid_operation 0x100U
#define MPD_IEEE_Invalid_operation 0x3BAU
#define MPD_Overflow 0x800U
#define MPD_Rounded 0x1000U
#define MPD_Subnormal 0x2000U
#define MPD_Underflow 0x4000U
enum { MPD_ROUND_UP, MPD_ROUND_DOWN, MPD_ROUND_CEILING, MPD_ROUND_FLOOR, MPD_ROUND_HALF_UP, MPD_ROUND_HALF_DOWN, MPD_ROUND_HALF_EVEN, MPD_ROUND_05UP, MPD_ROUND_TRUNC };
typedef std::int64_t mpd_ssize_t;
struct mpd_t { mpd_ssize_t digits; };
enum mpd_triple_class { MPD_TRIPLE_NORMAL, MPD_TRIPLE_INF, MPD_TRIPLE_QNAN, MPD_TRIPLE_SNAN, MPD_TRIPLE_ERROR };
struct mpd_uint128_triple_t { mpd_triple_class tag; std::uint8_t sign; std::uint64_t hi, lo; std::int64_t exp; };
namespace decimal {
struct ValueError : std::invalid_argument { using std::invalid_argument::invalid_argument; };
class Context {
public:
    mpd_ssize_t prec() const { return prec_; }
    mpd_ssize_t emax() const { return emax_; }
    mpd_ssize_t emin() const { return emin_; }
    int round() const { return round_; }
    int clamp() const { return clamp_; }
    std::uint32_t status() const { return status_; }
    void prec(mpd_ssize_t v) { prec_ = v; }
    void emax(mpd_ssize_t v) { emax_ = v; }
    void emin(mpd_ssize_t v) { emin_ = v; }
    void round(int v) { round_ = v; }
    void clamp(int v) { clamp_ = v; }
    void status(std::uint32_t v) { status_ = v; }
    void clear_status() { status_ = 0; }
    void raise(std::uint32_t s) { status_ |= s; }
    std::string repr() const { return "Context(prec=" + std::to_string(prec_) + ")"; }
private:
    mpd_ssize_t prec_ = 16, emax_ = 999999, emin_ = -999999; int round_ = MPD_ROUND_HALF_EVEN, clamp_ = 0; std::uint32_t status_ = 0;
};
inline Context IEEEContext(int bits) { Context c; c.prec(9 * bits / 32 - 2); c.emax(3 * (static_cast<mpd_ssize_t>(1) << (bits / 16 + 3))); c.emin(1 - c.emax()); c.clamp(1); return c; }
inline thread_local Context context{};

class Decimal {
    enum kind_t { fin, inf, nan_ };
    kind_t k = nan_; bool neg = false; std::string c = ""; std::int64_t e = 0; mutable mpd_t raw_{};       // c: decimal digits without leading zeros, "0" for zero
    static std::string strip(std::string s) { auto p = s.find_first_not_of('0'); return p == std::string::npos ? "0" : s.substr(p); }
    static Decimal mk(bool n, std::string s, std::int64_t x) { Decimal d; d.k = fin; d.neg = n; d.c = strip(std::move(s)); d.e = x; return d; }
    static Decimal special(kind_t k, bool n = false) { Decimal d; d.k = k; d.neg = n; return d; }
    static Decimal invalid(std::uint32_t s) { context.raise(s); return special(nan_); }
    static std::string inc(std::string s) { for (auto i = s.size(); i-- > 0;) { if (s[i] != '9') { ++s[i]; return s; } s[i] = '0'; } return "1" + s; }
    static int cmp_mag(std::string const& a, std::string const& b) { return a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : a.compare(b) < 0 ? -1 : a == b ? 0 : 1; }
    static std::string add_mag(std::string const& a, std::string const& b) { std::string r; int cy = 0; for (std::size_t i = 0; i < std::max(a.size(), b.size()) || cy; ++i) { int v = cy; if (i < a.size()) v += a[a.size() - 1 - i] - '0'; if (i < b.size()) v += b[b.size() - 1 - i] - '0'; r += static_cast<char>('0' + v % 10); cy = v / 10; } std::reverse(r.begin(), r.end()); return strip(r); }
    static std::string sub_mag(std::string const& a, std::string const& b) { std::string r; int bw = 0; for (std::size_t i = 0; i < a.size(); ++i) { int v = a[a.size() - 1 - i] - '0' - bw - (i < b.size() ? b[b.size() - 1 - i] - '0' : 0); bw = v < 0; r += static_cast<char>('0' + (v + 10) % 10); } std::reverse(r.begin(), r.end()); return strip(r); }
    static std::string mul_mag(std::string const& a, std::string const& b) { std::string r(a.size() + b.size(), 0); for (auto i = a.size(); i-- > 0;) { int cy = 0; for (auto j = b.size(); j-- > 0;) { int v = r[i + j + 1] + (a[i] - '0') * (b[j] - '0') + cy; r[i + j + 1] = static_cast<char>(v % 10); cy = v / 10; } r[i] = static_cast<char>(r[i] + cy); } for (auto& x : r) x = static_cast<char>(x + '0'); return strip(r); }
    static std::pair<std::string, std::string> div_mag(std::string const& a, std::string const& b) { std::string q, r = "0"; for (char x : a) { r = strip(r + x); int n = 0; while (cmp_mag(r, b) >= 0) { r = sub_mag(r, b); ++n; } q += static_cast<char>('0' + n); } return {strip(q), r}; }
    bool zero() const { return k == fin && c == "0"; }
    // drop n digits, rounding; reports Rounded/Inexact
    static std::string drop(std::string const& s, std::int64_t n, bool neg, std::uint32_t& st) {
        if (n <= 0) return s;
        std::string keep = n >= static_cast<std::int64_t>(s.size()) ? "0" : s.substr(0, s.size() - n);
        std::string rest = n > static_cast<std::int64_t>(s.size()) ? "0" : s.substr(n >= static_cast<std::int64_t>(s.size()) ? 0 : s.size() - n);
        bool ex = s != "0" && (rest.find_first_not_of('0') != std::string::npos || n > static_cast<std::int64_t>(s.size()));
        if (s != "0") st |= MPD_Rounded; if (ex) st |= MPD_Inexact;
        if (!ex) return keep;
        int half = rest[0] < '5' || n > static_cast<std::int64_t>(s.size()) ? -1 : rest[0] > '5' || rest.find_first_not_of('0', 1) != std::string::npos ? 1 : 0;
        bool up = false;
        switch (context.round()) {
            case MPD_ROUND_UP: up = true; break;
            case MPD_ROUND_DOWN: case MPD_ROUND_TRUNC: break;
            case MPD_ROUND_CEILING: up = !neg; break;
            case MPD_ROUND_FLOOR: up = neg; break;
            case MPD_ROUND_HALF_UP: up = half >= 0; break;
            case MPD_ROUND_HALF_DOWN: up = half > 0; break;
            case MPD_ROUND_HALF_EVEN: up = half > 0 || (half == 0 && ((keep.back() - '0') & 1)); break;
            case MPD_ROUND_05UP: up = keep.back() == '0' || keep.back() == '5'; break;
            default: std::abort();
        }
        return up ? inc(keep) : keep;
    }
    Decimal finalize() const {
        if (k != fin) return *this;
        Decimal d = *this; std::uint32_t st = 0; auto& x = context; auto etiny = x.emin() - (x.prec() - 1), etop = x.emax() - (x.prec() - 1);
        if (d.zero()) {
            auto top = x.clamp() ? etop : x.emax();
            if (d.e < etiny) { d.e = etiny; st |= MPD_Clamped; } if (d.e > top) { d.e = top; st |= MPD_Clamped; }
            x.raise(st); return d;
        }
        auto adj = d.e + static_cast<std::int64_t>(d.c.size()) - 1;
        if (adj < x.emin()) {           // subnormal
            st |= MPD_Subnormal;
            if (d.e < etiny) { d.c = drop(d.c, etiny - d.e, d.neg, st); d.e = etiny; if (d.zero()) st |= MPD_Clamped; if (st & MPD_Inexact) st |= MPD_Underflow; st |= MPD_Rounded; }
            x.raise(st); return d;
        }
        auto over = static_cast<std::int64_t>(d.c.size()) - x.prec();
        if (over > 0) { d.c = drop(d.c, over, d.neg, st); d.e += over; if (static_cast<std::int64_t>(d.c.size()) > x.prec()) { d.c.pop_back(); ++d.e; } }
        adj = d.e + static_cast<std::int64_t>(d.c.size()) - 1;
        if (adj > x.emax()) {
            x.raise(MPD_Overflow | MPD_Inexact | MPD_Rounded);
            bool toinf = true; switch (x.round()) { case MPD_ROUND_DOWN: case MPD_ROUND_TRUNC: case MPD_ROUND_05UP: toinf = false; break; case MPD_ROUND_CEILING: toinf = !d.neg; break; case MPD_ROUND_FLOOR: toinf = d.neg; break; default: break; }
            return toinf ? special(inf, d.neg) : mk(d.neg, std::string(static_cast<std::size_t>(x.prec()), '9'), etop);
        }
        if (x.clamp() && d.e > etop) { d.c.append(static_cast<std::size_t>(d.e - etop), '0'); d.e = etop; st |= MPD_Clamped; }
        x.raise(st); return d;
    }
public:
    Decimal() = default;
    template <class T, std::enable_if_t<std::is_integral_v<T>, int> = 0> Decimal(T v) {      // NOLINT
        k = fin; neg = v < 0; auto u = neg ? ~static_cast<std::uint64_t>(v) + 1 : static_cast<std::uint64_t>(v); c = std::to_string(u); e = 0;
    }
    explicit Decimal(std::string const& s) { *this = parse(s); }
    explicit Decimal(char const* s) : Decimal(std::string(s)) {}
    static Decimal parse(std::string const& s) {
        std::size_t p = 0; bool n = false; auto bad = [] { return invalid(MPD_Conversion_syntax); };
        if (p < s.size() && (s[p] == '+' || s[p] == '-')) n = s[p++] == '-';
        auto low = s.substr(p); for (auto& x : low) if (x >= 'A' && x <= 'Z') x = static_cast<char>(x + 32);
        if (low == "inf" || low == "infinity") return special(inf, n);
        if (low.compare(0, 3, "nan") == 0 || low.compare(0, 4, "snan") == 0) { auto t = low.substr(low[0] == 's' ? 4 : 3); if (t.find_first_not_of("0123456789") != std::string::npos) return bad(); return special(nan_, n); }
        std::string d; std::int64_t x = 0; bool dot = false, any = false; std::size_t i = 0;
        for (; i < low.size(); ++i) { if (low[i] >= '0' && low[i] <= '9') { d += low[i]; any = true; if (dot) --x; } else if (low[i] == '.' && !dot) dot = true; else break; }
        if (!any) return bad();
        if (i < low.size()) {
            if (low[i++] != 'e') return bad();
            bool xn = false; if (i < low.size() && (low[i] == '+' || low[i] == '-')) xn = low[i++] == '-';
            if (i >= low.size() || low.find_first_not_of("0123456789", i) != std::string::npos) return bad();
            auto t = strip(low.substr(i)); std::int64_t v = t.size() > 18 ? 1100000000000000000LL : std::stoll(t); x += xn ? -v : v;
        }
        // the exact constructor: exponents of the 64-bit library
        constexpr std::int64_t lim = 999999999999999999LL; auto r = mk(n, d, x);
        if (!r.zero() && (r.e + static_cast<std::int64_t>(r.c.size()) - 1 > lim || r.e + static_cast<std::int64_t>(r.c.size()) - 1 < -lim)) return invalid(MPD_Invalid_operation);
        if (r.zero()) r.e = std::max<std::int64_t>(std::min<std::int64_t>(r.e, lim), -lim);
        return r;
    }
    static Decimal of128(int sign, unsigned __int128 v, std::int64_t x) { std::string s; do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v); return mk(sign < 0, s, x); }
    mpd_uint128_triple_t as_uint128_triple() const { mpd_uint128_triple_t t{}; unsigned __int128 v = 0; if (k == nan_) t.tag = MPD_TRIPLE_QNAN; else if (k == inf) t.tag = MPD_TRIPLE_INF; else if (! coeff128(v) || e > INT32_MAX || e < INT32_MIN) t.tag = MPD_TRIPLE_ERROR; else { t.tag = MPD_TRIPLE_NORMAL; t.hi = static_cast<std::uint64_t>(v >> 64); t.lo = static_cast<std::uint64_t>(v); t.exp = e; } t.sign = neg; return t; }
    bool coeff128(unsigned __int128& o) const { o = 0; for (char x : c) { auto m = ~static_cast<unsigned __int128>(0); if (o > (m - static_cast<unsigned>(x - '0')) / 10) return false; o = o * 10 + static_cast<unsigned>(x - '0'); } return true; }
    bool isfinite() const { return k == fin; }
    bool isinfinite() const { return k == inf; }
    bool isnan() const { return k == nan_; }
    bool isspecial() const { return k != fin; }
    bool iszero() const { return zero(); }
    bool issigned() const { return neg; }
    int sign() const { return neg ? -1 : 1; }
    std::int64_t exponent() const { if (k != fin) throw ValueError("exponent of a special value"); return e; }
    std::int64_t adjexp() const { if (k != fin) throw ValueError("adjexp of a special value"); return e + static_cast<std::int64_t>(c.size()) - 1; }
    Decimal coeff() const { if (k != fin) throw ValueError("coefficient of a special value"); return mk(false, c, 0); }
    mpd_t const* get() const { raw_.digits = k == fin ? static_cast<mpd_ssize_t>(c.size()) : 0; return &raw_; }
    mpd_t const* getconst() const { return get(); }
    Decimal copy_sign(Decimal const& o) const { auto d = *this; d.neg = o.neg; return d; }
    Decimal copy_abs() const { auto d = *this; d.neg = false; return d; }
    Decimal copy_negate() const { auto d = *this; d.neg = !d.neg; return d; }
    Decimal rescale(std::int64_t x) const {
        if (k != fin) return *this;
        constexpr std::int64_t max_emax = 999999999999999999LL, min_etiny = -1999999999999999997LL;
        if (x > max_emax + 1 || x < min_etiny - 1) return invalid(MPD_Invalid_operation);
        if (zero()) return mk(neg, "0", x);
        if (e >= x) { auto n = e - x; if (n > 200000000) throw std::length_error("decimal stand-in: rescaled too far"); return mk(neg, c + std::string(static_cast<std::size_t>(n), '0'), x); }
        std::uint32_t st = 0; auto r = drop(c, x - e, neg, st); context.raise(st | MPD_Rounded); return mk(neg, r, x);
    }
    Decimal quantize(Decimal const& o) const {
        if (k != fin || o.k != fin) return k == inf && o.k == inf ? *this : invalid(k == nan_ || o.k == nan_ ? 0 : MPD_Invalid_operation);
        if (o.e > context.emax() || o.e < context.emin() - (context.prec() - 1)) return invalid(MPD_Invalid_operation);
        auto before = context.status(); auto d = rescale(o.e); if (static_cast<std::int64_t>(d.c.size()) > context.prec() || (!d.zero() && d.adjexp() > context.emax())) { context.status(before); return invalid(MPD_Invalid_operation); } return d.finalize();
    }
    Decimal reduce() const { auto d = finalize(); if (d.k != fin) return d; if (d.zero()) return mk(d.neg, "0", 0); auto top = context.clamp() ? context.emax() - (context.prec() - 1) : context.emax(); while (d.c.size() > 1 && d.c.back() == '0' && d.e < top) { d.c.pop_back(); ++d.e; } return d; }
    Decimal scaleb(Decimal const& n) const { if (k == nan_ || n.k == nan_) return special(nan_); if (n.k != fin || n.e != 0) return invalid(MPD_Invalid_operation); if (k == inf) return *this; auto v = n.i64(); auto lim = 2 * (context.emax() + context.prec()); if (v > lim || v < -lim) return invalid(MPD_Invalid_operation); auto d = *this; d.e += v; return d.finalize(); }
    Decimal to_integral_exact() const { if (k != fin || e >= 0) return *this; std::uint32_t st = 0; if (zero()) return mk(neg, "0", 0); auto r = drop(c, -e, neg, st); context.raise(st | MPD_Rounded); return mk(neg, r, 0); }
    Decimal to_integral() const { if (k != fin || e >= 0) return *this; std::uint32_t st = 0; return mk(neg, drop(c, -e, neg, st), 0); }
    Decimal abs() const { auto d = finalize(); d.neg = false; return d; }
    Decimal operator-() const { if (k == nan_) return *this; auto d = *this; d.neg = zero() && context.round() != MPD_ROUND_FLOOR ? false : !neg; return d.finalize(); }
    Decimal operator+() const { if (k == nan_) return *this; auto d = *this; if (zero() && context.round() != MPD_ROUND_FLOOR) d.neg = false; return d.finalize(); }
    friend Decimal operator+(Decimal const& a, Decimal const& b) { return add(a, b); }
    friend Decimal operator-(Decimal const& a, Decimal const& b) { return add(a, b.k == nan_ ? b : b.copy_negate()); }
    static Decimal add(Decimal const& a, Decimal const& b) {
        if (a.k == nan_ || b.k == nan_) return special(nan_);
        if (a.k == inf) return b.k == inf && a.neg != b.neg ? invalid(MPD_Invalid_operation) : a;
        if (b.k == inf) return b;
        auto x = std::min(a.e, b.e);
        // far apart operands: bring the big one close, keep the small one as a sticky digit
        if (!a.zero() && !b.zero()) {
            auto const& big = a.adjexp() >= b.adjexp() ? a : b; auto const& small = &big == &a ? b : a;
            auto low = std::min(big.e, big.adjexp() - context.prec() - 2);
            if (small.adjexp() < low - 2) return add2(big, mk(small.neg, "1", low - 3), low - 3).finalize();
        } else if (std::max(a.e, b.e) - x > 4 * context.prec() + 200) {
            auto const& z = a.zero() ? a : b; auto const& o = &z == &a ? b : a;
            if (o.zero()) return mk(a.neg == b.neg ? a.neg : context.round() == MPD_ROUND_FLOOR, "0", x).finalize();
            if (z.e >= o.e) return o.finalize();
            auto pad = std::min<std::int64_t>(o.e - z.e, std::max<std::int64_t>(0, context.prec() - static_cast<std::int64_t>(o.c.size()))); auto r = mk(o.neg, o.c + std::string(static_cast<std::size_t>(pad), '0'), o.e - pad); context.raise(pad < o.e - z.e ? MPD_Rounded : 0); return r.finalize();
        }
        return add2(a, b, x).finalize();
    }
    static Decimal add2(Decimal const& a, Decimal const& b, std::int64_t x) {
        auto p = a.zero() ? std::string("0") : a.c + std::string(static_cast<std::size_t>(a.e - x), '0'), q = b.zero() ? std::string("0") : b.c + std::string(static_cast<std::size_t>(b.e - x), '0');
        if (a.neg == b.neg) return mk(a.neg, add_mag(p, q), x);
        auto s = cmp_mag(p, q);
        if (s == 0) return mk(context.round() == MPD_ROUND_FLOOR, "0", x);
        return s > 0 ? mk(a.neg, sub_mag(p, q), x) : mk(b.neg, sub_mag(q, p), x);
    }
    friend Decimal operator*(Decimal const& a, Decimal const& b) {
        if (a.k == nan_ || b.k == nan_) return special(nan_);
        if (a.k == inf || b.k == inf) return a.zero() || b.zero() ? invalid(MPD_Invalid_operation) : special(inf, a.neg != b.neg);
        return mk(a.neg != b.neg, mul_mag(a.c, b.c), a.e + b.e).finalize();
    }
    friend Decimal operator/(Decimal const& a, Decimal const& b) {
        if (a.k == nan_ || b.k == nan_) return special(nan_);
        bool n = a.neg != b.neg;
        if (a.k == inf) return b.k == inf ? invalid(MPD_Invalid_operation) : special(inf, n);
        if (b.k == inf) { context.raise(MPD_Clamped); return mk(n, "0", context.emin() - (context.prec() - 1)); }
        if (b.zero()) { if (a.zero()) return invalid(MPD_Division_undefined); context.raise(MPD_Division_by_zero); return special(inf, n); }
        auto ideal = a.e - b.e;
        if (a.zero()) return mk(n, "0", ideal).finalize();
        auto shift = std::max<std::int64_t>(0, context.prec() + 4 + static_cast<std::int64_t>(b.c.size()) - static_cast<std::int64_t>(a.c.size()));
        auto [q, r] = div_mag(a.c + std::string(static_cast<std::size_t>(shift), '0'), b.c);
        auto x = ideal - shift;
        if (r != "0") { q += "1"; --x; }        // sticky
        else while (x < ideal && q.size() > 1 && q.back() == '0') { q.pop_back(); ++x; }
        return mk(n, q, x).finalize();
    }
    friend Decimal operator%(Decimal const& a, Decimal const& b) {
        if (a.k == nan_ || b.k == nan_) return special(nan_);
        if (a.k == inf) return invalid(MPD_Invalid_operation);
        if (b.k == inf) return a.finalize();
        if (b.zero()) return invalid(a.zero() ? MPD_Division_undefined : MPD_Invalid_operation);
        auto x = std::min(a.e, b.e);
        if (a.zero()) return mk(a.neg, "0", x).finalize();
        if (a.adjexp() - b.adjexp() > context.prec() + 1) return invalid(MPD_Division_impossible);
        if (a.adjexp() < b.adjexp() - 1) return mk(a.neg, a.c + std::string(static_cast<std::size_t>(a.e - x), '0'), x).finalize();
        auto p = a.c + std::string(static_cast<std::size_t>(a.e - x), '0'), q = b.c + std::string(static_cast<std::size_t>(b.e - x), '0');
        auto [d, r] = div_mag(p, q);
        if (static_cast<std::int64_t>(d.size()) > context.prec()) return invalid(MPD_Division_impossible);
        return mk(a.neg, r, x).finalize();
    }
    // -1, 0, 1; 2 for unordered
    static int cmp(Decimal const& a, Decimal const& b) {
        if (a.k == nan_ || b.k == nan_) return 2;
        auto rank = [](Decimal const& d) { return d.k == inf ? (d.neg ? -2 : 2) : d.zero() ? 0 : d.neg ? -1 : 1; };
        int x = rank(a), y = rank(b); if (x != y) return x < y ? -1 : 1;
        if (x == 0 || x == 2 || x == -2) return 0;
        int s = a.neg ? -1 : 1;
        if (a.adjexp() != b.adjexp()) return a.adjexp() < b.adjexp() ? -s : s;
        auto p = a.c, q = b.c; while (p.size() < q.size()) p += '0'; while (q.size() < p.size()) q += '0';
        auto t = p.compare(q); return t == 0 ? 0 : t < 0 ? -s : s;
    }
    static int ord(Decimal const& a, Decimal const& b) { auto r = cmp(a, b); if (r == 2) context.raise(MPD_Invalid_operation); return r; }
    friend bool operator==(Decimal const& a, Decimal const& b) { return cmp(a, b) == 0; }
    friend bool operator!=(Decimal const& a, Decimal const& b) { return cmp(a, b) != 0; }
    friend bool operator<(Decimal const& a, Decimal const& b) { return ord(a, b) == -1; }
    friend bool operator>(Decimal const& a, Decimal const& b) { return ord(a, b) == 1; }
    friend bool operator<=(Decimal const& a, Decimal const& b) { auto r = ord(a, b); return r == -1 || r == 0; }
    friend bool operator>=(Decimal const& a, Decimal const& b) { auto r = ord(a, b); return r == 1 || r == 0; }
    Decimal& operator+=(Decimal const& o) { return *this = *this + o; }
    Decimal& operator-=(Decimal const& o) { return *this = *this - o; }
    Decimal& operator*=(Decimal const& o) { return *this = *this * o; }
    Decimal& operator/=(Decimal const& o) { return *this = *this / o; }
    std::int64_t i64() const {
        if (k != fin) throw ValueError("special value");
        auto s = c; if (!zero()) { for (auto x = e; x < 0; ++x) { if (s.back() != '0' || s.size() == 1) throw ValueError("not an integer"); s.pop_back(); } for (auto x = e; x > 0; --x) { s += '0'; if (s.size() > 20) throw ValueError("out of range"); } }
        if (s.size() > 19) throw ValueError("out of range");
        auto u = std::stoull(s); if (u > static_cast<std::uint64_t>(INT64_MAX) + (neg ? 1 : 0)) throw ValueError("out of range");
        return neg ? static_cast<std::int64_t>(~u + 1) : static_cast<std::int64_t>(u);
    }
    std::int32_t i32() const { auto v = i64(); if (v < INT32_MIN || v > INT32_MAX) throw ValueError("out of range"); return static_cast<std::int32_t>(v); }
    std::string to_sci(bool capitals = true) const {
        std::string s = neg ? "-" : "";
        if (k == inf) return s + "Infinity"; if (k == nan_) return s + "NaN";
        auto adj = adjexp();
        if (e <= 0 && adj >= -6) {
            if (e == 0) return s + c;
            auto pos = static_cast<std::int64_t>(c.size()) + e;
            return pos > 0 ? s + c.substr(0, pos) + "." + c.substr(pos) : s + "0." + std::string(static_cast<std::size_t>(-pos), '0') + c;
        }
        s += c[0]; if (c.size() > 1) s += "." + c.substr(1);
        return s + (capitals ? "E" : "e") + (adj >= 0 ? "+" : "") + std::to_string(adj);
    }
    std::string to_eng(bool capitals = true) const { return to_sci(capitals); }
    std::string format(char const*) const {
        if (k != fin) return to_sci(); std::string s = neg ? "-" : ""; if (e >= 0) return s + c + (zero() ? "" : std::string(static_cast<std::size_t>(e), '0'));
        auto pos = static_cast<std::int64_t>(c.size()) + e; return pos > 0 ? s + c.substr(0, pos) + "." + c.substr(pos) : s + "0." + std::string(static_cast<std::size_t>(-pos), '0') + c; }
    friend std::ostream& operator<<(std::ostream& o, Decimal const& d) { return o << d.to_sci(); }
};
}
