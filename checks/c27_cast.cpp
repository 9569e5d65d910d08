// C27: conversions. All pairs of source values and target types under all loss policies against an oracle in exact arithmetic,
// all short numeric texts, and the conversion of assigned values with its error codes.
#include "vf.h"
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <set>
#include <jogasaki/configuration.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/executor/conv/assignment.h>
#include <jogasaki/executor/conv/create_default_value.h>
#include <jogasaki/executor/conv/parameter_apply.h>
#include <jogasaki/executor/conv/unify.h>
#include <jogasaki/executor/expr/details/cast_evaluation.h>
#include <jogasaki/executor/expr/evaluator.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/request_context.h>
#include "anyval.h"
#include "num.h"
using namespace jogasaki::executor::expr; using i32 = std::int32_t;
namespace ty = takatori::type; namespace sc = takatori::scalar; namespace va = takatori::value; namespace conv = jogasaki::executor::conv;
using K = ty::type_kind; using tp = std::shared_ptr<ty::data const>; using EK = error_kind; using pol = loss_precision_policy;
#define CHECK(c, key, ...) do { if (!(c)) vf::violation(key, vf::strf(__VA_ARGS__)); } while (0)
static memory::page_pool& pool = *new memory::page_pool; static memory::lifo_paged_memory_resource& lifo = *new memory::lifo_paged_memory_resource{&pool};
static std::shared_ptr<configuration> cfg = std::make_shared<configuration>();
struct T { tp t; K k; bool var{}; int len{-1}; int p{-1}, s{-1}; bool tz{}; };
static std::string tn(T const& t) { switch (t.k) { case K::decimal: return vf::strf("decimal(%d,%d)", t.p, t.s); case K::character: return vf::strf("%s(%d)", t.var ? "varchar" : "char", t.len); case K::octet: return vf::strf("%s(%d)", t.var ? "varbinary" : "binary", t.len); case K::time_point: return t.tz ? "timestamp tz" : "timestamp"; default: return std::string(ty::to_string_view(t.k)); } }
template <class X> static T simple(K k) { return {std::make_shared<X>(), k}; }
static T decimal_(int p, int s) { return {std::make_shared<ty::decimal>(p < 0 ? std::optional<std::size_t>{} : std::optional<std::size_t>{p}, s < 0 ? std::optional<std::size_t>{} : std::optional<std::size_t>{s}), K::decimal, false, -1, p, s}; }
template <class X> static T str_(K k, bool var, int len) { T t{nullptr, k, var, len}; if (var) t.t = len < 0 ? std::make_shared<X>(ty::varying) : std::make_shared<X>(ty::varying, std::optional<std::size_t>(len)); else t.t = std::make_shared<X>(std::optional<std::size_t>(len)); return t; }
static T chr(bool var, int len) { return str_<ty::character>(K::character, var, len); }
static T oct_(bool var, int len) { return str_<ty::octet>(K::octet, var, len); }
static T stamp(bool tz) { T t; t.t = tz ? std::make_shared<ty::time_point>(ty::with_time_zone_t{true}) : std::make_shared<ty::time_point>(); t.k = K::time_point; t.tz = tz; return t; }
// ---- what a conversion gives
struct R { int st{}; EK ek{}; std::string v; bool lost{}; EK lk{EK::lost_precision}; bool free_{}; };   // st: 0 value 1 null 2 error; free_: not claimed
static R bad(EK k) { R r; r.st = 2; r.ek = k; return r; }
static R val(any const& a, bool lost = false) { R r; r.v = show(a); r.lost = lost; return r; }
static int ndig(big c) { if (c < 0) c = -c; return c == 0 ? 1 : (int) c.str().size(); }
static void strip(Dec& d) { if (d.c == 0) { d.e = 0; return; } while (d.c % 10 == 0) { d.c /= 10; ++d.e; } }
static std::string dshow(Dec d) { while (d.c != 0 && d.e > 24576 - 37) { d.c *= 10; --d.e; } return show(any{std::in_place_type<triple>, trib(d.c, d.e)}); }
static R to_decimal(Dec d, T const& t, bool lost = false) {
    if (t.p >= 0 && t.s < 0) { R r = bad(EK::unsupported); r.free_ = lost; return r; }
    strip(d); R r; r.lost = lost;
    if (t.p < 0 && t.s < 0) { r.v = dshow(d); return r; }
    int p = t.p < 0 ? 38 : t.p, s = t.s;
    if (d.c != 0 && ndig(d.c) + d.e > p - s) { r.lost = true; big m = p10(p) - 1; r.v = dshow({d.c < 0 ? big(-m) : m, -s}); return r; }
    if (d.e >= -s) { d.c *= p10(d.e + s); } else if (-s - d.e > 80) { r.lost = r.lost || d.c != 0; d.c = 0; } else { big q = p10(-s - d.e); if (d.c % q != 0) r.lost = true; d.c /= q; }
    d.e = -s; r.v = dshow(d); return r;
}
static bool int_kind(K k) { return k == K::int1 || k == K::int2 || k == K::int4 || k == K::int8; }
static void range(K k, big& lo, big& hi) { int b = k == K::int1 ? 7 : k == K::int2 ? 15 : k == K::int4 ? 31 : 63; hi = (big(1) << b) - 1; lo = -(big(1) << b); }
static R to_int(Dec d, K k, bool lost = false) {   // toward zero
    bool frac = false; strip(d); big lo, hi; range(k, lo, hi); big v;
    if (d.e >= 0) v = d.e > 60 && d.c != 0 ? (d.c < 0 ? big(lo - 1) : big(hi + 1)) : big(d.c * p10(d.e)); else if (-d.e > 80) { v = 0; frac = d.c != 0; } else { big q = p10(-d.e); v = d.c / q; frac = d.c % q != 0; }
    if (v < lo) { v = lo; frac = true; } if (v > hi) { v = hi; frac = true; }
    R r; r.lost = lost || frac; i64 x = (i64) v; r.v = k == K::int8 ? show(A<i64>(x)) : show(A<i32>((i32) x)); return r;
}
static R to_float(std::string const& s, K k, bool lost = false) {
    errno = 0; R r; r.lost = lost;
    if (k == K::float4) { float f = std::strtof(s.c_str(), nullptr); if (errno == ERANGE && std::fabs(f) < 1) f = std::signbit(f) ? -0.0F : 0.0F; r.v = show(A<float>(f)); }
    else { double f = std::strtod(s.c_str(), nullptr); if (errno == ERANGE && std::fabs(f) < 1) f = std::signbit(f) ? -0.0 : 0.0; r.v = show(A<double>(f)); }
    return r;
}
static std::string plain(Dec const& d) { return d.c.str() + "e" + std::to_string(d.e); }
static std::string cut(std::string const& s, std::size_t n) { if (n >= s.size()) return s; while (n > 0 && ((unsigned char) s[n] & 0xC0) == 0x80) --n; return s.substr(0, n); }
static R to_str(std::string s, T const& t, bool padded = false) {
    R r; bool text = t.k == K::character; char pad = text ? ' ' : '\0'; r.lk = EK::lost_precision_value_too_long;
    if (t.len >= 0) { std::size_t n = t.len;
        if (s.size() > n) { std::string c = text ? cut(s, n) : s.substr(0, n); std::string rest = s.substr(c.size()); r.lost = !padded || rest.find_first_not_of(pad) != std::string::npos; s = c; }
        if (!t.var) while (s.size() < n) s += pad; }
    r.v = (text ? "c:" : "o:") + s; return r;
}
static std::string sci(Dec const& d) {    // the standard's to-scientific-string
    std::string c = big(d.c < 0 ? big(-d.c) : d.c).str(); int n = (int) c.size(), adj = d.e + n - 1; std::string r;
    if (d.e <= 0 && adj >= -6) { if (d.e == 0) r = c; else if (n > -d.e) r = c.substr(0, n + d.e) + "." + c.substr(n + d.e); else r = "0." + std::string(-d.e - n, '0') + c; }
    else { r = c.substr(0, 1) + (n > 1 ? "." + c.substr(1) : "") + vf::strf("E%+d", adj); }
    return (d.c < 0 ? "-" : "") + r;
}
static std::string trim(std::string const& s) { auto a = s.find_first_not_of(' '); if (a == std::string::npos) return ""; return s.substr(a, s.find_last_not_of(' ') - a + 1); }
static std::string lower(std::string s) { for (auto& c : s) c = (char) std::tolower((unsigned char) c); return s; }
struct Num { int cls{4}; bool neg{}; Dec d{}; bool lost{}; bool out{}; };   // 0 finite 1 inf 2 nan 3 nan with more 4 not a number
static Num parse(std::string s) {
    Num n; std::size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) n.neg = s[i++] == '-';
    std::string b = lower(s.substr(i)); if (b == "inf" || b == "infinity") { n.cls = 1; return n; } if (b == "nan") { n.cls = 2; return n; }
    for (std::string p : {"nan", "snan"}) if (b.compare(0, p.size(), p) == 0 && b.find_first_not_of("0123456789", p.size()) == std::string::npos) { n.cls = 3; return n; }
    std::string dig; long long e = 0; bool any_ = false; for (; i < s.size() && std::isdigit((unsigned char) s[i]); ++i) { dig += s[i]; any_ = true; }
    if (i < s.size() && s[i] == '.') { for (++i; i < s.size() && std::isdigit((unsigned char) s[i]); ++i) { dig += s[i]; --e; any_ = true; } }
    if (!any_) return n;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; bool m = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) m = s[i++] == '-'; if (i >= s.size()) return n; long long x = 0; for (; i < s.size() && std::isdigit((unsigned char) s[i]); ++i) x = std::min(x * 10 + (s[i] - '0'), 100000000000000LL); if (i < s.size()) return n; e += m ? -x : x; }
    if (i < s.size()) return n;
    n.cls = 0; dig.erase(0, std::min(dig.find_first_not_of('0'), dig.size())); big c = dig.empty() ? big(0) : big(dig); if (c == 0) { n.d = {0, 0}; return n; }
    int k = (int) dig.size(); if (k > 38) { big q = p10(k - 38); n.lost = c % q != 0; c /= q; e += k - 38; }
    long long adj = e + ndig(c) - 1; if (adj > 24576 || adj < -24575) { n.out = true; return n; }
    if (n.neg) c = -c; n.d = {c, (int) e}; strip(n.d); return n;
}
static i64 days(int y, int m, int d) { y -= m <= 2; i64 era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned) (y - era * 400), doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (i64) doe - 719468; }
struct When { std::string s; int y{}, mo{}, d{}; i64 ns{}; bool date{}, time{}; int off{-9999}; };      // a text and what it means
static std::vector<When> whens() {
    std::vector<When> o; struct Dt { char const* s; int y, m, d; }; struct Ti { char const* s; i64 ns; };
    for (Dt d : {Dt{"2024-02-29", 2024, 2, 29}, Dt{"1970-01-01", 1970, 1, 1}, Dt{"0001-01-01", 1, 1, 1}, Dt{"9999-12-31", 9999, 12, 31}, Dt{"1969-12-31", 1969, 12, 31}}) { When w{d.s, d.y, d.m, d.d, 0, true, false}; o.push_back(w);
        for (Ti t : {Ti{"00:00:00", 0}, Ti{"23:59:59", 86399000000000}, Ti{"12:34:56.789", 45296789000000}, Ti{"12:34", 45240000000000}, Ti{"00:00:00.000000001", 1}}) for (auto& z : std::vector<std::pair<std::string, int>>{{"", -9999}, {"Z", 0}, {"+09:00", 540}, {"-03:30", -210}, {"+00:01", 1}, {"-18:00", -1080}}) for (char sep : {' ', 'T'}) { When x = w; x.s = std::string(d.s) + sep + t.s + z.first; x.ns = t.ns; x.time = true; x.off = z.second; o.push_back(x); } }
    for (Ti t : {Ti{"00:00:00", 0}, Ti{"23:59:59.999999999", 86399999999999}, Ti{"01:02:03", 3723000000000}, Ti{"12:34", 45240000000000}}) { When w; w.s = t.s; w.ns = t.ns; w.time = true; o.push_back(w); }
    return o;
}
static R to_when(std::string const& s, T const& t) {
    static auto const all = whens(); auto x = trim(s);
    for (auto& w : all) if (w.s == x) {
        if (t.k == K::date) { if (!w.date || w.time) return bad(EK::format_error); return val(A(dt::date{days(w.y, w.mo, w.d)})); }
        if (t.k == K::time_of_day) { if (w.date) return bad(EK::format_error); return val(A(dt::time_of_day{std::chrono::nanoseconds(w.ns)})); }
        if (!w.date) return bad(EK::format_error); if (w.off != -9999 && !t.tz) return bad(EK::format_error);
        i64 sec = days(w.y, w.mo, w.d) * 86400 + w.ns / 1000000000; if (t.tz) sec -= 60 * (w.off != -9999 ? w.off : cfg->zone_offset());
        R r; r.v = vf::strf("tp:%lld.%lld", (long long) sec, (long long) (w.ns % 1000000000)); return r;
    }
    return bad(EK::format_error);
}
struct S { T t; any a; Dec d{}; double f{}; std::string s; std::string n; };     // a source
static R convert(S const& s, T const& t) {
    K k = t.k;
    if (s.t.k != K::unknown) {
        if ((s.t.k == K::boolean || k == K::boolean) && !cfg->support_boolean()) return bad(EK::unsupported);
        if ((s.t.k == K::int1 || s.t.k == K::int2 || k == K::int1 || k == K::int2) && !(s.t.k == K::boolean || k == K::boolean) && !cfg->support_smallint()) return bad(EK::unsupported);
    }
    if (s.a.empty()) { R r; r.st = 1; return r; }
    switch (s.t.k) {
        case K::boolean: if (k == K::boolean) return val(s.a); if (k == K::character) return to_str(s.a.to<std::int8_t>() ? "true" : "false", t); break;
        case K::int1: case K::int2: case K::int4: case K::int8: case K::decimal:
            if (int_kind(k)) return to_int(s.d, k); if (k == K::decimal) return to_decimal(s.d, t);
            if (k == K::float4 || k == K::float8) return to_float(plain(s.d), k);
            if (k == K::character) return to_str(s.t.k == K::decimal ? sci(s.d) : s.d.c.str(), t); break;
        case K::float4: case K::float8: { double f = s.f;
            if (k == K::float8) return val(A<double>(std::isnan(f) ? std::numeric_limits<double>::quiet_NaN() : f));
            if (k == K::float4) { if (std::isnan(f)) return val(A<float>(std::numeric_limits<float>::quiet_NaN())); if (s.t.k == K::float4) return val(s.a); float m = std::numeric_limits<float>::max(); if (f > m) return val(A<float>(std::numeric_limits<float>::infinity())); if (f < -m) return val(A<float>(-std::numeric_limits<float>::infinity())); if (std::fabs(f) < std::numeric_limits<float>::min()) return val(A<float>(std::signbit(f) ? -0.0F : 0.0F)); return val(A<float>((float) f)); }
            std::string g = std::isnan(f) ? "NaN" : std::isinf(f) ? (f < 0 ? "-Infinity" : "Infinity") : vf::strf("%G", f);
            if (k == K::character) return to_str(g, t);
            if (int_kind(k) || k == K::decimal) { if (std::isnan(f)) return bad(EK::arithmetic_error);
                if (std::isinf(f)) { Dec m{big(p10(38) - 1), 24576 - 37}; if (f < 0) m.c = -m.c; if (k == K::decimal) return to_decimal(m, t, true); return to_int(m, k, true); }
                if (k == K::decimal) return to_decimal(parse(g).d, t);
                double q = std::trunc(f); big v(q); big lo, hi; range(k, lo, hi); R r; r.lost = q != f; if (v < lo) { v = lo; r.lost = true; } if (v > hi) { v = hi; r.lost = true; } r.v = k == K::int8 ? show(A<i64>((i64) v)) : show(A<i32>((i32) (i64) v)); return r; }
            break; }
        case K::character: { std::string x = trim(s.s); bool padded = !s.t.var;
            if (k == K::boolean) { auto l = lower(x); if (!l.empty() && std::string("true").compare(0, l.size(), l) == 0) return val(A<bool>(true)); if (!l.empty() && std::string("false").compare(0, l.size(), l) == 0) return val(A<bool>(false)); return bad(EK::format_error); }
            if (int_kind(k) || k == K::decimal || k == K::float4 || k == K::float8) { auto n = parse(x); R r;
                if (n.cls == 4) return bad(EK::format_error);
                if (n.cls) { bool fl = k == K::float4 || k == K::float8; if (!fl || n.cls == 3) return bad(EK::format_error); if (n.cls == 2) { if (k == K::float4) return val(A<float>(std::numeric_limits<float>::quiet_NaN())); return val(A<double>(std::numeric_limits<double>::quiet_NaN())); } return to_float(n.neg ? "-inf" : "inf", k); }
                if (n.out) { r = bad(EK::format_error); r.lost = n.lost; return r; }
                if (int_kind(k)) return to_int(n.d, k, n.lost); if (k == K::decimal) return to_decimal(n.d, t, n.lost); return to_float(n.d.c == 0 && n.neg ? "-0" : plain(n.d), k, n.lost); }
            if (k == K::character) return to_str(s.s, t, padded);
            if (k == K::octet) { std::string o; auto h = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }; if (x.size() % 2) return bad(EK::format_error); for (std::size_t i = 0; i < x.size(); i += 2) { if (h(x[i]) < 0 || h(x[i + 1]) < 0) return bad(EK::format_error); o += (char) (h(x[i]) * 16 + h(x[i + 1])); } auto r = to_str(o, t, padded); if (padded && t.len >= 0 && o.size() > (std::size_t) t.len) r.free_ = true; return r; }
            if (k == K::date || k == K::time_of_day || k == K::time_point) return to_when(s.s, t);
            break; }
        case K::octet: if (k == K::octet) return to_str(s.s, t, !s.t.var); if (k == K::character) { std::string h; for (unsigned char c : s.s) h += vf::strf("%02x", c); return to_str(h, t, !s.t.var); } break;
        default: break;
    }
    return bad(EK::unsupported);
}
static std::string got(any const& a) { if (a.error()) return "error " + std::to_string((int) a.to<class error>().kind()); return show(a); }
static void test(S const& s, T const& t) {
    for (auto p : {pol::ignore, pol::warn, pol::error, pol::implicit}) {
        R r = convert(s, t);
        if (p == pol::implicit && (s.t.k == K::float4 || s.t.k == K::float8) && (int_kind(t.k) || t.k == K::decimal)) r = bad(EK::unsupported);   // refused before anything else
        if (r.free_) continue;
        if (r.lost && (p == pol::error || p == pol::implicit)) { auto l = r.lk; r = bad(l); r.lost = true; }
        vf::at("cast %s from %s to %s, policy %d", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), (int) p); vf::state();
        auto cp = lifo.get_checkpoint(); evaluator_context ctx{&lifo, nullptr}; ctx.set_loss_precision_policy(p);
        any a = jogasaki::executor::expr::details::conduct_cast(ctx, *s.t.t, *t.t, s.a);
        std::string want = r.st == 2 ? "error " + std::to_string((int) r.ek) : r.st == 1 ? "null" : r.v, g = got(a);
        CHECK(g == want, "conversion", "%s from %s to %s with policy %d is %s, expected %s", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), (int) p, g.c_str(), want.c_str());
        CHECK(ctx.lost_precision() == r.lost || (r.st == 2 && r.ek == EK::unsupported), "lost precision", "%s from %s to %s with policy %d: lost precision is %d, expected %d", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), (int) p, ctx.lost_precision(), r.lost);
        bool diag = r.st == 2 ? r.ek != EK::unsupported : r.lost && p == pol::warn;
        if (diag) CHECK(!ctx.errors().empty(), "diagnostic", "%s from %s to %s with policy %d leaves no diagnostic", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), (int) p); else if (r.st != 2) CHECK(ctx.errors().empty(), "diagnostic", "%s from %s to %s with policy %d leaves a diagnostic", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), (int) p);
        lifo.deallocate_after(cp); vf::trace();
    }
}
static std::vector<T> targets() {
    std::vector<T> v{simple<ty::boolean>(K::boolean), simple<ty::int1>(K::int1), simple<ty::int2>(K::int2), simple<ty::int4>(K::int4), simple<ty::int8>(K::int8), simple<ty::float4>(K::float4), simple<ty::float8>(K::float8)};
    for (auto& [p, s] : std::vector<std::pair<int, int>>{{-1, -1}, {5, 2}, {38, 0}, {38, 38}, {5, 0}, {1, 0}, {-1, 3}, {5, -1}, {3, 3}, {20, 10}}) v.push_back(decimal_(p, s));
    for (int n : {-1, 1, 2, 3, 5}) v.push_back(chr(true, n)); for (int n : {1, 2, 4, 6}) v.push_back(chr(false, n));
    for (int n : {-1, 1, 3}) v.push_back(oct_(true, n)); for (int n : {1, 2, 4}) v.push_back(oct_(false, n));
    v.push_back(simple<ty::date>(K::date)); v.push_back(simple<ty::time_of_day>(K::time_of_day)); v.push_back(stamp(false)); v.push_back(stamp(true)); return v;
}
static S int_(K k, i64 x) { S s; s.t = k == K::int1 ? simple<ty::int1>(k) : k == K::int2 ? simple<ty::int2>(k) : k == K::int4 ? simple<ty::int4>(k) : simple<ty::int8>(k); s.a = k == K::int8 ? A<i64>(x) : A<i32>((i32) x); s.d = {big(x), 0}; s.n = std::to_string(x); return s; }
static S dec_(Dec d) { S s; s.t = decimal_(-1, -1); s.a = any{std::in_place_type<triple>, trib(d.c, d.e)}; s.d = d; s.n = d.c.str() + "E" + std::to_string(d.e); return s; }
static S flt(double f) { S s; s.t = simple<ty::float8>(K::float8); s.a = A<double>(f); s.f = f; s.n = vf::strf("%.17g", f); return s; }
static S flt4(float f) { S s; s.t = simple<ty::float4>(K::float4); s.a = A<float>(f); s.f = f; s.n = vf::strf("%.9g", f); return s; }
static S txt(std::string x, bool var) { S s; s.t = chr(var, var ? -1 : (int) x.size()); s.a = text_(x); s.s = x; s.n = "'" + x + "'"; return s; }
static S bin(std::string x, bool var) { S s; s.t = oct_(var, var ? -1 : (int) x.size()); s.a = bin_(x); s.s = x; s.n = "x'" + vf::hexs(x) + "'"; return s; }
static std::vector<S> sources() {
    std::vector<S> v; auto lim = [](int b) { return (i64) ((u64(1) << (b - 1)) - 1); };
    for (i64 x : {0, 1, -1, 127, -128}) v.push_back(int_(K::int1, x)); for (i64 x : {0, 128, -129, 32767, -32768}) v.push_back(int_(K::int2, x));
    std::set<i64> is{0, 1, -1, 9, 10, -10, 99, 100, 12345, 99999, 100000, -100000, 16777217, 9007199254740993LL, 1000000000000000000LL}; for (int b : {8, 16, 32, 64}) for (int o : {-1, 0, 1}) { auto m = lim(b); if (b == 64 && o == 1) continue; is.insert(m + o); is.insert(-m - 1 - o + (b == 64 && o > 0)); } is.insert(std::numeric_limits<i64>::min());
    for (auto x : is) { if (x >= -2147483648LL && x <= 2147483647LL) v.push_back(int_(K::int4, x)); v.push_back(int_(K::int8, x)); }
    std::vector<big> cs{0, 1, -1, 5, 10, 25, 99, 100, -150, 12345, 99999, -999995, 1234567}; for (auto x : is) cs.push_back(x); for (int n : {19, 20, 37}) { cs.push_back(p10(n)); cs.push_back(p10(n) - 1); } cs.push_back(p10(38) - 1); cs.push_back(-(p10(38) - 1)); cs.push_back((p10(38) - 1) / 9 * 5);
    std::set<big> cd(cs.begin(), cs.end()); for (auto& c : cd) for (int e : {0, -1, -2, -3, -5, -10, -38, -40, -6, -7, 1, 2, 5, 20, 100, -100, 24500, -24500}) { v.push_back(dec_({c, e})); }
    std::set<double> fs; for (double f : {0.5, 1.5, 0.25, 123.456, 1e-7, 1.234567e10, 99999.5, 0.1, 1e38, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, 1.1754943508222875e-38, 1.1754942e-38, 1e-45, 1e308, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, 999.995, 9.99995, 1e37, 1.1e38, 1e100}) { fs.insert(f); fs.insert(-f); }
    for (int b : {8, 16, 32, 64}) for (double m : {std::ldexp(1.0, b - 1), -std::ldexp(1.0, b - 1)}) for (double o : {-1.0, -0.5, 0.0, 0.5, 1.0}) { fs.insert(m + o); fs.insert(std::nextafter(m + o, 1e300)); fs.insert(std::nextafter(m + o, -1e300)); }
    std::vector<double> fv(fs.begin(), fs.end()); double di = std::numeric_limits<double>::infinity(); for (double x : {0.0, -0.0, di, -di, std::nan(""), -std::nan("")}) fv.push_back(x);
    for (double f : fv) v.push_back(flt(f));
    std::set<float> f4; for (double f : fs) { auto x = (float) f; if (std::isfinite(x)) { f4.insert(x); f4.insert(std::nextafterf(x, 1e38F)); f4.insert(std::nextafterf(x, -1e38F)); } } for (float f : f4) v.push_back(flt4(f)); float fi = std::numeric_limits<float>::infinity(); for (float x : {0.0F, -0.0F, fi, -fi, std::nanf(""), -std::nanf("")}) v.push_back(flt4(x));
    for (int b : {0, 1}) { S s; s.t = simple<ty::boolean>(K::boolean); s.a = A<bool>(b != 0); s.n = b ? "true" : "false"; v.push_back(s); }
    std::vector<std::string> ts{"Infinity", "-infinity", "INF", "+inf", "NaN", "nan", "+NaN", "-NaN", "nan1", "sNaN", "NaN123", " NaN ", "NaN  ", " inf", "t", "T", "TRUE", "true ", "fals", "FALSE", "falsey", "truetrue", "12a", "0x10", "1_000", "0.0E+1000000000000", "1E24576", "1E24577", "-1E24577", "1E-24575", "1E-24576", "9.99999999999999999999999999999999999999E+24576", "1E99999999999999", "1E-99999999999999", "99999999999999999999999999999999999999", "999999999999999999999999999999999999999", "100000000000000000000000000000000000000", "100000000000000000000000000000000000001", "-123456789012345678901234567890123456789012345678901234567890", "0.00000000000000000000000000000000000000000012345", "1.00000000000000000000000000000000000000000000000", "340282366920938463463374607431768211456", "1e38", "1e39", "1e40", "1e400", "-1e400", "1e-400", "3.4028235e38", "3.4028236e38", "1.17549e-38", "1.1754e-38", "127", "128", "-128", "-129", "2147483647", "2147483648", "-2147483648.9", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "9223372036854775807.5", "0000000000000000000000000000000000000000000000000001", "\t1", "1\n", "00ff", "FfaB", "0g", "abc", "00000000", "ab0000", "0102030405", "\xE3\x81\x82", "a\xE3\x81\x82", "\xE3\x81\x82\xE3\x81\x84", "\xC3\xA9\xC3\xA9\xC3\xA9", "\xF0\x9F\x98\x80x", "a  ", "ab    ", "\xE3\x81\x82   ", "      ", std::string(40, ' '), "2024-02-30", "2023-02-29", "2024-13-01", "24:00:00", "2024-01-01 24:00:00", "2024-01-01x"};
    for (auto& w : whens()) { ts.push_back(w.s); } for (auto x : {" 2024-02-29", "1970-01-01 00:00:00Z  ", "  01:02:03 "}) ts.push_back(x);
    for (auto& x : ts) for (bool var : {true, false}) v.push_back(txt(x, var));
    for (auto& x : std::vector<std::string>{"", std::string(1, '\0'), std::string("\x01\0\0", 3), std::string("\x01\0\x02", 3), "\xff", "abcde", std::string(6, '\0')}) for (bool var : {true, false}) if (var || !x.empty()) v.push_back(bin(x, var));
    auto n0 = v.size(); std::set<std::string> seen; for (std::size_t i = 0; i < n0; ++i) if (seen.insert(tn(v[i].t)).second) { S s; s.t = v[i].t; s.n = "null"; v.push_back(s); }
    S u; u.t = simple<ty::unknown>(K::unknown); u.n = "null"; v.push_back(u); return v;
}
static void direct() {
    auto ts = targets(); auto ss = sources(); std::uint64_t k = 0;
    for (bool on : {true, false}) { cfg->support_boolean(on); cfg->support_smallint(on); for (auto& s : ss) for (auto& t : ts) { if (!on && s.t.k == K::decimal) continue; if (vf::mine(k++)) test(s, t); } }
    cfg->support_boolean(true); cfg->support_smallint(true);
    for (int z : {-600, 1, 540}) { cfg->zone_offset(z); for (auto& w : whens()) for (auto& t : ts) if (t.k == K::time_point && vf::mine(k++)) test(txt(w.s, true), t); } cfg->zone_offset(0);
    vf::bound_note(vf::strf("%zu source values (numbers at the limits of every type, texts, octets, NULLs) to %zu target types under 4 policies, small types on and off, 4 zone offsets", ss.size(), ts.size()));
}
static void texts() {   // all short texts to the types that read them
    std::vector<std::string> all{""}; std::string al = vf::thorough() ? "019.-+eE aN" : "019.-e +"; std::size_t b = 0, n = vf::thorough() ? 5 : 5; for (std::size_t l = 0; l < n; ++l) { auto e = all.size(); for (std::size_t i = b; i < e; ++i) for (char c : al) all.push_back(all[i] + c); b = e; }
    std::vector<T> ts; for (auto& t : targets()) if (int_kind(t.k) || t.k == K::float4 || (t.k == K::decimal && (t.p == 5 || t.p < 0)) || (t.k == K::octet && t.len == 1) || (t.k == K::character && t.len == 2) || t.k == K::boolean) ts.push_back(t);
    std::uint64_t k = 0; for (auto& x : all) { if (!vf::mine(k++)) continue; auto s = txt(x, true); for (auto& t : ts) test(s, t); if (x.size() < 4) { auto f = txt(x, false); for (auto& t : ts) test(f, t); } res.clear(); }
    vf::bound_note(vf::strf("all %zu texts of up to %zu of the characters '%s' to %zu target types", all.size(), n, al.c_str(), ts.size()));
}
static sc::sp imm(S const& s);
template <class V, class X> static sc::sp im(X x, tp t) { return std::make_shared<sc::immediate>(std::static_pointer_cast<takatori::value::data const>(std::make_shared<V>(x)), t); }
static sc::sp imm(S const& s) {
    if (s.a.empty()) return std::make_shared<sc::immediate>(std::static_pointer_cast<takatori::value::data const>(std::make_shared<va::unknown>()), s.t.t);
    switch (s.t.k) { case K::int4: return im<va::int4>(s.a.to<i32>(), s.t.t); case K::int8: return im<va::int8>(s.a.to<i64>(), s.t.t); case K::float4: return im<va::float4>(s.a.to<float>(), s.t.t); case K::float8: return im<va::float8>(s.a.to<double>(), s.t.t); case K::decimal: return im<va::decimal>(s.a.to<triple>(), s.t.t); case K::character: return im<va::character>(s.s, s.t.t); case K::octet: return im<va::octet>(s.s, s.t.t); case K::boolean: return im<va::boolean>(s.a.to<std::int8_t>() != 0, s.t.t); default: return nullptr; }
}
// the CAST expression with its policies, the conversions of assignment, parameters, unification and defaults
static void uses() {
    auto ts = targets(); auto ss = sources(); std::uint64_t k = 0; yugawara::compiled_info info{};
    for (auto& s : ss) { if (s.t.k == K::decimal && s.d.e != -2 && s.d.e != 0 && s.d.e != 100) continue;
        for (auto& t : ts) { if (!vf::mine(k++)) continue; R r = convert(s, t); auto cp = lifo.get_checkpoint(); if (r.free_) continue;
            auto want = [&](bool fails_on_loss) { return fails_on_loss && r.lost ? "error " + std::to_string((int) (r.st == 2 && r.ek == EK::unsupported ? r.ek : r.lk)) : r.st == 2 ? "error " + std::to_string((int) r.ek) : r.st == 1 ? std::string("null") : r.v; };
            auto e = imm(s);
            if (e) for (auto p : {sc::cast_loss_policy::ignore, sc::cast_loss_policy::warn, sc::cast_loss_policy::error}) { auto c = std::make_shared<sc::cast>(t.t, p, e); evaluator_context ctx{&lifo, nullptr}; evaluator ev{*c, info}; auto a = ev(ctx, {}, &lifo); vf::state();
                CHECK(got(a) == want(p == sc::cast_loss_policy::error) || (s.a.empty() && a.empty() && r.st != 2) || (s.a.empty() && a.empty()), "CAST", "CAST of %s (%s) to %s with policy %d is %s, expected %s", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), (int) p, got(a).c_str(), want(p == sc::cast_loss_policy::error).c_str()); }
            any o; auto st = conv::conduct_parameter_application_conversion(*s.t.t, *t.t, s.a, o, &lifo); vf::state(); CHECK(st == status::ok && got(o) == want(false), "parameter", "the parameter %s (%s) as %s is %s, expected %s", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), got(o).c_str(), want(false).c_str());
            any un; auto us = conv::conduct_unifying_conversion(*s.t.t, *t.t, s.a, un, &lifo); CHECK(r.st == 2 ? us == status::err_expression_evaluation_failure : us == status::ok && got(un) == want(false), "unify", "unifying %s (%s) to %s gives status %d and %s, expected %s", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), (int) us, got(un).c_str(), want(false).c_str());
            if (e && !std::isnan(s.f) && (s.t.k == K::character || s.t.k == K::octet ? s.t.var : true)) { auto dv = conv::create_immediate_default_value(static_cast<sc::immediate const&>(*e).value(), *t.t, &lifo); CHECK(got(dv) == want(false) || (s.a.empty() && dv.empty()), "default", "the default %s (%s) of %s is %s, expected %s", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), got(dv).c_str(), want(false).c_str()); }
            any q; request_context rq{}; auto as = conv::conduct_assignment_conversion(*s.t.t, *t.t, s.a, q, rq, &lifo); vf::state();
            bool fl = (s.t.k == K::float4 || s.t.k == K::float8) && (int_kind(t.k) || t.k == K::decimal); EK ek = fl ? EK::unsupported : r.st == 2 ? (r.lost ? r.lk : r.ek) : r.lk;
            bool fails = fl || r.st == 2 || r.lost; auto ei = rq.error_info();
            if (!fails) CHECK(as == status::ok && !ei && got(q) == want(false), "assignment", "assigning %s (%s) to %s gives status %d and %s, expected %s", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), (int) as, got(q).c_str(), want(false).c_str());
            else { auto es = ek == EK::unsupported ? status::err_unsupported : status::err_expression_evaluation_failure; auto ec = ek == EK::unsupported ? error_code::unsupported_runtime_feature_exception : ek == EK::lost_precision_value_too_long ? error_code::value_too_long_exception : error_code::value_evaluation_exception;
                CHECK(as == es && ei && ei->code() == ec && ei->status() == es && q.empty(), "assignment error", "assigning %s (%s) to %s: status %d, error %d, expected %d, %d", s.n.c_str(), tn(s.t).c_str(), tn(t).c_str(), (int) as, ei ? (int) ei->code() : -1, (int) es, (int) ec); }
            lifo.deallocate_after(cp); vf::trace(); } }
    vf::bound_note("the same values through CAST, parameters and assignment, with the error codes of assignment");
}
int main(int argc, char** argv) {
    vf::init(argc, argv); global::config_pool(cfg); cfg->support_boolean(true); cfg->support_smallint(true); cfg->zone_offset(0);
    direct(); uses(); texts();
    return vf::finish();
}
