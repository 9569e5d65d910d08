// C28: builtin scalar functions. Every function body registered for the argument types, over all short texts and boundary numbers,
// against an independent reading of the documented function specifications.
#include "vf.h"
#include <cmath>
#include <limits>
#include <set>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/expr/details/decimal_context.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <jogasaki/executor/function/builtin_scalar_functions.h>
#include <jogasaki/executor/function/scalar_function_info.h>
#include <jogasaki/executor/function/scalar_function_repository.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/transaction_context.h>
#include "anyval.h"
#include "num.h"
using namespace jogasaki::executor::expr; using i32 = std::int32_t;
namespace ty = takatori::type; namespace fn = jogasaki::executor::function;
using K = ty::type_kind; using EK = error_kind;
#define CHECK(c, key, ...) do { if (!(c)) vf::violation(key, vf::strf(__VA_ARGS__)); } while (0)
static memory::page_pool& pool = *new memory::page_pool; static memory::lifo_paged_memory_resource& lifo = *new memory::lifo_paged_memory_resource{&pool};
static std::shared_ptr<configuration> cfg = std::make_shared<configuration>();
static yugawara::function::configurable_provider fs{}; static fn::scalar_function_repository repo{};
struct V { K k; any a; std::string n; };   // an argument
static V txt(std::string const& s) { return {K::character, text_(s), "'" + vf::hexs(s) + "'"}; }
static V bin(std::string const& s) { return {K::octet, bin_(s), "x'" + vf::hexs(s) + "'"}; }
static V i4(i32 x) { return {K::int4, A<i32>(x), std::to_string(x)}; }
static V i8(i64 x) { return {K::int8, A<i64>(x), std::to_string(x)}; }
static V f4(float x) { return {K::float4, A<float>(x), vf::strf("%.9g", x)}; }
static V f8(double x) { return {K::float8, A<double>(x), vf::strf("%.17g", x)}; }
static V dec(Dec d) { return {K::decimal, any{std::in_place_type<triple>, trib(d.c, d.e)}, d.c.str() + "E" + std::to_string(d.e)}; }
static V null(K k) { return {k, any{}, "null"}; }
struct Call { std::shared_ptr<fn::scalar_function_info const> f; K ret; };
static Call find(std::string const& name, std::vector<K> const& ks) {
    static std::map<std::pair<std::string, std::vector<K>>, Call> memo; auto it = memo.find({name, ks}); if (it != memo.end()) return it->second;
    Call c{}; int n = 0; fs.each(name, [&](auto const& d) { std::vector<K> p; for (auto& t : d->shared_parameter_types()) p.push_back(t->kind()); if (p != ks) return; ++n; auto f = repo.find(d->definition_id()); if (f == nullptr) vf::violation("registration", name + " has no body"); else { c.f = std::shared_ptr<fn::scalar_function_info const>(std::shared_ptr<void>{}, f); c.ret = d->return_type().kind(); if (f->arg_count() != ks.size()) { auto other = f->arg_count(); (void) other; } } });
    if (n != 1) vf::violation("registration", vf::strf("%s with %zu arguments has %d definitions for their types", name.c_str(), ks.size(), n));
    memo[{name, ks}] = c; return c;
}
static std::string err(EK k) { return "error " + std::to_string((int) k); }
static transaction_context* tx = nullptr;
// the value, or "error <kind>" ; the type of a value must be the declared one
static any run(std::string const& name, std::vector<V> const& vs) {
    std::vector<K> ks; for (auto& v : vs) ks.push_back(v.k); auto c = find(name, ks); std::vector<any> as; for (auto& v : vs) as.push_back(v.a);
    std::string d = name + "("; for (auto& v : vs) d += v.n + ","; vf::at("%s)", d.c_str()); vf::state();
    evaluator_context ctx{&lifo, tx}; any r = c.f->function_body()(ctx, takatori::util::sequence_view<any>{as.data(), as.data() + as.size()});
    if (r.error()) CHECK(r.to<class error>().kind() == EK::error_info_provided ? ctx.get_error_info() != nullptr : !ctx.errors().empty(), "diagnostic", "%s) fails without diagnostic", d.c_str());
    else if (!r.empty()) { bool ok = true; switch (c.ret) { case K::int4: ok = r.type_index() == any::index<i32>; break; case K::int8: ok = r.type_index() == any::index<i64>; break; case K::float4: ok = r.type_index() == any::index<float>; break; case K::float8: ok = r.type_index() == any::index<double>; break; case K::decimal: ok = r.type_index() == any::index<triple>; break; case K::character: ok = r.type_index() == any::index<accessor::text>; break; case K::octet: ok = r.type_index() == any::index<accessor::binary>; break; default: break; } CHECK(ok, "type", "%s) gives %s, not of its declared type", d.c_str(), show(r).c_str()); }
    vf::step(); vf::trace(); return r;
}
static std::string got(any const& a) { return a.error() ? err(a.to<class error>().kind()) : show(a); }
static void want(std::string const& name, std::vector<V> const& vs, std::string const& w) {
    auto g = got(run(name, vs)); if (g == w) return; std::string d = name + "("; for (std::size_t i = 0; i < vs.size(); ++i) d += (i ? ", " : "") + vs[i].n; vf::violation(name, d + ") is " + g + ", expected " + w);
}
static std::string c_(std::string const& s) { return show(text_(s)); }
static std::string o_(std::string const& s) { return show(bin_(s)); }
static std::string n_(i64 x) { return show(A<i64>(x)); }
// ---- texts
static bool split(std::string const& s, std::vector<std::string>& o) { for (std::size_t i = 0; i < s.size();) { unsigned char c = s[i]; std::size_t n = c < 0x80 ? 1 : c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0; if (n == 0 || i + n > s.size()) return false; for (std::size_t k = 1; k < n; ++k) if (((unsigned char) s[i + k] & 0xC0) != 0x80) return false; o.push_back(s.substr(i, n)); i += n; } return true; }
static std::vector<std::string> words(std::vector<std::string> const& al, int n) { std::vector<std::string> v{""}; std::size_t b = 0; for (int l = 0; l < n; ++l) { auto e = v.size(); for (auto i = b; i < e; ++i) for (auto& c : al) v.push_back(v[i] + c); b = e; } return v; }
static i64 const big_ = std::numeric_limits<i64>::max(), low_ = std::numeric_limits<i64>::min();
static void one_text(std::string const& s) {
    std::vector<std::string> cp; bool ok = split(s, cp); i64 n = (i64) cp.size();
    want("octet_length", {txt(s)}, n_((i64) s.size())); want("octet_length", {bin(s)}, n_((i64) s.size()));
    for (auto f : {"character_length", "char_length"}) want(f, {txt(s)}, ok ? n_(n) : "null");
    if (ok) { std::string u, l; for (char c : s) { u += c >= 'a' && c <= 'z' ? (char) (c - 32) : c; l += c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; } want("upper", {txt(s)}, c_(u)); want("lower", {txt(s)}, c_(l));
        auto a = s.find_first_not_of(' '); want("ltrim", {txt(s)}, c_(a == std::string::npos ? "" : s.substr(a))); auto b = s.find_last_not_of(' '); want("rtrim", {txt(s)}, c_(b == std::string::npos ? "" : s.substr(0, b + 1))); }
    for (bool oct : {false, true}) {
        std::vector<std::string> u; if (oct) for (char c : s) u.push_back(std::string(1, c)); else u = cp; i64 m = (i64) u.size(); V v = oct ? bin(s) : txt(s);
        std::vector<i64> at{low_, -1, 0, big_}; for (i64 i = 1; i <= m + 1; ++i) at.push_back(i); std::vector<i64> ln{low_, -1, big_, big_ - 1}; for (i64 i = 0; i <= m + 1; ++i) ln.push_back(i);
        for (auto f : {"substring", "substr"}) for (i64 p : at) { bool in = (ok || oct) && p >= 1 && p <= m; auto cut = [&](i64 l) { std::string r; for (i64 i = p - 1; i < m && i - (p - 1) < l; ++i) r += u[i]; return oct ? o_(r) : c_(r); };
            want(f, {v, i8(p)}, in ? cut(big_) : "null"); for (i64 l : ln) want(f, {v, i8(p), i8(l)}, in && l >= 0 ? cut(l) : "null"); } }
}
static void texts() {
    std::vector<std::string> al{"a", "Z", " ", "\xC3\xA9", "\xE3\x81\x82", "\xF0\x9F\x98\x80", "{", "\x81", "\xE3\x81", "\xFF", std::string(1, '\0')}; auto ws = words(al, vf::thorough() ? 4 : 3); std::uint64_t k = 0;
    for (auto& s : ws) if (vf::mine(k++)) { one_text(s); if (s.size() < 7) { one_text("@[`z 0123456789" + s); one_text(s + "  @[`z 0123456789  "); } lifo.deallocate_after(memory::lifo_paged_memory_resource::initial_checkpoint); res.clear(); }
    vf::bound_note(vf::strf("%zu texts of up to %d of 11 units (valid and invalid UTF-8, both sides of 15 bytes) in all text functions; substring at every position and length and at the limits", ws.size(), vf::thorough() ? 4 : 3));
    std::vector<std::string> sl{"a", "b", "\xC3\xA9", "\xE3\x81\x82", "\xE3\x81\x84"}; auto subs = words(sl, 3), strs = words(sl, vf::thorough() ? 6 : 5); k = 0;
    for (auto& s : strs) { if (!vf::mine(k++)) continue; std::vector<std::string> u; split(s, u); for (auto& x : subs) { std::vector<std::string> w; split(x, w); i64 p = 0; for (std::size_t i = 0; i + w.size() <= u.size() && !p; ++i) { bool eq = true; for (std::size_t j = 0; j < w.size(); ++j) eq = eq && u[i + j] == w[j]; if (eq) p = (i64) i + 1; } want("position", {txt(x), txt(s)}, n_(x.empty() ? 1 : p)); } res.clear(); }
    if (vf::mine(0)) for (auto bad : {"\x81", "a\xE3\x81", "\xFF""a"}) want("position", {txt("a"), txt(bad)}, "null");
    vf::bound_note(vf::strf("all %zu substrings in all %zu texts of 5 characters of 1 to 3 bytes for position", subs.size(), strs.size()));
}
// ---- numbers
static Dec num(any const& a) { auto i = a.type_index(); if (i == any::index<i32>) return {big(a.to<i32>()), 0}; if (i == any::index<i64>) return {big(a.to<i64>()), 0}; return exact(a.to<triple>()); }
static void bad(std::string const& name, std::vector<V> const& vs, any const& r, std::string const& w) { std::string d = name + "("; for (std::size_t i = 0; i < vs.size(); ++i) d += (i ? ", " : "") + vs[i].n; vf::violation(name, d + ") is " + got(r) + ", expected " + w); }
static void same(std::string const& name, std::vector<V> const& vs, Dec w) { any r = run(name, vs); if (r.empty() || r.error() || cmp(num(r), w) != 0) bad(name, vs, r, w.c.str() + "E" + std::to_string(w.e)); }
// the multiple of 10^-p: mode -1 floor, 1 ceiling, 0 nearest with halves away from zero
static Dec quant(Dec d, int p, int mode) { if (d.e >= -p) return d; if (-p - d.e > 200) { return mode > 0 && d.c > 0 ? Dec{1, -p} : mode < 0 && d.c < 0 ? Dec{-1, -p} : Dec{0, 0}; } big u = p10(-p - d.e), q = d.c / u, r = d.c % u; big t = r < 0 ? big(-r) : r; if (mode > 0) { if (r > 0) ++q; } else if (mode < 0) { if (r < 0) --q; } else if (2 * t >= u) { if (d.c < 0) --q; else ++q; } return {q, -p}; }
static std::vector<i64> ints(int b) { std::set<i64> s; for (i64 x : {0, 1, 4, 5, 6, 9, 10, 14, 15, 44, 45, 49, 50, 51, 99, 100, 149, 150, 499, 500, 1000, 4999, 5000, 123456789}) { s.insert(x); s.insert(-x); } auto lim = b == 32 ? (i64) std::numeric_limits<i32>::max() : big_; for (int o = 0; o < 3; ++o) { s.insert(lim - o); s.insert(-lim - 1 + o); } i64 t = 1; for (int i = 0; i < (b == 32 ? 9 : 18); ++i) { t *= 10; for (i64 m : {1, 2, 4, 5}) if (lim / m >= t) for (i64 o : {-1, 0, 1}) { s.insert(m * t + o); s.insert(-(m * t) + o); } i64 e = lim / t * t; for (i64 x : {e, e + t / 2, e + t / 2 - 1, e - t / 2, e - t / 2 - 1}) if (x >= 0 && x <= lim) { s.insert(x); s.insert(-x); } } std::vector<i64> v; for (auto x : s) if (b == 64 || (x >= -2147483648LL && x <= 2147483647LL)) v.push_back(x); return v; }
static bool special(double f) { return !std::isfinite(f) || f == 0; }
static void numbers() {
    std::uint64_t k = 0; bool nulls = vf::mine(0);
    for (int b : {32, 64}) { auto vs = ints(b); big lo = b == 32 ? big(std::numeric_limits<i32>::min()) : big(low_), hi = b == 32 ? big(std::numeric_limits<i32>::max()) : big(big_);
        for (i64 x : vs) { if (!vf::mine(k++)) continue; V v = b == 32 ? i4((i32) x) : i8(x); big a = x < 0 ? big(-big(x)) : big(x);
            if (a > hi) want("abs", {v}, err(EK::overflow)); else same("abs", {v}, {a, 0}); same("ceil", {v}, {x, 0}); same("floor", {v}, {x, 0}); same("round", {v}, {x, 0});
            for (int p = -40; p <= 40; ++p) for (V s : {i4(p), i8(p)}) { int m = b == 32 ? -9 : -18; if (p > 0 || p < m) { want("round", {v, s}, err(EK::unsupported)); continue; } Dec w = quant({x, 0}, p, 0); big y = w.c * p10(w.e > 0 ? w.e : 0); if (y < lo || y > hi) { any r = run("round", {v, s}); if (!r.error()) bad("round", {v, s}, r, "an error"); } else same("round", {v, s}, w); }
            for (i64 s : {low_, big_, i64(4294967296), i64(-4294967296)}) want("round", {v, i8(s)}, err(EK::unsupported));
            for (i64 y : vs) { V w = b == 32 ? i4((i32) y) : i8(y); if (y == 0) want("mod", {v, w}, err(EK::arithmetic_error)); else same("mod", {v, w}, {big(x) % big(y), 0}); } } }
    std::vector<Dec> ds; std::vector<big> cs{0, 1, 4, 5, 6, 9, 10, 15, 25, 45, 49, 50, 55, 95, 99, 100, 499, 500, 501, 12345, 99999, 149999, 150000}; for (int n : {18, 19, 20, 37}) { cs.push_back(p10(n)); cs.push_back(p10(n) - 1); cs.push_back(p10(n) + 1); cs.push_back(p10(n) / 2); cs.push_back(p10(n) / 2 - 1); } cs.push_back(p10(38) - 1); cs.push_back(p10(38) - 5); cs.push_back((p10(38) - 1) / 9 * 4); cs.push_back((p10(38) - 1) / 9 * 5); cs.push_back(p10(38) / 2);
    for (auto& c : cs) for (int e : {0, -1, -2, -3, -5, -10, -19, -37, -38, -40, 1, 2, 10, 37, 38, 60, -76}) for (int s : {1, -1}) if (c != 0 || s > 0) ds.push_back({c * s, e});
    for (auto& d : ds) { if (!vf::mine(k++)) continue; V v = dec(d); same("abs", {v}, {d.c < 0 ? big(-d.c) : d.c, d.e}); same("ceil", {v}, quant(d, 0, 1)); same("floor", {v}, quant(d, 0, -1)); same("round", {v}, quant(d, 0, 0));
        for (int p = -40; p <= 40; ++p) for (V s : {i4(p), i8(p)}) { if (p < -38 || p > 38) want("round", {v, s}, err(EK::unsupported)); else same("round", {v, s}, quant(d, p, 0)); }
        for (auto& y : ds) { if (y.c != 0 && std::abs(y.e - d.e) > 45) continue; V w = dec(y); if (y.c == 0) { want("mod", {v, w}, err(EK::arithmetic_error)); continue; } Dec a = d, b = y; align(a, b); big q = a.c / b.c; any r = run("mod", {v, w}); if ((q < 0 ? big(-q) : q) >= p10(38)) { if (!r.error()) { if (cmp(num(r), {a.c % b.c, a.e}) != 0) bad("mod", {v, w}, r, "the remainder or an error"); } } else if (r.empty() || r.error() || cmp(num(r), {a.c % b.c, a.e}) != 0) bad("mod", {v, w}, r, big(a.c % b.c).str() + "E" + std::to_string(a.e)); } }
    std::set<double> fset; for (double f : {0.1, 0.4, 0.5, 0.6, 0.9, 1.0, 1.5, 2.5, 123.456, 99.995, 0.05, 0.049, 1e-5, 12345678.5, 4503599627370495.5, 9007199254740993.0, 1e15, 1e16, 1e30, 3e38, 1e38, 1e-30, 1e300, 1.7e308, 1e-300, 8388607.5, 16777217.0, 2147483647.5, 9223372036854775807.0}) { fset.insert(f); fset.insert(-f); fset.insert(std::nextafter(f, 1e309)); fset.insert(-std::nextafter(f, 0.0)); }
    std::vector<double> fv(fset.begin(), fset.end()); double inf = std::numeric_limits<double>::infinity(); for (double x : {0.0, -0.0, inf, -inf, std::nan("")}) fv.push_back(x);
    auto bits = [&](V const& v) { return show(v.a); };
    for (double f : fv) for (bool single : {false, true}) { if (single && std::isfinite(f) && std::fabs(f) > 3.4e38) continue; if (!vf::mine(k++)) continue; V v = single ? f4((float) f) : f8(f); double x = single ? (double) (float) f : f; auto val = [&](any const& r) { return single ? (double) r.to<float>() : r.to<double>(); };
        { any r = run("abs", {v}); if (std::isnan(x) ? !std::isnan(val(r)) : val(r) != std::fabs(x) || std::signbit(val(r))) bad("abs", {v}, r, "its absolute value"); }
        for (auto f1 : {"ceil", "floor"}) { any r = run(f1, {v}); if (special(x)) { if (show(r) != bits(v)) bad(f1, {v}, r, "the value itself"); } else { double y = val(r); bool up = f1[0] == 'c'; double t = std::fabs(x) >= 4503599627370496.0 ? x : (double) (i64) x; if (t != x && up && x > 0) t += 1; if (t != x && !up && x < 0) t -= 1; if (y != t) bad(f1, {v}, r, vf::strf("%.17g", t)); } }
        int m = single ? 7 : 15; double ulp = single ? 6e-8 : 1.2e-16;
        for (int p = -40; p <= 40; ++p) { V s = i4(p); if (p < -m || p > m) { want("round", {v, s}, err(EK::unsupported)); continue; } any r = run("round", {v, s}); if (special(x)) { if (show(r) != bits(v)) bad("round", {v, s}, r, "the value itself"); continue; }
            long double y = val(r), u = std::pow(10.0L, -p), mult = std::round(y / u) * u, tol = 4 * ulp * std::fabs(y);
            if (!(std::fabs(y - mult) <= tol && std::fabs(y - (long double) x) <= u / 2 * (1 + 1e-6L) + 4 * ulp * std::fabs((long double) x))) bad("round", {v, s}, r, "the nearest multiple"); }
        any r0 = run("round", {v}), r1 = run("round", {v, i4(0)}); if (show(r0) != show(r1)) bad("round", {v}, r0, show(r1)); }
    if (nulls) { for (K t : {K::int4, K::int8, K::float4, K::float8, K::decimal}) { for (auto f : {"abs", "ceil", "floor", "round"}) want(f, {null(t)}, "null"); V one = t == K::int4 ? i4(1) : t == K::int8 ? i8(1) : t == K::float4 ? f4(1) : t == K::float8 ? f8(1) : dec({1, 0}); for (K s : {K::int4, K::int8}) { want("round", {null(t), s == K::int4 ? i4(0) : i8(0)}, "null"); want("round", {one, null(s)}, "null"); } if (t != K::float4 && t != K::float8) { want("mod", {null(t), one}, "null"); want("mod", {one, null(t)}, "null"); want("mod", {null(t), null(t)}, "null"); } }
        for (auto f : {"octet_length", "character_length", "char_length", "upper", "lower", "ltrim", "rtrim"}) want(f, {null(K::character)}, "null"); want("octet_length", {null(K::octet)}, "null");
        want("position", {null(K::character), txt("a")}, "null"); want("position", {txt("a"), null(K::character)}, "null"); want("position", {txt(""), null(K::character)}, "null");
        for (auto f : {"substring", "substr"}) for (V s : {txt("abc"), bin("abc")}) for (i64 n : {i64(0), i64(1), i64(9)}) { want(f, {null(s.k), i8(n)}, "null"); want(f, {s, null(K::int8)}, "null"); want(f, {null(s.k), i8(n), i8(n)}, "null"); want(f, {s, null(K::int8), i8(n)}, "null"); want(f, {s, i8(n), null(K::int8)}, "null"); } }
    vf::bound_note(vf::strf("%zu integers of each width and %zu decimals at every scale of round and pairwise for mod, %zu floats of each width", ints(64).size(), ds.size(), fv.size()));
}
// ---- base64 and time
static std::string b64(std::string const& s) { static char const* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; for (std::size_t i = 0; i < s.size(); i += 3) { unsigned v = 0; for (std::size_t j = 0; j < 3; ++j) v = v * 256 + (i + j < s.size() ? (unsigned char) s[i + j] : 0); for (int j = 0; j < 4; ++j) o += i + (std::size_t) std::max(0, j - 1) < s.size() ? t[v >> (18 - 6 * j) & 63] : '='; } return o; }
static void others() {
    if (!vf::mine(0)) return;
    for (int a = 0; a < 256; ++a) for (int n = 0; n < 8; ++n) { std::string s; for (int i = 0; i < n; ++i) s += (char) (a * (i * 7 + 1) + i); for (auto e : {"base64", "BASE64", "Base64"}) { want("encode", {bin(s), txt(e)}, c_(b64(s))); want("decode", {txt(b64(s)), txt(e)}, o_(s)); } }
    for (auto e : {"", "hex", "base6", "base641", " base64"}) { want("encode", {bin("a"), txt(e)}, err(EK::unsupported)); want("decode", {txt("YQ=="), txt(e)}, err(EK::unsupported)); }
    for (auto s : {"Y", "YQ", "YQ=", "=", "====", "Y===", "YQ=a", "Y*==", "YQ==YQ==", "YQ= ", "YQ==\n", " YQ==", "a b="}) want("decode", {txt(s), txt("base64")}, err(EK::invalid_input_value));
    want("encode", {null(K::octet), txt("base64")}, "null"); want("decode", {null(K::character), txt("base64")}, "null");
    std::string l(1572864, 'x'); for (int d : {-3, -2, -1, 0, 1}) { std::string s(1572849 + d, 'x'); any r = run("encode", {bin(s), txt("base64")}); std::size_t n = (s.size() + 2) / 3 * 4; if (n > 2097132) { if (!r.error()) vf::violation("encode", vf::strf("%zu octets encode to %zu characters, longer than any varchar", s.size(), n)); } else if (r.error() || r.to<accessor::text>().size() != n) vf::violation("encode", vf::strf("%zu octets do not encode", s.size())); }
    transaction_context t{}; using clk = transaction_context::clock;
    for (int z : {0, 540, -600, 1}) { cfg->zone_offset(z); for (i64 ms : {i64(0), i64(1), i64(86399999), i64(1700000000123LL), i64(951782399999LL), i64(-1)}) { t.start_time(clk::time_point{std::chrono::milliseconds(ms)}); tx = &t; i64 loc = ms + 60000LL * z; auto fl = [](i64 a, i64 b) { return a / b - (a % b < 0); };
        auto tp = [&](i64 m) { return vf::strf("tp:%lld.%lld", (long long) fl(m, 1000), (long long) ((m - fl(m, 1000) * 1000) * 1000000)); };
        want("current_timestamp", {}, tp(ms)); want("localtimestamp", {}, tp(loc)); want("current_date", {}, show(A(dt::date{fl(loc, 86400000)}))); want("localtime", {}, show(A(dt::time_of_day{std::chrono::nanoseconds((loc - fl(loc, 86400000) * 86400000) * 1000000)}))); } } tx = nullptr;
    vf::bound_note("base64 of all byte values in up to 7 octets, other encodings, malformed texts; the time functions in 4 zones around midnights");
}
int main(int argc, char** argv) {
    vf::init(argc, argv); jogasaki::executor::expr::details::ensure_decimal_context();   // as the evaluator does before it calls a function
    global::config_pool(cfg); fn::add_builtin_scalar_functions(fs, repo);
    texts(); numbers(); others();
    return vf::finish();
}
