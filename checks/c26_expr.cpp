// C26: expression evaluation. Three-valued logic by all small trees, arithmetic and comparison by all pairs of boundary values
// against exact arithmetic, CASE and COALESCE by all small tables, LIKE by all short texts, patterns and escapes.
#include "vf.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <set>
#include <jogasaki/configuration.h>
#include <jogasaki/data/small_record_store.h>
#include <jogasaki/executor/expr/evaluator.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/process/impl/variable_table.h>
#include <jogasaki/executor/process/impl/variable_table_info.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include "anyval.h"
#include "num.h"
using namespace jogasaki::executor::expr;
namespace sc = takatori::scalar; namespace ty = takatori::type; namespace va = takatori::value;
using i32 = std::int32_t;
#define CHECK(c, key, ...) do { if (!(c)) vf::violation(key, vf::strf(__VA_ARGS__)); } while (0)
static yugawara::compiled_info info{};
static memory::page_pool& pool = *new memory::page_pool; static memory::lifo_paged_memory_resource& lifo = *new memory::lifo_paged_memory_resource{&pool};
using tp = std::shared_ptr<takatori::type::data const>;
static tp T_bool = std::make_shared<ty::boolean>(), T_i4 = std::make_shared<ty::int4>(), T_i8 = std::make_shared<ty::int8>(), T_f4 = std::make_shared<ty::float4>(), T_f8 = std::make_shared<ty::float8>(), T_dec = std::make_shared<ty::decimal>(), T_text = std::make_shared<ty::character>(ty::varying), T_bin = std::make_shared<ty::octet>(ty::varying), T_date = std::make_shared<ty::date>(), T_tod = std::make_shared<ty::time_of_day>(), T_tp = std::make_shared<ty::time_point>();
struct Val { sc::sp e; any a; tp t; };       // an expression that yields the value
template <class V, class X> static sc::sp imm(X x, tp t) { return std::make_shared<sc::immediate>(std::static_pointer_cast<takatori::value::data const>(std::make_shared<V>(x)), t); }
static Val null_(tp t) { return {std::make_shared<sc::immediate>(std::static_pointer_cast<takatori::value::data const>(std::make_shared<va::unknown>()), t), {}, t}; }
static Val b_(bool v) { return {imm<va::boolean>(v, T_bool), A<bool>(v), T_bool}; }
static Val i4_(i32 v) { return {imm<va::int4>(v, T_i4), A<i32>(v), T_i4}; }
static Val i8_(i64 v) { return {imm<va::int8>(v, T_i8), A<i64>(v), T_i8}; }
static Val f4_(float v) { return {imm<va::float4>(v, T_f4), A<float>(v), T_f4}; }
static Val f8_(double v) { return {imm<va::float8>(v, T_f8), A<double>(v), T_f8}; }
static Val dec_(triple v) { return {imm<va::decimal>(v, T_dec), A<triple>(v), T_dec}; }
static Val text(std::string s) { return {imm<va::character>(s, T_text), text_(s), T_text}; }
static Val bin(std::string s) { return {imm<va::octet>(s, T_bin), bin_(s), T_bin}; }
static std::string show_(any const& a) { if (a.error()) return "error " + std::to_string((int) a.to<class error>().kind()); if (!a.empty() && a.type_index() == any::index<bool>) return a.to<bool>() ? "true" : "false"; return show(a); }
static any keep;   // the last result, copied out of the resource where needed
static any eval(sc::expression const& e) {
    auto cp = lifo.get_checkpoint(); evaluator_context ctx{&lifo}; evaluator ev{e, info};
    any r = ev(ctx, {}, &lifo);
    static std::string hold; if (!r.empty() && !r.error() && r.type_index() == any::index<accessor::text>) { auto t = r.to<accessor::text>(); hold = std::string(static_cast<std::string_view>(t)); r = any{std::in_place_type<accessor::text>, accessor::text{hold.data(), hold.size()}}; }
    lifo.deallocate_after(cp); vf::trace(); return r;
}
static any eval_bool(sc::expression const& e) { evaluator_context ctx{&lifo}; evaluator ev{e, info}; return evaluate_bool(ctx, ev, {}, &lifo); }
static sc::sp typed(sc::sp e, tp t) { e->ty = t; return e; }
// ---- logic
enum L { F, T, N }; static char const* LN[] = {"false", "true", "null"};
static any lv(L l) { return l == N ? any{} : A<bool>(l == T); }
static bool same(any const& a, L l) { if (a.error()) return false; if (l == N) return a.empty(); return !a.empty() && a.type_index() == any::index<bool> && a.to<bool>() == (l == T); }
static L not_(L a) { return a == N ? N : a == T ? F : T; }
static L and_(L a, L b) { return a == F || b == F ? F : a == N || b == N ? N : T; }
static L or_(L a, L b) { return a == T || b == T ? T : a == N || b == N ? N : F; }
struct Tree { sc::sp e; L v; std::string s; };
static std::vector<Tree> leaves() { return {{b_(false).e, F, "f"}, {b_(true).e, T, "t"}, {null_(T_bool).e, N, "n"}}; }
static std::vector<Tree> grow(std::vector<Tree> const& a, std::vector<Tree> const& b, bool unaries, bool binaries) {
    std::vector<Tree> o;
    using u = sc::unary_operator; using bi = sc::binary_operator;
    if (unaries) for (auto& x : a) {
        auto un = [&](u k) { return typed(std::make_shared<sc::unary>(k, x.e), T_bool); };
        o.push_back({un(u::conditional_not), not_(x.v), "not " + x.s}); o.push_back({un(u::is_null), x.v == N ? T : F, "isnull " + x.s}); o.push_back({un(u::is_true), x.v == T ? T : F, "istrue " + x.s}); o.push_back({un(u::is_false), x.v == F ? T : F, "isfalse " + x.s}); o.push_back({un(u::is_unknown), x.v == N ? T : F, "isunknown " + x.s});
    }
    if (binaries) for (auto& x : a) for (auto& y : b) {
        o.push_back({typed(std::make_shared<sc::binary>(bi::conditional_and, x.e, y.e), T_bool), and_(x.v, y.v), "(" + x.s + " and " + y.s + ")"});
        o.push_back({typed(std::make_shared<sc::binary>(bi::conditional_or, x.e, y.e), T_bool), or_(x.v, y.v), "(" + x.s + " or " + y.s + ")"});
    }
    return o;
}
static void logic() {
    auto l0 = leaves(), l1 = grow(l0, l0, true, true); l1.insert(l1.end(), l0.begin(), l0.end());
    auto test = [&](Tree const& t) { vf::state(); vf::at("%s", t.s.c_str()); auto r = eval(*t.e); CHECK(same(r, t.v), "three-valued logic", "%s is %s, expected %s", t.s.c_str(), show_(r).c_str(), LN[t.v]);
        auto q = eval_bool(*t.e); CHECK(!q.error() && !q.empty() && q.to<bool>() == (t.v == T), "condition", "%s as a condition is %s, expected %s", t.s.c_str(), show_(q).c_str(), t.v == T ? "true" : "false"); };
    for (auto& t : l1) test(t);
    auto l2 = grow(l1, l1, true, true); std::uint64_t k = 0;
    for (auto& t : l2) test(t);
    for (auto& t : grow(l2, l0, true, true)) if (vf::mine(k++)) test(t);
    for (auto& t : grow(l0, l2, false, true)) if (vf::mine(k++)) test(t);
    if (vf::thorough()) for (auto& x : l2) if (vf::mine(k++)) for (auto& t : grow({x}, l2, false, true)) test(t);
    vf::bound_note(vf::strf("logic: all trees of NOT, AND, OR, IS NULL/TRUE/FALSE/UNKNOWN of depth 2 (%zu) and all of depth 3 with a leaf on one side%s", l2.size(), vf::thorough() ? ", and all of depth 3" : ""));
}
// ---- numbers
static int rank(any const& a) { switch (a.type_index()) { case any::index<i32>: return 0; case any::index<i64>: return 1; case any::index<float>: return 2; case any::index<double>: return 3; case any::index<triple>: return 4; } return -1; }
static int common(int a, int b) { if (a == b) return a; if (a < 2 && b < 2) return 1; if (a == 2 || a == 3 || b == 2 || b == 3) return 3; return 4; }
static double dbl(any const& a) { switch (rank(a)) { case 0: return a.to<i32>(); case 1: return (double) a.to<i64>(); case 2: return a.to<float>(); case 3: return a.to<double>(); default: { auto d = exact(a.to<triple>()); return std::strtod((d.c.str() + "e" + std::to_string(d.e)).c_str(), nullptr); } } }
static i64 whole(any const& a) { return rank(a) == 0 ? a.to<i32>() : a.to<i64>(); }
static Dec dec(any const& a) { return rank(a) == 4 ? exact(a.to<triple>()) : Dec{big(whole(a)), 0}; }
template <class F> static bool same_float(F a, F b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
static std::vector<Val> numbers() {
    std::vector<Val> v; bool big_ = vf::thorough();
    for (i32 x : {0, 1, -1, 2, 7, -7, 10, std::numeric_limits<i32>::max(), std::numeric_limits<i32>::min(), std::numeric_limits<i32>::max() - 1, std::numeric_limits<i32>::min() + 1, 1 << 24, (1 << 24) + 1}) v.push_back(i4_(x));
    for (i64 x : {0LL, 1LL, -1LL, 3LL, -10LL, std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min(), std::numeric_limits<long long>::min() + 1, 2147483648LL, -2147483649LL, 1LL << 53, (1LL << 53) + 1, 4294967296LL, 1000000000000000000LL}) v.push_back(i8_(x));
    float fi = std::numeric_limits<float>::infinity(); double di = std::numeric_limits<double>::infinity();
    for (float x : {0.0F, -0.0F, 1.0F, -1.0F, 0.5F, 1.5F, 16777216.0F, 3.4028235e38F, 1e-45F, fi, -fi, std::nanf("")}) v.push_back(f4_(x));
    for (double x : {0.0, -0.0, 1.0, -1.0, 0.1, 2.5, 9007199254740992.0, 1.7976931348623157e308, 4.9e-324, di, -di, std::nan("")}) v.push_back(f8_(x));
    std::vector<long long> cs{0, 1, -1, 10, 25, -999, 9223372036854775807LL}; std::vector<int> es{0, -1, 2, -10}; if (big_) { for (auto c : {7LL, -100LL, 333333333333333333LL}) cs.push_back(c); for (int e : {-38, 20, -3}) es.push_back(e); }
    for (auto c : cs) for (int e : es) v.push_back(dec_(tri(c, e)));
    big m = p10(38) - 1; for (int e : {0, -19, -38}) { v.push_back(dec_(trib(m, e))); v.push_back(dec_(trib(-m, e))); v.push_back(dec_(trib(p10(37), e))); v.push_back(dec_(trib(m / 3, e))); }
    return v;
}
static std::string name(Val const& v) { return show_(v.a); }
static void arithmetic() {
    auto v = numbers(); std::uint64_t k = 0; using bi = sc::binary_operator;
    std::vector<Val> w = v; for (auto& t : {T_i4, T_i8, T_f4, T_f8, T_dec}) w.push_back(null_(t));
    std::size_t exactly = 0;
    for (auto& x : w) for (auto& y : w) { if (!vf::mine(k++)) continue;
        for (auto op : {bi::add, bi::subtract, bi::multiply, bi::divide, bi::remainder}) {
            sc::binary e(op, x.e, y.e); std::string s = name(x) + " " + std::string(sc::to_string_view(op)) + " " + name(y); vf::at("%s", s.c_str()); vf::state();
            auto r = eval(e);
            if (x.a.empty() || y.a.empty()) { CHECK(r.empty() && !r.error(), "arithmetic null", "%s is %s, expected null", s.c_str(), show_(r).c_str()); continue; }
            int c = common(rank(x.a), rank(y.a));
            auto is_err = [&](char const* why) { CHECK(r.error() && r.to<class error>().kind() == error_kind::arithmetic_error, "arithmetic error", "%s is %s, expected an arithmetic error: %s", s.c_str(), show_(r).c_str(), why); };
            if (op == bi::remainder && (c == 2 || c == 3)) { CHECK(r.error() && r.to<class error>().kind() == error_kind::unsupported, "arithmetic error", "%s is %s, expected unsupported", s.c_str(), show_(r).c_str()); continue; }
            if (c == 0 || c == 1) {
                big a = whole(x.a), b = whole(y.a), q;
                if ((op == bi::divide || op == bi::remainder) && b == 0) { is_err("division by zero"); continue; }
                switch (op) { case bi::add: q = a + b; break; case bi::subtract: q = a - b; break; case bi::multiply: q = a * b; break; case bi::divide: q = a / b; break; default: q = a % b; }
                big lo = c ? big(std::numeric_limits<i64>::min()) : big(std::numeric_limits<i32>::min()), hi = c ? big(std::numeric_limits<i64>::max()) : big(std::numeric_limits<i32>::max());
                if (q < lo || q > hi) { if (op == bi::divide) is_err("the quotient is out of range"); else CHECK(r.error() || rank(r) == c, "arithmetic type", "%s is %s", s.c_str(), show_(r).c_str()); continue; }
                CHECK(!r.error() && !r.empty() && rank(r) == c && big(whole(r)) == q, "arithmetic", "%s is %s, expected %s as int%d", s.c_str(), show_(r).c_str(), q.str().c_str(), c ? 8 : 4); continue;
            }
            if (c == 2 || c == 3) {
                double a = dbl(x.a), b = dbl(y.a);
                if (op == bi::divide && b == 0) { is_err("division by zero"); continue; }
                if (c == 2) { float fa = x.a.to<float>(), fb = y.a.to<float>(), q = op == bi::add ? fa + fb : op == bi::subtract ? fa - fb : op == bi::multiply ? fa * fb : fa / fb; CHECK(!r.error() && rank(r) == 2 && same_float(r.to<float>(), q), "arithmetic", "%s is %s, expected %g as float", s.c_str(), show_(r).c_str(), q); }
                else { double q = op == bi::add ? a + b : op == bi::subtract ? a - b : op == bi::multiply ? a * b : a / b; CHECK(!r.error() && rank(r) == 3 && same_float(r.to<double>(), q), "arithmetic", "%s is %s, expected %.17g as double", s.c_str(), show_(r).c_str(), q); }
                continue;
            }
            Dec a = dec(x.a), b = dec(y.a), q;
            if ((op == bi::divide || op == bi::remainder) && b.c == 0) { is_err("division by zero"); continue; }
            if (op == bi::multiply) q = Dec{big(a.c * b.c), a.e + b.e};
            else if (op == bi::divide) {   // |r*b - a| <= |b| * half a unit of the last of 38 digits
                CHECK(!r.error() && rank(r) == 4, "arithmetic type", "%s is %s, expected a decimal", s.c_str(), show_(r).c_str()); if (r.error() || rank(r) != 4) continue;
                Dec z = exact(r.to<triple>()), l{z.c * b.c, z.e + b.e}, d = a; align(l, d); big diff = l.c - d.c; if (diff < 0) diff = -diff; big cb = b.c < 0 ? big(-b.c) : b.c; Dec ulp{cb, z.e + b.e}, df{diff * 2, l.e}; bool ok = diff == 0 || (cmp(df, ulp) <= 0 && (z.c < 0 ? big(-z.c) : z.c) >= p10(37));
                CHECK(ok, "arithmetic", "%s is %s, not the quotient to 38 digits", s.c_str(), show_(r).c_str()); exactly += diff == 0; continue;
            } else if (op == bi::remainder) { align(a, b); big t = a.c / b.c; if ((t < 0 ? big(-t) : t) >= p10(38)) continue; q = Dec{big(a.c % b.c), a.e}; }
            else { align(a, b); q = Dec{op == bi::add ? big(a.c + b.c) : big(a.c - b.c), a.e}; }
            if (!fits(q)) continue;
            CHECK(!r.error() && rank(r) == 4 && cmp(exact(r.to<triple>()), q) == 0, "arithmetic", "%s is %s, expected %sE%d", s.c_str(), show_(r).c_str(), q.c.str().c_str(), q.e); ++exactly;
        }
    }
    for (auto& x : w) if (vf::mine(k++)) {
        using u = sc::unary_operator; sc::unary m(u::sign_inversion, x.e), p(u::plus, x.e), n(u::is_null, x.e); vf::at("- %s", name(x).c_str());
        auto r = eval(m), q = eval(p), z = eval(n);
        CHECK(same(z, x.a.empty() ? T : F), "is null", "%s IS NULL is %s", name(x).c_str(), show_(z).c_str()); CHECK(show_(q) == show_(x.a), "plus", "+ %s is %s", name(x).c_str(), show_(q).c_str());
        if (x.a.empty()) { CHECK(r.empty() && !r.error(), "negate", "- null is %s", show_(r).c_str()); continue; }
        bool ok = !r.error() && rank(r) == rank(x.a); switch (rank(x.a)) { case 0: ok = ok && (x.a.to<i32>() == std::numeric_limits<i32>::min() || r.to<i32>() == -x.a.to<i32>()); break; case 1: ok = ok && (x.a.to<i64>() == std::numeric_limits<i64>::min() || r.to<i64>() == -x.a.to<i64>()); break; case 2: ok = ok && same_float(r.to<float>(), -x.a.to<float>()); break; case 3: ok = ok && same_float(r.to<double>(), -x.a.to<double>()); break; default: { Dec d = exact(x.a.to<triple>()); d.c = -d.c; ok = ok && cmp(exact(r.to<triple>()), d) == 0; } }
        CHECK(ok, "negate", "- %s is %s", name(x).c_str(), show_(r).c_str());
    }
    vf::bound_note(vf::strf("arithmetic: all pairs of %zu numbers of int4, int8, float4, float8, decimal and NULLs under + - * / %%; overflow of + - * on integers is only required to give a value or an error", w.size()));
}
static void comparisons() {
    auto v = numbers(); std::uint64_t k = 0; using co = sc::comparison_operator;
    std::vector<std::vector<Val>> groups{v};
    groups.push_back({}); for (std::string s : {"", "a", "b", "ab", "a ", "B", "\xE3\x81\x82", "\xC3\xA9", "abcdefghijklmnopq", "abcdefghijklmnopr", "abcdefghijklmnop"}) groups.back().push_back(text(s)); groups.back().push_back(text(std::string("a\0", 2))); groups.back().push_back(text(std::string("a\0b", 3)));
    groups.push_back({}); for (std::string s : {std::string(), std::string("\0", 1), std::string("\x7f"), std::string("\xff"), std::string("\x01\x00", 2), std::string(20, 'x'), std::string(20, 'x') + "\x80"}) groups.back().push_back(bin(s));
    groups.push_back({}); for (i64 d : {0LL, 1LL, -1LL, 18000LL, -719468LL, 3652059LL}) { takatori::datetime::date x{d}; groups.back().push_back({imm<va::date>(x, T_date), A(x), T_date}); }
    groups.push_back({}); for (u64 d : {0ULL, 1ULL, 999999999ULL, 1000000000ULL, 86399999999999ULL}) { takatori::datetime::time_of_day x{std::chrono::nanoseconds(d)}; groups.back().push_back({imm<va::time_of_day>(x, T_tod), A(x), T_tod}); }
    groups.push_back({}); for (i64 d : {0LL, -1LL, 1LL, 1700000000LL}) for (int n : {0, 1, 999999999}) { takatori::datetime::time_point x{std::chrono::duration<i64>(d), std::chrono::nanoseconds(n)}; groups.back().push_back({imm<va::time_point>(x, T_tp), A(x), T_tp}); }
    std::size_t total = 0;
    for (auto& g : groups) { auto w = g; w.push_back(null_(g[0].t)); total += w.size();
        for (auto& x : w) for (auto& y : w) if (vf::mine(k++)) {
            int o = 0; bool xn = x.a.empty(), yn = y.a.empty();
            if (!xn && !yn) switch (x.a.type_index()) {
                case any::index<accessor::text>: case any::index<accessor::binary>: { auto f = [](any const& a) { if (a.type_index() == any::index<accessor::text>) { auto t = a.to<accessor::text>(); return std::string(static_cast<std::string_view>(t)); } auto t = a.to<accessor::binary>(); return std::string(static_cast<std::string_view>(t)); }; auto p = f(x.a), q = f(y.a); std::size_t n = std::min(p.size(), q.size()); int c = std::memcmp(p.data(), q.data(), n); o = c ? (c < 0 ? -1 : 1) : p.size() < q.size() ? -1 : p.size() > q.size(); break; }
                case any::index<takatori::datetime::date>: { auto p = x.a.to<takatori::datetime::date>().days_since_epoch(), q = y.a.to<takatori::datetime::date>().days_since_epoch(); o = p < q ? -1 : p > q; break; }
                case any::index<takatori::datetime::time_of_day>: { auto p = x.a.to<takatori::datetime::time_of_day>().time_since_epoch(), q = y.a.to<takatori::datetime::time_of_day>().time_since_epoch(); o = p < q ? -1 : p > q; break; }
                case any::index<takatori::datetime::time_point>: { auto p = x.a.to<takatori::datetime::time_point>(), q = y.a.to<takatori::datetime::time_point>(); auto f = [](takatori::datetime::time_point const& t) { return std::make_pair(t.seconds_since_epoch().count(), t.subsecond().count()); }; o = f(p) < f(q) ? -1 : f(p) > f(q); break; }
                default: { int c = common(rank(x.a), rank(y.a));
                    if (c < 2) { auto p = whole(x.a), q = whole(y.a); o = p < q ? -1 : p > q; }
                    else if (c < 4) { double p = dbl(x.a), q = dbl(y.a); bool pn = std::isnan(p), qn = std::isnan(q); o = pn || qn ? pn - qn : p < q ? -1 : p > q; }
                    else o = cmp(dec(x.a), dec(y.a)); } }
            for (auto op : {co::equal, co::not_equal, co::less, co::less_equal, co::greater, co::greater_equal, co::is_not_distinct_from, co::is_distinct_from}) {
                L want; bool d = op == co::is_distinct_from || op == co::is_not_distinct_from;
                if (xn || yn) want = !d ? N : (xn && yn) == (op == co::is_not_distinct_from) ? T : F;
                else { bool r = op == co::equal || op == co::is_not_distinct_from ? o == 0 : op == co::not_equal || op == co::is_distinct_from ? o != 0 : op == co::less ? o < 0 : op == co::less_equal ? o <= 0 : op == co::greater ? o > 0 : o >= 0; want = r ? T : F; }
                sc::compare e(op, x.e, y.e); std::string s = name(x) + " " + std::string(sc::to_string_view(op)) + " " + name(y); vf::at("%s", s.c_str()); vf::state();
                auto r = eval(e); CHECK(same(r, want), "comparison", "%s is %s, expected %s", s.c_str(), show_(r).c_str(), LN[want]);
            }
        }
    }
    // texts join
    for (auto& x : groups[1]) for (auto& y : groups[1]) { sc::binary e(sc::binary_operator::concat, x.e, y.e); auto r = eval(e); auto p = x.a.to<accessor::text>(), q = y.a.to<accessor::text>(); CHECK(!r.error() && show_(r) == "c:" + std::string(static_cast<std::string_view>(p)) + std::string(static_cast<std::string_view>(q)), "concat", "%s || %s is %s", name(x).c_str(), name(y).c_str(), show_(r).c_str()); vf::state(); }
    for (auto& x : groups[1]) for (int s : {0, 1}) { auto n = null_(T_text); sc::binary e(sc::binary_operator::concat, s ? n.e : x.e, s ? x.e : n.e); auto r = eval(e); CHECK(r.empty(), "concat", "a text joined with null is %s", show_(r).c_str()); }
    vf::bound_note(vf::strf("comparison: all 8 operators on all pairs of %zu values of one or compatible types", total));
}
// ---- an error in an operand is the result, and expressions that are not chosen are not evaluated
static void choices() {
    auto bad = std::make_shared<sc::binary>(sc::binary_operator::divide, i4_(1).e, i4_(0).e); bad->ty = T_i4; sc::sp badb = typed(std::make_shared<sc::compare>(sc::comparison_operator::equal, bad, i4_(1).e), T_bool);
    auto is_bad = [](any const& r) { return r.error() && r.to<class error>().kind() == error_kind::arithmetic_error; };
    for (auto op : {sc::binary_operator::add, sc::binary_operator::subtract, sc::binary_operator::multiply, sc::binary_operator::divide, sc::binary_operator::remainder}) for (int s : {0, 1}) for (auto& o : {i4_(1), null_(T_i4)}) { sc::binary e(op, s ? sc::sp(bad) : o.e, s ? o.e : sc::sp(bad)); vf::state(); auto r = eval(e); CHECK(is_bad(r), "error", "an operator on a failed operand gives %s", show_(r).c_str()); }
    for (auto op : {sc::unary_operator::plus, sc::unary_operator::sign_inversion, sc::unary_operator::is_null, sc::unary_operator::is_unknown}) { sc::unary e(op, bad); auto r = eval(e); CHECK(is_bad(r), "error", "an operator on a failed operand gives %s", show_(r).c_str()); }
    // CASE: conditions over {false,true,null,error}, bodies over {1, null, error}, with and without ELSE
    std::vector<std::pair<sc::sp, int>> cs{{b_(false).e, 0}, {b_(true).e, 1}, {null_(T_bool).e, 2}, {badb, 3}}, bs{{i4_(11).e, 0}, {null_(T_i4).e, 2}, {bad, 3}, {i8_(1LL << 40).e, 4}};
    std::size_t n = 0;
    for (int len : {1, 2, 3}) { std::vector<int> ix(2 * len + 1, 0);
        for (;;) {
            std::vector<sc::conditional::alternative> a; std::string s = "case"; int want = -1;   // -1 falls to else
            bool any8 = ix[2 * len] == 4;
            for (int i = 0; i < len; ++i) { int c = ix[2 * i], b = ix[2 * i + 1]; a.emplace_back(cs[c].first, bs[b].first); s += vf::strf(" when %d then %d", c, b); any8 = any8 || b == 3; if (want < 0) { if (c == 3) want = 3; else if (c == 1) want = 10 + b; } }
            int el = ix[2 * len]; if (want < 0) want = el == 0 ? 12 : 10 + el - 1 + (el == 2 ? 0 : 0);
            if (want >= 10 && want != 12 && false) {}
            s += vf::strf(" else %d", el);
            auto e = std::make_shared<sc::conditional>(a, el == 0 ? sc::sp{} : bs[el - 1].first); e->ty = T_i8; vf::at("%s", s.c_str()); vf::state(); ++n;
            auto r = eval(*e);
            if (want == 3) CHECK(is_bad(r), "case", "%s is %s, expected an error", s.c_str(), show_(r).c_str());
            else { int b = el == 0 && want == 12 ? -1 : want - 10; bool fromelse = true; for (int i = 0; i < len; ++i) if (ix[2 * i] == 1) { b = ix[2 * i + 1]; fromelse = false; break; } if (fromelse) b = el - 1;
                if (b == -1 || b == 1) CHECK(r.empty() && !r.error(), "case", "%s is %s, expected null", s.c_str(), show_(r).c_str());
                else if (b == 2) CHECK(is_bad(r) || r.error(), "case", "%s is %s, expected an error", s.c_str(), show_(r).c_str());
                else { i64 x = b == 0 ? 11 : 1LL << 40; CHECK(!r.error() && !r.empty() && r.type_index() == any::index<i64> && r.to<i64>() == x, "case", "%s is %s, expected %lld as int8", s.c_str(), show_(r).c_str(), (long long) x); } }
            int i = 0; for (; i < 2 * len + 1; ++i) { int lim = i == 2 * len ? 5 : 4; if (++ix[i] < lim) break; ix[i] = 0; } if (i == 2 * len + 1) break;
        } }
    // COALESCE
    for (int len : {1, 2, 3, 4}) { std::vector<int> ix(len, 0);
        for (;;) { std::vector<sc::sp> a; std::string s = "coalesce"; int b = 1; for (int i : ix) { a.push_back(bs[i].first); s += vf::strf(" %d", i); } for (int i : ix) if (i != 1) { b = i; break; }
            auto e = std::make_shared<sc::coalesce>(a); e->ty = T_i8; vf::at("%s", s.c_str()); vf::state(); ++n; auto r = eval(*e);
            if (b == 1) CHECK(r.empty() && !r.error(), "coalesce", "%s is %s, expected null", s.c_str(), show_(r).c_str());
            else if (b == 2) CHECK(is_bad(r), "coalesce", "%s is %s, expected an error", s.c_str(), show_(r).c_str());
            else { i64 x = b == 0 ? 11 : 1LL << 40; CHECK(!r.error() && !r.empty() && r.type_index() == any::index<i64> && r.to<i64>() == x, "coalesce", "%s is %s, expected %lld as int8", s.c_str(), show_(r).c_str(), (long long) x); }
            int i = 0; for (; i < len; ++i) { if (++ix[i] < 4) break; ix[i] = 0; } if (i == len) break; } }
    vf::bound_note(vf::strf("CASE with up to 3 and COALESCE with up to 4 alternatives: all %zu combinations of true, false, null and failing conditions and bodies", n));
}
// ---- LIKE
using Str = std::vector<std::string>;     // characters
static bool like(Str const& in, Str const& pat, std::string const& esc, bool& bad) {
    struct Tok { int k; std::string c; }; std::vector<Tok> t; bad = false;
    for (std::size_t i = 0; i < pat.size(); ++i) if (!esc.empty() && pat[i] == esc) { if (i + 1 == pat.size()) { bad = true; return false; } t.push_back({0, pat[++i]}); } else if (pat[i] == "%") t.push_back({2, ""}); else if (pat[i] == "_") t.push_back({1, ""}); else t.push_back({0, pat[i]});
    std::vector<char> cur(in.size() + 1, 0); cur[0] = 1;
    for (auto& k : t) { std::vector<char> nx(in.size() + 1, 0); if (k.k == 2) { bool on = false; for (std::size_t i = 0; i <= in.size(); ++i) { on = on || cur[i]; nx[i] = on; } } else for (std::size_t i = 0; i < in.size(); ++i) if (cur[i] && (k.k == 1 || in[i] == k.c)) nx[i + 1] = 1; cur = nx; }
    return cur[in.size()];
}
static void likes() {
    Str in{"a", "b", "\xE3\x81\x82", "\xC3\x81", "%"}, pa{"a", "\xE3\x81\x82", "\xC3\x81", "%", "_", "\\", "\xF0\x9F\x98\x80"}; Str escs{"", "\\", "a", "\xE3\x81\x82", "%", "_"};
    std::size_t li = 4, lp = 4; auto all = [](Str const& a, std::size_t n) { std::vector<Str> o{{}}; std::size_t b = 0; for (std::size_t l = 0; l < n; ++l) { std::size_t e = o.size(); for (std::size_t i = b; i < e; ++i) for (auto& c : a) { auto x = o[i]; x.push_back(c); o.push_back(x); } b = e; } return o; };
    if (vf::thorough()) { lp = 5; }
    auto ins = all(in, li), pats = all(pa, lp); auto cat = [](Str const& s) { std::string r; for (auto& c : s) r += c; return r; };
    std::vector<Val> iv; for (auto& s : ins) iv.push_back(text(cat(s))); std::vector<Val> ev; for (auto& s : escs) ev.push_back(text(s));
    for (std::size_t p = 0; p < pats.size(); ++p) { if (!vf::mine(p)) continue; auto pt = cat(pats[p]); auto pv = text(pt);
        for (std::size_t e = 0; e < escs.size(); ++e) { bool bad; like({}, pats[p], escs[e], bad);
            bool full = e == 0 || escs[e] == "\\";  // all inputs with these, short ones with the others
            for (std::size_t i = 0; i < ins.size(); ++i) { if (!full && ins[i].size() > 3) break; bool dummy; bool want = like(ins[i], pats[p], escs[e], dummy);
                sc::match m(sc::match_operator::like, iv[i].e, pv.e, ev[e].e); vf::state(); auto r = eval(m);
                if (bad) { if (!(r.error())) { vf::at("'%s' like '%s' escape '%s'", cat(ins[i]).c_str(), pt.c_str(), escs[e].c_str()); CHECK(false, "like escape", "'%s' LIKE '%s' ESCAPE '%s' is %s, expected an error", cat(ins[i]).c_str(), pt.c_str(), escs[e].c_str(), show_(r).c_str()); } break; }
                if (!same(r, want ? T : F)) { vf::at("'%s' like '%s' escape '%s'", cat(ins[i]).c_str(), pt.c_str(), escs[e].c_str()); CHECK(false, "like", "'%s' LIKE '%s' ESCAPE '%s' is %s, expected %s", cat(ins[i]).c_str(), pt.c_str(), escs[e].c_str(), show_(r).c_str(), want ? "true" : "false"); } } } }
    auto x = text("a"), n = null_(T_text), em = text("");
    for (int m = 1; m < 8; ++m) { sc::match q(sc::match_operator::like, m & 1 ? n.e : x.e, m & 2 ? n.e : x.e, m & 4 ? n.e : em.e); auto r = eval(q); CHECK(r.empty() && !r.error(), "like null", "LIKE with a null operand is %s", show_(r).c_str()); }
    for (auto s : {"ab", "\xE3\x81\x82" "a", "aa"}) { auto t = text(s); sc::match q(sc::match_operator::like, x.e, x.e, t.e); auto r = eval(q); CHECK(r.error(), "like escape", "LIKE with the escape '%s' is %s", s, show_(r).c_str()); }
    vf::bound_note(vf::strf("LIKE: all texts of up to %zu of %zu characters of 1 to 3 bytes, all patterns of up to %zu of %zu characters, no escape and 5 escapes", li, in.size(), lp, pa.size()));
}
// ---- variables
static void variables() {
    namespace im = executor::process::impl; namespace me = meta;
    struct C { me::field_type t; any a; tp ty; }; auto v = numbers();
    std::vector<C> cs{{me::field_type{me::field_enum_tag<kind::int4>}, A<i32>(-7), T_i4}, {me::field_type{me::field_enum_tag<kind::int8>}, A<i64>(1LL << 40), T_i8}, {me::field_type{me::field_enum_tag<kind::float4>}, A<float>(1.5F), T_f4}, {me::field_type{me::field_enum_tag<kind::float8>}, A<double>(-2.5), T_f8}, {me::field_type{std::make_shared<me::decimal_field_option>()}, A<triple>(tri(-999, -2)), T_dec}, {me::field_type{std::make_shared<me::character_field_option>()}, text_("hello world, hello world"), T_text}, {me::field_type{std::make_shared<me::octet_field_option>()}, bin_("xy"), T_bin}, {me::field_type{me::field_enum_tag<kind::date>}, A(takatori::datetime::date{77}), T_date}};
    for (unsigned nulls = 0; nulls < 256; ++nulls) {
        std::vector<me::field_type> ts; for (auto& c : cs) ts.push_back(c.t); boost::dynamic_bitset<std::uint64_t> nb(cs.size()); nb.set();
        auto rm = std::make_shared<me::record_meta>(ts, nb); std::vector<takatori::descriptor::variable> ds; std::unordered_map<takatori::descriptor::variable, std::size_t> order;
        for (std::size_t i = 0; i < cs.size(); ++i) { auto d = std::make_shared<int>((int) i); takatori::descriptor::variable x{std::shared_ptr<int const>(d)}; x.cls = 9; ds.push_back(x); order[x] = i; info.set(x, cs[i].ty); }
        im::variable_table_info vi{order, std::unordered_map<std::string, takatori::descriptor::variable>{}, rm}; im::variable_table vt{vi}; auto ref = vt.store().ref();
        for (std::size_t i = 0; i < cs.size(); ++i) { auto& l = vi.at(ds[i]); bool n = nulls >> i & 1; ref.set_null(l.nullity_offset(), n); if (!n) set(ref, l.value_offset(), cs[i].a, rm->at(i).kind()); }
        for (std::size_t i = 0; i < cs.size(); ++i) { bool n = nulls >> i & 1; sc::variable_reference e{ds[i]}; vf::state(); vf::at("variable %zu nulls %x", i, nulls);
            evaluator_context ctx{&lifo}; evaluator ev{e, info, &vt}; auto r = ev(ctx, {}, &lifo); CHECK(!r.error() && show_(r) == show_(n ? any{} : cs[i].a), "variable", "variable %zu is %s, expected %s", i, show_(r).c_str(), show_(n ? any{} : cs[i].a).c_str()); }
    }
    vf::bound_note("variables: 8 types, all patterns of NULLs");
}
int main(int argc, char** argv) {
    vf::init(argc, argv); global::config_pool(std::make_shared<configuration>());
    logic(); arithmetic(); comparisons(); choices(); likes(); if (vf::mine(3)) variables();
    return vf::finish();
}
