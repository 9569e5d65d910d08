// C22: index keys and row values in storage. Real kvs/coder over all pairs of boundary values of every column type, both
// orders, nullable or not, in every buffer size and at every truncation, and over all pairs of two column keys.
#include "vf.h"
#include "exact_resource.h"
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/configuration.h>
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/data/any.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/kvs/coder.h>
#include <jogasaki/kvs/readable_stream.h>
#include <jogasaki/kvs/writable_stream.h>
#include <jogasaki/utils/coder.h>
#include <cmath>
#include <memory>
namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration>) { static takatori::util::maybe_shared_ptr<configuration> p = std::make_shared<configuration>(); return p; }
}
using namespace jogasaki;
using kind = meta::field_type_kind;
using i64 = std::int64_t; using u64 = std::uint64_t; using u128 = unsigned __int128;
using any = data::any; using triple = takatori::decimal::triple; namespace dt = takatori::datetime;
static vf::exact_resource res;
static kvs::coding_context wr, rd;
static kvs::coding_spec const specs_[] = {kvs::spec_key_ascending, kvs::spec_key_descending, kvs::spec_value};

struct val { std::string name; any v; std::string stored; std::string back; };      // stored: ascending key bytes; back: printed decoded value
struct col { std::string name; meta::field_type t; std::vector<val> vs; bool ordered = true, write = false; };   // values in ascending order; equal order iff equal stored
static std::vector<col> cols;
static std::string be(u64 v, int n) { std::string s; for (int i = n; i-- > 0;) s += (char) (v >> (8 * i)); return s; }
static std::string sgn(i64 v, int n) { auto s = be((u64) v, n); s[0] ^= (char) 0x80; return s; }
static std::string inv(std::string s) { for (auto& c : s) c = (char) ~c; return s; }
static std::string show(any const& a) {
    if (a.empty()) return "null";
    switch (a.type_index()) {
        case any::index<std::int8_t>: return vf::strf("i1:%d", a.to<std::int8_t>());
        case any::index<std::int16_t>: return vf::strf("i2:%d", a.to<std::int16_t>());
        case any::index<std::int32_t>: return vf::strf("i4:%d", a.to<std::int32_t>());
        case any::index<i64>: return vf::strf("i8:%lld", (long long) a.to<i64>());
        case any::index<float>: { auto f = a.to<float>(); unsigned b; std::memcpy(&b, &f, 4); return vf::strf("f4:%08x", b); }
        case any::index<double>: { auto f = a.to<double>(); u64 b; std::memcpy(&b, &f, 8); return vf::strf("f8:%016llx", (unsigned long long) b); }
        case any::index<accessor::text>: { auto t = a.to<accessor::text>(); return "c:" + std::string(static_cast<std::string_view>(t)); }
        case any::index<accessor::binary>: { auto t = a.to<accessor::binary>(); return "o:" + std::string(static_cast<std::string_view>(t)); }
        case any::index<triple>: { auto t = a.to<triple>(); return vf::strf("d:%d:%016llx%016llxE%d", t.sign(), (unsigned long long) t.coefficient_high(), (unsigned long long) t.coefficient_low(), t.exponent()); }
        case any::index<dt::date>: return vf::strf("date:%lld", (long long) a.to<dt::date>().days_since_epoch());
        case any::index<dt::time_of_day>: return vf::strf("tod:%llu", (unsigned long long) a.to<dt::time_of_day>().time_since_epoch().count());
        case any::index<dt::time_point>: { auto t = a.to<dt::time_point>(); return vf::strf("tp:%lld.%llu", (long long) t.seconds_since_epoch().count(), (unsigned long long) t.subsecond().count()); }
        case any::index<lob::blob_reference>: return vf::strf("blob:%llu", (unsigned long long) a.to<lob::blob_reference>().object_id());
        case any::index<lob::clob_reference>: return vf::strf("clob:%llu", (unsigned long long) a.to<lob::clob_reference>().object_id());
        default: return "?";
    }
}
template <class T> static any A(T v) { return any{std::in_place_type<T>, v}; }
static any text_(std::string_view s) { auto p = (char*) static_cast<memory::paged_memory_resource&>(res).allocate(s.size(), 1); std::memcpy(p, s.data(), s.size()); return any{std::in_place_type<accessor::text>, accessor::text{p, s.size()}}; }
static any bin_(std::string_view s) { auto p = (char*) static_cast<memory::paged_memory_resource&>(res).allocate(s.size(), 1); std::memcpy(p, s.data(), s.size()); return any{std::in_place_type<accessor::binary>, accessor::binary{p, s.size()}}; }
static std::vector<i64> edge(int bits) {
    std::vector<i64> r; auto lo = -(static_cast<__int128>(1) << (bits - 1)), hi = (static_cast<__int128>(1) << (bits - 1)) - 1;
    auto add = [&](__int128 v) { if (v >= lo && v <= hi) r.push_back((i64) v); };
    if (bits == 8) for (int i = -128; i < 128; ++i) add(i);
    else { for (int k = 0; k < bits; ++k) for (int d = -1; d <= 1; ++d) { add((static_cast<__int128>(1) << k) + d); add(-(static_cast<__int128>(1) << k) + d); } add(0); for (int i = -20; i <= 20; ++i) add(i * 1000003); add(lo); add(hi); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
template <class U, class F> static std::string fkey(F f) { U b; if (f == 0) f = 0; std::memcpy(&b, &f, sizeof b); auto s = be(b, sizeof b); if (s[0] & 0x80) s = inv(s); else s[0] ^= (char) 0x80; return s; }
static int bytes_for(int p) { double b = 0; (void) b; u128 m = 1; for (int i = 0; i < p; ++i) m *= 10; m -= 1; for (int n = 1;; ++n) { if (n == 16) return 16; if (m <= (static_cast<u128>(1) << (8 * n - 1)) - 1) return n; } }
static u128 p10(int n) { u128 m = 1; while (n-- > 0) m *= 10; return m; }
template <class T> static std::shared_ptr<T> opt(T t) { return std::make_shared<T>(std::move(t)); }
static std::string deckey(bool neg, u128 c, int size) { auto v = neg ? ~c + 1 : c; std::string s; for (int i = size; i-- > 0;) s += (char) (unsigned char) (v >> (8 * i)); s[0] ^= (char) 0x80; return s; }
static void build() {
    auto one = [&](std::string n, meta::field_type t) -> col& { cols.push_back({std::move(n), std::move(t), {}}); return cols.back(); };
    auto put = [](col& c, std::string n, any v, std::string st, any back) { c.vs.push_back({std::move(n), v, std::move(st), show(back)}); };
    { auto& c = one("boolean", meta::field_type{meta::field_enum_tag<kind::boolean>}); for (int v : {0, 1}) put(c, vf::strf("%d", v), A<std::int8_t>(v), sgn(v, 1), A<std::int8_t>(v)); }
    { auto& c = one("int4", meta::field_type{meta::field_enum_tag<kind::int4>}); for (auto v : edge(32)) put(c, vf::strf("%lld", (long long) v), A<std::int32_t>(v), sgn(v, 4), A<std::int32_t>(v)); }
    { auto& c = one("int8", meta::field_type{meta::field_enum_tag<kind::int8>}); for (auto v : edge(64)) put(c, vf::strf("%lld", (long long) v), A<i64>(v), sgn(v, 8), A<i64>(v)); }
    { auto& c = one("int1", meta::field_type{meta::field_enum_tag<kind::int1>}); for (auto v : edge(8)) put(c, vf::strf("%lld", (long long) v), A<std::int32_t>(v), sgn(v, 4), A<std::int32_t>(v)); }
    { auto& c = one("int2", meta::field_type{meta::field_enum_tag<kind::int2>}); for (auto v : edge(16)) put(c, vf::strf("%lld", (long long) v), A<std::int32_t>(v), sgn(v, 4), A<std::int32_t>(v)); }
    { auto& c = one("date", meta::field_type{meta::field_enum_tag<kind::date>}); for (auto v : edge(64)) put(c, vf::strf("%lld", (long long) v), A(dt::date(v)), sgn(v, 8), A(dt::date(v))); }
    { auto& c = one("float4", meta::field_type{meta::field_enum_tag<kind::float4>}); float inf = INFINITY; auto q = std::numeric_limits<float>::quiet_NaN();
      for (float f : {-inf, -3.4028235e38F, -1e10F, -2.0F, -1.5F, -1.0F, -1.17549435e-38F, -1e-45F, -0.0F, 0.0F, 1e-45F, 1.17549435e-38F, 0.1F, 1.0F, 1.0000001F, 2.0F, 3.0F, 1e10F, 3.4028235e38F, inf, q, -q, std::nanf("7")}) put(c, vf::strf("%g", f), A(f), std::isnan(f) ? fkey<std::uint32_t>(q) : fkey<std::uint32_t>(f), A(std::isnan(f) ? q : f == 0 ? 0.0F : f)); }
    { auto& c = one("float8", meta::field_type{meta::field_enum_tag<kind::float8>}); double inf = INFINITY; auto q = std::numeric_limits<double>::quiet_NaN();
      for (double f : {-inf, -1.7976931348623157e308, -1e10, -2.0, -1.0000000000000002, -1.0, -2.2250738585072014e-308, -5e-324, -0.0, 0.0, 5e-324, 2.2250738585072014e-308, 0.1, 0.30000000000000004, 1.0, 1.0000000000000002, 2.0, 1e10, 1.7976931348623157e308, inf, q, -q, std::nan("7")}) put(c, vf::strf("%g", f), A(f), std::isnan(f) ? fkey<u64>(q) : fkey<u64>(f), A(std::isnan(f) ? q : f == 0 ? 0.0 : f)); }
    { auto& c = one("time", meta::field_type{opt(meta::time_of_day_field_option{})}); for (u64 v : {0ULL, 1ULL, 255ULL, 256ULL, 999999999ULL, 1000000000ULL, 43200000000000ULL, 86399999999999ULL}) put(c, vf::strf("%llu", (unsigned long long) v), A(dt::time_of_day(dt::time_of_day::time_unit(v))), sgn((i64) v, 8), A(dt::time_of_day(dt::time_of_day::time_unit(v)))); }
    { auto& c = one("timestamp", meta::field_type{opt(meta::time_point_field_option{})}); for (i64 s : {INT64_MIN, i64(-62135596800), i64(-65536), i64(-256), i64(-1), i64(0), i64(1), i64(255), i64(1) << 32, INT64_MAX}) for (int n : {0, 1, 255, 256, 65536, 999999999}) { dt::time_point v{dt::time_point::offset_type(s), dt::time_point::subsecond_unit(n)}; put(c, vf::strf("%lld.%d", (long long) s, n), A(v), sgn(s, 8) + sgn(n, 4), A(v)); } }
    for (auto [p, s] : std::vector<std::pair<int, int>>{{1, 0}, {1, 1}, {2, 0}, {2, 1}, {3, 2}, {4, 0}, {5, 5}, {7, 3}, {9, 0}, {10, 2}, {11, 0}, {12, 6}, {14, 0}, {16, 1}, {17, 0}, {18, 9}, {19, 0}, {20, 5}, {21, 0}, {23, 3}, {24, 0}, {26, 13}, {28, 0}, {31, 4}, {33, 0}, {35, 2}, {36, 0}, {37, 37}, {38, 0}, {38, 10}, {38, 38}}) {
        auto& c = one(vf::strf("decimal(%d,%d)", p, s), meta::field_type{opt(meta::decimal_field_option{(std::size_t) p, (std::size_t) s})});
        std::vector<u128> ms{0, 1, 2, 9}; for (int d = 1; d <= p; ++d) { ms.push_back(p10(d) - 1); if (d < p) { ms.push_back(p10(d)); ms.push_back(p10(d) * 7 + 3); } } for (int b = 7; b < 128; b += b % 8 == 7 ? 1 : 7) ms.push_back(static_cast<u128>(1) << b), ms.push_back((static_cast<u128>(1) << b) - 1);
        std::vector<std::pair<int, u128>> all; for (auto m : ms) if (m < p10(p)) { all.push_back({1, m}); if (m) all.push_back({-1, m}); }
        std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.first != b.first ? a.first < b.first : a.first < 0 ? a.second > b.second : a.second < b.second; }); all.erase(std::unique(all.begin(), all.end()), all.end());
        for (auto [sg, m] : all) {
            auto back = A(triple(sg, (u64) (m >> 64), (u64) m, -s)); auto st = deckey(sg < 0, m, bytes_for(p));
            put(c, vf::strf("%s%llx%016llxE-%d", sg < 0 ? "-" : "", (unsigned long long) (m >> 64), (unsigned long long) m, s), back, st, back);
            // the same number with another scale: fewer digits behind the point, or superfluous zeros
            if (m % 10 == 0 && m) put(c, "the same in fewer digits", A(triple(sg, (u64) (m / 10 >> 64), (u64) (m / 10), 1 - s)), st, back);
            if (m == 0) put(c, "zero of another scale", A(triple(0, 0, 0, 3)), st, back);
            if (m < p10(36)) put(c, "the same with a zero added", A(triple(sg, (u64) (m * 10 >> 64), (u64) (m * 10), -s - 1)), st, back);
        }
    }
    std::vector<std::string> strs; vf::all_strings(std::string_view("\x01\x20" "a\x7f\xff", 5), vf::thorough() ? 4 : 3, [&](std::string const& s) { strs.push_back(s); }); for (int n : {14, 15, 16, 17, 40}) for (char x : {'a', '\xff'}) { strs.push_back(std::string(n, x)); strs.push_back(std::string(n, x) + "b"); }
    std::sort(strs.begin(), strs.end());
    auto term = std::string(4, '\0');
    { auto& c = one("varchar(*)", meta::field_type{opt(meta::character_field_option{true, std::nullopt})}); for (auto& s : strs) put(c, vf::hexs(s), text_(s), s + term, text_(s)); }
    { auto& c = one("varchar(50) for write", meta::field_type{opt(meta::character_field_option{true, 50})}); c.write = true; for (auto& s : strs) put(c, vf::hexs(s), text_(s), s + term, text_(s)); }
    { auto& c = one("char(6), search", meta::field_type{opt(meta::character_field_option{false, 6})}); for (auto& s : strs) put(c, vf::hexs(s), text_(s), s + term, text_(s)); }
    for (std::size_t len : {3, 17}) { auto& c = one(vf::strf("char(%zu) for write", len), meta::field_type{opt(meta::character_field_option{false, len})}); c.write = true;
      std::vector<std::pair<std::string, std::string>> v; for (auto& s : strs) if (s.size() <= len) v.push_back({s + std::string(len - s.size(), ' '), s}); std::sort(v.begin(), v.end()); for (auto& [pd, s] : v) put(c, vf::hexs(s), text_(s), pd + term, text_(pd)); }
    std::vector<std::string> octs; vf::all_strings(std::string_view("\x00\x01\x7f\x80\xff", 5), 3, [&](std::string const& s) { octs.push_back(s); }); for (int n : {15, 16, 40}) octs.push_back(std::string(n, '\0')), octs.push_back(std::string(n, '\xff'));
    std::sort(octs.begin(), octs.end());
    { auto& c = one("varbinary", meta::field_type{opt(meta::octet_field_option{true, std::nullopt})}); c.ordered = false; for (auto& s : octs) put(c, vf::hexs(s), bin_(s), be(s.size(), 4) + s, bin_(s)); }
    for (std::size_t len : {3, 16}) { auto& c = one(vf::strf("binary(%zu)", len), meta::field_type{opt(meta::octet_field_option{false, len})}); c.write = true;
      std::vector<std::pair<std::string, std::string>> v; for (auto& s : octs) if (s.size() <= len) v.push_back({s + std::string(len - s.size(), '\0'), s}); std::sort(v.begin(), v.end()); for (auto& [pd, s] : v) put(c, vf::hexs(s), bin_(s), pd, bin_(pd)); }
    { auto& c = one("blob", meta::field_type{meta::field_enum_tag<kind::blob>}); for (u64 v : {u64(0), u64(1), u64(255), u64(256), u64(1) << 63, ~u64(0)}) put(c, vf::strf("%llu", (unsigned long long) v), A(lob::blob_reference{v, lob::lob_data_provider::datastore}), be(v, 8), A(lob::blob_reference{v})); }
    { auto& c = one("clob", meta::field_type{meta::field_enum_tag<kind::clob>}); for (u64 v : {u64(0), u64(1), u64(255), u64(256), u64(1) << 63, ~u64(0)}) put(c, vf::strf("%llu", (unsigned long long) v), A(lob::clob_reference{v, lob::lob_data_provider::datastore}), be(v, 8), A(lob::clob_reference{v})); }
}
// a record holding one value, so that the record forms can be used
struct rec { alignas(16) char b[64]; accessor::record_ref ref() { return {b, sizeof b}; } };
static constexpr std::size_t off = 16, nul = 3;
static void fill(rec& r, any const& a, kind k) {
    std::memset(r.b, 0x5a, sizeof r.b); auto q = r.ref(); q.set_null(nul, a.empty()); if (a.empty()) return;
    switch (k) {
        case kind::boolean: q.set_value(off, a.to<std::int8_t>()); break; case kind::int1: case kind::int2: case kind::int4: q.set_value(off, a.to<std::int32_t>()); break;
        case kind::int8: q.set_value(off, a.to<i64>()); break; case kind::float4: q.set_value(off, a.to<float>()); break; case kind::float8: q.set_value(off, a.to<double>()); break; case kind::decimal: q.set_value(off, a.to<triple>()); break;
        case kind::character: q.set_value(off, a.to<accessor::text>()); break; case kind::octet: q.set_value(off, a.to<accessor::binary>()); break; case kind::date: q.set_value(off, a.to<dt::date>()); break; case kind::time_of_day: q.set_value(off, a.to<dt::time_of_day>()); break;
        case kind::time_point: q.set_value(off, a.to<dt::time_point>()); break; case kind::blob: q.set_value(off, a.to<lob::blob_reference>()); break; case kind::clob: q.set_value(off, a.to<lob::clob_reference>()); break; default: std::abort();
    }
}
static any get(rec& r, kind k) {
    auto q = r.ref();
    switch (k) {
        case kind::boolean: return A(q.get_value<std::int8_t>(off)); case kind::int1: case kind::int2: case kind::int4: return A(q.get_value<std::int32_t>(off)); case kind::int8: return A(q.get_value<i64>(off)); case kind::float4: return A(q.get_value<float>(off)); case kind::float8: return A(q.get_value<double>(off));
        case kind::decimal: return A(q.get_value<triple>(off)); case kind::character: return A(q.get_value<accessor::text>(off)); case kind::octet: return A(q.get_value<accessor::binary>(off)); case kind::date: return A(q.get_value<dt::date>(off)); case kind::time_of_day: return A(q.get_value<dt::time_of_day>(off)); case kind::time_point: return A(q.get_value<dt::time_point>(off));
        case kind::blob: return A(q.get_value<lob::blob_reference>(off)); case kind::clob: return A(q.get_value<lob::clob_reference>(off)); default: std::abort();
    }
}
static status enc(any const& a, col const& c, bool nullable, bool rec_form, kvs::coding_spec sp, kvs::writable_stream& w) {
    auto& x = c.write ? wr : rd; vf::step();
    if (!rec_form) return nullable ? kvs::encode_nullable(a, c.t, sp, x, w) : kvs::encode(a, c.t, sp, x, w);
    rec r; fill(r, a, c.t.kind()); accessor::const_record_ref q{r.b, sizeof r.b};
    return nullable ? kvs::encode_nullable(q, off, nul, c.t, sp, x, w) : kvs::encode(q, off, c.t, sp, x, w);
}
static status dec(kvs::readable_stream& s, col const& c, bool nullable, bool rec_form, kvs::coding_spec sp, any& out) {
    vf::step();
    if (!rec_form) return nullable ? kvs::decode_nullable(s, c.t, sp, rd, out, &res) : kvs::decode(s, c.t, sp, rd, out, &res);
    rec r; std::memset(r.b, 0, sizeof r.b); auto st = nullable ? kvs::decode_nullable(s, c.t, sp, rd, r.ref(), off, nul, &res) : kvs::decode(s, c.t, sp, rd, r.ref(), off, &res);
    if (st == status::ok) out = nullable && r.ref().is_null(nul) ? any{} : get(r, c.t.kind());
    return st;
}
static std::string stored(std::string const& asc, int sp, bool nullable, bool null) { auto s = nullable ? (null ? sgn(0, 1) : sgn(1, 1) + asc) : asc; return sp == 0 ? s : inv(s); }
static char const* sn[] = {"ascending key", "descending key", "value"};
static void one(col const& c, val const* v, int sp, bool nullable, bool rf) {
    auto want = stored(v ? v->stored : "", sp, nullable, !v); auto n = want.size(); any src = v ? v->v : any{};
    auto who = vf::strf("%s %s %s%s%s", c.name.c_str(), v ? v->name.c_str() : "NULL", sn[sp], nullable ? ", nullable" : "", rf ? ", from a record" : "");
    vf::at("%s", who.c_str()); vf::state();
    bool few = !vf::thorough() && !who.compare(0, 7, "decimal") && n > 6;       // quick: the sizes around the entry and none
    for (std::size_t cap = n > 24 ? n - 2 : 0; cap <= n + 2; cap = few && !cap ? n - 2 : cap + 1) for (bool ign : {false, true}) {
        std::unique_ptr<char[]> b(new char[cap ? cap : 1]); std::memset(b.get(), 0x5a, cap);
        kvs::writable_stream w(b.get(), cap, ign); bool thrown = false; status st{};
        try { st = enc(src, c, nullable, rf, specs_[sp], w); } catch (std::logic_error const&) { thrown = true; }
        VF_CHECK(thrown == (!ign && cap < n), "overflow", "%s into %zu of %zu bytes: %s", who.c_str(), cap, n, thrown ? "refused" : "accepted");
        if (thrown) continue;
        VF_CHECK(st == status::ok, "encode-status", "%s: status %d", who.c_str(), (int) st);
        VF_CHECK(w.size() == n, "encode-size", "%s took %zu bytes, %zu expected", who.c_str(), w.size(), n);
        if (cap >= n) VF_CHECK(std::string(b.get(), n) == want, "encode-bytes", "%s is stored as %s, %s expected", who.c_str(), vf::hexs({b.get(), n}).c_str(), vf::hexs(want).c_str());
        for (std::size_t i = n; i < cap; ++i) VF_CHECK(b[i] == 0x5a, "encode-beyond", "%s changed byte %zu behind it", who.c_str(), i);
    }
    for (std::size_t cap = n > 24 ? n - 6 : 0; cap <= n + 1; cap = few && !cap ? n - 1 : cap + 1) {
        std::unique_ptr<char[]> b(new char[cap ? cap : 1]); std::memcpy(b.get(), want.data(), std::min(cap, n)); if (cap > n) b[n] = 0;
        for (int mode = 0; mode < 3; ++mode) {
            kvs::readable_stream s(b.get(), cap); any out = A<std::size_t>(7); status st{};
            try { st = mode == 2 ? (nullable ? kvs::consume_stream_nullable(s, c.t, specs_[sp], rd) : kvs::consume_stream(s, c.t, specs_[sp], rd)) : dec(s, c, nullable, mode == 1, specs_[sp], out); } catch (std::exception const& e) { vf::violation("decode-throws", vf::strf("%s cut to %zu bytes: %s", who.c_str(), cap, e.what())); }
            if (cap < n) { VF_CHECK(st == status::err_data_corruption, "truncated", "%s cut to %zu of %zu bytes was %s with status %d", who.c_str(), cap, n, mode == 2 ? "skipped" : "read", (int) st); continue; }
            VF_CHECK(st == status::ok && s.size() == n, "decode", "%s: status %d after %zu of %zu bytes", who.c_str(), (int) st, s.size(), n);
            if (mode < 2) VF_CHECK(show(out) == (v ? v->back : "null"), "round-trip", "%s was read back as %s instead of %s", who.c_str(), vf::hexs(show(out)).c_str(), v ? vf::hexs(v->back).c_str() : "null");
        }
    }
}
static std::string bytes(col const& c, any const& a, int sp, bool nullable) { char b[128]; kvs::writable_stream w(b, sizeof b); if (enc(a, c, nullable, false, specs_[sp], w) != status::ok) vf::violation("encode-status", c.name); return {b, w.size()}; }
static int sg(int x) { return x < 0 ? -1 : x > 0; }
static void order(col const& c, int sp, bool nullable) {
    vf::at("order of %s, %s", c.name.c_str(), sn[sp]);
    std::vector<std::string> e; if (nullable) e.push_back(bytes(c, any{}, sp, true)); for (auto& v : c.vs) e.push_back(bytes(c, v.v, sp, nullable));
    for (std::size_t a = 0; a < e.size(); ++a) for (std::size_t b = a + 1; b < e.size() && (vf::thorough() || b < a + 9 || c.vs.size() < 300 || (nullable && a == 0)); ++b) {   // comparing bytes is transitive: neighbours decide
        vf::step(); vf::state(); std::size_t o = nullable; bool isnull = nullable && a == 0;
        int want = isnull ? -1 : c.vs[a - o].stored == c.vs[b - o].stored ? 0 : -1; if (sp == 1) want = -want;
        if (!c.ordered && !isnull && want) { VF_CHECK(e[a] != e[b], "distinct", "%s: two values are stored alike", c.name.c_str()); continue; }
        VF_CHECK(sg(e[a].compare(e[b])) == want, "order", "%s, %s: %s before %s, but their keys compare %d", c.name.c_str(), sn[sp], isnull ? "NULL" : c.vs[a - o].name.c_str(), c.vs[b - o].name.c_str(), e[a].compare(e[b]));
    }
    vf::trace();
}
// keys of two columns compare as the first column decides, then the second
static void composite(col const& p, col const& q, int dp, int dq) {
    vf::at("key of %s and %s", p.name.c_str(), q.name.c_str());
    auto few = [](col const& c) { std::vector<any> r; std::size_t n = c.vs.size(), want = 9; r.push_back(any{}); for (std::size_t i = 0; i < n; ++i) if (i < 2 || i + 2 >= n || i % (n / want + 1) == 0) r.push_back(c.vs[i].v); return r; };
    struct ent { std::string a, b; }; std::vector<ent> es;
    for (auto& x : few(p)) for (auto& y : few(q)) es.push_back({bytes(p, x, dp, true), bytes(q, y, dq, true)});
    if (!vf::thorough()) std::sort(es.begin(), es.end(), [](auto& x, auto& y) { return x.a != y.a ? x.a < y.a : x.b < y.b; });      // neighbours in order decide all pairs
    for (std::size_t i = 0; i < es.size(); ++i) for (std::size_t j = vf::thorough() ? 0 : i; j < (vf::thorough() ? es.size() : std::min(es.size(), i + 3)); ++j) { auto &x = es[i], &y = es[j]; vf::step(); auto w = x.a != y.a ? sg(x.a.compare(y.a)) : sg(x.b.compare(y.b)); VF_CHECK(sg((x.a + x.b).compare(y.a + y.b)) == w, "composite", "keys of %s and %s: the second column or the end of the first decided", p.name.c_str(), q.name.c_str());
        vf::state(); }
    vf::trace();
}
static void refused() {
    vf::at("values a column cannot hold");
    auto t = [&](any const& a, col const& c, status want, char const* what) { for (int sp = 0; sp < 3; ++sp) for (bool nu : {false, true}) for (bool rf : {false, true}) { char b[256]; kvs::writable_stream w(b, sizeof b); status st{}; try { st = enc(a, c, nu, rf, specs_[sp], w); } catch (std::exception const& e) { vf::violation("refuse-throws", vf::strf("%s: %s", what, e.what())); } vf::state(); VF_CHECK(st == want, "refuse", "%s (%s): status %d instead of %d", what, sn[sp], (int) st, (int) want); } };
    for (std::size_t len = 1; len <= 40; ++len) for (bool vary : {false, true}) for (std::size_t n = 0; n <= len + 3; ++n) {
        col c{"c", meta::field_type{opt(meta::character_field_option{vary, len})}, {}}; c.write = true; std::string s(n, 'x');
        t(text_(s), c, n > len ? status::err_insufficient_field_storage : status::ok, "a string longer than its column");
        c.write = false; t(text_(s), c, status::ok, "a search string longer than its column");
        col o{"o", meta::field_type{opt(meta::octet_field_option{vary, len})}, {}}; o.write = true; t(bin_(s), o, n > len ? status::err_insufficient_field_storage : status::ok, "octets longer than their column");
        res.clear();
    }
    for (std::size_t n = 1; n < 20; ++n) for (std::size_t z = 0; z < n; ++z) { std::string s(n, 'x'); s[z] = 0; for (bool w : {false, true}) { col c{"c", meta::field_type{opt(meta::character_field_option{true, 50})}, {}}; c.write = w; t(text_(s), c, status::err_invalid_runtime_value, "a string with a NUL"); } }
    { col c{"c", meta::field_type{opt(meta::character_field_option{false, std::nullopt})}, {}}; c.write = true; t(text_("a"), c, status::ok, "char of default length"); t(text_("ab"), c, status::err_insufficient_field_storage, "char of default length"); }
    { col c{"o", meta::field_type{opt(meta::octet_field_option{false, std::nullopt})}, {}}; c.write = true; t(bin_("a"), c, status::ok, "binary of default length"); t(bin_("ab"), c, status::err_insufficient_field_storage, "binary of default length"); }
    for (std::size_t lim : {std::size_t(30716), std::size_t(2 * 1024 * 1024 - 20)}) for (std::size_t n : {lim, lim + 1}) for (int sp = 0; sp < 3; ++sp) {     // the default maximum differs between keys and values
        std::string s(n, 'x'); auto bad = n > (sp == 2 ? std::size_t(2 * 1024 * 1024 - 20) : std::size_t(30716));
        col c{"c", meta::field_type{opt(meta::character_field_option{true, std::nullopt})}, {}}, o{"o", meta::field_type{opt(meta::octet_field_option{true, std::nullopt})}, {}}; c.write = o.write = true;
        for (auto* x : {&c, &o}) { kvs::writable_stream w(nullptr, 0, true); auto st = enc(x == &c ? text_(s) : bin_(s), *x, false, false, specs_[sp], w); vf::state(); VF_CHECK(st == (bad ? status::err_insufficient_field_storage : status::ok), "refuse-default", "%s of %zu bytes as %s: status %d", x->name.c_str(), n, sn[sp], (int) st); } res.clear(); }
    for (int p = 1; p <= 38; ++p) for (int s : {0, 1, p / 2, p}) if (s <= p) for (int e : {-s - 1, -s, -s + 1, 0, 1}) for (int dg = 1; dg <= 38; ++dg) for (int last : {1, 0}) for (int sgn : {1, -1}) {
        u128 m = p10(dg - 1) * (last || dg == 1 ? 1 : 10 > 0 ? 1 : 0); if (last && dg > 1) m += 1; if (m == 0) continue;
        // fits iff m * 10^e = k * 10^-s for an integer k of at most p digits
        int up = e + s; bool ok = up >= 0 ? dg + up <= p : m % 10 == 0 && dg - 1 <= p; if (up < -1) continue;
        col c{"d", meta::field_type{opt(meta::decimal_field_option{(std::size_t) p, (std::size_t) s})}, {}}; char b[64]; kvs::writable_stream w(b, sizeof b); vf::state();
        auto st = enc(A(triple(sgn, (u64) (m >> 64), (u64) m, e)), c, false, false, specs_[0], w);
        VF_CHECK(st == (ok ? status::ok : status::err_expression_evaluation_failure), "refuse-decimal", "%d digits with exponent %d in decimal(%d,%d): status %d", dg, e, p, s, (int) st);
    }
    for (auto& o : {meta::decimal_field_option{std::nullopt, 1}, meta::decimal_field_option{5, std::nullopt}, meta::decimal_field_option{}}) { col c{"d", meta::field_type{opt(o)}, {}}; t(A(triple(1, 0, 1, 0)), c, status::err_expression_evaluation_failure, "decimal without precision or scale"); }
}
// whatever the stored bytes are, reading ends with a value or with the corruption status
static void garbage(col const& c, int sp, bool nullable) {
    vf::at("damaged %s", c.name.c_str());
    auto run = [&](std::string const& s) {
        std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]); std::memcpy(b.get(), s.data(), s.size()); vf::state();
        for (int mode = 0; mode < 3; ++mode) { kvs::readable_stream r(b.get(), s.size()); any out; status st{};
            try { st = mode == 2 ? (nullable ? kvs::consume_stream_nullable(r, c.t, specs_[sp], rd) : kvs::consume_stream(r, c.t, specs_[sp], rd)) : dec(r, c, nullable, mode == 1, specs_[sp], out); } catch (std::exception const& e) { vf::violation("damaged-throws", vf::strf("%s from %s: %s", c.name.c_str(), vf::hexs(s).c_str(), e.what())); }
            VF_CHECK(st == status::ok || st == status::err_data_corruption, "damaged-status", "%s from %s: status %d", c.name.c_str(), vf::hexs(s).c_str(), (int) st);
            if (st == status::ok) VF_CHECK(r.size() <= s.size(), "damaged-overrun", "%s from the %zu bytes %s: %zu bytes used", c.name.c_str(), s.size(), vf::hexs(s).c_str(), r.size());
            if (nullable && !s.empty()) { auto f = sp == 0 ? s[0] : (char) ~s[0]; VF_CHECK((f == (char) 0x80 || f == (char) 0x81) || st == status::err_data_corruption, "damaged-flag", "%s with null flag %s", c.name.c_str(), vf::hexs(s).c_str()); } }
        res.clear();
    };
    for (int a = 0; a < 256; ++a) { run(std::string(1, (char) a)); for (int b : {0, 1, 0x7f, 0x80, 0x81, 0xff}) for (std::size_t n : {2, 3, 4, 5, 8, 9, 12, 15, 16, 17}) for (int x : {0, 0xff, 1}) { std::string s(n, (char) x); s[0] = (char) a; s[1] = (char) b; run(s); } }
}
static void through_buffer(col const& c) {
    vf::at("%s through a growing buffer", c.name.c_str());
    for (std::size_t i = 0; i < c.vs.size(); ++i) for (std::size_t j : {i, c.vs.size() - 1 - i}) for (std::size_t cap : {0, 1, 5, 9, 100}) for (int sp = 0; sp < 2; ++sp) for (bool nu : {false, true}) {
        data::aligned_buffer b(cap); std::string want = stored(c.vs[i].stored, sp, nu, false) + stored(c.vs[j].stored, sp, nu, false); auto x = c.write ? wr : rd;
        auto st = utils::encode_any(b, c.t, nu, specs_[sp], x, {c.vs[i].v, c.vs[j].v}); vf::step(); vf::state();
        VF_CHECK(st == status::ok && static_cast<std::string_view>(b) == want, "buffer", "%s: two values into a buffer of %zu: status %d, %s instead of %s", c.name.c_str(), cap, (int) st, vf::hexs(static_cast<std::string_view>(b)).c_str(), vf::hexs(want).c_str());
    }
}
int main(int argc, char** argv) {
    vf::init(argc, argv); wr.coding_for_write(true); build();
    std::size_t unit = 0;
    for (auto& c : cols) for (int sp = 0; sp < 3; ++sp) for (bool nu : {false, true}) {
        if (sp < 2 && vf::mine(unit++)) order(c, sp, nu);
        if (!vf::mine(unit++)) continue;
        for (bool rf : {false, true}) { if (nu) one(c, nullptr, sp, true, rf); for (auto& v : c.vs) one(c, &v, sp, nu, rf); }
    }
    auto nf = [](col const& c) { return c.name.compare(0, 7, "decimal") || c.name == "decimal(5,5)" || c.name == "decimal(38,10)"; };
    for (auto& p : cols) for (auto& q : cols) if (p.ordered && nf(p) && nf(q)) for (int d = 0; d < 4; ++d) if (vf::mine(unit++)) composite(p, q, d & 1, d >> 1);
    for (auto& c : cols) if (vf::mine(unit++)) through_buffer(c);
    // the remaining parts release the resource, so they come last
    if (vf::mine(unit++)) refused();
    for (auto& c : cols) for (int sp = 0; sp < 3; ++sp) for (bool nu : {false, true}) if (vf::mine(unit++)) garbage(c, sp, nu);
    vf::bound_note("39 column types over boundary values (strings up to length 3, thorough 4, over 5 bytes; all magnitudes of digits of decimals), both key orders and values, nullable or not, every buffer size and truncation; all pairs in order; all pairs of two column types for composite keys; damaged bytes of up to 17 bytes");
    vf::sample("timestamp -1.999999999 before 0.0; key bytes 7fffffffffffffff bb9ac9ff");
    return vf::finish();
}
