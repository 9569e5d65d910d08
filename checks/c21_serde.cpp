// C21: result values on the wire. Every value of the enumerated sets, in every buffer size, against an encoder and a
// decoder written from docs/data-serde-ja.md; every byte string up to a length through the reader of its own type.
#include "vf.h"
#include <jogasaki/serializer/base128v.h>
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/serializer/value_input_exception.h>
#include <jogasaki/serializer/value_output.h>
#include <jogasaki/serializer/value_writer.h>
#include <cmath>
#include <memory>
#include <optional>
namespace S = jogasaki::serializer;
using et = S::entry_type;
using i64 = std::int64_t; using u64 = std::uint64_t;
using it = takatori::util::buffer_view::iterator; using cit = takatori::util::buffer_view::const_iterator;
using triple = takatori::decimal::triple;
namespace dt = takatori::datetime;

// ---- the format, from the document
static std::string uint_(u64 v) { std::string s; for (int i = 0; i < 8; ++i) { auto g = v & 0x7f; v >>= 7; if (!v) { s += (char) g; return s; } s += (char) (g | 0x80); } s += (char) v; return s; }
static std::string sint_(i64 n) { return uint_((static_cast<u64>(n) << 1) ^ static_cast<u64>(n >> 63)); }
static std::string be(u64 v, int n) { std::string s; for (int i = n; i-- > 0;) s += (char) (v >> (8 * i)); return s; }
static std::string h(int b) { return std::string(1, (char) b); }
static std::string e_int(i64 v) { if (v >= 0 && v < 64) return h((int) v); if (v >= -16 && v < 0) return h((int) (0xd0 + v)); return h(0xe9) + sint_(v); }
static std::string e_len(std::size_t n, int embed, std::size_t max, int full) { if (n >= 1 && n <= max) return h(embed + (int) n - 1); return h(full) + uint_(n); }
static std::string twos(bool neg, unsigned __int128 c) {     // shortest big endian two's complement
    std::string s; unsigned __int128 v = neg ? ~c + 1 : c;
    for (int i = 16; i-- > 0;) s += (char) (unsigned char) (v >> (8 * i));
    s.insert(s.begin(), neg && c ? '\xff' : '\0');
    while (s.size() > 1 && ((s[0] == '\0' && !(s[1] & 0x80)) || (s[0] == '\xff' && (s[1] & 0x80)))) s.erase(s.begin());
    return s;
}
static std::string e_dec(triple t) {
    unsigned __int128 c = (static_cast<unsigned __int128>(t.coefficient_high()) << 64) | t.coefficient_low(); bool neg = t.sign() < 0;
    bool small = neg ? c <= (static_cast<unsigned __int128>(1) << 63) : c < (static_cast<unsigned __int128>(1) << 63);
    if (small) { i64 v = neg ? static_cast<i64>(~static_cast<u64>(c) + 1) : static_cast<i64>(c); return t.exponent() == 0 ? e_int(v) : h(0xec) + sint_(t.exponent()) + sint_(v); }
    auto b = twos(neg, c);
    return h(0xed) + sint_(t.exponent()) + uint_(b.size()) + b;
}
struct entry { std::string name; et type; std::string bytes, value; std::function<bool(it&, cit)> put; std::function<void(S::value_writer<struct sink>&)> writer; };
struct sink { std::string s; int write(char const* p, std::uint32_t n) { s.append(p, n); return 0; } };

// what a reader of each type gives back, as text
static std::string fl(double d) { u64 b; std::memcpy(&b, &d, 8); return vf::strf("f%016llx", (unsigned long long) b); }
static std::string f4(float d) { std::uint32_t b; std::memcpy(&b, &d, 4); return vf::strf("f%08x", b); }
static std::string dc(triple t) { return vf::strf("%s%016llx%016llxE%d", t.coefficient_high() || t.coefficient_low() ? (t.sign() < 0 ? "-" : "+") : "", (unsigned long long) t.coefficient_high(), (unsigned long long) t.coefficient_low(), t.exponent()); }
static std::string bits(std::string_view b, std::size_t n) { std::string s; for (std::size_t i = 0; i < n; ++i) s += ((unsigned char) b[i / 8] >> (i % 8)) & 1 ? '1' : '0'; return s; }
static std::string lob(std::tuple<u64, u64, u64> t) { return vf::strf("%llx.%llx.%llx", (unsigned long long) std::get<0>(t), (unsigned long long) std::get<1>(t), (unsigned long long) std::get<2>(t)); }
static std::string read_as(et t, cit& p, cit e) {
    switch (t) {
        case et::null: S::read_null(p, e); return "";
        case et::int_: return vf::strf("%lld", (long long) S::read_int(p, e));
        case et::float4: return f4(S::read_float4(p, e));
        case et::float8: return fl(S::read_float8(p, e));
        case et::decimal: return dc(S::read_decimal(p, e));
        case et::character: return std::string(S::read_character(p, e));
        case et::octet: return std::string(S::read_octet(p, e));
        case et::bit: { auto v = S::read_bit(p, e); return bits({v.block_data(), v.block_size()}, v.size()); }
        case et::date: return vf::strf("%lld", (long long) S::read_date(p, e).days_since_epoch());
        case et::time_of_day: return vf::strf("%llu", (unsigned long long) S::read_time_of_day(p, e).time_since_epoch().count());
        case et::time_of_day_with_offset: { auto v = S::read_time_of_day_with_offset(p, e); return vf::strf("%llu@%d", (unsigned long long) v.first.time_since_epoch().count(), v.second); }
        case et::time_point: { auto v = S::read_time_point(p, e); return vf::strf("%lld.%llu", (long long) v.seconds_since_epoch().count(), (unsigned long long) v.subsecond().count()); }
        case et::time_point_with_offset: { auto v = S::read_time_point_with_offset(p, e); return vf::strf("%lld.%llu@%d", (long long) v.first.seconds_since_epoch().count(), (unsigned long long) v.first.subsecond().count(), v.second); }
        case et::datetime_interval: { auto v = S::read_datetime_interval(p, e); return vf::strf("%d %d %d %lld", v.date().year(), v.date().month(), v.date().day(), (long long) v.time().offset().count()); }
        case et::row: return vf::strf("%zu", S::read_row_begin(p, e));
        case et::array: return vf::strf("%zu", S::read_array_begin(p, e));
        case et::clob: return lob(S::read_clob(p, e));
        case et::blob: return lob(S::read_blob(p, e));
        case et::end_of_contents: S::read_end_of_contents(p, e); return "";
        default: return "?";
    }
}
static et const types[] = {et::null, et::int_, et::float4, et::float8, et::decimal, et::character, et::octet, et::bit, et::date, et::time_of_day, et::time_of_day_with_offset, et::time_point, et::time_point_with_offset, et::datetime_interval, et::row, et::array, et::clob, et::blob, et::end_of_contents};
static std::vector<entry> all;
static void add(std::string n, et t, std::string b, std::string v, std::function<bool(it&, cit)> p, std::function<void(S::value_writer<sink>&)> w) { all.push_back({std::move(n), t, std::move(b), std::move(v), std::move(p), std::move(w)}); }
static std::vector<i64> ints;
static void build() {
    for (i64 v : {0, 1, -1, 2, -2, 15, 16, 17, -15, -16, -17, 31, 32, 33, 62, 63, 64, 65, -63, -64, -65}) ints.push_back(v);
    for (int k = 6; k < 64; ++k) for (int d = -1; d <= 1; ++d) { if (k < 63) { ints.push_back((1LL << k) + d); ints.push_back(-(1LL << k) + d); } }
    ints.push_back(INT64_MAX); ints.push_back(INT64_MAX - 1); ints.push_back(INT64_MIN); ints.push_back(INT64_MIN + 1);
    if (vf::thorough()) for (i64 v = -70000; v <= 70000; ++v) ints.push_back(v);
    else for (i64 v = -300; v <= 300; ++v) ints.push_back(v);
#define E(...) [=](it& p, cit e) { return S::__VA_ARGS__; }
#define W(...) [=](S::value_writer<sink>& w) { w.__VA_ARGS__; }
    add("end", et::end_of_contents, h(0xfe), "", E(write_end_of_contents(p, e)), W(write_end_of_contents()));
    add("null", et::null, h(0xe8), "", E(write_null(p, e)), W(write_null()));
    for (auto v : ints) {
        add(vf::strf("int %lld", (long long) v), et::int_, e_int(v), vf::strf("%lld", (long long) v), E(write_int(v, p, e)), W(write_int(v)));
        add(vf::strf("date %lld", (long long) v), et::date, h(0xf3) + sint_(v), vf::strf("%lld", (long long) v), E(write_date(dt::date(v), p, e)), W(write_date(dt::date(v))));
        if (v >= 0) add(vf::strf("time %lld", (long long) v), et::time_of_day, h(0xf4) + uint_(v), vf::strf("%lld", (long long) v), E(write_time_of_day(dt::time_of_day(dt::time_of_day::time_unit(v)), p, e)), W(write_time_of_day(dt::time_of_day(dt::time_of_day::time_unit(v)))));
    }
    for (float v : {0.0F, -0.0F, 1.0F, -1.5F, 3.4028235e38F, 1e-45F, INFINITY, -INFINITY, std::nanf("")}) add(vf::strf("float4 %g", v), et::float4, h(0xea) + [&] { std::uint32_t b; std::memcpy(&b, &v, 4); return be(b, 4); }(), f4(v), E(write_float4(v, p, e)), W(write_float4(v)));
    for (double v : {0.0, -0.0, 1.0, -1.5, 1.7976931348623157e308, 5e-324, (double) INFINITY, -(double) INFINITY, std::nan("")}) add(vf::strf("float8 %g", v), et::float8, h(0xeb) + [&] { u64 b; std::memcpy(&b, &v, 8); return be(b, 8); }(), fl(v), E(write_float8(v, p, e)), W(write_float8(v)));
    {
        std::vector<unsigned __int128> cs; auto one = static_cast<unsigned __int128>(1);
        for (int k = 0; k < 128; ++k) for (int d = -1; d <= 1; ++d) cs.push_back((one << k) + d);
        cs.push_back(~static_cast<unsigned __int128>(0)); cs.push_back(0);
        for (u64 a : {0ULL, 1ULL, 0xffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL}) for (u64 b : {0ULL, 0x7fULL, 0x8000000000000000ULL}) cs.push_back(static_cast<unsigned __int128>(a) << 64 | b);
        std::vector<std::int32_t> es{0, -1, 64, INT32_MIN}; if (vf::thorough()) for (std::int32_t x : {1, 38, -38, 63, -64, INT32_MAX}) es.push_back(x);
        for (auto c : cs) for (int s : {1, -1}) for (auto x : es) {
            triple t(s, static_cast<u64>(c >> 64), static_cast<u64>(c), x); auto b = e_dec(t);
            add("decimal " + dc(t), (unsigned char) b[0] == 0xec || (unsigned char) b[0] == 0xed ? et::decimal : et::int_, b, "D" + dc(t), E(write_decimal(t, p, e)), W(write_decimal(t)));
        }
    }
    std::vector<std::size_t> lens; for (std::size_t n = 0; n <= 70; ++n) lens.push_back(n); for (std::size_t n : {127, 128, 129, 300, 16383, 16384}) lens.push_back(n);
    for (auto n : lens) {
        std::string s; for (std::size_t i = 0; i < n; ++i) s += (char) (i * 37 + 200);
        add(vf::strf("character of %zu", n), et::character, e_len(n, 0x40, 64, 0xf0) + s, s, E(write_character(s, p, e)), W(write_character(s)));
        add(vf::strf("octet of %zu", n), et::octet, e_len(n, 0xd0, 16, 0xf1) + s, s, E(write_octet(s, p, e)), W(write_octet(s)));
        add(vf::strf("row of %zu", n), et::row, e_len(n, 0x80, 32, 0xf8), vf::strf("%zu", n), E(write_row_begin(n, p, e)), W(write_row_begin(n)));
        add(vf::strf("array of %zu", n), et::array, e_len(n, 0xa0, 32, 0xf9), vf::strf("%zu", n), E(write_array_begin(n, p, e)), W(write_array_begin(n)));
        for (std::size_t r : {std::size_t(0), std::size_t(1)}) {       // see DESIGN: only where the bitset view's iteration does not matter
            auto nb = n * 8 + r; if (n > 70) continue; std::string b = s + (r ? h(0xff) : ""); std::string want = b; if (r) want.back() = 1;
            add(vf::strf("bit of %zu", nb), et::bit, e_len(nb, 0xe0, 8, 0xf2) + want, bits(want, nb), E(write_bit(b, nb, p, e)), W(write_bit(b, nb)));
        }
    }
    for (i64 s : ints) if (std::llabs(s) > 64 || s % 16 == 0) for (u64 n : {0ULL, 1ULL, 127ULL, 128ULL, 999999999ULL}) {
        dt::time_point tp{dt::time_point::offset_type(s), dt::time_point::subsecond_unit(n)};
        add(vf::strf("time point %lld.%llu", (long long) s, (unsigned long long) n), et::time_point, h(0xf5) + sint_(s) + uint_(n), vf::strf("%lld.%llu", (long long) s, (unsigned long long) n), E(write_time_point(tp, p, e)), W(write_time_point(tp)));
        for (std::int32_t o : {0, 540, -720, INT32_MAX, INT32_MIN}) if (n < 2 || vf::thorough())
            add(vf::strf("time point %lld.%llu@%d", (long long) s, (unsigned long long) n, o), et::time_point_with_offset, h(0xef) + sint_(s) + uint_(n) + sint_(o), vf::strf("%lld.%llu@%d", (long long) s, (unsigned long long) n, o), E(write_time_point_with_offset(tp, o, p, e)), W(write_time_point_with_offset(tp, o)));
    }
    for (u64 v : {0ULL, 1ULL, 127ULL, 128ULL, 86399999999999ULL}) for (std::int32_t o : {0, 1, -1, 63, 64, -64, -65, 540, -720, INT32_MAX, INT32_MIN}) {
        dt::time_of_day t{dt::time_of_day::time_unit(v)};
        add(vf::strf("time %llu@%d", (unsigned long long) v, o), et::time_of_day_with_offset, h(0xee) + uint_(v) + sint_(o), vf::strf("%llu@%d", (unsigned long long) v, o), E(write_time_of_day_with_offset(t, o, p, e)), W(write_time_of_day_with_offset(t, o)));
    }
    std::vector<std::int32_t> parts{0, 1, -1, 63, 64, -65, INT32_MAX, INT32_MIN};
    for (auto y : parts) for (auto m : parts) for (auto d : parts) for (i64 t : {i64(0), i64(1), i64(-1), INT64_MAX, INT64_MIN}) {
        dt::datetime_interval v(dt::date_interval(y, m, d), dt::time_interval(dt::time_interval::time_unit(t)));
        add(vf::strf("interval %d %d %d %lld", y, m, d, (long long) t), et::datetime_interval, h(0xf6) + sint_(y) + sint_(m) + sint_(d) + sint_(t), vf::strf("%d %d %d %lld", y, m, d, (long long) t), E(write_datetime_interval(v, p, e)), W(write_datetime_interval(v)));
    }
    std::vector<u64> ids{0, 1, 0x0102030405060708ULL, ~0ULL};
    for (auto a : ids) for (auto b : ids) for (auto c : ids) {
        auto v = lob({a, b, c});
        add("blob " + v, et::blob, h(0xfb) + be(a, 8) + be(b, 8) + be(c, 8), v, E(write_blob(a, b, c, p, e)), W(write_blob(a, b, c)));
        add("clob " + v, et::clob, h(0xfa) + be(a, 8) + be(b, 8) + be(c, 8), v, E(write_clob(a, b, c, p, e)), W(write_clob(a, b, c)));
    }
#undef E
#undef W
}
static std::string want_value(entry const& x, et as) { if (x.value[0] == 'D' && x.name[0] == 'd' && x.name[1] == 'e') return as == et::decimal ? x.value.substr(1) : ""; return x.value; }
static void one(entry const& x) {
    vf::at("%s", x.name.c_str()); vf::state();
    auto n = x.bytes.size();
    for (std::size_t cap = n > 400 ? n - 3 : 0; cap <= n + 2; ++cap) {
        std::unique_ptr<char[]> buf(new char[cap ? cap : 1]); std::memset(buf.get(), 0x55, cap);
        it p = buf.get(); bool ok = false; vf::step();
        try { ok = x.put(p, buf.get() + cap); } catch (std::exception const& e) { vf::violation("write-throws", vf::strf("%s into %zu bytes (it needs %zu): %s", x.name.c_str(), cap, n, e.what())); }
        VF_CHECK(ok == (cap >= n), "write-fits", "%s into %zu bytes (it needs %zu): returned %d", x.name.c_str(), cap, n, (int) ok);
        if (!ok) { VF_CHECK(p == buf.get(), "write-moves", "%s did not fit but the position moved by %td", x.name.c_str(), p - buf.get()); continue; }
        VF_CHECK(p == buf.get() + n && std::string(buf.get(), n) == x.bytes, "write-bytes", "%s: wrote %s, the format says %s", x.name.c_str(), vf::hexs({buf.get(), (std::size_t) (p - buf.get())}).c_str(), vf::hexs(x.bytes).c_str());
        for (auto q = p; q < buf.get() + cap; ++q) VF_CHECK(*q == 0x55, "write-beyond", "%s: a byte behind the entry changed", x.name.c_str());
    }
    { sink sk; S::value_writer<sink> w(sk); x.writer(w); VF_CHECK(sk.s == x.bytes, "writer-bytes", "%s through the writer: %s, the format says %s", x.name.c_str(), vf::hexs(sk.s).c_str(), vf::hexs(x.bytes).c_str()); x.writer(w); VF_CHECK(sk.s == x.bytes + x.bytes, "writer-bytes", "%s twice through the writer", x.name.c_str()); }
    for (std::size_t cap = n > 400 ? n - 3 : 0; cap <= n + 1; ++cap) {
        std::unique_ptr<char[]> buf(new char[cap ? cap : 1]); std::memcpy(buf.get(), x.bytes.data(), std::min(cap, n)); if (cap > n) buf[n] = '\x80';
        cit b = buf.get(), e = b + cap;
        for (et t : types) {
            cit p = b; std::string got; int thrown = 0; vf::step();
            try { got = read_as(t, p, e); } catch (S::value_input_exception const& ex) { thrown = ex.reason() == S::value_input_exception::reason_code::buffer_underflow ? 1 : 2; } catch (std::runtime_error const&) { thrown = 3; }
            bool mine = t == x.type || (t == et::decimal && x.type == et::int_);
            if (mine && cap >= n) {
                VF_CHECK(!thrown && p == b + n, "read-back", "%s could not be read back (exception %d, %td of %zu bytes)", x.name.c_str(), thrown, p - b, n);
                auto w = want_value(x, t); if (t == et::decimal && x.name[0] == 'i') w = dc(triple(std::strtoll(x.value.c_str(), nullptr, 10), 0));
                if (!(x.name[0] == 'd' && x.name[1] == 'e' && t != et::decimal)) VF_CHECK(got == w, "read-value", "%s read back as %s", x.name.c_str(), got.c_str());
            } else {
                VF_CHECK(thrown, "read-accepts", "%s cut to %zu bytes was read as type %d", x.name.c_str(), cap, (int) t);
                VF_CHECK(p == b, "read-moves", "reading %s (cut to %zu) as type %d failed but moved", x.name.c_str(), cap, (int) t);
                if (mine || cap == 0) VF_CHECK(thrown == 1, "read-reason", "%s cut to %zu bytes: not reported as underflow", x.name.c_str(), cap);
            }
        }
        if (cap) VF_CHECK(S::peek_type(b, e) == x.type, "peek", "%s announces type %d", x.name.c_str(), (int) S::peek_type(b, e));
    }
    vf::trace();
}
// ---- the decoder from the document (strict about superfluous zero groups, as the implementation states)
struct cur { std::string_view s; std::size_t p = 0; bool bad = false; unsigned char get() { if (p >= s.size()) { bad = true; return 0; } return (unsigned char) s[p++]; }
    u64 u() { u64 v = 0; for (int i = 0; i < 9; ++i) { auto g = get(); if (bad) return 0; if (g == 0 && i) { bad = true; return 0; } if (i == 8) return v | static_cast<u64>(g) << 56; v |= static_cast<u64>(g & 0x7f) << (7 * i); if (!(g & 0x80)) return v; } return v; }
    i64 s_() { auto v = u(); return static_cast<i64>((v >> 1) ^ (~(v & 1) + 1)); }
    std::int32_t s32() { auto v = s_(); if (v < INT32_MIN || v > INT32_MAX) bad = true; return (std::int32_t) v; }
    std::string b(u64 n) { if (s.size() - p < n) { bad = true; return {}; } auto r = std::string(s.substr(p, n)); p += n; return r; }
    u64 sz() { auto n = u(); if (n > INT32_MAX) bad = true; return n; }
    u64 f(int n) { u64 v = 0; while (n--) v = v << 8 | get(); return v; } };
static et ref_type(int c) {
    if (c < 0x40) return et::int_; if (c < 0x80) return et::character; if (c < 0xa0) return et::row; if (c < 0xc0) return et::array; if (c < 0xd0) return et::int_; if (c < 0xe0) return et::octet; if (c < 0xe8) return et::bit;
    static et const m[] = {et::null, et::int_, et::float4, et::float8, et::decimal, et::decimal, et::time_of_day_with_offset, et::time_point_with_offset, et::character, et::octet, et::bit, et::date, et::time_of_day, et::time_point, et::datetime_interval, et::null, et::row, et::array, et::clob, et::blob, et::null, et::null, et::end_of_contents, et::null};
    return m[c - 0xe8];
}
static std::optional<std::string> ref_read(std::string_view s, std::size_t& used) {
    cur c{s}; int hd = c.get(); std::string r;
    if (hd < 0x40) r = vf::strf("%d", hd);
    else if (hd < 0x80) r = c.b(hd - 0x40 + 1);
    else if (hd < 0xa0) r = vf::strf("%d", hd - 0x80 + 1);
    else if (hd < 0xc0) r = vf::strf("%d", hd - 0xa0 + 1);
    else if (hd < 0xd0) r = vf::strf("%d", hd - 0xd0);
    else if (hd < 0xe0) r = c.b(hd - 0xd0 + 1);
    else if (hd < 0xe8) { auto n = (unsigned) hd - 0xe0 + 1; auto b = c.b((n + 7) / 8); if (!c.bad) r = bits(b, n); }
    else switch (hd) {
        case 0xe8: case 0xfe: break;
        case 0xe9: case 0xf3: r = vf::strf("%lld", (long long) c.s_()); break;
        case 0xea: r = vf::strf("f%08x", (unsigned) c.f(4)); break;
        case 0xeb: r = vf::strf("f%016llx", (unsigned long long) c.f(8)); break;
        case 0xec: { auto e = c.s32(); auto v = c.s_(); r = dc(triple(v < 0 ? -1 : 1, 0, v < 0 ? ~static_cast<u64>(v) + 1 : v, e)); break; }
        case 0xed: { auto e = c.s32(); auto n = c.u(); if (!c.bad && (n == 0 || n > 17)) c.bad = true; if (c.bad) break; auto b = c.b(n); if (c.bad) break;
            bool neg = b[0] & 0x80; if (n == 17) { if (b[0] == 0) {} else if (b[0] == '\xff') { if (b.find_first_not_of('\0', 1) == std::string::npos) c.bad = true; } else c.bad = true; }
            unsigned __int128 v = neg ? ~static_cast<unsigned __int128>(0) : 0; for (unsigned char x : b) v = v << 8 | x; if (neg) v = ~v + 1;
            r = dc(triple(neg ? -1 : 1, (u64) (v >> 64), (u64) v, e)); break; }
        case 0xee: { auto v = c.u(); auto o = c.s32(); r = vf::strf("%llu@%d", (unsigned long long) v, o); break; }
        case 0xef: { auto v = c.s_(); auto n = c.u(); auto o = c.s32(); r = vf::strf("%lld.%llu@%d", (long long) v, (unsigned long long) n, o); break; }
        case 0xf0: case 0xf1: { auto n = c.sz(); if (!c.bad) r = c.b(n); break; }
        case 0xf2: { auto n = c.sz(); if (!c.bad) { auto b = c.b((n + 7) / 8); if (!c.bad) r = bits(b, n); } break; }
        case 0xf4: r = vf::strf("%llu", (unsigned long long) c.u()); break;
        case 0xf5: { auto v = c.s_(); auto n = c.u(); r = vf::strf("%lld.%llu", (long long) v, (unsigned long long) n); break; }
        case 0xf6: { auto y = c.s32(); auto m = c.s32(); auto d = c.s32(); auto t = c.s_(); r = vf::strf("%d %d %d %lld", y, m, d, (long long) t); break; }
        case 0xf8: case 0xf9: r = vf::strf("%llu", (unsigned long long) c.sz()); break;
        case 0xfa: case 0xfb: { auto a = c.f(8); auto b = c.f(8); auto t = c.f(8); r = lob({a, b, t}); break; }
        default: c.bad = true;
    }
    if (c.bad) return {};
    used = c.p; return r;
}
static void raw(std::string_view s) {
    vf::step(); vf::state();
    static std::size_t const cap = 64; static std::unique_ptr<char[]> exact[cap];
    auto& b = exact[s.size()]; if (!b) b.reset(new char[s.size()]);
    std::memcpy(b.get(), s.data(), s.size());
    cit p = b.get(), e = p + s.size(); std::optional<std::string> got; bool reserved = false; et t{};
    try { t = S::peek_type(p, e); } catch (S::value_input_exception const&) { reserved = true; }
    int hd = (unsigned char) s[0]; bool want_reserved = hd == 0xf7 || hd == 0xfc || hd == 0xfd || hd == 0xff;
    VF_CHECK(reserved == want_reserved, "raw-reserved", "header %02x %s", hd, reserved ? "is not recognized" : "is reserved but accepted");
    if (reserved) return;
    VF_CHECK(t == ref_type(hd), "raw-type", "header %02x announced as type %d", hd, (int) t);
    try { got = read_as(t, p, e); } catch (S::value_input_exception const&) {}
    std::size_t used = 0; auto want = ref_read(s, used);
    VF_CHECK(got.has_value() == want.has_value(), "raw-accept", "%s was %s", vf::hexs(s).c_str(), got ? "accepted" : "refused");
    if (got) VF_CHECK(*got == *want && p == b.get() + used, "raw-value", "%s was read as %s using %td bytes, the format says %s using %zu", vf::hexs(s).c_str(), got->c_str(), p - b.get(), want->c_str(), used);
    else VF_CHECK(p == b.get(), "raw-moves", "%s was refused but the position moved", vf::hexs(s).c_str());
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    build();
    std::size_t unit = 0;
    for (auto& x : all) if (vf::mine(unit++)) one(x);
    // sequences of entries in one buffer
    std::vector<entry const*> few; { std::size_t i = 0; for (auto& x : all) if (x.bytes.size() < 60 && i++ % (all.size() / 28) == 0) few.push_back(&x); }
    for (std::size_t a = 0; a < few.size(); ++a) for (std::size_t b = 0; b < few.size(); ++b) {
        if (!vf::mine(unit++)) continue;
        for (std::size_t c = 0; c < few.size(); ++c) {
            entry const* q[] = {few[a], few[b], few[c]}; std::string want; for (auto* x : q) want += x->bytes;
            vf::at("%s, %s, %s", q[0]->name.c_str(), q[1]->name.c_str(), q[2]->name.c_str()); vf::trace();
            std::unique_ptr<char[]> buf(new char[want.size()]); it p = buf.get();
            for (auto* x : q) { vf::step(); VF_CHECK(x->put(p, buf.get() + want.size()), "seq-write", "does not fit"); }
            VF_CHECK(std::string(buf.get(), want.size()) == want && p == buf.get() + want.size(), "seq-write", "wrong bytes");
            cit r = buf.get();
            for (auto* x : q) { auto t = S::peek_type(r, p); auto v = read_as(x->value[0] == 'D' && x->name[1] == 'e' ? et::decimal : t, r, p); VF_CHECK(v == want_value(*x, x->value[0] == 'D' && x->name[1] == 'e' ? et::decimal : t), "seq-read", "%s read as %s", x->name.c_str(), v.c_str()); }
            VF_CHECK(r == p, "seq-read", "%td bytes left over", p - r);
        }
    }
    // every byte string up to 3 bytes; then every tail over selected bytes behind every header with variable parts
    vf::at("all byte strings up to 3 bytes");
    for (int a = 0; a < 256; ++a) {
        if (!vf::mine(unit++)) continue;
        vf::at("byte strings starting with %02x", a);
        char s[16] = {(char) a}; raw({s, 1});
        for (int b = 0; b < 256; ++b) { s[1] = (char) b; raw({s, 2}); vf::tick(); for (int c = 0; c < 256; c += !vf::thorough() && a < 0xe8 ? 37 : vf::thorough() || c < 4 || (c & 7) == 6 || c > 0xe6 ? 1 : (c & 7) == 7 ? 1 : 3) { s[2] = (char) c; raw({s, 3}); } }
        if (a >= 0xe8 && a != 0xfa && a != 0xfb) {
            static char const alpha[] = {0, 1, 0x7f, (char) 0x80, (char) 0xff, 2};
            int len = vf::thorough() ? 9 : 6, k = 6; u64 total = 1; for (int i = 0; i < len; ++i) total *= k;
            char s2[20] = {(char) a};
            for (u64 n = 0; n < total; ++n) { u64 m = n; for (int i = 0; i < len; ++i) { s2[1 + i] = alpha[m % k]; m /= k; } if ((n & 0xffff) == 0) vf::tick(); raw({s2, (std::size_t) len + 1}); }
            // long variable integers: 8 or more continued groups
            for (int cont = 0; cont <= 10; ++cont) for (int last = 0; last < 256; ++last) for (char g : {'\x80', '\xff', '\x81'}) { std::string t(1, (char) a); t.append(cont, g); t += (char) last; t.append(3, '\x01'); raw(t); }
            // decimal coefficients of every size
            if (a == 0xed) for (int n = 0; n <= 19; ++n) for (int f = 0; f < 256; ++f) for (int g : {0, 1, 0x7f, 0x80, 0xff}) for (int cut = 0; cut < 2; ++cut) { std::string t(1, (char) a); t += '\x04'; t += (char) n; if (n) { t += (char) f; t.append(n - 1, (char) g); } if (cut) t.pop_back(); raw(t); }
        }
    }
    vf::bound_note("every enumerated value of every entry type in every buffer size up to two bytes too large and read back at every truncation as every type; triples of 28 entries; every byte string of up to 2 bytes (3 in thorough; quick: about half of the values of the third byte), and 6 (thorough 9) byte tails over 6 byte values behind every header");
    vf::sample("blob 1.2.3 into 20 bytes: refused, position unchanged");
    return vf::finish();
}
