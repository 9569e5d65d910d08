// C23: records in memory. Layout of every schema up to a length, independence of fields, copies, order, equality, hash and
// partition of all pairs of values, and record stores under every pattern of memory placement.
#include "anyval.h"
#include <jogasaki/accessor/record_copier.h>
#include <jogasaki/configuration.h>
#include <jogasaki/data/iterable_record_store.h>
#include <jogasaki/data/record_store.h>
#include <jogasaki/data/result_store.h>
#include <jogasaki/data/small_record_store.h>
#include <jogasaki/executor/comparator.h>
#include <jogasaki/executor/equal_to.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/hash.h>
#include <jogasaki/executor/partitioner.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/meta/record_meta.h>
#include <jogasaki/utils/copy_field_data.h>
#include <cmath>
#include <memory>
namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration>) { static takatori::util::maybe_shared_ptr<configuration> p = std::make_shared<configuration>(); return p; }
memory::page_pool& page_pool(pool_operation) { static memory::page_pool p; return p; }
}
using meta_t = meta::record_meta; using executor::ordering;
struct K { kind k; char const* name; std::size_t size, align; meta::field_type t; std::vector<std::pair<int, any>> vs; };      // values with their rank
static std::vector<K> ks;
template <class T> static std::shared_ptr<T> opt(T t) { return std::make_shared<T>(std::move(t)); }
template <kind X> static meta::field_type ft() { return meta::field_type{meta::field_enum_tag<X>}; }
static void build() {
    auto add = [](kind k, char const* n, std::size_t s, std::size_t a, meta::field_type t, std::vector<std::vector<any>> v) { K x{k, n, s, a, std::move(t), {}}; for (std::size_t r = 0; r < v.size(); ++r) for (auto& y : v[r]) x.vs.push_back({(int) r, y}); ks.push_back(std::move(x)); };
    auto each = [](auto... v) { return std::vector<std::vector<any>>{{A(v)}...}; };
    add(kind::boolean, "boolean", 1, 1, ft<kind::boolean>(), each(std::int8_t(0), std::int8_t(1)));
    for (auto [k, n] : {std::pair{0, "int1"}, {1, "int2"}, {2, "int4"}}) add(k == 0 ? kind::int1 : k == 1 ? kind::int2 : kind::int4, n, 4, 4, k == 0 ? ft<kind::int1>() : k == 1 ? ft<kind::int2>() : ft<kind::int4>(), each(INT32_MIN, -256, -1, 0, 1, 255, 256, 65536, INT32_MAX));
    add(kind::int8, "int8", 8, 8, ft<kind::int8>(), each(INT64_MIN, i64(-4294967296), i64(-1), i64(0), i64(1), i64(2147483648), i64(4294967296), INT64_MAX));
    { float n = std::numeric_limits<float>::quiet_NaN(), f = INFINITY; add(kind::float4, "float4", 4, 4, ft<kind::float4>(), {{A(-f)}, {A(-3.4028235e38F)}, {A(-1.0F)}, {A(-1e-45F)}, {A(0.0F), A(-0.0F)}, {A(1e-45F)}, {A(1.0F)}, {A(1.0000001F)}, {A(3.4028235e38F)}, {A(f)}, {A(n), A(-n), A(std::nanf("5"))}}); }
    { double n = std::numeric_limits<double>::quiet_NaN(), f = INFINITY; add(kind::float8, "float8", 8, 8, ft<kind::float8>(), {{A(-f)}, {A(-1.7976931348623157e308)}, {A(-1.0)}, {A(-5e-324)}, {A(0.0), A(-0.0)}, {A(5e-324)}, {A(1.0)}, {A(1.0000000000000002)}, {A(1.7976931348623157e308)}, {A(f)}, {A(n), A(-n), A(std::nan("5"))}}); }
    add(kind::decimal, "decimal", sizeof(triple), alignof(triple), meta::field_type{opt(meta::decimal_field_option{})}, {{A(triple(-1, 1, 0, 0))}, {A(triple(-1, 0, ~u64(0), 0))}, {A(triple(-1, 0, 15, -1)), A(triple(-1, 0, 150, -2))}, {A(triple(-1, 0, 1, 0))}, {A(triple(-1, 0, 1, -30))}, {A(triple(0, 0, 0, 0)), A(triple(0, 0, 0, 3)), A(triple(0, 0, 0, -3))}, {A(triple(1, 0, 1, -30))}, {A(triple(1, 0, 5, -1)), A(triple(1, 0, 50, -2))}, {A(triple(1, 0, 1, 0)), A(triple(1, 0, 100, -2))}, {A(triple(1, 0, 1, 1)), A(triple(1, 0, 10, 0))}, {A(triple(1, 0, ~u64(0), 0))}, {A(triple(1, 1, 0, 0))}, {A(triple(1, 0, 1, 30))}});
    std::vector<std::string> ss; vf::all_strings(std::string_view("\x00" "a\x7f\xff", 4), 2, [&](std::string const& s) { ss.push_back(s); }); for (int n : {14, 15, 16, 40}) for (char e : {'\0', 'a', '\xff'}) ss.push_back(std::string(n, 'a') + e); std::sort(ss.begin(), ss.end());
    std::vector<std::vector<any>> c, o; for (auto& s : ss) c.push_back({text_(s)}), o.push_back({bin_(s)});
    add(kind::character, "character", 16, 8, meta::field_type{opt(meta::character_field_option{})}, c);
    add(kind::octet, "octet", 16, 8, meta::field_type{opt(meta::octet_field_option{})}, o);
    add(kind::date, "date", sizeof(dt::date), alignof(dt::date), ft<kind::date>(), each(dt::date(INT64_MIN), dt::date(-1), dt::date(0), dt::date(1), dt::date(INT64_MAX)));
    add(kind::time_of_day, "time_of_day", sizeof(dt::time_of_day), alignof(dt::time_of_day), meta::field_type{opt(meta::time_of_day_field_option{})}, each(dt::time_of_day(dt::time_of_day::time_unit(0)), dt::time_of_day(dt::time_of_day::time_unit(1)), dt::time_of_day(dt::time_of_day::time_unit(1000000000)), dt::time_of_day(dt::time_of_day::time_unit(86399999999999))));
    auto tp = [](i64 s, int n) { return dt::time_point{dt::time_point::offset_type(s), dt::time_point::subsecond_unit(n)}; };
    add(kind::time_point, "time_point", sizeof(dt::time_point), alignof(dt::time_point), meta::field_type{opt(meta::time_point_field_option{})}, each(tp(INT64_MIN, 0), tp(-2, 999999999), tp(-1, 0), tp(-1, 1), tp(-1, 999999999), tp(0, 0), tp(0, 1), tp(1, 0), tp(INT64_MAX, 999999999)));
    auto P = [](int p) { return (lob::lob_data_provider) p; };
    add(kind::blob, "blob", sizeof(lob::blob_reference), alignof(lob::blob_reference), ft<kind::blob>(), each(lob::blob_reference(0, P(0)), lob::blob_reference(1, P(0)), lob::blob_reference(~u64(0), P(0)), lob::blob_reference(0, P(1)), lob::blob_reference(1, P(1))));
    add(kind::clob, "clob", sizeof(lob::clob_reference), alignof(lob::clob_reference), ft<kind::clob>(), each(lob::clob_reference(0, P(0)), lob::clob_reference(1, P(0)), lob::clob_reference(~u64(0), P(0)), lob::clob_reference(0, P(1)), lob::clob_reference(1, P(1))));
}
static boost::dynamic_bitset<std::uint64_t> bits(std::size_t n, unsigned m) { boost::dynamic_bitset<std::uint64_t> b(n); for (std::size_t i = 0; i < n; ++i) b[i] = m >> i & 1; return b; }
static std::shared_ptr<meta_t> make(std::vector<int> const& f, unsigned nulls) { std::vector<meta::field_type> t; for (int i : f) t.push_back(ks[i].t); return std::make_shared<meta_t>(std::move(t), bits(f.size(), nulls)); }
// a record of a schema: exact memory
struct R { std::shared_ptr<meta_t> m; std::unique_ptr<char, void (*)(void*)> b; R(std::shared_ptr<meta_t> x) : m(x), b((char*) aligned_alloc(x->record_alignment(), x->record_size() ? x->record_size() : x->record_alignment()), std::free) { std::memset(b.get(), 0x5a, m->record_size()); }
    accessor::record_ref ref() const { return {b.get(), m->record_size()}; } accessor::const_record_ref cref() const { return {b.get(), m->record_size()}; } };
static void put(R& r, std::size_t i, any const& v) { auto q = r.ref(); if (r.m->nullable(i)) q.set_null(r.m->nullity_offset(i), v.empty()); if (!v.empty()) set(q, r.m->value_offset(i), v, r.m->at(i).kind()); }
static std::string at(accessor::const_record_ref q, meta_t const& m, std::size_t i) { if (m.nullable(i) && q.is_null(m.nullity_offset(i))) return "null"; return show(get(q, m.value_offset(i), m.at(i).kind())); }
static std::string names(std::vector<int> const& f, unsigned nulls) { std::string s; for (std::size_t i = 0; i < f.size(); ++i) s += std::string(i ? "," : "") + ks[f[i]].name + (nulls >> i & 1 ? "?" : ""); return "(" + s + ")"; }
static any pick(K const& k, std::size_t n) { return k.vs[n % k.vs.size()].second; }

static void layout(std::vector<int> const& f, unsigned nulls) {
    auto w = names(f, nulls); vf::at("record %s", w.c_str()); vf::state(); vf::step(); auto m = make(f, nulls); auto n = f.size(), sz = m->record_size(), al = m->record_alignment();
    VF_CHECK(m->field_count() == n && (al & (al - 1)) == 0 && al && sz % al == 0, "layout", "%s: size %zu, alignment %zu", w.c_str(), sz, al);
    std::vector<int> owner(sz, -1); std::vector<char> used(n, 0); std::size_t nn = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto& k = ks[f[i]]; auto o = m->value_offset(i);
        VF_CHECK(o % k.align == 0 && o + k.size <= sz && al % k.align == 0, "layout-field", "%s: field %zu of %zu bytes at %zu of %zu", w.c_str(), i, k.size, o, sz);
        for (std::size_t j = 0; j < k.size; ++j) { VF_CHECK(owner[o + j] < 0, "layout-overlap", "%s: fields %d and %zu share byte %zu", w.c_str(), owner[o + j], i, o + j); owner[o + j] = (int) i; }
        VF_CHECK(m->nullable(i) == ((nulls >> i & 1) != 0) && m->at(i) == k.t, "layout-kind", "%s field %zu", w.c_str(), i);
        if (nulls >> i & 1) ++nn; else VF_CHECK(m->nullity_offset(i) == meta_t::npos, "layout-nullity", "%s field %zu", w.c_str(), i);
    }
    std::vector<std::size_t> seen;
    for (std::size_t i = 0; i < n; ++i) if (nulls >> i & 1) { auto o = m->nullity_offset(i); VF_CHECK(o / 8 < sz && owner[o / 8] < 0 && std::find(seen.begin(), seen.end(), o) == seen.end(), "layout-nullity", "%s: null flag of field %zu at bit %zu", w.c_str(), i, o); seen.push_back(o); }
    // writing one field leaves the others
    R r(m); for (std::size_t i = 0; i < n; ++i) put(r, i, pick(ks[f[i]], i));
    for (std::size_t i = 0; i < n; ++i) for (int what = 0; what < 3; ++what) {
        std::vector<std::string> want; for (std::size_t j = 0; j < n; ++j) want.push_back(at(r.cref(), *m, j));
        any v = what == 1 && m->nullable(i) ? any{} : pick(ks[f[i]], i + what + 1); put(r, i, v); want[i] = show(v); vf::step();
        for (std::size_t j = 0; j < n; ++j) VF_CHECK(at(r.cref(), *m, j) == want[j], "field", "%s: after writing field %zu, field %zu is %s", w.c_str(), i, j, at(r.cref(), *m, j).c_str());
    }
}
// copies keep all fields, and own their strings
static void copies(std::vector<int> const& f, unsigned nulls) {
    auto w = names(f, nulls); vf::at("copy of %s", w.c_str()); auto m = make(f, nulls);
    for (std::size_t seed = 0; seed < 24; ++seed) for (unsigned isnull = 0; isnull < (1U << f.size()); ++isnull) if ((isnull & ~nulls) == 0) {
        vf::exact_resource src, mid, dst; R r(m); std::vector<std::string> want;
        for (std::size_t i = 0; i < f.size(); ++i) {
            any v = isnull >> i & 1 ? any{} : pick(ks[f[i]], seed + i * 5); want.push_back(show(v));
            if (!v.empty() && ks[f[i]].k == kind::character) { auto t = v.to<accessor::text>(); v = A(accessor::text(&src, static_cast<std::string_view>(t))); }
            if (!v.empty() && ks[f[i]].k == kind::octet) { auto t = v.to<accessor::binary>(); v = A(accessor::binary(&src, static_cast<std::string_view>(t))); }
            put(r, i, v);
        }
        R d(m), e(m); accessor::record_copier c(m, &dst), shallow(m, nullptr); vf::state(); vf::step(2);
        c(d.ref(), r.cref()); shallow(e.ref(), r.cref()); VF_CHECK(!std::memcmp(e.b.get(), r.b.get(), m->record_size()), "copy-shallow", "%s", w.c_str());
        // single fields, from records and from any
        R g(m), h(m), q(m), t(m);
        for (std::size_t i = 0; i < f.size(); ++i) {
            any x, y; auto k = m->at(i); auto vo = m->value_offset(i); auto no = m->nullity_offset(i);
            if (m->nullable(i)) { utils::copy_nullable_field(k, g.ref(), vo, no, r.cref(), vo, no, &dst); utils::copy_nullable_field_as_any(k, r.cref(), vo, no, x, &mid); utils::copy_nullable_field(k, h.ref(), vo, no, x, &dst);
                utils::copy_nullable_field(k, q.ref(), vo, no, r.cref(), vo, no, nullptr); utils::copy_nullable_field_as_any(k, r.cref(), vo, no, y, nullptr); utils::copy_nullable_field(k, t.ref(), vo, no, y, nullptr); }
            else { utils::copy_field(k, g.ref(), vo, r.cref(), vo, &dst); utils::copy_field_as_any(k, r.cref(), vo, x, &mid); utils::copy_field(k, h.ref(), vo, x, &dst);
                utils::copy_field(k, q.ref(), vo, r.cref(), vo, nullptr); utils::copy_field_as_any(k, r.cref(), vo, y, nullptr); utils::copy_field(k, t.ref(), vo, y, nullptr); }
            if (!x.empty() || !(isnull >> i & 1)) { auto z = show(x); VF_CHECK(z == want[i], "any", "%s: field %zu is %s, not %s", w.c_str(), i, z.c_str(), want[i].c_str()); }
            VF_CHECK(at(q.cref(), *m, i) == want[i], "field-shallow", "%s: field %zu is %s", w.c_str(), i, at(q.cref(), *m, i).c_str()); VF_CHECK(at(t.cref(), *m, i) == want[i], "any-shallow", "%s: field %zu is %s", w.c_str(), i, at(t.cref(), *m, i).c_str());
        }
        // a copy is its own: what it was made from may go
        mid.clear(); std::vector<any> own(f.size()); for (std::size_t i = 0; i < f.size(); ++i) { auto k = m->at(i); if (m->nullable(i)) utils::copy_nullable_field_as_any(k, r.cref(), m->value_offset(i), m->nullity_offset(i), own[i], &dst); else utils::copy_field_as_any(k, r.cref(), m->value_offset(i), own[i], &dst); }
        src.clear(); std::memset(r.b.get(), 0, m->record_size());
        for (std::size_t i = 0; i < f.size(); ++i) { VF_CHECK(at(d.cref(), *m, i) == want[i], "copy", "%s: field %zu is %s, not %s", w.c_str(), i, at(d.cref(), *m, i).c_str(), want[i].c_str()); VF_CHECK(at(g.cref(), *m, i) == want[i], "copy-field", "%s: field %zu is %s", w.c_str(), i, at(g.cref(), *m, i).c_str()); VF_CHECK(show(own[i]) == want[i], "copy-own", "%s: field %zu is %s", w.c_str(), i, show(own[i]).c_str()); VF_CHECK(at(h.cref(), *m, i) == want[i], "copy-any", "%s: field %zu is %s", w.c_str(), i, at(h.cref(), *m, i).c_str()); }
    }
    vf::trace();
}
static int sg(int x) { return x < 0 ? -1 : x > 0; }
struct val { int rank; any v; };     // rank -1: null
static std::vector<val> domain(K const& k, bool nullable, std::size_t most) { std::vector<val> d; if (nullable) d.push_back({-1, {}}); for (std::size_t i = 0; i < k.vs.size(); ++i) if (k.vs.size() <= most || i % (k.vs.size() / most + 1) == 0 || i + 3 > k.vs.size()) d.push_back({k.vs[i].first, k.vs[i].second}); return d; }
// all pairs of records of two schemas of the same kinds, each field ordered as asked
static void order(std::vector<int> const& f, unsigned ln, unsigned rn, std::vector<ordering> const& os, std::size_t most) {
    auto w = names(f, ln) + " and " + names(f, rn); vf::at("order of %s", w.c_str()); auto lm = make(f, ln), rm = make(f, rn); auto n = f.size();
    executor::compare_info ci(*lm, *rm, os); executor::comparator cmp(ci); executor::hash lh(lm.get()), rh(rm.get());
    std::vector<std::pair<std::vector<int>, R>> L, Q;
    for (int side = 0; side < 2; ++side) {
        std::vector<std::vector<val>> d; std::size_t total = 1; for (std::size_t i = 0; i < n; ++i) { d.push_back(domain(ks[f[i]], (side ? rn : ln) >> i & 1, most)); total *= d[i].size(); }
        for (std::size_t x = 0; x < total; ++x) { R r(side ? rm : lm); std::vector<int> rk; auto y = x; for (std::size_t i = 0; i < n; ++i) { auto& v = d[i][y % d[i].size()]; y /= d[i].size(); put(r, i, v.v); rk.push_back(v.rank); } (side ? Q : L).emplace_back(std::move(rk), std::move(r)); }
    }
    executor::partitioner parts[] = {{1, rm}, {2, rm}, {3, rm}, {8, rm}, {97, rm}};
    bool hashable = true; for (int i : f) if (ks[i].k == kind::decimal) hashable = false;      // the library's hash of decimals is not here
    std::vector<std::size_t> hs; for (auto& q : Q) { hs.push_back(rh(q.second.cref())); VF_CHECK(rh((void*) q.second.b.get()) == hs.back(), "hash-pointer", "%s", w.c_str()); for (auto& p : parts) { std::size_t k = p(q.second.cref()); VF_CHECK(k < (&p == parts ? 1U : &p == parts + 1 ? 2U : &p == parts + 2 ? 3U : &p == parts + 3 ? 8U : 97U), "partition-range", "%s: partition %zu", w.c_str(), k); } }
    for (auto& l : L) { auto hl = lh(l.second.cref());
        for (std::size_t j = 0; j < Q.size(); ++j) { auto& q = Q[j]; int want = 0; for (std::size_t i = 0; i < n && !want; ++i) { want = sg(l.first[i] - q.first[i]); if (!os.empty() && os[i] == ordering::descending) want = -want; }
            auto got = sg(cmp(l.second.cref(), q.second.cref())); vf::state(); vf::step();
            if (got != want) { std::string s; for (std::size_t i = 0; i < n; ++i) s += at(l.second.cref(), *lm, i) + " / " + at(q.second.cref(), *rm, i) + "; "; VF_CHECK(false, "order", "%s: %scompare %d, expected %d", w.c_str(), s.c_str(), got, want); }
            if (want == 0 && hashable && hl != hs[j]) { std::string s; for (std::size_t i = 0; i < n; ++i) s += at(l.second.cref(), *lm, i) + " / " + at(q.second.cref(), *rm, i) + "; "; VF_CHECK(false, "hash", "%s: %sequal but hashed differently, so that they end up in different groups", w.c_str(), s.c_str()); } } }
    vf::trace();
}
template <class T> static void equal(K const& k) { vf::at("equality of %s", k.name); for (auto& a : k.vs) for (auto& b : k.vs) { T x = a.second.to<T>(), y = b.second.to<T>(); vf::state(); VF_CHECK(executor::equal_to<T>(x, y) == (a.first == b.first), "equal", "%s: %s and %s", k.name, show(a.second).c_str(), show(b.second).c_str()); VF_CHECK(executor::less{}(x, y) == (a.first < b.first), "less", "%s: %s and %s", k.name, show(a.second).c_str(), show(b.second).c_str()); } }
// memory handed out as a script says: next to the last block, behind a gap, or before it
struct scripted : memory::paged_memory_resource {
    std::vector<char> arena = std::vector<char>(1 << 16); std::vector<int> script; std::size_t i = 0; char *last{}, *lo{}, *hi{};
    void begin(std::vector<int> s) { script = std::move(s); i = 0; auto mid = (reinterpret_cast<std::uintptr_t>(arena.data()) + arena.size() / 2 + 63) / 64 * 64; last = nullptr; lo = hi = reinterpret_cast<char*>(mid); std::memset(arena.data(), 0x77, arena.size()); }
    void end_current_page() override {}
    void* do_allocate(std::size_t n, std::size_t a) override {
        int how = i < script.size() ? script[i] : 0; ++i; auto up = [&](char* p) { return reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(p) + a - 1) / a * a); }; char* p;
        if (how == 0 && last && last + n == hi) p = up(hi); else if (how == 2) p = reinterpret_cast<char*>(reinterpret_cast<std::uintptr_t>(lo - n) / a * a); else p = up(hi + (how == 1 ? 64 : 0));
        last = p; if (p < lo) lo = p; if (p + n > hi) hi = p + n; return p;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {} bool do_is_equal(boost::container::pmr::memory_resource const& o) const noexcept override { return this == &o; } std::size_t do_page_remaining(std::size_t) const noexcept override { return 0; }
};
static void stores(std::vector<int> const& f, unsigned nulls) {
    auto w = names(f, nulls); auto m = make(f, nulls); scripted sr; std::size_t const depth = vf::thorough() ? 8 : 6;
    for (std::size_t n = 0; n <= depth; ++n) { std::size_t total = 1; for (std::size_t i = 0; i < n; ++i) total *= 3;
        for (std::size_t x = 0; x < total; ++x) {
            vf::at("store of %zu records %s placed %zu", n, w.c_str(), x); std::vector<int> sc; auto y = x; for (std::size_t i = 0; i < n; ++i) sc.push_back((int) (y % 3)), y /= 3;
            vf::exact_resource vr; sr.begin(sc); vf::state(); data::iterable_record_store st(&sr, &vr, m);
            for (int round = 0; round < 2; ++round) {
                std::vector<std::vector<std::string>> want; std::vector<void*> ps;
                for (std::size_t i = 0; i < n; ++i) { R r(m); std::vector<std::string> s; for (std::size_t j = 0; j < f.size(); ++j) { any v = m->nullable(j) && (i + j) % 3 == 0 ? any{} : pick(ks[f[j]], i * 3 + j + x); put(r, j, v); s.push_back(show(v)); } want.push_back(s); auto got = st.append(r.cref()); ps.push_back(got.data()); vf::step(); VF_CHECK(got.size() == m->record_size(), "store-append", "%s", w.c_str()); }
                VF_CHECK(st.count() == n && st.empty() == (n == 0) && (n != 0) == (st.begin() != st.end()), "store-count", "%s: %zu records, count %zu", w.c_str(), n, st.count());
                std::size_t i = 0; for (auto it = st.begin(); it != st.end();) { VF_CHECK(i < n, "store-iterate", "%s: more than %zu records", w.c_str(), n); auto q = *it; VF_CHECK(q.data() == ps[i] && q.size() == m->record_size(), "store-iterate", "%s: record %zu of %zu (placed %zu) is not the one appended", w.c_str(), i, n, x); for (std::size_t j = 0; j < f.size(); ++j) VF_CHECK(at({q.data(), q.size()}, *m, j) == want[i][j], "store-value", "%s record %zu field %zu", w.c_str(), i, j); ++i; auto o = it; if (i & 1) ++it; else VF_CHECK(it++ == o, "store-postfix", "%s", w.c_str()); }
                VF_CHECK(i == n, "store-iterate", "%s: %zu of %zu records were visited (placed %zu)", w.c_str(), i, n, x);
                st.reset(); VF_CHECK(st.empty() && st.count() == 0 && st.begin() == st.end(), "store-reset", "%s", w.c_str()); sr.begin(sc);
            }
        } }
    vf::at("small store %s", w.c_str());
    for (std::size_t a = 0; a < 8; ++a) { vf::exact_resource vr, src; data::small_record_store s(m, &vr), t(m, &vr); VF_CHECK((bool) s && s.ref().size() == m->record_size() && reinterpret_cast<std::uintptr_t>(s.ref().data()) % m->record_alignment() == 0, "small", "%s", w.c_str());
        std::vector<std::string> want; R r(m); for (std::size_t j = 0; j < f.size(); ++j) { any v = pick(ks[f[j]], a * 7 + j); put(r, j, v); want.push_back(show(v)); } s.set(r.ref()); vf::state(); for (std::size_t j = 0; j < f.size(); ++j) VF_CHECK(at({s.ref().data(), s.ref().size()}, *m, j) == want[j], "small-value", "%s field %zu", w.c_str(), j); }
    vf::trace();
}
static void results() {
    auto m = make({2}, 1);
    for (std::size_t parts = 1; parts <= 4; ++parts) for (bool grow : {false, true}) { std::size_t total = 1; for (std::size_t i = 0; i < parts; ++i) total *= 4;
        for (std::size_t x = 0; x < total; ++x) {      // each partition: 0 to 2 records, or cleared again
            vf::at("results in %zu partitions, case %zu", parts, x); vf::state(); data::result_store rs; if (grow) { rs.initialize(m); for (std::size_t i = 0; i < parts; ++i) VF_CHECK(rs.add_partition() == i, "result-partition", "%zu", i); } else rs.initialize(parts, m);
            VF_CHECK(rs.partitions() == parts && rs.meta().get() == m.get(), "result-partitions", "%zu", parts); std::vector<int> want; auto y = x; int v = 0;
            for (std::size_t p = 0; p < parts; ++p) { auto c = y % 4; y /= 4; for (std::size_t i = 0; i < (c == 3 ? 1 : c); ++i) { R r(m); put(r, 0, A(std::int32_t(++v))); rs.partition(p).append(r.cref()); vf::step(); if (c != 3) want.push_back(v); } if (c == 3) rs.clear_partition(p); VF_CHECK(rs.exists(p) == (c != 3), "result-exists", "%zu", p); }
            VF_CHECK(!rs.exists(parts) && rs.empty() == want.empty(), "result-empty", "case %zu", x); std::vector<int> got; for (auto it = rs.begin(); it != rs.end(); ++it) { got.push_back((*it).get_value<std::int32_t>(m->value_offset(0))); if (got.size() > want.size()) break; }
            VF_CHECK(got == want, "result-iterate", "%zu partitions, case %zu: %zu of %zu records", parts, x, got.size(), want.size());
        } }
    vf::trace();
}
int main(int argc, char** argv) {
    vf::init(argc, argv); build(); std::size_t u = 0; int n = (int) ks.size();
    for (int a = -1; a < n; ++a) for (int b = -1; b < n; ++b) { if (!vf::mine(u++)) continue; for (int c = -1; c < n; ++c) { std::vector<int> f; for (int x : {a, b, c}) if (x >= 0) f.push_back(x); if ((a < 0 && (b >= 0 || c >= 0)) || (b < 0 && c >= 0)) continue; for (unsigned m = 0; m < (1U << f.size()); ++m) { layout(f, m); if (f.size() <= 2 || vf::thorough() || (c % 3 == 0 && m % 3 == 0)) { if (f.size() < 3 || a >= 7 || b >= 7 || c >= 7) copies(f, m); } } } }
    for (std::size_t len = 4; len <= 33; ++len) for (int s = 0; s < n; ++s) if (vf::mine(u++)) { std::vector<int> f; for (std::size_t i = 0; i < len; ++i) f.push_back((int) (s + i * i) % n); if (len < 32) for (unsigned m : {0U, (1U << len) - 1, 0x55555555U & ((1U << len) - 1), 1U << (len - 1)}) layout(f, m); }
    for (int a = 0; a < n; ++a) { if (vf::mine(u++)) for (unsigned l : {0U, 1U}) for (unsigned r : {0U, 1U}) { order({a}, l, r, {}, 1000); for (auto o : {ordering::undefined, ordering::ascending, ordering::descending}) order({a}, l, r, {o}, 1000); }
        for (int b = 0; b < n; ++b) if (vf::mine(u++)) for (unsigned m = 0; m < 4; ++m) for (unsigned r : {0U, 3U, m ^ 1}) for (int o = 0; o < 4; ++o) order({a, b}, m, r, {o & 1 ? ordering::descending : ordering::ascending, o & 2 ? ordering::descending : ordering::undefined}, vf::thorough() ? 9 : 4);
        if (vf::mine(u++)) order({a, (a + 5) % n, (a + 8) % n}, 7, 2, {}, 3); }
    for (auto& k : ks) if (vf::mine(u++)) switch (k.k) {
        case kind::boolean: equal<std::int8_t>(k); break; case kind::int1: case kind::int2: case kind::int4: equal<std::int32_t>(k); break; case kind::int8: equal<i64>(k); break; case kind::float4: equal<float>(k); break; case kind::float8: equal<double>(k); break; case kind::decimal: equal<triple>(k); break;
        case kind::character: equal<accessor::text>(k); break; case kind::octet: equal<accessor::binary>(k); break; case kind::date: equal<dt::date>(k); break; case kind::time_of_day: equal<dt::time_of_day>(k); break; case kind::time_point: equal<dt::time_point>(k); break; default: break; }
    if (vf::mine(u++)) stores({}, 0);
    for (int a = 0; a < n; ++a) { if (vf::mine(u++)) stores({a}, a & 1); if (vf::mine(u++)) stores({a, (a + 3) % n}, 2); }
    if (vf::mine(u++)) results();
    vf::bound_note("all schemas of up to 3 of 14 field kinds x nullability, long schemas up to 31 fields; all pairs of boundary values per kind x nullability of both sides x order, pairs of records of two and three fields; record stores of up to 6 records (thorough 8) under every placement next to, behind or before; result stores of up to 4 partitions");
    vf::sample("(float8,int4?) NaN / -NaN; null / null");
    return vf::finish();
}
