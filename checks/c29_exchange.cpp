// C29: exchanges. The real aggregate, group and forward flows (sinks, writers, partitions, readers) over every small sequence of rows,
// every assignment of rows to writers, every flush point and partition count, compared with a reference over the multiset of rows.
#include "vf.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <thread>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/expr/details/decimal_context.h>
#include <jogasaki/executor/exchange/aggregate/aggregate_info.h>
#include <jogasaki/executor/exchange/aggregate/flow.h>
#include <jogasaki/executor/exchange/aggregate/reader.h>
#include <jogasaki/executor/exchange/aggregate/sink.h>
#include <jogasaki/executor/exchange/forward/flow.h>
#include <jogasaki/executor/exchange/forward/forward_info.h>
#include <jogasaki/executor/exchange/group/flow.h>
#include <jogasaki/executor/exchange/group/group_info.h>
#include <jogasaki/executor/exchange/group/priority_queue_reader.h>
#include <jogasaki/executor/exchange/group/sorted_vector_reader.h>
#include <jogasaki/executor/exchange/sink.h>
#include <jogasaki/executor/exchange/source.h>
#include <jogasaki/executor/function/aggregate_function_info.h>
#include <jogasaki/executor/function/aggregate_function_repository.h>
#include <jogasaki/executor/function/builtin_functions.h>
#include <jogasaki/executor/function/incremental/aggregate_function_info.h>
#include <jogasaki/executor/function/incremental/aggregate_function_repository.h>
#include <jogasaki/executor/function/incremental/builtin_functions.h>
#include <jogasaki/executor/io/group_reader.h>
#include <jogasaki/executor/io/record_reader.h>
#include <jogasaki/executor/io/record_writer.h>
#include <jogasaki/data/value_store.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/meta/record_meta.h>
#include <jogasaki/request_context.h>
#include <jogasaki/request_info.h>
#include <takatori/type/type_kind.h>
#include <yugawara/aggregate/configurable_provider.h>
#include "anyval.h"
#include "num.h"
namespace ex = jogasaki::executor; namespace xc = ex::exchange; namespace fn = ex::function; using i32 = std::int32_t;
using TK = takatori::type::type_kind; using meta_ptr = std::shared_ptr<meta::record_meta>;
static std::shared_ptr<configuration> cfg = std::make_shared<configuration>();
static yugawara::aggregate::configurable_provider provider{}; static fn::incremental::aggregate_function_repository irepo{}; static fn::aggregate_function_repository grepo{};
template <class T> static meta::field_type ft(kind k) {
    switch (k) { case kind::boolean: return meta::field_type{meta::field_enum_tag<kind::boolean>}; case kind::int4: return meta::field_type{meta::field_enum_tag<kind::int4>}; case kind::int8: return meta::field_type{meta::field_enum_tag<kind::int8>}; case kind::float4: return meta::field_type{meta::field_enum_tag<kind::float4>}; case kind::float8: return meta::field_type{meta::field_enum_tag<kind::float8>};
        case kind::decimal: return meta::field_type{std::make_shared<meta::decimal_field_option>()}; case kind::character: return meta::field_type{std::make_shared<meta::character_field_option>()}; case kind::octet: return meta::field_type{std::make_shared<meta::octet_field_option>()}; case kind::date: return meta::field_type{meta::field_enum_tag<kind::date>};
        case kind::time_of_day: return meta::field_type{std::make_shared<meta::time_of_day_field_option>()}; case kind::time_point: return meta::field_type{std::make_shared<meta::time_point_field_option>()}; default: std::abort(); } }
static meta::field_type ftype(kind k) { return ft<void>(k); }
static TK tk(kind k) { switch (k) { case kind::boolean: return TK::boolean; case kind::int4: return TK::int4; case kind::int8: return TK::int8; case kind::float4: return TK::float4; case kind::float8: return TK::float8; case kind::decimal: return TK::decimal; case kind::character: return TK::character; case kind::octet: return TK::octet; case kind::date: return TK::date; case kind::time_of_day: return TK::time_of_day; case kind::time_point: return TK::time_point; default: std::abort(); } }
static meta_ptr mk(std::vector<kind> const& ks) { meta::record_meta::fields_type f; for (auto k : ks) f.push_back(ftype(k)); boost::dynamic_bitset<std::uint64_t> n(ks.size()); n.set(); return std::make_shared<meta::record_meta>(std::move(f), std::move(n)); }
template <class T> static std::string sv(T const& t) { return std::string(static_cast<std::string_view>(t)); }
using Row = std::vector<any>;   // one value per field
// a record holding the row; texts live in blocks of their own that are freed with it
struct Rec { meta_ptr m; std::unique_ptr<char[]> b; std::vector<std::unique_ptr<char[]>> t;
    Rec(meta_ptr mm, std::vector<kind> const& ks, Row const& r) : m(std::move(mm)), b(new char[m->record_size()]) { std::memset(b.get(), 0x5A, m->record_size()); auto q = ref();
        for (std::size_t i = 0; i < ks.size(); ++i) { q.set_null(m->nullity_offset(i), r[i].empty()); if (r[i].empty()) continue;
            if (ks[i] == kind::character) { std::string s = sv(r[i].to<accessor::text>()); t.emplace_back(new char[s.size() + 1]); std::memcpy(t.back().get(), s.data(), s.size()); q.set_value(m->value_offset(i), accessor::text{t.back().get(), s.size()}); }
            else if (ks[i] == kind::octet) { std::string s = sv(r[i].to<accessor::binary>()); t.emplace_back(new char[s.size() + 1]); std::memcpy(t.back().get(), s.data(), s.size()); q.set_value(m->value_offset(i), accessor::binary{t.back().get(), s.size()}); }
            else set(q, m->value_offset(i), r[i], ks[i]); } }
    accessor::record_ref ref() { return {b.get(), m->record_size()}; } };
static any at(accessor::record_ref q, meta::record_meta const& m, std::size_t i) { if (q.is_null(m.nullity_offset(i))) return any{}; return get(q, m.value_offset(i), m.at(i).kind()); }
static std::string rows(std::vector<Row> const& rs) { std::string s; for (auto& r : rs) { s += "("; for (auto& a : r) s += show(a) + " "; s += ")"; } return s; }
// order of values: null first, NaN last
static int cmp(any const& a, any const& b) {
    if (a.empty() || b.empty()) return (int) !a.empty() - (int) !b.empty();
    auto c = [](auto x, auto y) { return x < y ? -1 : y < x ? 1 : 0; };
    switch (a.type_index()) { case any::index<std::int8_t>: return c(a.to<std::int8_t>(), b.to<std::int8_t>()); case any::index<i32>: return c(a.to<i32>(), b.to<i32>()); case any::index<i64>: return c(a.to<i64>(), b.to<i64>());
        case any::index<float>: { auto x = a.to<float>(), y = b.to<float>(); if (std::isnan(x) || std::isnan(y)) return (int) std::isnan(x) - (int) std::isnan(y); return c(x, y); }
        case any::index<double>: { auto x = a.to<double>(), y = b.to<double>(); if (std::isnan(x) || std::isnan(y)) return (int) std::isnan(x) - (int) std::isnan(y); return c(x, y); }
        case any::index<triple>: return cmp(exact(a.to<triple>()), exact(b.to<triple>()));
        case any::index<accessor::text>: return sv(a.to<accessor::text>()).compare(sv(b.to<accessor::text>()));
        case any::index<accessor::binary>: return sv(a.to<accessor::binary>()).compare(sv(b.to<accessor::binary>()));
        case any::index<dt::date>: return c(a.to<dt::date>().days_since_epoch(), b.to<dt::date>().days_since_epoch()); case any::index<dt::time_of_day>: return c(a.to<dt::time_of_day>().time_since_epoch().count(), b.to<dt::time_of_day>().time_since_epoch().count());
        case any::index<dt::time_point>: { auto x = a.to<dt::time_point>(), y = b.to<dt::time_point>(); int r = c(x.seconds_since_epoch().count(), y.seconds_since_epoch().count()); return r ? r : c(x.subsecond().count(), y.subsecond().count()); } default: std::abort(); }
}
static int cmp(Row const& a, Row const& b) { for (std::size_t i = 0; i < a.size(); ++i) if (int r = cmp(a[i], b[i])) return r; return 0; }
struct RowLess { bool operator()(Row const& a, Row const& b) const { return cmp(a, b) < 0; } };
// ---- values of each type: ascending, the last kind special
static any tp(i64 s, int ns) { return A(dt::time_point{dt::time_point::offset_type{s}, std::chrono::nanoseconds{ns}}); }
static std::vector<any> domain(kind k) {
    std::string L(17, 'm'); float const n4 = std::numeric_limits<float>::quiet_NaN(); double const n8 = n4;
    switch (k) { case kind::boolean: return {A<std::int8_t>(0), A<std::int8_t>(1)}; case kind::int4: return {A<i32>(-7), A<i32>(2), A<i32>(1000)}; case kind::int8: return {A<i64>(-5000000000LL), A<i64>(2), A<i64>(40)}; case kind::float4: return {A(-1.5F), A(4.F), A(n4)}; case kind::float8: return {A(-1.5), A(4.), A(n8)};
        case kind::decimal: return {any{std::in_place_type<triple>, trib(-15, -1)}, any{std::in_place_type<triple>, trib(3, 0)}, any{std::in_place_type<triple>, triple{1, 0x1CB5BCF4A5ULL, 0x2D8B4B1A5C1EULL, -6}}}; case kind::character: return {text_(""), text_("b"), text_(L), text_(L + "\xE3\x81\x82")}; case kind::octet: return {bin_(""), bin_("\xFF"), bin_(L)};
        case kind::date: return {A(dt::date{-3}), A(dt::date{0}), A(dt::date{20000})}; case kind::time_of_day: return {A(dt::time_of_day{std::chrono::nanoseconds{0}}), A(dt::time_of_day{std::chrono::nanoseconds{86399999999999LL}})}; case kind::time_point: return {tp(-1, 999999999), tp(0, 0), tp(0, 1)}; default: std::abort(); } }
// ---- aggregates
struct Fn { std::string name; bool arg; };
static std::size_t lookup(std::string const& name, std::vector<TK> const& ks, TK* ret = nullptr) {
    std::size_t id = 0; int n = 0; for (auto& d : provider.v_) { if (d->name() != name) continue; std::vector<TK> p; for (auto& t : d->shared_parameter_types()) p.push_back(t->kind()); if (p != ks) continue; ++n; if (id == 0) { id = d->definition_id(); if (ret) *ret = d->return_type().kind(); } }
    if (n == 0) vf::violation("registration", name + " is not registered for its argument type"); return id; }
static fn::incremental::aggregate_function_info const& inc(std::string const& name, std::vector<TK> const& ks) { auto f = irepo.find(lookup(name, ks)); if (!f) vf::violation("registration", name + " has no body"); return *f; }
static bool numeric(kind k) { return k == kind::int4 || k == kind::int8 || k == kind::float4 || k == kind::float8 || k == kind::decimal; }
static std::vector<std::string> funcs(kind k) { std::vector<std::string> v{"count"}; if (k != kind::boolean) { v.push_back("max"); v.push_back("min"); } if (numeric(k)) { v.push_back("sum"); v.push_back("avg"); } v.push_back("*"); return v; }
static any ref_agg(std::string const& f, kind k, std::vector<any> const& vs) {
    std::vector<any> nn; for (auto& a : vs) if (!a.empty()) nn.push_back(a);
    if (f == "*") return A<i64>((i64) vs.size()); if (f == "count") return A<i64>((i64) nn.size()); if (nn.empty()) return any{};
    if (f == "max" || f == "min") { any b = nn[0]; for (auto& a : nn) if (f == "max" ? cmp(a, b) > 0 : cmp(a, b) < 0) b = a; return b; }
    i64 n = (i64) nn.size(); bool avg = f == "avg";
    switch (k) { case kind::int4: { i32 s = 0; for (auto& a : nn) s += a.to<i32>(); return A<i32>(avg ? (i32) (s / n) : s); } case kind::int8: { i64 s = 0; for (auto& a : nn) s += a.to<i64>(); return A<i64>(avg ? s / n : s); }
        case kind::float4: { float s = 0; for (auto& a : nn) s += a.to<float>(); return A(avg ? s / (float) n : s); } case kind::float8: { double s = 0; for (auto& a : nn) s += a.to<double>(); return A(avg ? s / (double) n : s); }
        case kind::decimal: { Dec s = exact(nn[0].to<triple>()); for (std::size_t i = 1; i < nn.size(); ++i) { Dec d = exact(nn[i].to<triple>()); align(s, d); s.c += d.c; } if (!avg) return any{std::in_place_type<triple>, trib(s.c, s.e)};
            // quotient to 38 digits, half even
            using I = decltype(s.c); bool neg = s.c < 0; I a = s.c; if (neg) a = -a; if (a == 0) return any{std::in_place_type<triple>, trib(0, 0)}; I lo = p10(37), hi = p10(38), num = a; int e = s.e; while (num / n < lo) { num *= 10; --e; } bool sticky = false; while (num / n >= hi) { if (num % 10 != 0) sticky = true; num /= 10; ++e; } I q = num / n, r = num % n; if (r * 2 > n || (r * 2 == n && (sticky || q % 2 != 0))) ++q; while (q % 10 == 0) { q /= 10; ++e; } if (neg) q = -q; return any{std::in_place_type<triple>, trib(q, e)}; }
        default: std::abort(); } }
static bool same(any const& a, any const& b) { if (a.empty() != b.empty()) return false; if (a.empty()) return true; if (a.type_index() != b.type_index()) return false; return cmp(a, b) == 0; }
struct Shape { std::vector<kind> ks; std::vector<std::size_t> keys; bool gen; kind vk; meta_ptr m; std::shared_ptr<xc::aggregate::aggregate_info> info; std::vector<std::string> fs; };
static Shape shape(std::vector<kind> const& keykinds, kind vk, bool gen) {
    Shape s; s.ks = keykinds; s.ks.insert(s.ks.begin(), vk); for (std::size_t i = 0; i < keykinds.size(); ++i) s.keys.push_back(keykinds.size() - i); s.gen = gen; s.vk = vk; s.m = mk(s.ks); s.fs = funcs(vk);   // value first, the keys in reverse order of the record
    std::vector<xc::aggregate::aggregate_info::value_spec> vs; for (auto& f : s.fs) { if (f == "*") vs.emplace_back(inc("count", {}), std::vector<std::size_t>{}, ftype(kind::int8)); else vs.emplace_back(inc(f, {tk(vk)}), std::vector<std::size_t>{0}, ftype(f == "count" ? kind::int8 : vk)); }
    s.info = std::make_shared<xc::aggregate::aggregate_info>(s.m, s.keys, vs, gen); return s; }
using Out = std::vector<std::pair<Row, Row>>;   // key, member
static void drain(ex::io::group_reader& r, meta::record_meta const& km, meta::record_meta const& vm, std::vector<std::pair<Row, std::vector<Row>>>& o) {
    while (r.next_group()) { auto g = r.get_group(); Row k; for (std::size_t i = 0; i < km.field_count(); ++i) { auto a = at(g, km, i); k.push_back(a); } for (auto& a : k) if (!a.empty() && a.type_index() == any::index<accessor::text>) a = text_(sv(a.to<accessor::text>()));
        o.push_back({k, {}}); while (r.next_member()) { auto m = r.get_member(); auto g2 = r.get_group(); for (std::size_t i = 0; i < km.field_count(); ++i) if (cmp(at(g2, km, i), k[i]) != 0) vf::violation("group-key", "the key of a member is not that of its group"); Row v; for (std::size_t i = 0; i < vm.field_count(); ++i) { auto a = at(m, vm, i); if (!a.empty() && a.type_index() == any::index<accessor::text>) a = text_(sv(a.to<accessor::text>())); else if (!a.empty() && a.type_index() == any::index<accessor::binary>) a = bin_(sv(a.to<accessor::binary>())); v.push_back(a); } o.back().second.push_back(v); } }
    vf::step(); r.release(); }
static void judge(Shape const& s, std::vector<Row> const& rs, std::vector<std::pair<Row, std::vector<Row>>> const& got, std::string const& how) {
    std::map<Row, std::vector<any>, RowLess> want; for (auto& r : rs) { Row k; for (auto i : s.keys) k.push_back(r[i]); want[k].push_back(r[0]); }
    if (rs.empty() && s.gen) want[Row(s.keys.size())] = {};
    std::set<Row, RowLess> seen;
    for (auto& [k, ms] : got) { auto it = want.find(k); if (it == want.end()) vf::violation("aggregate", "unknown group " + rows({k}) + " of " + rows(rs) + how); if (!seen.insert(k).second) vf::violation("aggregate", "group " + rows({k}) + " appears twice for " + rows(rs) + how); if (ms.size() != 1) vf::violation("aggregate", "a group has several results");
        for (std::size_t i = 0; i < s.fs.size(); ++i) { auto w = ref_agg(s.fs[i], s.vk, it->second); if (!same(ms[0][i], w)) vf::violation("aggregate", s.fs[i] + " is " + show(ms[0][i]) + ", expected " + show(w) + " for " + rows(rs) + how); } }
    if (seen.size() != want.size()) vf::violation("aggregate", vf::strf("%zu groups, expected %zu for ", seen.size(), want.size()) + rows(rs) + how); vf::trace(); }
// a schedule of n rows: writer of each row and whether the writer is flushed after it
struct Plan { std::vector<int> w; std::vector<bool> f; };
static std::string show(Plan const& p) { std::string s; for (std::size_t i = 0; i < p.w.size(); ++i) s += vf::strf(" w%d%s", p.w[i], p.f[i] ? "f" : ""); return s; }
static void plans(std::size_t n, int writers, std::function<void(Plan const&)> const& fnc) { std::size_t per = writers * 2, tot = 1; for (std::size_t i = 0; i < n; ++i) tot *= per; for (std::size_t c = 0; c < tot; ++c) { Plan p; std::size_t x = c; for (std::size_t i = 0; i < n; ++i) { p.w.push_back((int) (x % writers)); p.f.push_back(x % per >= (std::size_t) writers); x /= per; } fnc(p); } }
template <class Flow> static void feed(Flow& fl, std::vector<kind> const& ks, meta_ptr const& m, std::vector<Row> const& rs, Plan const& p, std::size_t writers) {
    fl.setup_partitions(writers); std::vector<ex::io::record_writer*> w(writers);
    for (std::size_t i = 0; i < rs.size(); ++i) { auto& x = w[p.w[i]]; if (!x) x = &fl.sink_at(p.w[i]).acquire_writer(); Rec r{m, ks, rs[i]}; x->write(r.ref()); vf::step(); if (p.f[i]) x->flush(); }
    for (auto x : w) if (x) { x->flush(); x->release(); } }
static void aggregate_flow(Shape const& s, std::vector<Row> const& rs, Plan const& p, std::size_t writers, std::size_t parts) {
    std::string how = vf::strf(" by %zu writers, %zu partitions:", writers, parts) + show(p); vf::at("aggregate %s%s", rows(rs).c_str(), how.c_str()); vf::state(); request_context rc{cfg};
    xc::aggregate::flow fl{s.info, &rc, nullptr, parts}; feed(fl, s.ks, s.m, rs, p, writers); auto ts = fl.create_tasks(); if (ts.size() != 1) vf::violation("flow", "an exchange has one task");
    if (fl.info().empty_input() != (rs.empty() && !s.gen)) vf::violation("empty-input", vf::strf("empty_input %d for ", fl.info().empty_input()) + rows(rs));
    std::vector<std::pair<Row, std::vector<Row>>> got; auto& gm = *s.info->post().group_meta(); for (std::size_t i = 0; i < fl.source_count(); ++i) drain(*fl.source_at(i).acquire_reader().reader<ex::io::group_reader>(), gm.key(), gm.value(), got);
    judge(s, rs, got, how); res.clear(); }
// partitions with small hash tables, read by the reader directly
static void aggregate_part(Shape const& s, std::vector<Row> const& rs, Plan const& p, std::size_t writers, std::size_t buckets) {
    std::string how = vf::strf(" in partitions of %zu buckets:", buckets) + show(p); vf::at("aggregate %s%s", rows(rs).c_str(), how.c_str()); vf::state(); std::vector<std::unique_ptr<xc::aggregate::input_partition>> ps(writers);
    for (std::size_t i = 0; i < rs.size(); ++i) { auto& x = ps[p.w[i]]; if (!x) x = std::make_unique<xc::aggregate::input_partition>(s.info, buckets); Rec r{s.m, s.ks, rs[i]}; auto n = x->tables_count(); (void) n; x->write(r.ref()); vf::step(); if (p.f[i]) x->flush(); }
    for (auto& x : ps) if (x) { x->flush(); x->release_hashtable(); } std::vector<std::pair<Row, std::vector<Row>>> got; auto& gm = *s.info->post().group_meta(); { xc::aggregate::reader rd{s.info, ps}; drain(rd, gm.key(), gm.value(), got); } judge(s, rs, got, how); res.clear(); }
static void sequences(std::vector<std::vector<any>> const& dom, std::size_t n, std::function<void(std::vector<Row> const&)> const& fnc) {   // all sequences of exactly n rows
    std::size_t per = 1; for (auto& d : dom) per *= d.size(); std::size_t tot = 1; for (std::size_t i = 0; i < n; ++i) tot *= per;
    for (std::size_t c = 0; c < tot; ++c) { std::vector<Row> rs; std::size_t x = c; for (std::size_t i = 0; i < n; ++i) { std::size_t y = x % per; x /= per; Row r; for (auto& d : dom) { r.push_back(d[y % d.size()]); y /= d.size(); } rs.push_back(r); } fnc(rs); } }
static std::vector<any> keep(std::vector<any> v, bool null) { for (auto& a : v) { if (!a.empty() && a.type_index() == any::index<accessor::text>) { auto x = a.to<accessor::text>(); auto sv = static_cast<std::string_view>(x); auto p = new std::string(sv); a = any{std::in_place_type<accessor::text>, accessor::text{p->data(), p->size()}}; } else if (!a.empty() && a.type_index() == any::index<accessor::binary>) { auto x = a.to<accessor::binary>(); auto sv = static_cast<std::string_view>(x); auto p = new std::string(sv); a = any{std::in_place_type<accessor::binary>, accessor::binary{p->data(), p->size()}}; } } if (null) v.insert(v.begin(), any{}); res.clear(); return v; }
static kind const all_[] = {kind::boolean, kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal, kind::character, kind::octet, kind::date, kind::time_of_day, kind::time_point};
static void aggregates() {
    std::uint64_t u = 0; std::size_t T = vf::thorough() ? 1 : 0;
    for (kind vk : all_) for (int kk = 0; kk < 4; ++kk) {
        std::vector<kind> kinds; if (kk == 1) kinds = {kind::int4}; else if (kk == 2) kinds = {kind::character}; else if (kk == 3) kinds = {kind::int8, kind::boolean};
        auto vd = keep(domain(vk), true); auto kd = [&](kind k) { auto d = domain(k); d.resize(std::min<std::size_t>(d.size(), k == kind::character ? 3 : 2)); if (k == kind::character) d = {d[1], d[2]}; return keep(d, true); };
        for (bool gen : {false, true}) { if (gen && kk > 0) continue; Shape s = shape(kinds, vk, gen); std::vector<std::vector<any>> dom{vd}; for (auto k : kinds) dom.push_back(kd(k)); std::size_t per = 1; for (auto& d : dom) per *= d.size();
            for (std::size_t n = 0; n <= 5; ++n) { double sz = std::pow((double) per, (double) n); 
                sequences(dom, n, [&](auto const& rs) { if (!vf::mine(u++)) return;
                    if (n == 0) { for (std::size_t w = 0; w <= 2; ++w) for (std::size_t p = 1; p <= 2; ++p) if (!(gen && w == 0)) aggregate_flow(s, rs, {}, w, p); return; }
                    if (sz <= (T ? 300 : 60)) plans(n, 2, [&](Plan const& p) { if (p.w[0] == 0) for (std::size_t parts = 1; parts <= (kk ? 2 : 1); ++parts) aggregate_flow(s, rs, p, 2, parts); });
                    if (sz <= (T ? 20000 : kk ? 1000 : 3000)) plans(n, n <= 3 ? 2 : 1, [&](Plan const& p) { if (p.w[0] == 0) aggregate_part(s, rs, p, 2, n % 2 ? 2 : 4); }); });
                if (sz > (T ? 20000 : kk ? 1000 : 3000)) break; } } }
    vf::bound_note("aggregate exchange: all sequences of up to 5 rows (as far as there are 3000; NULLs, NaN, texts on both sides of 15 bytes) of eleven value types with no, one or two key columns, with every assignment to two writers, every flush point, one and two partitions, hash tables down to two buckets"); }
// many keys: automatic flush of full tables and their merge
static void many() {
    for (kind kk : {kind::int8, kind::character}) { Shape s = shape({kk}, kind::int4, false); for (std::size_t keys : {3U, 5U, 7U, 11U, 23U, 90U, 200U}) for (std::size_t buckets : {1U, 2U, 8U, 64U}) for (int order = 0; order < 4; ++order) for (std::size_t rounds : {1U, 2U, 3U}) { if (!vf::mine(keys + buckets + order + rounds)) continue;
        std::vector<Row> rs; std::vector<std::string> texts(keys); for (std::size_t r = 0; r < rounds; ++r) for (std::size_t j = 0; j < keys; ++j) { std::size_t i = order == 0 ? j : order == 1 ? keys - 1 - j : order == 2 ? (j * 7 + r) % keys : j / 2 + (j % 2) * ((keys + 1) / 2); if (keys % 7 == 0 && order == 2) i = j; if (texts[i].empty()) texts[i] = vf::strf("key-%zu-%s", i, i % 2 ? "a long tail of the key" : ""); rs.push_back({A<i32>((i32) (i + r)), kk == kind::int8 ? A<i64>((i64) i) : any{std::in_place_type<accessor::text>, accessor::text{texts[i].data(), texts[i].size()}}}); }
        Plan p; p.w.assign(rs.size(), 0); p.f.assign(rs.size(), false); aggregate_part(s, rs, p, 1, buckets); for (std::size_t i = 0; i < rs.size(); ++i) p.w[i] = (int) (i % 3 == 1); aggregate_flow(s, rs, p, 2, 2); } }
    vf::bound_note("up to 600 rows of 200 keys in four orders through tables of 1 to 64 buckets"); }
// ---- group exchange: fields 0 sort, 1 key, 2 row number, 3 text
struct GShape { std::vector<kind> ks; meta_ptr m; std::vector<std::size_t> key, sort; std::vector<ex::ordering> ord; std::optional<std::size_t> limit; std::shared_ptr<xc::group::group_info> info; };
static void gjudge(GShape const& s, std::vector<Row> const& rs, std::vector<std::pair<Row, std::vector<Row>>> const& got, std::string const& how) {
    std::map<Row, std::vector<Row>, RowLess> want; for (auto& r : rs) { Row k; for (auto i : s.key) k.push_back(r[i]); want[k].push_back(r); }
    auto sc = [&](Row const& a, Row const& b) { for (std::size_t i = 0; i < s.sort.size(); ++i) { int c = cmp(a[s.sort[i]], b[s.sort[i]]); if (s.ord[i] == ex::ordering::descending) c = -c; if (c) return c; } return 0; };
    std::vector<std::size_t> vf_; for (std::size_t i = 0; i < s.ks.size(); ++i) if (std::find(s.key.begin(), s.key.end(), i) == s.key.end()) vf_.push_back(i);
    std::size_t lim = s.limit ? *s.limit : rs.size(); std::set<Row, RowLess> seen; auto all = rows(rs) + how;
    for (auto& [k, ms] : got) { auto it = want.find(k); if (it == want.end()) vf::violation("group", "unknown group for " + all); if (!seen.insert(k).second) vf::violation("group", "group " + rows({k}) + " appears twice for " + all); auto w = it->second; std::stable_sort(w.begin(), w.end(), [&](auto& a, auto& b) { return sc(a, b) < 0; });
        std::size_t n = std::min(lim, w.size()); if (ms.size() != n) vf::violation("group", vf::strf("a group has %zu members, expected %zu for ", ms.size(), n) + all);
        std::set<i64> ids; for (std::size_t j = 0; j < n; ++j) { Row full(s.ks.size()); for (std::size_t i = 0; i < s.key.size(); ++i) full[s.key[i]] = k[i]; for (std::size_t i = 0; i < vf_.size(); ++i) full[vf_[i]] = ms[j][i]; i64 id = full[2].to<i64>(); if (id < 0 || id >= (i64) rs.size() || !ids.insert(id).second) vf::violation("group", "a row appears twice or is unknown for " + all);
            if (cmp(full, rs[id]) != 0) vf::violation("group", "member " + rows({full}) + " is not the row written for " + all); if (sc(full, w[j]) != 0) vf::violation("group", vf::strf("member %zu is out of order for ", j) + all); } }
    std::size_t exp = lim == 0 && s.limit ? 0 : want.size(); if (seen.size() != exp) vf::violation("group", vf::strf("%zu groups, expected %zu for ", seen.size(), exp) + all); vf::trace(); }
static std::string gtext(GShape const& s) { std::string t = " sort"; for (std::size_t i = 0; i < s.sort.size(); ++i) t += vf::strf(" %zu%s", s.sort[i], s.ord[i] == ex::ordering::descending ? "d" : "a"); return t + (s.limit ? vf::strf(" limit %zu", *s.limit) : ""); }
static void group_flow(GShape const& s, std::vector<Row> const& rs, Plan const& p, std::size_t writers, std::size_t parts, bool sorted) {
    std::string how = vf::strf(" %s reader, %zu partitions:", sorted ? "sorted vector" : "priority queue", parts) + show(p) + gtext(s); vf::at("group %s%s", rows(rs).c_str(), how.c_str()); vf::state(); auto c = std::make_shared<configuration>(); c->use_sorted_vector(sorted); request_context rc{c};
    xc::group::flow fl{s.info, &rc, nullptr, parts}; feed(fl, s.ks, s.m, rs, p, writers); if (fl.create_tasks().size() != 1) vf::violation("flow", "an exchange has one task"); if (fl.info().empty_input() != rs.empty()) vf::violation("empty-input", "empty_input of a group exchange");
    std::vector<std::pair<Row, std::vector<Row>>> got; auto& gm = *s.info->group_meta(); for (std::size_t i = 0; i < fl.source_count(); ++i) drain(*fl.source_at(i).acquire_reader().reader<ex::io::group_reader>(), gm.key(), gm.value(), got); gjudge(s, rs, got, how); res.clear(); }
static void group_part(GShape const& s, std::vector<Row> const& rs, Plan const& p, std::size_t writers, std::size_t pointers, bool sorted) {
    std::string how = vf::strf(" %s reader, %zu pointers:", sorted ? "sorted vector" : "priority queue", pointers) + show(p) + gtext(s); vf::at("group %s%s", rows(rs).c_str(), how.c_str()); vf::state(); request_context rc{cfg}; std::vector<std::unique_ptr<xc::group::input_partition>> ps(writers); auto mr = [] { return std::make_unique<memory::monotonic_paged_memory_resource>(&global::page_pool()); };
    for (std::size_t i = 0; i < rs.size(); ++i) { auto& x = ps[p.w[i]]; if (!x) x = std::make_unique<xc::group::input_partition>(mr(), mr(), mr(), s.info, &rc, pointers); Rec r{s.m, s.ks, rs[i]}; x->write(r.ref()); vf::step(); if (p.f[i]) x->flush(); } for (auto& x : ps) if (x) x->flush();
    std::vector<std::pair<Row, std::vector<Row>>> got; auto& gm = *s.info->group_meta(); if (sorted) { xc::group::sorted_vector_reader rd{s.info, ps}; drain(rd, gm.key(), gm.value(), got); } else { xc::group::priority_queue_reader rd{s.info, ps}; drain(rd, gm.key(), gm.value(), got); } gjudge(s, rs, got, how); res.clear(); }
static void groups() {
    std::uint64_t u = 0; std::size_t const N = vf::thorough() ? 5 : 4; auto L = new std::string(18, 'x'); auto txt = any{std::in_place_type<accessor::text>, accessor::text{L->data(), L->size()}};
    for (int key = 0; key < 3; ++key) for (int so = 0; so < 5; ++so) for (int lim = -1; lim <= 2; ++lim) {
        GShape s; s.ks = {kind::int4, kind::int8, kind::int8, kind::character}; s.m = mk(s.ks); if (key == 1) s.key = {1}; if (key == 2) s.key = {3, 1}; if (so == 1 || so == 2) { s.sort = {0}; s.ord = {so == 1 ? ex::ordering::ascending : ex::ordering::descending}; } if (so == 3) { s.sort = {2, 0}; s.ord = {ex::ordering::descending, ex::ordering::ascending}; } if (so == 4) { s.sort = {0, 2}; s.ord = {ex::ordering::descending, ex::ordering::undefined}; } if (lim >= 0) s.limit = lim;
        s.info = std::make_shared<xc::group::group_info>(s.m, s.key, s.sort, s.ord, s.limit); std::vector<std::vector<any>> dom{{any{}, A<i32>(1), A<i32>(2)}, key == 0 ? std::vector<any>{A<i64>(7)} : std::vector<any>{any{}, A<i64>(1)}, {any{}}, key == 2 ? std::vector<any>{any{}, txt} : std::vector<any>{txt}};
        for (std::size_t n = 0; n <= N; ++n) { if (key == 2 && n > (vf::thorough() ? 3U : 2U)) break; sequences(dom, n, [&](std::vector<Row> rs) { if (!vf::mine(u++)) return; for (std::size_t i = 0; i < n; ++i) rs[i][2] = A<i64>((i64) i);
            for (bool sorted : {false, true}) { if (n <= 2) plans(n, 2, [&](Plan const& p) { for (std::size_t parts = 1; parts <= 2; ++parts) group_flow(s, rs, p, 2, parts, sorted); });
                if (n >= 2 && n <= 3) plans(n, 2, [&](Plan const& p) { if (p.w[0] == 0) for (std::size_t q = 1; q <= (vf::thorough() ? 3U : 2U); ++q) group_part(s, rs, p, 2, q, sorted); });
                if (n >= 4) plans(n, 1, [&](Plan p) { for (std::size_t i = 1; i < n; i += 2) p.w[i] = 1; bool f = false; for (bool b : p.f) f |= b; if (f) return; for (std::size_t q = 1; q <= 3; ++q) group_part(s, rs, p, 2, q, sorted); }); } }); } }
    // a second process writing to the same exchange adds sinks, not sources
    { GShape s; s.ks = {kind::int4, kind::int8, kind::int8, kind::character}; s.m = mk(s.ks); s.key = {1}; s.info = std::make_shared<xc::group::group_info>(s.m, s.key); request_context rc{cfg}; xc::group::flow fl{s.info, &rc, nullptr, 2}; fl.setup_partitions(1); fl.setup_partitions(2); if (fl.sink_count() != 3 || fl.source_count() != 2) vf::violation("flow", "sinks and sources after two setups"); std::vector<Row> rs; for (int i = 0; i < 6; ++i) { rs.push_back({A<i32>(i), A<i64>(i % 2), A<i64>(i), txt}); auto& w = fl.sink_at(i % 3).acquire_writer(); Rec r{s.m, s.ks, rs.back()}; w.write(r.ref()); if (i >= 3) { w.flush(); w.release(); } } fl.create_tasks();
        std::vector<std::pair<Row, std::vector<Row>>> got; for (std::size_t i = 0; i < 2; ++i) drain(*fl.source_at(i).acquire_reader().reader<ex::io::group_reader>(), s.info->group_meta()->key(), s.info->group_meta()->value(), got); gjudge(s, rs, got, " two setups"); }
    vf::bound_note(vf::strf("group exchange: all sequences of up to %zu rows with NULLs over no, one or two key columns, five member orders, no limit and limits 0 to 2, both readers, every assignment to two writers, every flush point, one and two partitions, pointer tables of 1 to 3 entries", N)); }
// ---- forward exchange: pushes and pops in every order
static void forwards() {
    std::vector<kind> ks{kind::int8, kind::character}; auto m = mk(ks); std::size_t const N = vf::thorough() ? 9 : 8; std::uint64_t u = 0; std::string L = "a text longer than fifteen bytes";
    for (int lim = -1; lim <= 3; ++lim) for (std::size_t n = 0; n <= N; ++n) { std::size_t tot = 1; for (std::size_t i = 0; i < n; ++i) tot *= 4; for (std::size_t c = 0; c < tot; ++c) { if (!vf::mine(u++)) continue; vf::state(); vf::at("forward limit %d, %zu operations, code %zu", lim, n, c);
        auto info = std::make_shared<xc::forward::forward_info>(m, lim < 0 ? std::optional<std::size_t>{} : std::optional<std::size_t>{lim}); request_context rc{cfg}; xc::forward::flow fl{info, &rc, nullptr}; fl.setup_partitions(2); if (fl.sink_count() != 2 || fl.source_count() != 2) vf::violation("flow", "forward has one source for each sink"); ex::io::record_reader* rd[2]; for (int i = 0; i < 2; ++i) rd[i] = fl.source_at(i).acquire_reader().reader<ex::io::record_reader>();
        std::vector<i64> q[2]; std::size_t head[2] = {0, 0}, wrote = 0; std::size_t x = c; auto key = [&] { return vf::strf("limit %d, operations %zu of %zu: ", lim, c, n); };
        auto pop = [&](int p) { bool g = rd[p]->next_record(); if (g != (head[p] < q[p].size())) vf::violation("forward", key() + (g ? "a record that was not written" : "a record is lost")); if (g) { auto r = rd[p]->get_record(); i64 id = q[p][head[p]++]; auto a = at(r, *m, 0), t = at(r, *m, 1); std::string w = (id % 2 ? "" : L) + std::to_string(id); if (!same(a, A<i64>(id)) || std::string(sv(t.to<accessor::text>())) != w) vf::violation("forward", key() + "records are not read in the order written"); } vf::step(); if (!rd[p]->source_active()) vf::violation("forward", key() + "the source is inactive before its writer is released"); };
        for (std::size_t i = 0; i < n; ++i) { int o = (int) (x % 4); x /= 4; int p = o / 2; if (o % 2 == 0) { std::string w = (i % 2 ? "" : L) + std::to_string(i); auto b = new std::string(w); Row r{A<i64>((i64) i), any{std::in_place_type<accessor::text>, accessor::text{b->data(), b->size()}}}; { Rec rec{m, ks, r}; if (!fl.sink_at(p).acquire_writer().write(rec.ref())) vf::violation("forward", "write refused"); } delete b; vf::step(); if (lim < 0 || wrote < (std::size_t) lim) { ++wrote; q[p].push_back((i64) i); } } else pop(p); }
        for (int p = 0; p < 2; ++p) { while (head[p] < q[p].size()) pop(p); pop(p); auto& w = fl.sink_at(p).acquire_writer(); w.flush(); w.release(); if (rd[p]->source_active() || rd[p]->next_record()) vf::violation("forward", key() + "a released source is active or has records"); if (p == 0 && !rd[1]->source_active()) vf::violation("forward", key() + "releasing one writer ends another source"); } vf::trace(); } }
    // deactivation without a writer
    auto info = std::make_shared<xc::forward::forward_info>(m); request_context rc{cfg}; xc::forward::flow fl{info, &rc, nullptr}; fl.setup_partitions(1); auto r = fl.source_at(0).acquire_reader().reader<ex::io::record_reader>(); if (!r->source_active()) vf::violation("forward", "inactive at start"); fl.sink_at(0).deactivate(); if (r->source_active() || r->next_record()) vf::violation("forward", "deactivated source is active");
    vf::bound_note(vf::strf("forward exchange: all sequences of up to %zu writes and reads on two partitions, with no limit and limits 0 to 3", N)); }
// ---- COUNT(DISTINCT)
static void append(data::value_store& vs, kind k, any const& a) {
    if (a.empty()) { vs.append_null(); return; }
    switch (k) { case kind::boolean: vs.append(a.to<std::int8_t>()); break; case kind::int4: vs.append(a.to<i32>()); break; case kind::int8: vs.append(a.to<i64>()); break; case kind::float4: vs.append(a.to<float>()); break; case kind::float8: vs.append(a.to<double>()); break; case kind::decimal: vs.append(a.to<triple>()); break; case kind::character: vs.append(a.to<accessor::text>()); break; case kind::octet: vs.append(a.to<accessor::binary>()); break; case kind::date: vs.append(a.to<dt::date>()); break; case kind::time_of_day: vs.append(a.to<dt::time_of_day>()); break; case kind::time_point: vs.append(a.to<dt::time_point>()); break; default: std::abort(); } }
static void distinct() {
    std::uint64_t u = 0; for (kind k : all_) { auto d = domain(k); if (k == kind::float4) { d.push_back(A(0.F)); d.push_back(A(-0.F)); d.push_back(A(-std::numeric_limits<float>::quiet_NaN())); } if (k == kind::float8) { d.push_back(A(0.)); d.push_back(A(-0.)); d.push_back(A(-std::numeric_limits<double>::quiet_NaN())); } d = keep(d, true);
        auto f = grepo.find(lookup(std::string("count") + std::string(yugawara::aggregate::declaration::name_suffix_distinct), {tk(k)})); if (!f) vf::violation("registration", "count distinct has no body"); auto om = mk({kind::int8}); fn::field_locator loc{om->at(0), true, om->value_offset(0), om->nullity_offset(0)};
        for (std::size_t n = 0; n <= (vf::thorough() ? 5U : 4U); ++n) sequences({d}, n, [&](auto const& rs) { if (!vf::mine(u++)) return; vf::state(); vf::at("count distinct %s", rows(rs).c_str()); vf::step();
            memory::monotonic_paged_memory_resource r1{&global::page_pool()}, r2{&global::page_pool()}, r3{&global::page_pool()}; data::value_store vs{ftype(k), &r1, &r2, &r3}; std::set<Row, RowLess> w; for (auto& r : rs) { append(vs, k, r[0]); if (!r[0].empty()) w.insert(r); }
            std::vector<char> b(om->record_size()); accessor::record_ref q{b.data(), b.size()}; std::vector<std::reference_wrapper<data::value_store>> as{vs}; f->aggregator()(q, loc, as); auto g = at(q, *om, 0); if (!same(g, A<i64>((i64) w.size()))) vf::violation("distinct", "count distinct of " + rows(rs) + " is " + show(g) + vf::strf(", expected %zu", w.size())); vf::trace(); });
        std::vector<char> b(om->record_size()); accessor::record_ref q{b.data(), b.size()}; f->empty_value_generator()(q, loc); if (!same(at(q, *om, 0), A<i64>(0))) vf::violation("distinct", "count distinct of nothing is not zero"); }
    vf::bound_note("COUNT(DISTINCT): all sequences of up to 4 values of a small domain of each of eleven types with NULL, NaN of both signs and signed zeros"); }
// only reached by cancelled requests, which these runs have none of
namespace jogasaki::executor { void abort_transaction(std::shared_ptr<transaction_context>, request_info const&) { vf::violation("abort", "transaction aborted"); } }
int main(int argc, char** argv) {
    vf::init(argc, argv); global::config_pool(cfg); fn::incremental::add_builtin_aggregate_functions(provider, irepo); fn::add_builtin_aggregate_functions(provider, grepo); vf::hang_limit(60);
    std::thread([&] { aggregates(); }).join(); many(); groups(); forwards(); distinct(); return vf::finish();
}
