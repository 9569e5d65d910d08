// C34: what is written about a table or index to its storage is read back the same, whatever it says
#include "vf.h"
#include <jogasaki/auth/authorized_users_action_set.h>
#include <jogasaki/auth/fill_action_set.h>
#include <jogasaki/constants.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/proto/metadata/storage.pb.h>
#include <jogasaki/recovery/index.h>
#include <jogasaki/recovery/storage_options.h>
#include <jogasaki/utils/storage_metadata_serializer.h>
#include <yugawara/yg.h>
#include <cmath>
using namespace jogasaki; namespace st = yugawara::storage; namespace ty = takatori::type; namespace va = takatori::value; namespace meta_ = proto::metadata::storage;
#define CHECK(c, key, ...) do { if (!(c)) vf::violation(key, vf::strf(__VA_ARGS__)); } while (0)
using P = std::shared_ptr<ty::data const>; using D = std::shared_ptr<va::data const>;
// ---- everything a definition says, as text
static std::string show(ty::data const& t) {
    using k = ty::type_kind; auto n = [](auto const& o) { return o ? std::to_string(*o) : std::string("*"); }; std::string s = std::to_string((int) t.kind());
    switch (t.kind()) {
        case k::decimal: { auto& x = static_cast<ty::decimal const&>(t); return s + " decimal " + n(x.precision()) + " " + n(x.scale()); }
        case k::character: { auto& x = static_cast<ty::character const&>(t); return s + " character " + (x.varying() ? "varying " : "") + n(x.length()); }
        case k::octet: { auto& x = static_cast<ty::octet const&>(t); return s + " octet " + (x.varying() ? "varying " : "") + n(x.length()); }
        case k::time_of_day: return s + " time " + std::to_string(static_cast<ty::time_of_day const&>(t).with_time_zone());
        case k::time_point: return s + " timestamp " + std::to_string(static_cast<ty::time_point const&>(t).with_time_zone());
        default: return s;
    }
}
template<class T> static T const& as(va::data const& d) { return static_cast<T const&>(d); }
static std::string show(va::data const& v) {
    using k = va::value_kind; std::string s = std::to_string((int) v.kind()) + " ";
    switch (v.kind()) {
        case k::boolean: return s + std::to_string(as<va::boolean>(v).get()); case k::int4: return s + std::to_string(as<va::int4>(v).get()); case k::int8: return s + std::to_string(as<va::int8>(v).get());
        case k::float4: { auto f = as<va::float4>(v).get(); std::uint32_t b; std::memcpy(&b, &f, 4); return s + std::to_string(b); } case k::float8: { auto f = as<va::float8>(v).get(); std::uint64_t b; std::memcpy(&b, &f, 8); return s + std::to_string(b); }
        case k::decimal: { auto d = as<va::decimal>(v).get(); return s + std::to_string((int) d.sign()) + " " + std::to_string(d.coefficient_high()) + " " + std::to_string(d.coefficient_low()) + " " + std::to_string(d.exponent()); }
        case k::character: return s + vf::hexs(std::string(as<va::character>(v).get())); case k::octet: return s + vf::hexs(std::string(as<va::octet>(v).get()));
        case k::date: return s + std::to_string(as<va::date>(v).get().days_since_epoch()); case k::time_of_day: return s + std::to_string(as<va::time_of_day>(v).get().time_since_epoch().count());
        case k::time_point: { auto p = as<va::time_point>(v).get(); return s + std::to_string(p.seconds_since_epoch().count()) + " " + std::to_string(p.subsecond().count()); }
        default: return s + "?";
    }
}
static std::string show(st::sequence const& q) { return (q.definition_id() ? std::to_string(*q.definition_id()) : "-") + " " + vf::hexs(std::string(q.simple_name())) + vf::strf(" %lld %lld %lld %lld %d ", (long long) q.initial_value(), (long long) q.increment_value(), (long long) q.min_value(), (long long) q.max_value(), q.cycle()) + vf::hexs(q.description()); }
static std::string show(st::column const& c) {
    auto s = vf::hexs(std::string(c.simple_name())) + " " + (c.type_ptr() ? show(c.type()) : "no type") + (c.criteria().nullity().nullable() ? " null" : " not null") + " default ";
    using k = st::column_value_kind; auto& d = c.default_value(); switch (d.kind()) { case k::nothing: s += "-"; break; case k::immediate: s += show(*d.element<k::immediate>()); break; case k::sequence: s += "sequence " + show(*d.element<k::sequence>()); break; case k::function: s += "function " + std::to_string(d.element<k::function>()->definition_id()); break; }
    for (auto f : {st::column_feature::synthesized, st::column_feature::hidden, st::column_feature::read_only}) s += c.features().contains(f) ? " 1" : " 0"; return s + " " + vf::hexs(c.description());
}
static std::string show(st::table const& t) { auto s = (t.definition_id() ? std::to_string(*t.definition_id()) : "-") + " " + vf::hexs(std::string(t.simple_name())) + " " + vf::hexs(t.description()); for (auto& c : t.columns()) s += "; " + show(c); return s; }
static std::string show(st::index const& i) {
    auto s = (i.definition_id() ? std::to_string(*i.definition_id()) : "-") + " " + vf::hexs(std::string(i.simple_name())) + " " + vf::hexs(i.description()) + " on " + show(i.table()) + " keys";
    auto pos = [&](st::column const& c) { int n = 0; for (auto& x : i.table().columns()) { if (&x == &c) return n; ++n; } return -1; };
    for (auto& k : i.keys()) s += " " + std::to_string(pos(k.column())) + (k.direction() == takatori::relation::sort_direction::ascendant ? "a" : "d"); s += " values"; for (auto& v : i.values()) s += " " + std::to_string(pos(v)); s += " features";
    for (auto f : {st::index_feature::primary, st::index_feature::find, st::index_feature::scan, st::index_feature::unique, st::index_feature::unique_constraint}) s += i.features().contains(f) ? " 1" : " 0"; return s;
}
static std::string catalog(st::configurable_provider const& p) { std::string s; p.each_relation([&](std::string_view n, auto const& r) { s += "table " + vf::hexs(std::string(n)) + ": " + show(static_cast<st::table const&>(*r)) + "\n"; }); p.each_index([&](std::string_view n, auto const& r) { s += "index " + vf::hexs(std::string(n)) + ": " + show(*r) + "\n"; }); p.each_sequence([&](std::string_view n, auto const& r) { s += "sequence " + vf::hexs(std::string(n)) + ": " + show(*r) + "\n"; }); return s; }
static std::string show(auth::action_set const& a) { std::string s; for (auto k : {auth::action_kind::control, auth::action_kind::select, auth::action_kind::insert, auth::action_kind::update, auth::action_kind::delete_}) s += a.has_action(k) ? "1" : "0"; return s; }
static std::string why(std::shared_ptr<error::error_info> const& e) { return e ? std::to_string((int) e->status()) + " " + std::string(e->message()) : "ok"; }
// ---- one definition written and read
struct Auth { std::map<std::string, auth::action_set> users{}; auth::action_set all{}; };
static void around(st::index const& i, st::configurable_provider const& base, utils::metadata_serializer_option const& o, Auth const& a, std::string const& what) {
    vf::at("%s", what.c_str()); vf::state(); vf::step(2); std::string text; auto e = recovery::create_storage_option(i, text, o); CHECK(!e, "write", "%s cannot be written: %s", what.c_str(), why(e).c_str());
    meta_::IndexDefinition d{}; std::uint64_t v{}; e = recovery::validate_extract(text, d, v); CHECK(!e, "read", "%s cannot be read: %s", what.c_str(), why(e).c_str()); CHECK(v == metadata_format_version, "version", "%s: version %llu", what.c_str(), (unsigned long long) v);
    bool primary = i.simple_name() == i.table().simple_name(); CHECK(d.has_table_definition() == primary, "kind", "%s: kind", what.c_str());
    CHECK(d.synthesized() == o.synthesized_, "synthesized", "%s: synthesized", what.c_str()); CHECK((d.storage_key_optional_case() != 0) == o.storage_key_.has_value() && (!o.storage_key_ || d.storage_key() == *o.storage_key_), "key", "%s: storage key", what.c_str());
    CHECK(d.delete_reserved() == o.delete_reserved_.value_or(false), "reserved", "%s: delete reservation", what.c_str());
    if (primary) { auth::authorized_users_action_set us; auth::action_set ps; auth::from_authorization_list(d.table_definition(), us); auth::from_default_privilege(d.table_definition(), ps); CHECK(show(ps) == show(a.all), "public", "%s: public privileges %s, not %s", what.c_str(), show(ps).c_str(), show(a.all).c_str());
        std::size_t n = 0; for (auto& [u, x] : us) ++n; std::size_t w = 0; for (auto& [u, x] : a.users) { if (!x.empty()) ++w; CHECK(show(us.find_user_actions(u)) == show(x), "privileges", "%s: privileges of %s: %s, not %s", what.c_str(), u.c_str(), show(us.find_user_actions(u)).c_str(), show(x).c_str()); } CHECK(n == w, "users", "%s: %zu users have privileges, not %zu", what.c_str(), n, w); }
    st::configurable_provider to; e = recovery::deserialize_into_provider(d, base, to, false); CHECK(!e, "catalog", "%s cannot be taken: %s", what.c_str(), why(e).c_str());
    auto got = to.find_index(i.simple_name()); CHECK(got, "missing", "%s is not in the catalog", what.c_str()); auto g = show(*got), w = show(i); CHECK(g == w, "definition", "%s is read as\n%s, not\n%s", what.c_str(), g.c_str(), w.c_str());
    int tables = 0, seqs = 0, ixs = 0; to.each_relation([&](auto, auto const&) { ++tables; }); to.each_index([&](auto, auto const&) { ++ixs; }); to.each_sequence([&](std::string_view n, auto const& q) { ++seqs; bool is = false; for (auto& c : i.table().columns()) if (c.default_value().kind() == st::column_value_kind::sequence && c.default_value().template element<st::column_value_kind::sequence>()->simple_name() == n) is = show(*c.default_value().template element<st::column_value_kind::sequence>()) == show(*q); CHECK(is, "sequence", "%s: sequence %s", what.c_str(), show(*q).c_str()); });
    std::set<std::string_view> names; for (auto& c : i.table().columns()) if (primary && c.default_value().kind() == st::column_value_kind::sequence) names.insert(c.default_value().element<st::column_value_kind::sequence>()->simple_name());
    CHECK(tables == (primary ? 1 : 0) && ixs == 1 && seqs == (int) names.size(), "contents", "%s: %d tables, %d indexes, %d sequences", what.c_str(), tables, ixs, seqs);
    if (primary) { auto t = to.find_table(i.table().simple_name()); CHECK(t && t.get() == &got->table(), "table", "%s: the index is not on the table of the catalog", what.c_str()); }
    // what was read says the same when it is written again
    std::string again; e = recovery::create_storage_option(*got, again, o); CHECK(!e && again == text, "again", "%s is written differently the second time", what.c_str());
    // it is refused, and nothing changes, when it is there already; it replaces what is there when asked to
    auto before = catalog(to); e = recovery::deserialize_storage_option_into_provider(text, base, to, false); bool clash = true; CHECK(clash == (e && e->status() == status::err_already_exists), "twice", "%s taken twice: %s", what.c_str(), why(e).c_str());
    e = recovery::deserialize_storage_option_into_provider(text, base, to, true); CHECK(!e, "overwrite", "%s cannot replace itself: %s", what.c_str(), why(e).c_str()); CHECK(catalog(to) == before, "replace", "%s: replaced by\n%s, not\n%s", what.c_str(), catalog(to).c_str(), before.c_str());
    // moved into another catalog
    if (primary) { st::configurable_provider last; e = recovery::merge_deserialized_storage_option(to, last, false); CHECK(!e, "merge", "%s cannot be merged: %s", what.c_str(), why(e).c_str()); CHECK(catalog(last) == before && catalog(to).empty(), "merged", "%s: merged into\n%s, not\n%s", what.c_str(), catalog(last).c_str(), before.c_str()); }
    vf::trace();
}
static std::vector<D> defaults(ty::data const& t) {
    std::vector<D> r{nullptr}; using k = ty::type_kind; auto add = [&](auto v) { r.push_back(std::make_shared<decltype(v) const>(std::move(v))); }; constexpr auto i64x = std::numeric_limits<std::int64_t>::max(), i64n = std::numeric_limits<std::int64_t>::min();
    auto ints = [&] { for (std::int32_t x : {0, 1, -1, 127, -128, INT32_MAX, INT32_MIN}) add(va::int4(x)); for (std::int64_t x : {std::int64_t{0}, std::int64_t{-1}, i64x, i64n, std::int64_t{1} << 32}) add(va::int8(x)); };
    auto texts = [&](auto mk) { for (std::string x : {std::string(), std::string("a"), std::string("\0b", 2), std::string("\xe3\x81\x82"), std::string(300, 'x'), std::string("  ")}) mk(x); };
    switch (t.kind()) {
        case k::boolean: add(va::boolean(true)); add(va::boolean(false)); break; case k::int1: case k::int2: case k::int4: case k::int8: ints(); break;
        case k::float4: for (float x : {0.0F, -0.0F, 1.5F, 3.4e38F, 1e-45F, INFINITY, NAN}) add(va::float4(x)); add(va::float8(0.1)); break; case k::float8: for (double x : {0.0, -0.0, 0.1, 1.7e308, 5e-324, (double) INFINITY, (double) -INFINITY, (double) NAN}) add(va::float8(x)); break;
        case k::decimal: ints(); for (std::int32_t ex : {0, -1, 1, -5, 38, -38, -1000}) for (auto [hi, lo] : std::vector<std::pair<std::uint64_t, std::uint64_t>>{{0, 0}, {0, 1}, {0, 127}, {0, 128}, {0, 255}, {0, 256}, {0, 1ULL << 63}, {0, (1ULL << 63) - 1}, {0, ~0ULL}, {1, 0}, {0x4b3b4ca85a86c47aULL, 0x098a223fffffffffULL}, {1ULL << 62, 5}}) for (int s : {1, -1}) { if (!hi && !lo) { add(va::decimal(takatori::decimal::triple{0, 0, 0, ex})); break; } add(va::decimal(takatori::decimal::triple{s, hi, lo, ex})); } break;
        case k::character: texts([&](std::string x) { add(va::character(x)); }); break; case k::octet: texts([&](std::string x) { add(va::octet(x)); }); add(va::octet("\xff")); break;
        case k::date: for (std::int32_t x : {0, 1, -1, -719528, 2932896, INT32_MAX / 2, INT32_MIN / 2}) add(va::date(takatori::datetime::date{x})); break;
        case k::time_of_day: for (std::uint64_t x : {0ULL, 1ULL, 86399999999999ULL, 43200000000000ULL}) add(va::time_of_day(takatori::datetime::time_of_day{std::chrono::duration<std::uint64_t, std::nano>(x)})); break;
        case k::time_point: for (std::int64_t x : {std::int64_t{0}, std::int64_t{1}, std::int64_t{-1}, std::int64_t{253402300799}, std::int64_t{-62135596800}}) for (int n : {0, 1, 999999999}) add(va::time_point(takatori::datetime::time_point{std::chrono::duration<std::int64_t>{x}, std::chrono::nanoseconds{n}})); break;
        default: break;
    }
    return r;
}
static utils::metadata_serializer_option option(bool syn = false, auth::authorized_users_action_set const* u = nullptr, auth::action_set const* p = nullptr, std::optional<std::string_view> key = {}, std::optional<bool> del = {}) { return utils::metadata_serializer_option(syn, u, p, key, del); }
int main(int argc, char** argv) {
    vf::init(argc, argv); std::uint64_t unit = 0; Auth none; st::configurable_provider empty; bool deep = vf::thorough();
    auto fs = std::make_shared<yugawara::function::configurable_provider>(); auto f1 = fs->add(std::make_shared<yugawara::function::declaration>(11000, "f", ty::int4(), std::initializer_list<takatori::type::tref>{})); auto f2 = fs->add(std::make_shared<yugawara::function::declaration>(11001, "g", ty::int8(), std::initializer_list<takatori::type::tref>{})); global::regular_function_provider(fs);
    std::vector<P> types; auto T = [&](auto t) { types.push_back(std::make_shared<decltype(t) const>(std::move(t))); };
    T(ty::boolean()); T(ty::int1()); T(ty::int2()); T(ty::int4()); T(ty::int8()); T(ty::float4()); T(ty::float8()); T(ty::date()); T(ty::blob()); T(ty::clob()); T(ty::unknown());
    for (bool z : {false, true}) { T(ty::time_of_day(takatori::type::with_time_zone_t{z})); T(ty::time_point(takatori::type::with_time_zone_t{z})); }
    for (std::optional<std::size_t> p : {std::optional<std::size_t>{}, std::optional<std::size_t>{1}, std::optional<std::size_t>{38}}) for (std::optional<std::size_t> s : {std::optional<std::size_t>{}, std::optional<std::size_t>{0}, std::optional<std::size_t>{38}}) T(ty::decimal(p, s));
    for (bool v : {false, true}) for (std::optional<std::size_t> n : {std::optional<std::size_t>{}, std::optional<std::size_t>{1}, std::optional<std::size_t>{2097132}}) { T(ty::character(takatori::type::varying_t{v}, n)); T(ty::octet(takatori::type::varying_t{v}, n)); }
    using CF = st::column_feature; auto cfs = [](int b) { st::column_feature_set f; if (b & 1) f.insert(CF::synthesized); if (b & 2) f.insert(CF::hidden); if (b & 4) f.insert(CF::read_only); return f; };
    using IF = st::index_feature; auto ifs = [](int b) { st::index_feature_set f; int n = 0; for (auto x : {IF::primary, IF::find, IF::scan, IF::unique, IF::unique_constraint}) if (b >> n++ & 1) f.insert(x); return f; };
    std::vector<std::string> words{"", "T", "\"x\"", "\xe3\x81\x82", std::string(100, 'n'), "a.b"}; using opt = std::optional<std::size_t>;
    auto crit = [](bool n) { return yugawara::variable::criteria{yugawara::variable::nullity{n}}; };
    // columns: every type and default
    for (auto& t : types) for (auto& d : defaults(*t)) for (bool nul : {false, true}) for (int f = 0; f < 8; ++f) if (vf::mine(unit++)) {
        st::column_value dv; if (d) dv = st::column_value(d); std::vector<std::string> ns{"C", words[f % words.size()]};
        auto tb = std::make_shared<st::table>("T", std::initializer_list<st::column>{{"K", ty::int4(), crit(false)}, {words[1 + f % 5] + "c", t, crit(nul), dv, cfs(f), words[f % 6]}, {"L", t, crit(!nul), {}, cfs(7 - f)}}, words[(f + 1) % 6]);
        st::index i(tb, std::string("T"), {st::index::key(tb->columns()[0])}, {tb->columns()[1], tb->columns()[2]}, ifs(7)); around(i, empty, option(), none, "column " + show(tb->columns()[1]));
    }
    // defaults from sequences and functions
    for (std::int64_t init : {std::int64_t{1}, std::int64_t{0}, INT64_MIN, INT64_MAX}) for (std::int64_t inc : {std::int64_t{1}, std::int64_t{-1}, INT64_MIN, INT64_MAX}) for (std::int64_t mn : {std::int64_t{1}, std::int64_t{0}, INT64_MIN}) for (std::int64_t mx : {std::int64_t{-1}, INT64_MAX}) for (bool c : {false, true}) for (opt id : {opt{}, opt{0}, opt{7}, opt{~0ULL >> 1}}) if (vf::mine(unit++)) {
        auto q = std::make_shared<st::sequence>(id, "q", init, inc, mn, mx, c, words[(int) c + 2]), q2 = std::make_shared<st::sequence>("r", inc, init, mn, mx, !c);
        auto tb = std::make_shared<st::table>("T", std::initializer_list<st::column>{{"K", ty::int8(), crit(false), st::column_value(q), cfs(1)}, {"V", ty::int4(), crit(false), st::column_value(q2)}}); st::index i(tb, std::string("T"), {st::index::key(tb->columns()[0])}, {tb->columns()[1]}, ifs(1)); around(i, empty, option(), none, "column with sequence " + show(*q));
    }
    for (auto& f : {f1, f2}) if (vf::mine(unit++)) { auto tb = std::make_shared<st::table>("T", std::initializer_list<st::column>{{"K", ty::int8(), crit(false), st::column_value(f)}}); st::index i(tb, std::string("T"), {st::index::key(tb->columns()[0])}, {}, ifs(1)); around(i, empty, option(), none, "column with function " + std::string(f->name())); }
    // tables and indexes: names, numbers, keys, values, features
    for (opt ti : {opt{}, opt{0}, opt{5}}) for (opt ii : {opt{}, opt{0}, opt{~0ULL >> 1}}) for (std::size_t w = 1; w < words.size(); ++w) for (std::size_t x = 0; x < words.size(); ++x) for (bool second : {false, true}) if (vf::mine(unit++)) {
        auto tb = std::make_shared<st::table>(ti, words[w], std::initializer_list<st::column>{{"K", ty::int4(), crit(false)}, {"V", ty::int8(), crit(true)}}, words[x]); st::configurable_provider base; if (second) base.add_table(tb);
        st::index i(ii, tb, second ? words[w] + "2" : words[w], {st::index::key(tb->columns()[0])}, {tb->columns()[1]}, ifs(second ? 6 : 7), words[(x + w) % 6]); around(i, base, option(second), none, "names " + show(i));
    }
    for (bool second : {false, true}) for (int f = 0; f < 32; ++f) for (int k = 0; k < (deep ? 256 : 81); ++k) if (vf::mine(unit++)) {   // each of four columns: not in the index, ascending, descending, (a value)
        int B = deep ? 4 : 3; auto tb = std::make_shared<st::table>("T", std::initializer_list<st::column>{{"A", ty::int4(), crit(false)}, {"B", ty::int8(), crit(true)}, {"C", ty::date(), crit(true)}, {"D", ty::character(takatori::type::varying_t{true}, 5), crit(true)}}); st::configurable_provider base; if (second) base.add_table(tb);
        std::vector<st::index::key> ks; std::vector<st::index::column_ref> vs; int y = k; for (int n = 0; n < 4; ++n, y /= B) { int at = f & 1 ? n : 3 - n; auto& c = tb->columns()[at]; int m = y % B; if (m == 1) ks.emplace_back(c); else if (m == 2) ks.emplace_back(c, takatori::relation::sort_direction::descendant); else if (m == 3 || (f & 2 && !second)) vs.emplace_back(c); }
        st::index i(tb, std::string(second ? "I" : "T"), ks, vs, ifs(f)); around(i, base, option(f & 4), none, "index " + show(i));
    }
    // privileges, storage keys, reservations
    std::vector<auth::action_set> as; for (int b = 0; b < 32; ++b) { auth::action_set a; int n = 0; for (auto k : {auth::action_kind::control, auth::action_kind::select, auth::action_kind::insert, auth::action_kind::update, auth::action_kind::delete_}) if (b >> n++ & 1) a.add_action(k); as.push_back(a); }
    for (int a = 0; a < 32; ++a) for (int b = 0; b < 32; ++b) for (int p = 0; p < 32; p += deep ? 1 : 3) if (vf::mine(unit++)) {
        auto tb = std::make_shared<st::table>("T", std::initializer_list<st::column>{{"K", ty::int4(), crit(false)}}); st::index i(tb, std::string("T"), {st::index::key(tb->columns()[0])}, {}, ifs(7)); Auth x; x.users["u"] = as[a]; x.users["\xe3\x81\x82 v"] = as[b]; x.all = as[p];
        auth::authorized_users_action_set us; for (auto& [n, y] : x.users) us.add_user_actions(n, y); std::string key("\0\xff\0\1\2\3\4", 7); key += (char) a;
        around(i, empty, option(a & 1, &us, &x.all, b & 1 ? std::optional<std::string_view>(key) : std::nullopt, p % 3 == 0 ? std::optional<bool>{} : std::optional<bool>{p % 3 == 1}), x, vf::strf("privileges %d %d %d", a, b, p));
    }
    // what cannot be read is refused, not guessed
    if (vf::mine(unit++)) {
        auto tb = std::make_shared<st::table>("T", std::initializer_list<st::column>{{"K", ty::int4(), crit(false)}, {"V", ty::character(takatori::type::varying_t{true}, 5), crit(true), st::column_value(D(std::make_shared<va::character>("x")))}}); st::index i(tb, std::string("T"), {st::index::key(tb->columns()[0])}, {tb->columns()[1]}, ifs(7)), j(tb, std::string("J"), {st::index::key(tb->columns()[1])}, {}, ifs(6));
        for (auto* x : {&i, &j}) {
            std::string text; recovery::create_storage_option(*x, text, option()); st::configurable_provider to;
            for (std::size_t n = 0; n < text.size(); ++n) { vf::at("the first %zu of %zu bytes", n, text.size()); vf::state(); meta_::IndexDefinition d{}; std::uint64_t v{}; auto e = recovery::validate_extract(std::string_view(text).substr(0, n), d, v); if (n > 3) CHECK(e, "prefix", "the first %zu of %zu bytes are accepted", n, text.size()); }
            meta_::Storage s; s.ParseFromString(text); for (std::uint64_t v = 0; v < metadata_format_version + 3; ++v) { s.set_message_version(v); meta_::IndexDefinition d{}; std::uint64_t got{}; auto e = recovery::validate_extract(s.SerializeAsString(), d, got); CHECK(!!e == (v < compatible_metadata_format_version), "version", "version %llu: %s", (unsigned long long) v, why(e).c_str()); vf::state(); }
            { auto y = s.index(); auto* k = y.mutable_keys()->Add(); k->set_name("nothing"); auto e = recovery::deserialize_into_provider(y, empty, to, false); CHECK(e, "column", "a key on a missing column is accepted"); }
            { auto y = s.index(); *y.mutable_values()->Add() = "nothing"; st::configurable_provider t2; auto e = recovery::deserialize_into_provider(y, empty, t2, false); CHECK(e, "column", "a value of a missing column is accepted"); }
            { auto y = s.index(); y.clear_table_definition(); y.clear_table_reference(); st::configurable_provider t2; auto e = recovery::deserialize_into_provider(y, empty, t2, false); CHECK(e, "table", "an index without table is accepted"); }
            { auto y = s.index(); if (y.has_table_definition()) y.mutable_table_definition()->clear_name(); st::configurable_provider t2; auto e = recovery::deserialize_into_provider(y, empty, t2, false); CHECK(e, "name", "a nameless table, or an index of a missing one, is accepted"); }
        }
    }
    vf::bound_note("definitions of all types, defaults, names, keys, features and privileges"); return vf::finish();
}
