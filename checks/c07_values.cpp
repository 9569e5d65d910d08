// C07: value objects: equality is by content and printing tells unequal objects apart; statistics counters add up
#include "vf.h"
#include <map>
#include <sstream>
#include <jogasaki/request_statistics.h>
#include <jogasaki/meta/character_field_option.h>
#include <jogasaki/meta/octet_field_option.h>
#include <jogasaki/meta/decimal_field_option.h>
#include <jogasaki/meta/time_of_day_field_option.h>
#include <jogasaki/meta/time_point_field_option.h>
#include <jogasaki/lob/lob_reference.h>
#include <jogasaki/lob/blob_reference.h>
#include <jogasaki/lob/clob_reference.h>
#include <jogasaki/lob/blob_locator.h>
#include <jogasaki/lob/clob_locator.h>
#include <jogasaki/executor/io/record_channel_stats.h>
#include <jogasaki/executor/process/impl/region_id.h>
#include <jogasaki/executor/diagnostic_record.h>
#include <jogasaki/api/kvsservice/transaction_option.h>
#include <jogasaki/api/kvsservice/transaction_state.h>
#include <jogasaki/status.h>

using namespace jogasaki;
template <class T> static std::string str(T const& v) { std::ostringstream s; s << v; return s.str(); }

// every pair: == agrees with the content key; unequal content prints differently, equal content prints equally
template <class T> static void pairs(char const* what, std::vector<std::pair<std::string, T>> const& v, bool check_print = true) {
    for (auto& [ka, a] : v) for (auto& [kb, b] : v) {
        vf::state(); vf::step(3); vf::trace();
        vf::at("%s %s == %s", what, ka.c_str(), kb.c_str());
        VF_CHECK((a == b) == (ka == kb), vf::strf("%s:equality", what), "%s: (%s == %s) is %d", what, ka.c_str(), kb.c_str(), a == b);
        if (check_print) VF_CHECK((str(a) == str(b)) == (ka == kb), vf::strf("%s:print", what), "%s: %s and %s print '%s' and '%s'", what, ka.c_str(), kb.c_str(), str(a).c_str(), str(b).c_str());
        vf::outcome(vf::strf("%s%d", what, ka == kb));
    }
}
template <class T> static void varlen(char const* what, char const* word) {
    std::vector<std::pair<std::string, T>> v;
    for (int rep = 0; rep < 2; ++rep) for (bool vary : {false, true}) for (std::optional<std::size_t> len : {std::optional<std::size_t>{}, std::optional<std::size_t>{0}, std::optional<std::size_t>{1}, std::optional<std::size_t>{30716}, std::optional<std::size_t>{~std::size_t{}}}) {
        T o(vary, len);
        VF_CHECK(o.varying_ == vary && o.length_ == len, vf::strf("%s:fields", what), "%s fields not kept", what);
        auto e = std::string(word) + (vary ? " varying" : "") + "(" + (len ? std::to_string(*len) : "*") + ")";
        VF_CHECK(str(o) == e, vf::strf("%s:text", what), "%s printed '%s' expected '%s'", what, str(o).c_str(), e.c_str());
        v.emplace_back(e, o);
    }
    pairs(what, v);
}
static void options() {
    varlen<meta::character_field_option>("character_field_option", "character");
    varlen<meta::octet_field_option>("octet_field_option", "octet");
    std::vector<std::pair<std::string, meta::decimal_field_option>> d;
    std::vector<std::optional<std::size_t>> vals{std::nullopt, 0, 1, 5, 38};
    for (auto p : vals) for (auto s : vals) {
        meta::decimal_field_option o(p, s);
        auto t = [](std::optional<std::size_t> x) { return x ? std::to_string(*x) : std::string("*"); };
        auto e = "decimal(" + t(p) + ", " + t(s) + ")";
        VF_CHECK(str(o) == e, "decimal_field_option:text", "printed '%s' expected '%s'", str(o).c_str(), e.c_str());
        d.emplace_back(e, o);
    }
    pairs("decimal_field_option", d);
    pairs<meta::time_of_day_field_option>("time_of_day_field_option", {{"0", meta::time_of_day_field_option(false)}, {"1", meta::time_of_day_field_option(true)}});
    pairs<meta::time_point_field_option>("time_point_field_option", {{"0", meta::time_point_field_option(false)}, {"1", meta::time_point_field_option(true)}});
    std::vector<std::pair<std::string, executor::process::impl::region_id>> r;
    using executor::process::impl::region_id; using executor::process::impl::region_kind;
    for (auto k : {region_kind::undefined, region_kind::basic_block}) for (std::size_t i : {0, 1, 7}) {
        region_id id(k, i);
        VF_CHECK(static_cast<bool>(id) == (k != region_kind::undefined), "region_id:bool", "region id validity");
        r.emplace_back(str(k) + std::to_string(i), id);
        if (k == region_kind::basic_block) VF_CHECK(region_id(i) == id, "region_id:ctor", "region id by index");
    }
    pairs("region_id", r);
}

template <class Ref, class Loc> static void lobs(char const* what) {
    using namespace jogasaki::lob;
    std::vector<std::unique_ptr<Loc>> locs;
    for (auto p : {"/a", "/b", ""}) for (bool t : {false, true}) locs.emplace_back(new Loc(p, t));
    locs.emplace_back(new Loc("/a", false));
    std::vector<std::pair<std::string, lob_locator>> lv;
    for (auto& l : locs) { lv.emplace_back(std::string(l->path()) + (l->is_temporary() ? "T" : "F"), *l); }
    pairs("lob_locator", lv);
    std::vector<std::pair<std::string, Ref>> v;   // key without the tag: the tag is not part of the identity
    auto tag = [&](std::string const& k, Ref const& r, lob_reference_kind kind, lob_id_type id, lob_data_provider pr, lob_locator const* l) {
        for (std::optional<std::uint64_t> t : {std::optional<std::uint64_t>{}, std::optional<std::uint64_t>{0}, std::optional<std::uint64_t>{~0ull}}) {
            Ref x = r; x.reference_tag(t);
            VF_CHECK(static_cast<lob_reference const&>(x).reference_tag() == t && x.kind() == kind && x.object_id() == id && x.provider() == pr && x.locator() == l, vf::strf("%s:fields", what), "%s %s: fields not kept", what, k.c_str());
            auto s = str(static_cast<lob_reference const&>(x));
            std::string e = "kind:" + str(kind);
            if (kind != lob_reference_kind::undefined) {
                if (t) e += ",tag:" + std::to_string(*t);
                if (kind == lob_reference_kind::provided) e += ",locator:{path:\"" + std::string(l->path()) + "\" is_temporary:" + (l->is_temporary() ? "1" : "0") + "}";
                else e += ",id:" + std::to_string(id) + ",provider:" + str(pr);
            }
            VF_CHECK(s == e, vf::strf("%s:text", what), "%s printed '%s' expected '%s'", what, s.c_str(), e.c_str());
            v.emplace_back(k, x);
        }
    };
    tag("undef", Ref{}, lob_reference_kind::undefined, 0, lob_data_provider::undefined, nullptr);
    for (std::size_t i = 0; i < locs.size(); ++i) tag(vf::strf("loc%zu", i), Ref(*locs[i]), lob_reference_kind::provided, 0, lob_data_provider::undefined, locs[i].get());
    for (lob_id_type id : {0ull, 1ull, ~0ull}) {
        tag(vf::strf("fetched%llu", (unsigned long long) id), Ref(id), lob_reference_kind::fetched, id, lob_data_provider::datastore, nullptr);
        for (auto p : {lob_data_provider::undefined, lob_data_provider::datastore, lob_data_provider::sql, lob_data_provider::relay_service_session})
            tag(vf::strf("resolved%llu/%d", (unsigned long long) id, (int) p), Ref(id, p), lob_reference_kind::resolved, id, p, nullptr);
    }
    pairs(what, v, false);
}

static void stats() {
    // all sequences of counter operations: (kind, delta)
    std::vector<std::pair<int, std::int64_t>> ops;
    for (int k : {0, 1, 3, 5}) for (std::int64_t d : {0, 1, 1000000, -1}) ops.emplace_back(k, d);
    ops.emplace_back(2, INT64_MIN); // "touch": creates the counter without counting
    std::size_t depth = vf::thorough() ? 5 : 4;
    std::uint64_t n = 0;
    std::vector<std::size_t> ix;
    std::function<void()> go = [&] {
        if (vf::mine(n++)) {
            vf::state(); vf::trace();
            request_statistics s; std::map<int, std::int64_t> m;
            std::string d;
            for (auto i : ix) {
                auto [k, c] = ops[i]; vf::step();
                d += vf::strf("%d:%lld ", k, (long long) c);
                if (c == INT64_MIN) { (void) s.counter(static_cast<counter_kind>(k)); continue; }
                s.counter(static_cast<counter_kind>(k)).count(c); m[k] += c;
            }
            vf::at("statistics %s", d.c_str());
            for (int round = 0; round < 2; ++round) {
                request_statistics s2(s);              // a copy reports the same
                std::map<int, std::int64_t> got; bool dup = false;
                (round ? s2 : s).each_counter([&](counter_kind k, request_execution_counter const& c) { if (got.count(k)) dup = true; got[k] = c.count().value_or(-77); if (!c.has_value()) dup = true; });
                VF_CHECK(got == m && !dup, "statistics:counters", "after %s: counters differ from the sums counted", d.c_str());
            }
            for (int k : {0, 1, 2, 3, 4, 5}) {
                auto& c = s.counter(static_cast<counter_kind>(k));
                VF_CHECK(c.has_value() == (m.count(k) > 0) && c.count().has_value() == c.has_value() && (!c.has_value() || *c.count() == m[k]), "statistics:counter", "after %s: counter %d", d.c_str(), k);
            }
            vf::outcome(vf::strf("st%zu", m.size()));
        }
        if (ix.size() == depth) return;
        for (std::size_t i = 0; i < ops.size(); ++i) { ix.push_back(i); go(); ix.pop_back(); }
    };
    go();
    if (vf::shard() == 0) {
        using clk = request_statistics::clock;
        for (long a : {0L, 1L, 5000000000L, -7L}) for (long b : {0L, 1L, 5000000000L, 1234567890L}) for (int order : {0, 1}) {
            request_statistics s; clk::time_point ta{clk::duration{a}}, tb{clk::duration{b}};
            if (order) { s.start_time(ta); s.end_time(tb); } else { s.end_time(tb); s.start_time(ta); }
            vf::state(); vf::step(); vf::at("duration %ld %ld", a, b);
            VF_CHECK(s.duration<std::chrono::nanoseconds>().count() == b - a, "statistics:duration", "duration of %ld..%ld", a, b);
            VF_CHECK(s.duration<std::chrono::milliseconds>().count() == (b - a) / 1000000, "statistics:duration_ms", "duration of %ld..%ld in ms", a, b);
        }
        executor::io::record_channel_stats rs; std::size_t t = 0;
        for (std::size_t i = 0; i < 20; ++i) { rs.add_total_record(i); t += i; VF_CHECK(rs.total_record_count() == t, "channel_stats", "total"); if (i == 10) { rs.total_record_count(3); t = 3; } }
        // diagnostics keep every argument in order
        for (std::size_t na = 0; na < 4; ++na) {
            executor::diagnostic_record<int> d(5, "m");
            std::string e = "diagnostic(code=5, message='m'";
            for (std::size_t i = 0; i < na; ++i) { d.new_argument() << "x" << i; e += (i ? ", '" : ", args=['") + std::string("x") + std::to_string(i) + "'"; }
            e += na ? "])" : ")";
            vf::state(); vf::at("diagnostic %zu", na);
            VF_CHECK(str(d) == e && d.arguments().size() == na, "diagnostic", "printed '%s' expected '%s'", str(d).c_str(), e.c_str());
        }
        for (std::size_t mask = 0; mask < 64; ++mask) {
            using namespace api::kvsservice;
            vf::state(); vf::step(); vf::at("transaction_option %zu", mask);
            table_areas wp{"w1", "w2"}, in{"i1"}, ex{"e1", "e2", "e3"};
            transaction_option o(transaction_type::ltx, mask & 1 ? wp : table_areas{});
            if (mask & 2) o.inclusive_read_areas(in); if (mask & 4) o.exclusive_read_areas(ex); if (mask & 8) o.label("L"); if (mask & 16) o.modifies_definitions(true); if (mask & 32) o.priority(transaction_priority::wait);
            VF_CHECK(o.type() == transaction_type::ltx && o.write_preserves() == (mask & 1 ? wp : table_areas{}) && o.inclusive_read_areas() == (mask & 2 ? in : table_areas{}) && o.exclusive_read_areas() == (mask & 4 ? ex : table_areas{}) && o.label() == (mask & 8 ? "L" : "") && o.modifies_definitions() == ((mask & 16) != 0) && o.priority() == (mask & 32 ? transaction_priority::wait : transaction_priority{}), "transaction_option", "option set %zu not kept", mask);
        }
    }
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    vf::bound_note("all pairs of the listed value objects over 2-5 values per field; all sequences of counter operations of length<=4 (quick) / 5 (thorough) over 17 operations");
    if (vf::shard() == 0) { options(); lobs<lob::lob_reference, lob::lob_locator>("lob_reference"); lobs<lob::blob_reference, lob::blob_locator>("blob_reference"); lobs<lob::clob_reference, lob::clob_locator>("clob_reference"); }
    stats();
    return vf::finish();
}
