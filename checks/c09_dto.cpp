// C09: table and column descriptions survive the wire; named record access
#include "vf.h"
#include <sstream>
#include <jogasaki/executor/dto/common_column_utils.h>
#include <jogasaki/executor/dto/describe_table_utils.h>
#include <jogasaki/api/kvsservice/mapped_record.h>
using namespace jogasaki;
using namespace jogasaki::executor::dto;
using var = std::optional<std::variant<std::uint32_t, bool>>;
using PC = jogasaki::proto::sql::common::Column;
static std::vector<int> const atoms{0, 1, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 18, 19, 20, 21, 22, 31};
static std::string show(common_column const& c) { std::ostringstream o; o << c; return o.str(); }
static std::string field(PC const& p, int which) { // wire level view of the three optional numeric fields
    switch (which) {
    case 0: return p.length_opt_case() == PC::kLength ? std::to_string(p.length()) : p.length_opt_case() == PC::kArbitraryLength ? "*" : "-";
    case 1: return p.precision_opt_case() == PC::kPrecision ? std::to_string(p.precision()) : p.precision_opt_case() == PC::kArbitraryPrecision ? "*" : "-";
    default: return p.scale_opt_case() == PC::kScale ? std::to_string(p.scale()) : p.scale_opt_case() == PC::kArbitraryScale ? "*" : "-";
    }
}
static std::string field(var const& v) { return !v ? "-" : std::holds_alternative<bool>(*v) ? "*" : std::to_string(std::get<std::uint32_t>(*v)); }

static void check(common_column const& c) {
    vf::state(); vf::step(3); vf::trace();
    auto p = to_proto(c);
    VF_CHECK(p.name() == c.name_ && static_cast<int>(p.atom_type()) == static_cast<int>(c.atom_type_) && p.type_info_case() == PC::kAtomType && p.dimension() == c.dimension_, "column:basic", "%s: name, type or dimension wrong on the wire", show(c).c_str());
    VF_CHECK(field(p, 0) == field(c.length_) && field(p, 1) == field(c.precision_) && field(p, 2) == field(c.scale_), "column:size", "%s: length %s precision %s scale %s on the wire", show(c).c_str(), field(p, 0).c_str(), field(p, 1).c_str(), field(p, 2).c_str());
    VF_CHECK((p.nullable_opt_case() == PC::kNullable) == c.nullable_.has_value() && (!c.nullable_ || p.nullable() == *c.nullable_), "column:nullable", "%s: nullable wrong on the wire", show(c).c_str());
    VF_CHECK((p.varying_opt_case() == PC::kVarying) == c.varying_.has_value() && (!c.varying_ || p.varying() == *c.varying_), "column:varying", "%s: varying wrong on the wire", show(c).c_str());
    VF_CHECK((p.description_opt_case() == PC::kDescription) == c.description_.has_value() && (!c.description_ || p.description() == *c.description_), "column:description", "%s: description wrong on the wire", show(c).c_str());
    std::string bytes; p.SerializeToString(&bytes);
    PC q; VF_CHECK(q.ParseFromString(bytes), "column:parse", "%s: wire form does not parse", show(c).c_str());
    auto r = from_proto(q);
    VF_CHECK(r == c && !(r != c), "column:roundtrip", "%s came back as %s", show(c).c_str(), show(r).c_str());
    VF_CHECK(show(r) == show(c), "column:print", "%s prints differently after the round trip", show(c).c_str());
    VF_CHECK(has_length(q) == (field(c.length_) != "-" && field(c.length_) != "*") && has_arbitrary_length(q) == (field(c.length_) == "*")
        && has_precision(q) == (field(c.precision_) != "-" && field(c.precision_) != "*") && has_arbitrary_precision(q) == (field(c.precision_) == "*")
        && has_scale(q) == (field(c.scale_) != "-" && field(c.scale_) != "*") && has_arbitrary_scale(q) == (field(c.scale_) == "*")
        && has_nullable(q) == c.nullable_.has_value() && has_varying(q) == c.varying_.has_value() && executor::dto::has_description(q) == c.description_.has_value() && has_atom_type(q), "column:has", "%s: presence queries wrong", show(c).c_str());
    for (auto* v : {&c.length_, &c.precision_, &c.scale_}) if (*v) VF_CHECK(is_arbitrary(*v) == (field(*v) == "*"), "column:arbitrary", "%s: is_arbitrary wrong", show(c).c_str());
    vf::outcome(field(c.length_) + field(c.precision_) + field(c.scale_));
}
static std::vector<common_column> cols;

static void columns() {
    std::vector<var> vs{std::nullopt, std::variant<std::uint32_t, bool>{0u}, std::variant<std::uint32_t, bool>{1u}, std::variant<std::uint32_t, bool>{0xffffffffu}, std::variant<std::uint32_t, bool>{true}};
    std::vector<std::optional<bool>> bs{std::nullopt, false, true};
    std::uint64_t n = 0;
    for (auto name : {"", "c", "\xE3\x81\x82"}) for (auto t : atoms) for (auto& l : vs) for (auto& p : vs) for (auto& s : vs) for (auto& nu : bs) {
        if (!vf::mine(n++)) continue;
        for (auto& va : bs) for (std::optional<std::string> d : {std::optional<std::string>{}, std::optional<std::string>{""}, std::optional<std::string>{"desc"}}) for (std::uint32_t dim : {0u, 2u}) {
            common_column c(name, static_cast<common_column::atom_type>(t), nu, l, p, s);
            c.varying_ = va; c.description_ = d; c.dimension_ = dim;
            vf::at("column %s", show(c).c_str());
            check(c);
        }
    }
    if (vf::shard()) return;
    for (auto t : atoms) {
        vf::state(); vf::at("atom type %d", t);
        auto a = static_cast<common_column::atom_type>(t);
        VF_CHECK(static_cast<int>(from(a)) == t && from(static_cast<jogasaki::proto::sql::common::AtomType>(t)) == a, "atom:map", "atom type %d changes", t);
        std::string nm(common_column::to_string_view(a)); for (auto& c : nm) c = static_cast<char>(std::toupper(c));
        VF_CHECK(jogasaki::proto::sql::common::AtomType_Name(t) == nm, "atom:name", "atom type %d is named %s", t, nm.c_str());
    }
    for (int i = -2; i < 200; ++i) if (!jogasaki::proto::sql::common::AtomType_IsValid(i))
        VF_CHECK(from(static_cast<jogasaki::proto::sql::common::AtomType>(i)) == common_column::atom_type::type_unspecified, "atom:unknown", "undefined wire type %d", i);
    PC p; p.mutable_row_type();   // a type this side does not know
    VF_CHECK(from_proto(p).atom_type_ == common_column::atom_type::type_unspecified, "column:row", "row type");
    p.mutable_user_type()->set_name("u");
    VF_CHECK(from_proto(p).atom_type_ == common_column::atom_type::type_unspecified, "column:user", "user type");
    // columns that differ in one attribute are different
    std::vector<common_column> base;
    auto add = [&](auto f) { common_column c("n", common_column::atom_type::decimal, true, {{5u}}, {{6u}}, {{7u}}); c.varying_ = true; c.description_ = "d"; c.dimension_ = 1; f(c); base.push_back(c); };
    add([](auto&) {}); add([](auto& c) { c.name_ = "m"; }); add([](auto& c) { c.atom_type_ = common_column::atom_type::int4; }); add([](auto& c) { c.dimension_ = 0; });
    for (auto m : {&common_column::length_, &common_column::precision_, &common_column::scale_}) { add([&](auto& c) { c.*m = std::nullopt; }); add([&](auto& c) { c.*m = std::variant<std::uint32_t, bool>{true}; }); add([&](auto& c) { c.*m = std::variant<std::uint32_t, bool>{9u}; }); }
    add([](auto& c) { c.nullable_ = false; }); add([](auto& c) { c.nullable_.reset(); }); add([](auto& c) { c.varying_ = false; }); add([](auto& c) { c.varying_.reset(); }); add([](auto& c) { c.description_ = ""; }); add([](auto& c) { c.description_.reset(); });
    for (std::size_t i = 0; i < base.size(); ++i) for (std::size_t j = 0; j < base.size(); ++j) { vf::state(); vf::at("column %zu == %zu", i, j); VF_CHECK((base[i] == base[j]) == (i == j) && (base[i] != base[j]) == (i != j), "column:equality", "%s and %s", show(base[i]).c_str(), show(base[j]).c_str()); }
}
static void tables() {
    std::vector<common_column> cs{{"a", common_column::atom_type::int4, true}, {"b", common_column::atom_type::character, std::nullopt, {{true}}}, {"", common_column::atom_type::decimal, false, std::nullopt, {{38u}}, {{true}}}};
    std::vector<std::vector<std::size_t>> lists{{}};
    for (std::size_t i = 0, b = 0; i < 3; ++i) { auto e = lists.size(); for (; b < e; ++b) for (std::size_t k = 0; k < 3; ++k) { auto v = lists[b]; v.push_back(k); lists.push_back(v); } }
    std::vector<std::string> names{"", "t", "T2"};
    std::uint64_t n = 0;
    std::vector<describe_table> prev;
    for (auto& cl : lists) for (auto& pk : lists) {
        if (!vf::mine(n++)) continue;
        for (auto& tn : names) for (auto& db : names) for (auto& sc : names) for (int d = 0; d < 3; ++d) {
            vf::state(); vf::step(2); vf::trace();
            describe_table t; t.table_name_ = tn; t.database_name_ = db; t.schema_name_ = sc;
            for (auto i : cl) t.columns_.push_back(cs[i]);
            for (auto i : pk) t.primary_key_.push_back(cs[i].name_);
            if (d) t.description_ = d == 1 ? "" : "text";
            std::ostringstream o; o << t;
            vf::at("table %s", o.str().c_str());
            auto p = to_proto(t);
            VF_CHECK(p.table_name() == tn && p.database_name() == db && p.schema_name() == sc && p.columns_size() == (int) cl.size() && p.primary_key_size() == (int) pk.size(), "table:wire", "%s wrong on the wire", o.str().c_str());
            for (int i = 0; i < p.primary_key_size(); ++i) VF_CHECK(p.primary_key(i) == t.primary_key_[i], "table:pk", "%s: primary key column %d", o.str().c_str(), i);
            for (int i = 0; i < p.columns_size(); ++i) VF_CHECK(from_proto(p.columns(i)) == t.columns_[i], "table:columns", "%s: column %d", o.str().c_str(), i);
            VF_CHECK(has_description(p) == (d != 0) && (!d || p.description() == *t.description_), "table:description", "%s: description", o.str().c_str());
            std::string bytes; p.SerializeToString(&bytes);
            jogasaki::proto::sql::response::DescribeTable::Success q; q.ParseFromString(bytes);
            auto r = from_proto(q);
            VF_CHECK(r == t && !(r != t), "table:roundtrip", "%s does not come back", o.str().c_str());
            std::ostringstream o2; o2 << r; VF_CHECK(o2.str() == o.str(), "table:print", "%s prints differently", o.str().c_str());
            if (prev.size() == 2) prev.erase(prev.begin());
            for (auto& x : prev) { std::ostringstream o3; o3 << x.database_name_ << '|' << x.schema_name_ << '|' << x; std::ostringstream o4; o4 << t.database_name_ << '|' << t.schema_name_ << '|' << t; VF_CHECK((x == t) == (o3.str() == o4.str()), "table:equality", "%s and %s", o3.str().c_str(), o4.str().c_str()); }
            prev.push_back(t);
        }
    }
}
static void records() { // names may repeat: the first one counts; values may outnumber the names
    std::vector<std::string> alpha{"a", "b", "", "ab"};
    std::vector<std::vector<std::size_t>> lists{{}};
    for (std::size_t i = 0, b = 0; i < 5; ++i) { auto e = lists.size(); for (; b < e; ++b) for (std::size_t k = 0; k < 4; ++k) { auto v = lists[b]; v.push_back(k); lists.push_back(v); } }
    std::uint64_t n = 0;
    for (auto& l : lists) {
        if (!vf::mine(n++)) continue;
        vf::state(); vf::trace(); vf::step(5);
        tateyama::proto::kvs::data::Record rec; std::string d;
        for (std::size_t i = 0; i < l.size(); ++i) { rec.add_names(alpha[l[i]]); rec.add_values()->set_int4_value(static_cast<int>(100 + i)); d += "'" + alpha[l[i]] + "' "; }
        vf::at("record %s", d.c_str());
        api::kvsservice::mapped_record m(rec);
        for (std::size_t a = 0; a < 5; ++a) {
            std::string nm = a < 4 ? alpha[a] : "zz";
            std::size_t pos = 0; while (pos < l.size() && l[pos] != a) ++pos;
            auto* v = m.get_value(std::string_view(nm));
            VF_CHECK((v != nullptr) == (pos < l.size()) && (!v || v->int4_value() == (int) (100 + pos)), "record:get", "names %s: column '%s' gives %d", d.c_str(), nm.c_str(), v ? v->int4_value() : -1);
            if (v) VF_CHECK(v == &rec.values(static_cast<int>(pos)), "record:identity", "not the value of the record itself");
        }
        vf::outcome(vf::strf("rec%zu", l.size()));
    }
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    vf::bound_note("columns: every atom type x 5 values for each of length, precision, scale x 3 nullable x 3 varying x 3 descriptions x 2 dimensions x 3 names; tables: all lists of <=3 columns and <=3 key columns from 3 columns x 3 names per name field x 3 descriptions; records: all name lists of length <=5 over 4 names");
    columns(); tables(); records();
    return vf::finish();
}
