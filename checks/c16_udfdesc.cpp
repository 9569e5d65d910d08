// C16: analysis of function descriptors and the overloads derived from them, over all small descriptor sets
#include "vf.h"
#include <jogasaki/udf/descriptor/descriptor_analyzer.h>
#include <jogasaki/udf/descriptor/descriptor_reader.h>
#include <jogasaki/udf/descriptor/validation/message_duplicate_validator.h>
#include <jogasaki/udf/descriptor/validation/rpc_duplicate_validator.h>
#include <jogasaki/udf/descriptor_impl.h>
#include <google/protobuf/descriptor.pb.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
namespace d = jogasaki::udf::descriptor;
namespace fs = std::filesystem;
using namespace plugin::udf;
using google::protobuf::FieldDescriptorProto;
static fs::path dir;
static void put(fs::path const& p, std::string const& s) { std::ofstream o(p, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }

// ---- independent model of the analysis
struct fmodel { std::string file, pkg; google::protobuf::FileDescriptorProto p; };
using diag = std::map<std::string, std::pair<std::set<std::string>, std::set<std::string>>>;
static void defs(google::protobuf::DescriptorProto const& m, std::string const& prefix, std::string const& file, diag& out) {
    std::string n = prefix + "." + m.name();
    out[n].first.insert(file);
    for (auto& f : m.field()) if (f.type() == FieldDescriptorProto::TYPE_MESSAGE && !f.type_name().empty()) out[f.type_name()[0] == '.' ? f.type_name() : "." + f.type_name()].second.insert(file);
    for (auto& k : m.nested_type()) defs(k, n, file, out);
}
static std::string show(diag const& x) {
    std::string s;
    for (auto& [k, v] : x) { s += k + "{"; for (auto& f : v.first) s += f + " "; s += "<-"; for (auto& f : v.second) s += f + " "; s += "}"; }
    return s;
}
static diag conv(d::message_diagnostics const& m) { diag r; for (auto& [k, v] : m) r[k] = {v.defining_protos, v.referring_protos}; return r; }

// file variants: package, messages, services
static google::protobuf::FileDescriptorProto file(int v, std::string const& name) {
    google::protobuf::FileDescriptorProto f; f.set_name(name);
    int pkg = v % 3; v /= 3; int msg = v % 5; v /= 5; int svc = v % 5;
    if (pkg) f.set_package(pkg == 1 ? "p" : "p.q");
    auto field = [](google::protobuf::DescriptorProto* m, FieldDescriptorProto::Type t, char const* tn) { auto* x = m->add_field(); x->set_name("f"); x->set_type(t); if (tn) x->set_type_name(tn); };
    if (msg >= 1) { auto* m = f.add_message_type(); m->set_name("M"); if (msg == 2) field(m, FieldDescriptorProto::TYPE_MESSAGE, "p.M"); if (msg == 1) field(m, FieldDescriptorProto::TYPE_INT32, nullptr); }
    if (msg == 3) { auto* m = f.mutable_message_type(0); auto* n = m->add_nested_type(); n->set_name("N"); auto* o = n->add_nested_type(); o->set_name("M"); field(o, FieldDescriptorProto::TYPE_MESSAGE, ".p.q.M"); field(n, FieldDescriptorProto::TYPE_ENUM, ".p.E"); field(n, FieldDescriptorProto::TYPE_MESSAGE, ""); }
    if (msg == 4) { auto* m = f.add_message_type(); m->set_name("N"); field(m, FieldDescriptorProto::TYPE_STRING, nullptr); field(m, FieldDescriptorProto::TYPE_MESSAGE, ".M"); }
    auto method = [&](google::protobuf::ServiceDescriptorProto* s, char const* n, char const* in, char const* out) { auto* m = s->add_method(); m->set_name(n); if (in) m->set_input_type(in); if (out) m->set_output_type(out); };
    if (svc >= 1) { auto* s = f.add_service(); s->set_name("S"); method(s, svc == 1 ? "A" : svc == 2 ? "B" : svc == 3 ? "a" : "AA", ".p.M", "M"); if (svc == 4) method(s, "C", nullptr, ".p.q.M"); }
    if (svc == 3) { auto* s = f.add_service(); s->set_name("T"); method(s, "A", "p.M", nullptr); }
    return f;
}
static constexpr int NF = 3 * 5 * 5;

static void check_sets(std::vector<std::vector<google::protobuf::FileDescriptorProto>> const& sets, std::vector<int> const& broken, std::string const& h) {
    // broken: 0 fine, 1 missing file, 2 unparsable, 3 truncated
    std::vector<fs::path> paths; diag md; std::vector<std::array<std::string, 4>> rpcs; std::vector<std::pair<fs::path, descriptor_read_status>> errs;
    for (std::size_t i = 0; i < sets.size(); ++i) {
        auto p = dir / ("f" + std::to_string(i) + ".desc.pb");
        google::protobuf::FileDescriptorSet s; for (auto& f : sets[i]) *s.add_file() = f;
        auto bytes = s.SerializeAsString();
        if (broken[i] == 1) p = dir / "absent.desc.pb";
        else if (broken[i] == 2) put(p, "\xff\xff\xff\xff\x0f not a descriptor");
        else if (broken[i] == 3) put(p, bytes.substr(0, bytes.size() - 1));
        else put(p, bytes);
        paths.push_back(p);
        if (broken[i]) { errs.emplace_back(p, broken[i] == 1 ? descriptor_read_status::descriptor_open_failed : descriptor_read_status::descriptor_parse_failed); continue; }
        for (auto& f : sets[i]) {
            std::string pk = f.package().empty() ? "" : f.package() + ".";
            for (auto& m : f.message_type()) defs(m, f.package().empty() ? "" : "." + f.package(), f.name(), md);
            for (auto& sv : f.service()) for (auto& m : sv.method()) {
                rpcs.push_back({f.name(), sv.name(), m.name(), "/" + pk + sv.name() + "/" + m.name()});
                for (auto& t : {m.input_type(), m.output_type()}) if (!t.empty()) md[t[0] == '.' ? t : "." + t].second.insert(f.name());
            }
        }
    }
    auto r = d::analyze_descriptors(paths);
    vf::state(); vf::step(3); vf::trace();
    VF_CHECK(r.has_error() == !errs.empty() && r.errors().size() == errs.size(), "desc-errors", "%s: %zu errors, expected %zu", h.c_str(), r.errors().size(), errs.size());
    for (std::size_t i = 0; i < errs.size(); ++i) VF_CHECK(r.errors()[i].path == errs[i].first && r.errors()[i].status == errs[i].second, "desc-errors", "%s: error %zu wrong", h.c_str(), i);
    VF_CHECK(r.rpc_methods().size() == rpcs.size(), "desc-rpcs", "%s: %zu methods, expected %zu", h.c_str(), r.rpc_methods().size(), rpcs.size());
    for (std::size_t i = 0; i < rpcs.size(); ++i) { auto& g = r.rpc_methods()[i]; VF_CHECK(g.proto_file_name == rpcs[i][0] && g.service_name == rpcs[i][1] && g.method_name == rpcs[i][2] && g.full_rpc_path == rpcs[i][3], "desc-rpcs", "%s: method %zu is %s %s %s %s", h.c_str(), i, g.proto_file_name.c_str(), g.service_name.c_str(), g.method_name.c_str(), g.full_rpc_path.c_str()); }
    auto got = show(conv(r.message_info())), want = show(md);
    VF_CHECK(got == want, "desc-messages", "%s: messages\n%s\nexpected\n%s", h.c_str(), got.c_str(), want.c_str());
    std::set<std::string> names; bool dup = false; for (auto& x : rpcs) dup = !names.insert(x[2]).second || dup;
    auto st = d::validation::validate_rpc_method_duplicates(r.rpc_methods());
    VF_CHECK((st == rpc_duplicate_check_status::rpc_name_duplicated) == dup, "desc-rpc-dup", "%s: duplicate method names %s", h.c_str(), dup ? "not noticed" : "reported without any");
    diag wd; for (auto& [k, v] : md) if (v.first.size() > 1) wd[k] = v;
    auto gd = show(conv(d::validation::filter_message_definition_duplicates(r.message_info())));
    VF_CHECK(gd == show(wd), "desc-msg-dup", "%s: duplicated messages\n%s\nexpected\n%s", h.c_str(), gd.c_str(), show(wd).c_str());
    VF_CHECK(show(conv(r.message_info())) == want, "desc-messages", "%s: changed by validation", h.c_str());
}
// ---- overloads
static std::uint64_t patterns(std::vector<int> const& shape) {   // -1 plain column, n: member of choice group n
    std::vector<std::unique_ptr<column_descriptor_impl>> cols; std::vector<column_descriptor*> ptr; std::vector<std::string> names;
    for (std::size_t i = 0; i < shape.size(); ++i) names.push_back("c" + std::to_string(i));
    for (std::size_t i = 0; i < shape.size(); ++i) {
        std::optional<std::size_t> g; if (shape[i] >= 0) g = shape[i];
        cols.push_back(std::make_unique<column_descriptor_impl>(i, names[i], type_kind(i % 18), nullptr, g, g ? std::optional<std::string_view>("one") : std::nullopt, i % 2 == 0));
        ptr.push_back(cols.back().get());
    }
    record_descriptor_impl r("rec", ptr);
    std::string h = "columns"; for (int s : shape) h += s < 0 ? " plain" : " g" + std::to_string(s);
    VF_CHECK(r.columns() == ptr && r.record_name() == "rec", "desc-columns", "%s", h.c_str());
    for (std::size_t i = 0; i < ptr.size(); ++i) {
        auto* c = ptr[i]; bool g = shape[i] >= 0;
        VF_CHECK(c->index() == i && c->column_name() == names[i] && c->type_kind() == type_kind(i % 18) && c->nested() == nullptr, "desc-column", "%s: %zu", h.c_str(), i);
        VF_CHECK(c->has_oneof() == g && c->oneof_index().has_value() == g && (!g || *c->oneof_index() == (std::size_t) shape[i]) && c->oneof_name().has_value() == g, "desc-column", "%s: choice of %zu", h.c_str(), i);
        VF_CHECK(c->proto3_optional() == (i % 2 == 0) && c->optional() == (g && i % 2 == 0), "desc-column", "%s: optional of %zu", h.c_str(), i);
    }
    // one pattern for every way to choose one member of each group, members placed where their group first appears
    std::vector<std::vector<column_descriptor*>> want;
    std::vector<int> groups; for (int s : shape) if (s >= 0 && std::find(groups.begin(), groups.end(), s) == groups.end()) groups.push_back(s);
    std::function<void(std::size_t, std::map<int, std::size_t>)> rec = [&](std::size_t gi, std::map<int, std::size_t> pick) {
        if (gi == groups.size()) {
            std::vector<column_descriptor*> p; std::set<int> done;
            for (std::size_t i = 0; i < shape.size(); ++i) if (shape[i] < 0) p.push_back(ptr[i]); else if (done.insert(shape[i]).second) p.push_back(ptr[pick[shape[i]]]);
            want.push_back(p); return;
        }
        for (std::size_t i = 0; i < shape.size(); ++i) if (shape[i] == groups[gi]) { auto q = pick; q[groups[gi]] = i; rec(gi + 1, q); }
    };
    rec(0, {});
    auto got = r.argument_patterns();
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    VF_CHECK(got == want, "desc-patterns", "%s: %zu argument patterns, expected %zu or other columns in them", h.c_str(), got.size(), want.size());
    vf::state(); vf::step(); vf::trace();
    return want.size();
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    dir = fs::temp_directory_path() / vf::strf("vf-c16-%d", (int) getpid());
    fs::create_directories(dir);
    struct clean { ~clean() { std::error_code e; fs::remove_all(dir, e); } } cl;
    std::uint64_t unit = 0;
    // one file; two files (same or different names, same or different sets); broken files between good ones
    for (int a = 0; a < NF; ++a) {
        if (!vf::mine(unit++)) continue;
        vf::at("descriptor sets with file variant %d first", a);
        check_sets({{file(a, "a.proto")}}, {0}, vf::strf("%d", a));
        for (int b = 0; b < NF; ++b) {
            vf::tick();
            check_sets({{file(a, "a.proto"), file(b, "b.proto")}}, {0}, vf::strf("%d+%d", a, b));
            check_sets({{file(a, "a.proto")}, {file(b, "b.proto")}}, {0, 0}, vf::strf("%d,%d", a, b));
            check_sets({{file(a, "a.proto")}, {file(b, "a.proto")}}, {0, 0}, vf::strf("%d,%d same name", a, b));
            if (b % 5 == 1 || vf::thorough()) for (int k = 1; k <= 3; ++k) {
                check_sets({{file(a, "a.proto")}, {file(b, "b.proto")}}, {k, 0}, vf::strf("%d,%d first broken %d", a, b, k));
                check_sets({{file(a, "a.proto")}, {file(b, "b.proto")}, {file(a, "c.proto")}}, {0, k, 0}, vf::strf("%d,%d second broken %d", a, b, k));
            }
            if (vf::thorough()) for (int c = 0; c < NF; c += 4) check_sets({{file(a, "a.proto")}, {file(b, "b.proto"), file(c, "c.proto")}}, {0, 0}, vf::strf("%d,%d+%d", a, b, c));
        }
    }
    check_sets({}, {}, "none");
    // what the descriptors say
    int maxc = vf::thorough() ? 7 : 6;
    std::vector<int> shape; std::uint64_t np = 0;
    std::function<void()> go = [&] {
        np += patterns(shape);
        if ((int) shape.size() == maxc) return;
        for (int s = -1; s < 3; ++s) { if (shape.empty() && !vf::mine(unit++)) continue; if (shape.empty()) vf::at("columns starting with %d", s); shape.push_back(s); go(); shape.pop_back(); }
    };
    go();
    vf::at("packages and services");
    {
        column_descriptor_impl c(3, "c", type_kind::bytes); std::vector<column_descriptor*> cs{&c};
        record_descriptor_impl in("in", cs), out("out", {});
        column_descriptor_impl n(1, "n", type_kind::message, &in);
        VF_CHECK(n.nested() == &in && !n.has_oneof() && !n.optional(), "desc-column", "nested");
        for (auto fk : {function_kind::unary, function_kind::client_streaming, function_kind::server_streaming, function_kind::bidirectional_streaming}) {
            function_descriptor_impl f(7, "f", fk, &in, &out);
            VF_CHECK(f.function_index() == 7 && f.function_name() == "f" && f.function_kind() == fk && &f.input_record() == &in && &f.output_record() == &out, "desc-function", "kind %d", (int) fk);
            std::vector<function_descriptor*> fsv{&f, &f};
            service_descriptor_impl s(5, "s", fsv);
            VF_CHECK(s.service_index() == 5 && s.service_name() == "s" && s.functions() == fsv, "desc-service", "kind %d", (int) fk);
            std::vector<service_descriptor*> ss{&s};
            package_descriptor_impl p("p", "p.proto", package_version(1, 2, 3), ss);
            VF_CHECK(p.package_name() == "p" && p.file_name() == "p.proto" && p.version() == package_version(1, 2, 3) && p.services() == ss, "desc-package", "kind %d", (int) fk);
            vf::state(); vf::step(3); vf::trace();
        }
        // versions order as (major, minor, patch)
        for (int x = 0; x < 27; ++x) for (int y = 0; y < 27; ++y) {
            auto v = [](int i) { return package_version(i / 9, i / 3 % 3, i % 3); };
            VF_CHECK((v(x) == v(y)) == (x == y) && (v(x) < v(y)) == (x < y), "desc-version", "%d %d", x, y);
            VF_CHECK((int) v(x).major() == x / 9 && (int) v(x).minor() == x / 3 % 3 && (int) v(x).patch() == x % 3, "desc-version", "%d", x);
            vf::state(); vf::step(); vf::trace();
        }
    }
    vf::bound_note(vf::strf("all %d variants of a descriptor file (packages, nested and self references, services), all pairs of them in one or two sets and under one name, unreadable and truncated files; all column lists up to %d columns over 3 choice groups", NF, maxc));
    vf::sample("columns g0 plain g1 g0 g1: 4 argument patterns");
    return vf::finish();
}
