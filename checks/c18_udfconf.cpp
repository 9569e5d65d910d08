// C18: what a function plugin's configuration, load results and calls say: names, classification, timeouts, listing
#include "vf.h"
#include <jogasaki/logging.h>
#include <jogasaki/udf/descriptor_impl.h>
#include <jogasaki/udf/error_info.h>
#include <jogasaki/udf/generic_client_context.h>
#include <jogasaki/udf/plugin_api.h>
#include <jogasaki/udf/udf_config.h>
#include <glog/logging.h>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
using namespace plugin::udf;
using ms = std::chrono::milliseconds;
using sclock = std::chrono::system_clock;

// ---- names and classes (frozen: they are what the administrator reads in the log)
struct lrow { load_status s; char const* name; load_outcome o; };
static lrow const lt[] = {
    {load_status::ok, "ok", load_outcome::ok},
    {load_status::path_is_empty, "path_is_empty", load_outcome::skipped},
    {load_status::path_not_found, "path_not_found", load_outcome::fail},
    {load_status::message_name_duplicated, "message_name_duplicated", load_outcome::skipped},
    {load_status::no_ini_files, "no_ini_files", load_outcome::skipped},
    {load_status::no_ini_and_so_files, "no_ini_and_so_files", load_outcome::skipped},
    {load_status::ini_so_pair_mismatch, "ini_so_pair_mismatch", load_outcome::skipped},
    {load_status::ini_invalid, "ini_invalid", load_outcome::skipped},
    {load_status::not_regular_file_or_dir, "not_regular_file_or_dir", load_outcome::skipped},
    {load_status::udf_disabled, "udf_disabled", load_outcome::skipped},
    {load_status::deps_not_found, "deps_not_found", load_outcome::skipped},
    {load_status::no_shared_objects_found, "no_shared_objects_found", load_outcome::skipped},
    {load_status::dlopen_failed, "dlopen_failed", load_outcome::fail},
    {load_status::descriptor_open_failed, "descriptor_open_failed", load_outcome::fail},
    {load_status::descriptor_parse_failed, "descriptor_parse_failed", load_outcome::fail},
    {load_status::api_symbol_missing, "api_symbol_missing", load_outcome::fail},
    {load_status::api_init_failed, "api_init_failed", load_outcome::fail},
    {load_status::factory_symbol_missing, "factory_symbol_missing", load_outcome::fail},
    {load_status::factory_creation_failed, "factory_creation_failed", load_outcome::fail},
    {load_status::rpc_name_duplicated, "rpc_name_duplicated", load_outcome::fail},
};
static char const* const gt[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
static std::pair<type_kind, char const*> const tt[] = {
    {type_kind::float8, "float8"}, {type_kind::float4, "float4"}, {type_kind::int8, "int8"}, {type_kind::uint8, "uint8"}, {type_kind::int4, "int4"}, {type_kind::fixed8, "fixed8"},
    {type_kind::fixed4, "fixed4"}, {type_kind::boolean, "bool"}, {type_kind::string, "string"}, {type_kind::group, "group"}, {type_kind::message, "message"}, {type_kind::bytes, "bytes"},
    {type_kind::uint4, "uint4"}, {type_kind::grpc_enum, "enum"}, {type_kind::sfixed4, "sfixed4"}, {type_kind::sfixed8, "sfixed8"}, {type_kind::sint4, "sint4"}, {type_kind::sint8, "sint8"}};
static std::pair<function_kind, char const*> const ft[] = {{function_kind::unary, "unary"}, {function_kind::client_streaming, "client_streaming"}, {function_kind::server_streaming, "server_streaming"}, {function_kind::bidirectional_streaming, "bidirectional_streaming"}};
template <class T> static std::string str(T const& x) { std::ostringstream o; o << x; return o.str(); }
template <class T> static void names(char const* what, T v, std::string const& want, std::string const& got) {
    vf::state(); vf::step(); vf::trace();
    VF_CHECK(got == want, "udf-name", "%s %d is called %s, expected %s", what, (int) v, got.c_str(), want.c_str());
}
static void tables() {
    vf::at("names");
    for (auto& r : lt) { names("status", r.s, r.name, std::string(to_string_view(r.s))); names("status", r.s, r.name, str(r.s)); VF_CHECK(classify(r.s) == r.o, "udf-class", "%s is classified %d, expected %d", r.name, (int) classify(r.s), (int) r.o); }
    VF_CHECK(classify(load_status(999)) == load_outcome::fail, "udf-class", "an unknown status is not a failure");
    names("status", 999, "unknown_status", str(load_status(999)));
    for (int i = 0; i < 17; ++i) { names("code", i, gt[i], std::string(to_string_view(grpc::StatusCode(i)))); names("code", i, gt[i], [&] { std::ostringstream o; plugin::udf::operator<<(o, grpc::StatusCode(i)); return o.str(); }()); }
    names("code", 99, "UNKNOWN_CODE", std::string(to_string_view(grpc::StatusCode(99))));
    char const* on[] = {"OK", "SKIPPED", "FAIL", "UNKNOWN"};
    for (int i = 0; i < 4; ++i) { names("outcome", i, on[i], std::string(to_string_view(load_outcome(i)))); names("outcome", i, on[i], str(load_outcome(i))); }
    for (auto& t : tt) names("type", t.first, t.second, str(t.first));
    names("type", 99, "UnknownTypeKind", str(type_kind(99)));
    for (auto& t : ft) names("function", t.first, t.second, str(t.first));
    names("function", 99, "unknown_function_kind", str(function_kind(99)));
}
static void values() {
    std::vector<std::string> ss{"", "a", "dns:///h:1", std::string("x\0y", 3), std::string(100, 'z')};
    std::vector<std::optional<std::string>> os{std::nullopt, "", "g:2"};
    std::vector<std::optional<std::size_t>> ts{std::nullopt, 0, 1, ~std::size_t{}};
    auto chk = [&](udf_config const& c, bool e, std::string const& ep, std::string const& tr, bool s, std::optional<std::string> const& g, std::optional<std::size_t> const& t, char const* how) {
        vf::step();
        VF_CHECK(c.enabled() == e && c.endpoint() == ep && c.transport() == tr && c.secure() == s && c.grpc_server_endpoint() == g && c.timeout() == t, "udf-config", "%s: enabled=%d endpoint=%s transport=%s secure=%d", how, e, ep.c_str(), tr.c_str(), s);
    };
    chk(udf_config{}, true, "dns:///localhost:50051", "stream", false, std::nullopt, std::nullopt, "default");
    for (bool e : {false, true}) for (bool s : {false, true}) for (auto& ep : ss) for (auto& tr : ss) for (auto& g : os) for (auto& t : ts) {
        vf::state(); vf::trace(); vf::at("config");
        udf_config c(e, ep, tr, s, g, t); chk(c, e, ep, tr, s, g, t, "constructed");
        udf_config c2(c); chk(c2, e, ep, tr, s, g, t, "copied"); chk(c, e, ep, tr, s, g, t, "copied from");
        udf_config c3; c3 = c; chk(c3, e, ep, tr, s, g, t, "assigned");
        udf_config c4(std::move(c)); chk(c4, e, ep, tr, s, g, t, "moved");
        udf_config c5; c5 = std::move(c2); chk(c5, e, ep, tr, s, g, t, "move-assigned");
        if (!t) { udf_config d(e, ep, tr, s, g); chk(d, e, ep, tr, s, g, t, "without timeout"); if (!g) chk(udf_config(e, ep, tr, s), e, ep, tr, s, g, t, "without options"); }
    }
    for (auto& a : ss) for (int c = 0; c < 17; ++c) { error_info e(grpc::StatusCode(c), a); auto f = e; VF_CHECK(e.code() == c && e.message() == a && f.code() == c && f.message() == a, "udf-error", "code %d", c); vf::state(); vf::step(); vf::trace(); }
    // load results: every order of three changes
    for (auto& r : lt) for (auto& a : ss) for (auto& b : ss) {
        load_result l(r.s, a, b); vf::state(); vf::trace();
        VF_CHECK(l.status() == r.s && l.file() == a && l.detail() == b, "udf-result", "%s %s %s", r.name, a.c_str(), b.c_str());
        for (int seq = 0; seq < 27; ++seq) {
            load_result x(l); auto st = r.s; auto f = a; auto d = b;
            for (int k = 0, q = seq; k < 3; ++k, q /= 3) {
                if (q % 3 == 0) { st = lt[(k * 7 + seq) % 20].s; x.set_status(st); } else if (q % 3 == 1) { f += "f" + std::to_string(k); x.set_file(f); } else { d += "d" + std::to_string(k); x.set_detail(d); }
                vf::step();
                VF_CHECK(x.status() == st && x.file() == f && x.detail() == d, "udf-result", "%s after %d changes", r.name, k);
            }
        }
    }
}
// ---- timeout of a call: the deadline of the call is the time of setting plus the timeout (never sooner), none if none was set
static void timeouts() {
    std::int64_t mx = ms::max().count();
    std::vector<std::optional<ms>> vs{std::nullopt, ms(0), ms(1), ms(5000), ms(86400000), ms(std::int64_t(1000) * 86400 * 365 * 100), ms(7500000000000), ms(9223372036854), ms(9300000000000), ms(10000000000000), ms(18446744073709), ms(18446744074709), ms(mx / 1000 * 1000), ms(mx)};
    int n = vs.size(); int depth = vf::thorough() ? 4 : 3;
    std::vector<int> ix; std::uint64_t u = 0;
    std::function<void()> rec = [&] {
        if (vf::mine(u++)) {
            std::string h; for (int i : ix) h += vs[i] ? vf::strf("%ldms ", (long) vs[i]->count()) : "none ";
            vf::at("timeouts %s", h.c_str()); vf::state(); vf::trace();
            generic_client_context c;
            VF_CHECK(!c.timeout() && c.grpc_context().deadline() == sclock::time_point::max(), "udf-timeout", "a new context has a timeout");
            bool any = false; ms last{}; sclock::time_point t0, t1;
            for (int i : ix) {
                if (vs[i]) { any = true; last = *vs[i]; t0 = sclock::now(); }
                c.timeout(vs[i]);
                if (vs[i]) t1 = sclock::now();
                vf::step();
                VF_CHECK(c.timeout() == vs[i], "udf-timeout", "%s: the timeout reads back differently", h.c_str());
                auto d = static_cast<generic_client_context const&>(c).grpc_context().deadline();
                if (!any) { VF_CHECK(d == sclock::time_point::max(), "udf-deadline", "%s: a deadline without a timeout", h.c_str()); continue; }
                auto room0 = std::chrono::duration_cast<ms>(sclock::time_point::max() - t1);
                bool far = d > sclock::time_point::max() - std::chrono::hours(24);
                if (last >= room0) VF_CHECK(far, "udf-deadline", "%s: a timeout of %ld ms makes calls end %ld ms after it is set", h.c_str(), (long) last.count(), (long) std::chrono::duration_cast<ms>(d - t0).count());
                else VF_CHECK(far || (d >= t0 + last && d <= t1 + last), "udf-deadline", "%s: a timeout of %ld ms makes calls end %ld ms after it is set", h.c_str(), (long) last.count(), (long) std::chrono::duration_cast<ms>(d - t0).count());
                if (last < ms(std::int64_t(1000) * 86400 * 365)) VF_CHECK(!far, "udf-deadline", "%s: no deadline", h.c_str());
            }
        }
        if ((int) ix.size() == depth) return;
        for (int i = 0; i < n; ++i) { ix.push_back(i); rec(); ix.pop_back(); }
    };
    rec();
}
// ---- debug log: only when enabled on the context and in the server
struct sink : google::LogSink {
    std::vector<std::string> got;
    void send(google::LogSeverity, char const*, char const*, int, const struct ::tm*, char const* m, std::size_t n) override { got.emplace_back(m, n); }
};
static void logs() {
    sink s; google::AddLogSink(&s); FLAGS_logtostderr = false; FLAGS_stderrthreshold = 3; FLAGS_log_dir = "/nonexistent-vf"; FLAGS_minloglevel = 0;
    for (int v : {0, jogasaki::log_debug - 1, jogasaki::log_debug, 99}) for (int e = 0; e < 8; ++e) for (std::string m : {"", "hello", "a%s"}) {
        FLAGS_v = v; s.got.clear(); vf::state(); vf::trace(); vf::at("log v=%d %d", v, e);
        generic_client_context c;
        VF_CHECK(!c.is_debug_enabled(), "udf-debug", "debug enabled from the start");
        bool on = false;
        for (int k = 0; k < 3; ++k) { on = e >> k & 1; c.debug_enabled(on); VF_CHECK(c.is_debug_enabled() == on, "udf-debug", "debug flag"); s.got.clear(); c.log_debug(m); vf::step(); bool want = on && v >= jogasaki::log_debug; VF_CHECK(s.got.size() == want && (!want || s.got[0] == "[udf] " + m), "udf-log", "v=%d enabled=%d: %zu lines, first %s", v, on, s.got.size(), s.got.empty() ? "" : s.got[0].c_str()); }
    }
    google::RemoveLogSink(&s);
}
// ---- listing of a plugin
struct col { int kind; int nested; };   // nested: index of a record, -1 none
static std::vector<std::vector<col>> recs;
static void ref_cols(std::ostream& o, int r, int ind) {
    std::string s(ind, ' '); int i = 0;
    for (auto& c : recs[r]) {
        o << s << "- column_name: c" << i++ << "\n" << s << "  type_kind: " << tt[c.kind].second << "\n";
        if (c.nested >= 0) { o << s << "  nested_record:\n" << s << "    record_name: r" << c.nested << "\n" << s << "    columns:\n"; ref_cols(o, c.nested, ind + 6); }
    }
}
struct api : plugin_api { std::vector<package_descriptor*> p; std::vector<package_descriptor*> const& packages() const noexcept override { return p; } };
static void listing() {
    recs = {{}, {{0, -1}}, {{4, -1}, {8, -1}}, {{10, 1}}, {{11, -1}, {10, 3}}, {{10, 2}, {10, 0}, {7, -1}}};
    int R = recs.size();
    std::vector<std::string> rn, cn; for (int i = 0; i < 10; ++i) { rn.push_back("r" + std::to_string(i)); cn.push_back("c" + std::to_string(i)); }
    std::vector<std::unique_ptr<column_descriptor_impl>> cs; std::vector<std::unique_ptr<record_descriptor_impl>> rs;
    for (int r = 0; r < R; ++r) { std::vector<column_descriptor*> v; for (std::size_t i = 0; i < recs[r].size(); ++i) { auto& c = recs[r][i]; cs.push_back(std::make_unique<column_descriptor_impl>(i, cn[i], tt[c.kind].first, c.nested < 0 ? nullptr : rs[c.nested].get())); v.push_back(cs.back().get()); } rs.push_back(std::make_unique<record_descriptor_impl>(rn[r], v)); }
    std::uint64_t u = 0;
    for (int np = 0; np <= 2; ++np) for (int ns = 0; ns <= 2; ++ns) for (int nf = 0; nf <= 2; ++nf) for (int in = 0; in < R; ++in) for (int out = 0; out < R; ++out) for (int fk = 0; fk < 4; ++fk) {
        if (!vf::mine(u++)) continue;
        vf::state(); vf::step(); vf::trace(); vf::at("listing %d %d %d %d %d %d", np, ns, nf, in, out, fk);
        std::ostringstream w; auto a = std::make_shared<api>();
        std::vector<std::unique_ptr<function_descriptor_impl>> fs; std::vector<std::unique_ptr<service_descriptor_impl>> ss; std::vector<std::unique_ptr<package_descriptor_impl>> ps;
        std::vector<std::string> pn{"p0", "p1"}, sn{"s0", "s1"}, fn{"f0", "f1"};
        for (int p = 0; p < np; ++p) {
            w << "  - package_name: p" << p << "\n    services:\n"; std::vector<service_descriptor*> sv;
            for (int s = 0; s < ns; ++s) {
                w << "      - service_name: s" << s << "\n        service_index: " << s << "\n        functions:\n"; std::vector<function_descriptor*> fv;
                for (int f = 0; f < nf; ++f) {
                    int i = (in + f) % R, o = (out + s) % R, k = (fk + f) % 4;
                    w << "          - function_name: f" << f << "\n            function_index: " << f << "\n            function_kind: " << ft[k].second << "\n            input_record:\n              record_name: r" << i << "\n              columns:\n";
                    ref_cols(w, i, 16); w << "            output_record:\n              record_name: r" << o << "\n              columns:\n"; ref_cols(w, o, 16);
                    fs.push_back(std::make_unique<function_descriptor_impl>(f, fn[f], ft[k].first, rs[i].get(), rs[o].get())); fv.push_back(fs.back().get());
                }
                ss.push_back(std::make_unique<service_descriptor_impl>(s, sn[s], fv)); sv.push_back(ss.back().get());
            }
            ps.push_back(std::make_unique<package_descriptor_impl>(pn[p], "f", package_version(1, 0, 0), sv)); a->p.push_back(ps.back().get());
        }
        std::ostringstream got; auto* old = std::cout.rdbuf(got.rdbuf());
        print_plugin_info(a);
        std::cout.rdbuf(old);
        VF_CHECK(got.str() == w.str(), "udf-listing", "%d packages %d services %d functions, records %d %d:\n%s\nexpected\n%s", np, ns, nf, in, out, got.str().c_str(), w.str().c_str());
    }
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    if (vf::shard() == 0) { tables(); values(); logs(); }
    timeouts(); listing();
    vf::bound_note("all statuses, codes and kinds; all combinations of configuration values from small domains; all sequences of up to 3 (thorough 4) timeouts over 14 values up to the largest; log levels x debug flags; all listings with up to 2 packages, services and functions over 6 record shapes");
    vf::sample("timeouts none, 5000ms");
    return vf::finish();
}
