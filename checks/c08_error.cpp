// C08: error codes keep their identity from the engine to the wire, error information is reported completely
#include "vf.h"
#include <set>
#include <sstream>
#include <nlohmann/json.hpp>
#include <jogasaki/api/impl/map_error_code.h>
#include <jogasaki/api/impl/error_info.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/error_code.h>
#include <jogasaki/status.h>
#include "c08_tables.h"
using namespace jogasaki;
namespace sql = jogasaki::proto::sql;
static std::string upper(std::string s) { for (auto& c : s) c = static_cast<char>(std::toupper(c)); return s; }

static void codes() {
    std::set<int> wires; std::set<std::string> names;
    for (auto& e : code_table) {
        vf::state(); vf::step(3); vf::trace();
        vf::at("error code %s", e.name);
        auto c = static_cast<error_code>(e.code);
        VF_CHECK(to_string_view(c) == e.name, "code:name", "code %ld is named %s, expected %s", e.code, std::string(to_string_view(c)).c_str(), e.name);
        std::ostringstream o; o << c;
        VF_CHECK(o.str() == e.name && names.insert(o.str()).second, "code:print", "code %s printed '%s'", e.name, o.str().c_str());
        int w = static_cast<int>(api::impl::map_error(c));
        if (e.wire >= 0) {
            VF_CHECK(w == e.wire, "code:wire", "%s goes to the wire as %d, expected %d", e.name, w, e.wire);
            VF_CHECK(wires.insert(w).second, "code:unique", "%s shares a wire code", e.name);
            VF_CHECK(sql::error::Code_Name(e.wire) == (e.wire ? upper(e.name) : "CODE_UNSPECIFIED"), "code:wirename", "wire code %d is named %s", e.wire, sql::error::Code_Name(e.wire).c_str());
            VF_CHECK(api::impl::map_error(static_cast<sql::error::Code>(e.wire)) == c, "code:back", "wire code %d does not map back to %s", e.wire, e.name);
        } else VF_CHECK(w == 1 /* SQL_SERVICE_EXCEPTION */, "code:internal", "internal code %s is exposed as %d", e.name, w);
        vf::outcome(vf::strf("w%d", w));
    }
    std::size_t known = 0;
    for (int i = -3; i < 20000; ++i) {
        vf::state(); vf::step(); vf::at("wire code %d", i);
        bool defined = wires.count(i) > 0;
        known += defined;
        if (!defined) { auto c = api::impl::map_error(static_cast<sql::error::Code>(i)); VF_CHECK(sql::error::Code_IsValid(i) || c == error_code::none, "code:unknown", "undefined wire code %d maps to %d", i, (int) c); }
    }
    VF_CHECK(known == wires.size(), "code:count", "wire codes");
    for (int i = 0; i < sql::error::Code_descriptor()->value_count(); ++i) {   // no published code without an engine code
        auto v = sql::error::Code_descriptor()->value(i);
        if (v->number() == 0) continue;
        auto c = api::impl::map_error(static_cast<sql::error::Code>(v->number()));
        VF_CHECK(c != error_code::none && upper(std::string(to_string_view(c))) == v->name(), "code:published", "wire code %s maps to %s", v->name().c_str(), std::string(to_string_view(c)).c_str());
    }
    for (auto& e : status_table) {
        vf::state(); vf::step(); vf::at("status %s", e.name);
        auto s = static_cast<status>(e.value);
        std::ostringstream o; o << s;
        VF_CHECK(to_string_view(s) == e.name && o.str() == e.name, "status:name", "status %ld is named %s, expected %s", e.value, o.str().c_str(), e.name);
    }
}

static void infos() {
    std::vector<std::string> texts{"", "a", "a\"b\\c\n", "\xE3\x81\x82", std::string("x\0y", 3)};
    std::vector<std::string> adds{"", "add", "\"q\""};
    std::vector<std::string> stacks{"", "#0 f\n#1 g"};
    std::vector<error_code> cs{error_code::none, error_code::unique_constraint_violation_exception, error_code::unknown_internal_error};
    std::uint64_t n = 0;
    for (auto c : cs) for (auto& msg : texts) for (auto& f : texts) for (auto& pos : texts) for (auto& st : stacks)
        // 0, 1 or 2 additional texts set one after the other, then a status, then a copy or a move
        for (std::size_t a1 = 0; a1 <= adds.size(); ++a1) for (std::size_t a2 = 0; a2 <= (a1 == adds.size() ? 0 : adds.size()); ++a2) for (int how = 0; how < 4; ++how) {
            if (!vf::mine(n++)) continue;
            vf::state(); vf::trace(); vf::step(6);
            vf::at("error_info code=%d message=%s file=%s pos=%s stack=%s add1=%zu add2=%zu how=%d", (int) c, vf::hexs(msg).c_str(), vf::hexs(f).c_str(), vf::hexs(pos).c_str(), vf::hexs(st).c_str(), a1, a2, how);
            auto body = std::make_shared<error::error_info>(c, msg, f, pos, st);
            std::string add;
            if (a1 < adds.size()) { body->additional_text(adds[a1]); add = adds[a1]; if (a2 < adds.size()) { body->additional_text(adds[a2]); add = adds[a2]; } }
            auto s = how % 2 ? status::err_aborted : status::ok;
            if (how % 2) body->status(s);
            if (how / 2) { auto b2 = std::make_shared<error::error_info>(*body); body = std::make_shared<error::error_info>(std::move(*body)); VF_CHECK(b2->supplemental_text() == body->supplemental_text(), "info:copy", "copy differs"); }
            VF_CHECK(body->code() == c && body->message() == msg && body->status() == s && body->source_file_path() == f && body->source_file_position() == pos && body->additional_text() == add && static_cast<bool>(*body) == (c != error_code::none), "info:fields", "a field was not kept");
            auto j = nlohmann::json::parse(std::string(body->supplemental_text()), nullptr, false);
            VF_CHECK(j.is_object(), "info:json", "supplemental text is not a JSON object: %s", std::string(body->supplemental_text()).c_str());
            VF_CHECK(j.contains("source_file") && j["source_file"] == f + ":" + pos, "info:source", "source_file missing or wrong in %s", std::string(body->supplemental_text()).c_str());
            VF_CHECK(j.contains("additional_text") == !add.empty() && (add.empty() || j["additional_text"] == add), "info:additional", "additional_text '%s' not in %s", add.c_str(), std::string(body->supplemental_text()).c_str());
            VF_CHECK(j.contains("stacktrace") == !st.empty() && (st.empty() || j["stacktrace"] == st), "info:stack", "stacktrace wrong in %s", std::string(body->supplemental_text()).c_str());
            auto a = api::impl::error_info::create(body);
            VF_CHECK(a && a->code() == c && a->message() == msg && a->status() == s && a->supplemental_text() == body->supplemental_text() && a->body() == body, "info:api", "the API object reports something else");
            std::ostringstream o1, o2; o1 << *body; o2 << static_cast<api::error_info const&>(*a);
            VF_CHECK(o1.str() == o2.str() && o1.str().find(to_string_view(c)) != std::string::npos && o1.str().find(msg) != std::string::npos && o1.str().find(to_string_view(s)) != std::string::npos, "info:print", "printed form '%s'", o1.str().c_str());
            vf::outcome(vf::strf("%zu", j.size()));
        }
    VF_CHECK(api::impl::error_info::create(nullptr) == nullptr, "info:null", "no error becomes an error");
    error::error_info e{};
    VF_CHECK(!e && e.code() == error_code::none, "info:empty", "empty info reports an error");
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    vf::bound_note("every error code, every status and every wire code of the published tables and all integers -3..19999 as wire code; error information: all combinations of 3 codes, 5 texts for each of 3 text fields, 2 stack traces, 0-2 additional texts, status set or not, copied or not");
    if (vf::shard() == 0) codes();
    infos();
    return vf::finish();
}
