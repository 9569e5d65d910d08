// C19: states, kinds, options and log forms
#include "vf.h"
#include <jogasaki/api/kvsservice/commit_option.h>
#include <jogasaki/api/kvsservice/put_option.h>
#include <jogasaki/api/kvsservice/remove_option.h>
#include <jogasaki/api/kvsservice/status_message.h>
#include <jogasaki/api/kvsservice/transaction_state.h>
#include <jogasaki/api/kvsservice/transaction_priority.h>
#include <jogasaki/api/kvsservice/transaction_type.h>
#include <jogasaki/data/any_sequence_stream_status.h>
#include <jogasaki/error.h>
#include <jogasaki/error_code.h>
#include <jogasaki/executor/batch/batch_executor_option.h>
#include <jogasaki/executor/file/time_unit_kind.h>
#include <jogasaki/executor/function/table_valued_function_kind.h>
#include <jogasaki/executor/sequence/exception.h>
#include <jogasaki/key_distribution_kind.h>
#include <jogasaki/kvs/coding_context.h>
#include <jogasaki/lob/lob_data_provider.h>
#include <jogasaki/lob/lob_reference_kind.h>
#include <jogasaki/model/step_kind.h>
#include <jogasaki/model/task.h>
#include <jogasaki/plan/plan_exception.h>
#include <jogasaki/scheduler/hybrid_execution_mode.h>
#include <jogasaki/scheduler/step_state.h>
#include <jogasaki/scheduler/thread_info.h>
#include <jogasaki/serializer/entry_type.h>
#include <jogasaki/serializer/value_input_exception.h>
#include <jogasaki/status.h>
#include <jogasaki/utils/proto_debug_string.h>
#include <jogasaki/utils/storage_metadata_exception.h>
#include <jogasaki/utils/to_string.h>
#include <jogasaki/utils/variant.h>
#include <google/protobuf/util/json_util.h>
#include <google/protobuf/util/message_differencer.h>
#include "jogasaki/proto/sql/common.pb.h"
#include "jogasaki/proto/sql/response.pb.h"
#include <set>
#include <sstream>
using namespace jogasaki;

template <class T, class = void> struct has_out : std::false_type {};
template <class T> struct has_out<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<T>())>> : std::bool_constant<!std::is_convertible_v<T, long long>> {};
template <> struct has_out<serializer::value_input_exception::reason_code> : std::false_type {};
template <class T> static void names(char const* what, long first, std::vector<char const*> const& ns) {
    for (std::size_t i = 0; i < ns.size(); ++i) {
        T v = static_cast<T>(first + (long) i);
        vf::at("%s %zu", what, i); vf::state(); vf::step(2); vf::trace();
        std::string n(to_string_view(v));
        VF_CHECK(n == ns[i], "kind-name", "%s number %ld is called %s, expected %s", what, first + (long) i, n.c_str(), ns[i]);
        if constexpr (has_out<T>::value) { std::ostringstream o; o << v; VF_CHECK(o.str() == ns[i], "kind-print", "%s %s prints %s", what, ns[i], o.str().c_str()); }
    }
}
static void states() {
    using scheduler::step_state_kind; using scheduler::task_state_kind;
    names<step_state_kind>("step state", 0, {"uninitialized", "created", "activated", "preparing", "prepared", "running", "completing", "completed", "deactivated"});
    names<task_state_kind>("task state", 0, {"uninitialized", "running", "completed"});
    names<scheduler::hybrid_execution_mode_kind>("execution mode", 0, {"undefined", "serial", "stealing"});
    names<serializer::entry_type>("entry type", 0, {"end_of_contents", "null", "int_", "float4", "float8", "decimal", "character", "octet", "bit", "date", "time_of_day", "time_of_day_with_offset", "time_point", "time_point_with_offset", "datetime_interval", "row", "array", "clob", "blob"});
    names<serializer::value_input_exception::reason_code>("input error", 0, {"buffer_underflow", "unrecognized_entry_type", "unsupported_entry_type", "value_out_of_range"});
    names<model::step_kind>("step kind", 0, {"process", "forward", "broadcast", "group", "aggregate"});
    names<model::task_kind>("task kind", 0, {"main", "pre"});
    names<model::task_result>("task result", 0, {"proceed", "complete", "complete_and_teardown", "sleep", "yield"});
    names<model::task_transaction_kind>("transaction capability", 0, {"none", "in_transaction", "sticky"});
    names<executor::function::table_valued_function_kind>("table valued function", 0, {"undefined", "builtin", "user_defined", "unknown"});
    names<executor::file::time_unit_kind>("time unit", 0, {"unspecified", "nanosecond", "microsecond", "millisecond", "second"});
    names<data::any_sequence_stream_status>("stream status", 0, {"ok", "error", "end_of_stream", "not_ready", "unknown"});
    names<key_distribution_kind>("key distribution", -1, {"undefined", "simple", "uniform", "sampling"});
    names<lob::lob_data_provider>("lob provider", 0, {"undefined", "datastore", "sql", "relay_service_session"});
    names<lob::lob_reference_kind>("lob reference", 0, {"undefined", "provided", "fetched", "resolved"});
    // lifecycle order of step states: every pair
    for (int a = 0; a <= 8; ++a) for (int b = 0; b <= 8; ++b) {
        auto x = static_cast<step_state_kind>(a), y = static_cast<step_state_kind>(b);
        vf::state(); vf::step(4); vf::trace();
        VF_CHECK(scheduler::operator<(x, y) == (a < b) && scheduler::operator>(x, y) == (a > b) && scheduler::operator<=(x, y) == (a <= b) && scheduler::operator>=(x, y) == (a >= b), "step-order", "%s and %s", std::string(to_string_view(x)).c_str(), std::string(to_string_view(y)).c_str());
    }
    // numbers that clients and stored data know
    using namespace api::kvsservice; using sk = transaction_state::state_kind;
    struct { char const* n; long got, want; } nums[] = {
        {"commit unspecified", (long) commit_option::commit_type_unspecified, 0}, {"commit accepted", (long) commit_option::accepted, 10}, {"commit available", (long) commit_option::available, 20}, {"commit stored", (long) commit_option::stored, 30}, {"commit propagated", (long) commit_option::propagated, 40},
        {"put create_or_update", (long) put_option::create_or_update, 0}, {"put create", (long) put_option::create, 1}, {"put update", (long) put_option::update, 2}, {"remove counting", (long) remove_option::counting, 1}, {"remove instant", (long) remove_option::instant, 2},
        {"state unknown", (long) sk::unknown, 0}, {"state waiting_start", (long) sk::waiting_start, 1}, {"state started", (long) sk::started, 2}, {"state waiting_cc_commit", (long) sk::waiting_cc_commit, 3}, {"state aborted", (long) sk::aborted, 4}, {"state waiting_durable", (long) sk::waiting_durable, 5}, {"state durable", (long) sk::durable, 6},
        {"priority unspecified", (long) transaction_priority::priority_unspecified, 0}, {"priority interrupt", (long) transaction_priority::interrupt, 1}, {"priority wait", (long) transaction_priority::wait, 2}, {"priority interrupt_exclude", (long) transaction_priority::interrupt_exclude, 3}, {"priority wait_exclude", (long) transaction_priority::wait_exclude, 4},
        {"type unspecified", (long) transaction_type::unspecified, 0}, {"type occ", (long) transaction_type::occ, 1}, {"type ltx", (long) transaction_type::ltx, 2}, {"type read_only", (long) transaction_type::read_only, 3}};
    for (auto& n : nums) { vf::state(); vf::step(); vf::trace(); VF_CHECK(n.got == n.want, "kind-number", "%s is %ld, expected %ld", n.n, n.got, n.want); }
    VF_CHECK(transaction_state().kind() == sk::unknown, "kind-number", "default transaction state");
    for (long k = 0; k <= 6; ++k) VF_CHECK(transaction_state(static_cast<sk>(k)).kind() == static_cast<sk>(k), "kind-number", "transaction state %ld", k);
    // severity of a status: exactly one of ok, warning, error by its sign
    for (long s = -2000; s <= 2000; ++s) {
        auto st = static_cast<jogasaki::status>(s); vf::state(); vf::step(3); vf::trace();
        VF_CHECK(is_ok(st) == (s == 0) && is_warning(st) == (s > 0) && is_error(st) == (s < 0), "severity", "status %ld", s);
    }
}
static void options() {
    namespace b = executor::batch;
    std::vector<std::size_t> ns{0, 1, 7, ~std::size_t{}};
    for (auto f : ns) for (auto k : ns) for (int cb = 0; cb < 4; ++cb) for (int how = 0; how < 3; ++how) {
        vf::state(); vf::step(); vf::trace(); vf::at("batch option %zu %zu %d %d", f, k, cb, how);
        int fc = 0, bc = 0;
        b::batch_executor_option::release_file_callback_type fcb; b::batch_executor_option::release_block_callback_type bcb;
        if (cb & 1) fcb = [&](b::batch_file_executor* p) { fc += p == nullptr; };
        if (cb & 2) bcb = [&](b::batch_block_executor* p) { bc += p == nullptr; };
        auto chk = [&](b::batch_executor_option const& o, std::size_t wf, std::size_t wk) {
            VF_CHECK(o.max_concurrent_files() == wf && o.max_concurrent_blocks_per_file() == wk, "batch-option", "files %zu blocks %zu, expected %zu %zu", o.max_concurrent_files(), o.max_concurrent_blocks_per_file(), wf, wk);
            VF_CHECK(!!o.release_file_cb() == !!(cb & 1) && !!o.release_block_cb() == !!(cb & 2), "batch-option", "callbacks");
            int f0 = fc, b0 = bc;
            if (o.release_file_cb()) o.release_file_cb()(nullptr);
            VF_CHECK(fc == f0 + !!(cb & 1) && bc == b0, "batch-option", "the callback for files");
            if (o.release_block_cb()) o.release_block_cb()(nullptr);
            VF_CHECK(fc == f0 + !!(cb & 1) && bc == b0 + !!(cb & 2), "batch-option", "the callback for blocks");
        };
        b::batch_executor_option o = how == 2 ? b::batch_executor_option(fcb, bcb) : b::batch_executor_option(f, k, fcb, bcb);
        std::size_t wf = how == 2 ? ~std::size_t{} : f, wk = how == 2 ? ~std::size_t{} : k;
        chk(o, wf, wk);
        auto c = o; chk(c, wf, wk); chk(o, wf, wk);
        b::batch_executor_option d; d = std::move(c); chk(d, wf, wk);
    }
    b::batch_executor_option e; VF_CHECK(e.max_concurrent_files() == ~std::size_t{} && e.max_concurrent_blocks_per_file() == ~std::size_t{} && !e.release_file_cb() && !e.release_block_cb(), "batch-option", "default");
    scheduler::thread_info ti; VF_CHECK(!ti.is_worker_thread() && ti.worker_index() == scheduler::thread_info::undefined, "thread-info", "default");
    for (bool w : {false, true}) for (auto i : ns) { scheduler::thread_info t(w, i); VF_CHECK(t.is_worker_thread() == w && t.worker_index() == i, "thread-info", "%d %zu", w, i); vf::state(); vf::step(); vf::trace(); }
    kvs::coding_context cc; VF_CHECK(!cc.coding_for_write(), "coding", "default"); for (bool w : {true, false, true}) { cc.coding_for_write(w); VF_CHECK(cc.coding_for_write() == w, "coding", "%d", w); }
    using V = std::variant<int, std::string, double>;
    VF_CHECK((alternative_index<int, V>() == 0 && alternative_index<std::string, V>() == 1 && alternative_index<double, V>() == 2 && alternative_index<char, V>() == ~std::size_t{}), "variant", "alternative index");
}
static void errors() {
    std::vector<std::string> ms{"", "m", std::string(100, 'q'), "a b"};
    for (auto& m : ms) for (long s = -40; s <= 10; ++s) {
        auto st = static_cast<status>(s); vf::state(); vf::step(5); vf::trace(); vf::at("exceptions %ld", s);
        auto ks = static_cast<api::kvsservice::status>(s); api::kvsservice::status_message sm(ks, m); VF_CHECK(sm.status_code() == ks && (m.empty() ? sm.message() == nullptr : sm.message() && *sm.message() == m), "status-message", "%ld %s", s, m.c_str());
        api::kvsservice::status_message s1(ks); VF_CHECK(s1.status_code() == ks && !s1.message(), "status-message", "%ld", s);
        executor::sequence::exception q(st, m); auto q2 = q; VF_CHECK(q.get_status() == st && q.what() == m && q2.get_status() == st && q2.what() == m, "sequence-exception", "%ld", s);
        utils::storage_metadata_exception x(st, error_code::internal_exception, m); auto x2 = x;
        VF_CHECK(x.get_status() == st && x.get_code() == error_code::internal_exception && x.what() == m && x2.what() == m && x2.get_status() == st && x2.get_code() == x.get_code(), "metadata-exception", "%ld", s);
        std::exception_ptr ep; try { throw x; } catch (std::exception const& e) { VF_CHECK(e.what() == m, "metadata-exception", "thrown %ld", s); }
    }
    VF_CHECK(executor::sequence::exception(status::err_unknown).what() == std::string(), "sequence-exception", "no message");
    for (unsigned v : {0u, 255u, 0xabcdefu}) { std::ostringstream o; o << v; VF_CHECK(utils::to_string(v) == o.str(), "to-string", "%u", v); }
}
// ---- a message in the log is one line from which it can be read back
static void debugs() {
    namespace p = proto::sql;
    std::uint64_t u = 0;
    auto chk = [&](google::protobuf::Message const& m) {
        vf::state(); vf::step(); vf::trace(); vf::at("log form of %s", m.ShortDebugString().c_str());
        auto s = utils::to_debug_string(m);
        VF_CHECK(s.find('\n') == s.npos && !s.empty(), "log-form", "%s is shown as %s", m.ShortDebugString().c_str(), s.c_str());
        std::unique_ptr<google::protobuf::Message> r(m.New());
        auto st = google::protobuf::util::JsonStringToMessage(s, r.get());
        VF_CHECK(st.ok() && google::protobuf::util::MessageDifferencer::Equals(*r, m), "log-form", "%s is shown as %s", m.ShortDebugString().c_str(), s.c_str());
        // fields carry the names of the message definition
        auto* ref = m.GetReflection(); std::vector<google::protobuf::FieldDescriptor const*> fs; ref->ListFields(m, &fs);
        for (auto* f : fs) VF_CHECK(s.find("\"" + f->name() + "\"") != s.npos, "log-form", "field %s is not shown by its name in %s", f->name().c_str(), s.c_str());
    };
    std::vector<std::string> ss{"", "a", "\"\\\n\t", "\x01\x7f", "\xe3\x81\x82", std::string(200, 'k')};
    for (auto& a : ss) for (auto& b : ss) for (int t = -1; t < 5; ++t) for (int o = 0; o < 8; ++o) {
        if (!vf::mine(u++)) continue;
        p::common::Column c; c.set_name(a); if (t >= 0) c.set_atom_type(static_cast<p::common::AtomType>(t * 3)); c.set_dimension(t < 0 ? 0 : t * 1000000007);
        if (o & 1) c.set_length(7); if (o & 2) c.mutable_arbitrary_precision(); if (o & 4) c.set_nullable(false);
        if (!b.empty()) c.set_description(b);
        chk(c);
        p::response::DescribeTable::Success d; d.set_database_name(a); d.set_schema_name(b); for (int i = 0; i < o % 3; ++i) *d.add_columns() = c; for (int i = 0; i < o / 3; ++i) d.add_primary_key(b);
        chk(d);
        p::response::Begin g; if (o & 1) { g.mutable_success()->mutable_transaction_handle()->set_handle(o == 1 ? 0 : ~0ull); g.mutable_success()->mutable_transaction_id()->set_id(b); } else { g.mutable_error()->set_detail(a); g.mutable_error()->set_supplemental_text(b); }
        chk(g);
    }
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    if (vf::shard() == 0) { states(); options(); errors(); }
    debugs();
    vf::bound_note("every enumerator of 15 kinds, every pair of step states, all status numbers -2000..2000, all option values from small domains, all messages over 6 texts x 8 shapes");
    vf::sample("step states");
    return vf::finish();
}
