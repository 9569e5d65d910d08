// A bed for whole requests: the real request entry points, task schedulers, dag controller, task and job code and transaction contexts run
// on a pool of worker threads under schedule exploration. Stand-ins: the database object is reduced to its accessors, a transaction of the
// storage engine records what is done to it, and the steps of a statement are stubs that report when they run.
#pragma once
#include "vf.h"
#include "vs.h"
#include <sstream>
#include <jogasaki/api/impl/database.h>
#include <jogasaki/api/impl/executable_statement.h>
#include <jogasaki/api/impl/prepared_statement.h>
#include <jogasaki/commit_context.h>
#include <jogasaki/durability_callback.h>
#include <jogasaki/durability_manager.h>
#include <jogasaki/error/error_info_factory.h>
#include <jogasaki/executor/common/create_table.h>
#include <jogasaki/executor/common/execute.h>
#include <jogasaki/executor/common/graph.h>
#include <jogasaki/executor/common/port.h>
#include <jogasaki/executor/common/step.h>
#include <jogasaki/executor/common/write_statement.h>
#include <jogasaki/executor/exchange/task.h>
#include <jogasaki/executor/executor.h>
#include <jogasaki/executor/file/arrow_writer.h>
#include <jogasaki/executor/file/loader.h>
#include <jogasaki/executor/file/parquet_writer.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/io/null_record_channel.h>
#include <jogasaki/executor/process/abstract/process_executor.h>
#include <jogasaki/executor/process/task.h>
#include <jogasaki/executor/sequence/manager.h>
#include <jogasaki/kvs/transaction.h>
#include <jogasaki/model/flow.h>
#include <jogasaki/model/flow_repository.h>
#include <jogasaki/plan/executable_statement.h>
#include <jogasaki/plan/mirror_container.h>
#include <jogasaki/plan/prepared_statement.h>
#include <jogasaki/plan/statement_work_level.h>
#include <jogasaki/scheduler/hybrid_task_scheduler.h>
#include <jogasaki/scheduler/serial_task_scheduler.h>
#include <jogasaki/scheduler/stealing_task_scheduler.h>
#include <jogasaki/scheduler/task_factory.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
#include <condition_variable>
#include <deque>
#include <thread>
using namespace jogasaki;
namespace bed {
using FT = scheduler::flat_task; using CT = scheduler::conditional_task;
inline int workers = 2;
inline thread_local void* cur_task{}; inline thread_local bool again{};       // the task this worker runs, and whether it put itself into a queue again
struct Pool : tateyama::task_scheduler::pool<FT, CT> {
    std::mutex m; std::condition_variable cv; std::deque<FT> g; std::deque<CT> c; std::vector<std::deque<FT>> l{static_cast<std::size_t>(workers)}; bool stop_{}; std::vector<std::thread> ts; std::size_t rr{};
    void schedule(FT&& t, tateyama::task_scheduler::schedule_option) override { if (cur_task && t.origin().get() == cur_task) again = true; { std::lock_guard k{m}; g.emplace_back(std::move(t)); } cv.notify_all(); }
    void schedule_at(FT&& t, std::size_t w) override { if (cur_task && t.origin().get() == cur_task) again = true; { std::lock_guard k{m}; l.at(w).emplace_back(std::move(t)); } cv.notify_all(); }
    void schedule_conditional(CT&& t) override { { std::lock_guard k{m}; c.emplace_back(std::move(t)); } cv.notify_all(); }
    std::size_t next_worker() override { std::lock_guard k{m}; return rr++ % static_cast<std::size_t>(workers); }
    void start(std::function<void(std::size_t)> const& init) override {
        for (int w = 0; w < workers; ++w) ts.emplace_back([this, w, init] {
            if (init) init(w);
            tateyama::task_scheduler::context x{static_cast<std::size_t>(w)};
            for (;;) {
                std::unique_lock k{m};
                cv.wait(k, [&] { return stop_ || !l[w].empty() || !g.empty() || !c.empty(); });
                if (stop_) return;
                if (!l[w].empty() || !g.empty()) {
                    auto& q = l[w].empty() ? g : l[w]; bool last = q.size() == 1; FT t = std::move(q.front()); q.pop_front(); k.unlock();
                    bool td = t.kind() == scheduler::flat_task_kind::teardown && last;
                    cur_task = t.origin().get(); again = false; t(x); cur_task = nullptr; if (td || again) std::this_thread::yield();
                } else {
                    CT t = std::move(c.front()); c.pop_front(); k.unlock();
                    if (t.check()) { t(); } else { { std::lock_guard k2{m}; c.emplace_back(std::move(t)); } std::this_thread::yield(); }
                }
            }
        });
    }
    void stop() override { { std::lock_guard k{m}; stop_ = true; } cv.notify_all(); for (auto& t : ts) t.join(); ts.clear(); }
};
// what happens to one transaction of the engine
struct Tx {
    int no{}; vs::var<int> using_, sticky_, commits, aborts, late;
    std::function<void(kvs::transaction::commit_callback_type)> on_commit{}; std::function<void()> on_gone{};    // when set, decides when and how a commit ends
    status abort_result{status::ok};
    bool over() const { return commits.get() || aborts.get(); }
};
inline Tx* T(kvs::transaction const& t) { return reinterpret_cast<Tx*>(t.control_handle()); }
inline Tx* T(transaction_context const& t) { return T(*t.object()); }
inline Tx* next_tx{};
enum class Mode { stealing, hybrid, serial };
// one statement of a request: a graph of stub steps, a write, or a ddl
enum class Act { ok, error, fatal, yield, throws };          // what the main task of a step does: completes, ends with an error, yields once first, throws
struct StepSpec { char kind; int tasks; std::vector<int> up; Act act{Act::ok}; model::task_transaction_kind cap{model::task_transaction_kind::in_transaction}; };
struct Stat;
struct StepState { vs::var<int> activated, deactivated, created, running, finished, started; };
struct Exec;
// runs the body of a stub task
struct Exec : executor::process::abstract::process_executor {
    Stat* s; int step; int idx; int runs{}; request_context* rc;
    Exec(Stat* st, int i, int k, request_context* c) : s(st), step(i), idx(k), rc(c) {}
    status run() override;
};
struct Stat {
    std::string name; std::vector<StepSpec> g{}; char kind{'Q'}; Act act{Act::ok};       // kind: Q query, W write, D ddl, E empty
    std::unique_ptr<StepState[]> st{}; vs::var<int> answers, running, bodies, wanted_error; vs::var<status> code{status::ok}; vs::var<int> has_info; Tx* tx{};
    std::shared_ptr<executor::common::execute> query{}; std::shared_ptr<model::statement> stmt{}; std::shared_ptr<plan::executable_statement> plan{};
    std::vector<storage::storage_entry> tables{}; bool light{};
    void enter() { running.add(1); int a = answers.get(); VS_CHECK(a == 0, "answered", "%s: its work runs after the request was answered", name.c_str()); in_tx(1); }
    void leave() { int a = answers.get(); VS_CHECK(a == 0, "answered", "%s: was answered while its work runs", name.c_str()); in_tx(-1); running.add(-1); }
    void in_tx(int d) { if (!tx) return; if (d > 0) { bool o = tx->over(); VS_CHECK(!o, "after_end", "%s: works on a transaction that was %s", name.c_str(), tx->commits.get() ? "committed" : "aborted"); } tx->using_.add(d); bool o = tx->over(); VS_CHECK(!o, "after_end", "%s: the transaction was ended while its work runs", name.c_str()); }
    bool complete() const { for (std::size_t i = 0; i < g.size(); ++i) if (st[i].finished.get() != g[i].tasks) return false; return true; }
    void build(); std::shared_ptr<api::impl::executable_statement> make() { return std::make_shared<api::impl::executable_statement>(plan, nullptr, nullptr); }
    // submits the request; prepared: the statement is resolved by a task of the request
    bool submit(api::impl::database& db, std::shared_ptr<transaction_context> const& t, bool prepared, bool sync, maybe_shared_ptr<api::data_channel> const& ch = {});
    // after everything is quiet
    void done(bool may_be_inactive);
    std::shared_ptr<void> holder = std::make_shared<int>(0);
    void answer(status c, std::shared_ptr<error::error_info> const& i) { answers.add(1); code.set(c); has_info.set(i && *i ? 1 : 0); int r = running.get(); VS_CHECK(r == 0, "answered", "%s: was answered while %d of its tasks run", name.c_str(), r); bool ok = c == status::ok; VS_CHECK(ok == !(i && *i), "answer", "%s: status and diagnostic differ: %d, %s", name.c_str(), (int) c, i && *i ? "with" : "without"); }
};
inline Stat* writing{};     // which statement a write statement object is (the real class has no state that tells)
struct Kind : takatori::statement::statement { char k; explicit Kind(char c) : k(c) {} takatori::statement::statement_kind kind() const noexcept override { using S = takatori::statement::statement_kind; return k == 'Q' ? S::execute : k == 'W' ? S::write : S::create_table; } };
struct WriteStmt : executor::common::write_statement { Stat* s{}; };
struct DdlStmt : executor::common::create_table { Stat* s{}; };
struct Flow : model::flow {
    Stat* s; int i; request_context* rc; executor::common::step* src; std::vector<std::shared_ptr<model::task>> ts{};
    Flow(Stat* a, int b, request_context* c, executor::common::step* d) : s(a), i(b), rc(c), src(d) {}
    model::step_kind kind() const noexcept override { return src->kind(); }
    model::sequence_view<std::shared_ptr<model::task>> create_tasks() override;
    model::sequence_view<std::shared_ptr<model::task>> create_pretask(port_index_type) override { return {}; }
};
struct Step : executor::common::step {
    Stat* s; int i;
    Step(Stat* a, int b) : s(a), i(b) {}
    model::step_kind kind() const noexcept override { return s->g[i].kind == 'P' ? model::step_kind::process : model::step_kind::forward; }
    void notify_completed(request_context&) override {}
    void activate(request_context& rc) override { int n = s->st[i].activated.add(1); VS_CHECK(n == 1, "activated", "%s: step %d is activated %d times", s->name.c_str(), i, n); data_flow_object(rc, std::make_unique<Flow>(s, i, &rc, this)); }
    void deactivate(request_context& rc) override { int n = s->st[i].deactivated.add(1); VS_CHECK(n == 1, "deactivated", "%s: step %d is deactivated %d times", s->name.c_str(), i, n);
        for (std::size_t k = 0; k < s->g.size(); ++k) for (int u : s->g[k].up) if (u == i) { int f = s->st[k].finished.get(); bool bad = s->wanted_error.get(); VS_CHECK(f == s->g[k].tasks || bad, "deactivated", "%s: step %d is deactivated while %d of %d tasks of its reader %zu have ended", s->name.c_str(), i, f, s->g[k].tasks, k); }
        executor::common::step::deactivate(rc); }
};
inline model::sequence_view<std::shared_ptr<model::task>> Flow::create_tasks() {
    int n = s->st[i].created.add(1); VS_CHECK(n == 1, "tasks", "%s: the tasks of step %d are created %d times", s->name.c_str(), i, n);
    for (int k = 0; k < s->g[i].tasks; ++k) {
        if (s->g[i].kind == 'P') ts.emplace_back(std::make_shared<executor::process::task>(rc, src, std::make_shared<Exec>(s, i, k, rc), nullptr, s->g[i].cap));
        else { struct X : executor::exchange::task { Stat* s; int i; X(request_context* c, executor::common::step* d, Stat* a, int b) : executor::exchange::task(c, d), s(a), i(b) {} model::task_result operator()() override { s->st[i].finished.add(1); return executor::exchange::task::operator()(); } }; ts.emplace_back(std::make_shared<X>(rc, src, s, i)); }
    }
    return ts;
}
inline void fail(request_context& rc, Stat& s) { s.wanted_error.set(1); set_error_context(rc, error_code::sql_execution_exception, "x", status::err_unknown); }
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
inline executor::process::abstract::status Exec::run() {
    using S = executor::process::abstract::status;
    auto& q = s->st[step]; auto& sp = s->g[step];
    for (int u : sp.up) { int f = s->st[u].finished.get(); bool bad = s->wanted_error.get(); VS_CHECK(f == s->g[u].tasks || bad, "order", "%s: step %d runs when %d of %d tasks of step %d before it have ended", s->name.c_str(), step, f, s->g[u].tasks, u); }
    for (std::size_t k = 0; k < s->g.size(); ++k) for (int u : s->g[k].up) if (u == step) { int a = s->st[k].activated.get(); VS_CHECK(a == 1, "order", "%s: step %d runs before step %zu after it is ready", s->name.c_str(), step, k); }
    int d = q.deactivated.get(); VS_CHECK(d == 0, "order", "%s: step %d runs after its end", s->name.c_str(), step);
    bool tx = sp.cap != model::task_transaction_kind::none, sticky = sp.cap == model::task_transaction_kind::sticky;
    s->running.add(1); int a = s->answers.get(); VS_CHECK(a == 0, "answered", "%s: its work runs after the request was answered", s->name.c_str());
    if (tx) s->in_tx(1);
    if (tx && sticky && s->tx) { int n = s->tx->sticky_.add(1); VS_CHECK(n == 1, "sticky", "%d tasks bound to one transaction run at the same time", n); }
    vs::point();
    a = s->answers.get(); VS_CHECK(a == 0, "answered", "%s: was answered while its work runs", s->name.c_str());
    S r = S::completed;
    bool thr = false;
    switch (sp.act) {
        case Act::ok: break;
        case Act::error: if (idx == 0) { fail(*rc, *s); r = S::completed_with_errors; } break;
        case Act::fatal: if (idx == 0) { fail(*rc, *s); if (rc->transaction()) executor::abort_transaction(rc->transaction(), rc->req_info()); r = S::completed_with_errors; } break;
        case Act::yield: if (runs++ == 0) r = S::to_yield; break;
        case Act::throws: if (idx == 0) { thr = true; s->wanted_error.set(1); } break;
    }
    if (tx && sticky && s->tx) s->tx->sticky_.add(-1);
    if (tx) s->in_tx(-1);
    s->running.add(-1);
    if (thr) throw Boom{};
    if (r != S::to_yield) { int n = q.finished.add(1); VS_CHECK(n <= sp.tasks, "tasks", "%s: %d tasks of step %d end, it has %d", s->name.c_str(), n, step, sp.tasks); }
    return r;
}
inline void Stat::build() {
    auto mc = std::make_shared<plan::mirror_container>();
    if (!tables.empty()) mc->mutable_storage_operation() = storage::storage_operation{storage::storage_list{tables}, std::vector<auth::action_set>(tables.size())};
    mc->work_level().set_minimum(light ? plan::statement_work_level_kind::zero : plan::statement_work_level_kind::infinity);
    if (kind == 'Q') {
        st = std::make_unique<StepState[]>(g.size()); auto gr = std::make_shared<executor::common::graph>(); std::vector<Step*> v;
        for (std::size_t i = 0; i < g.size(); ++i) v.push_back(&gr->emplace<Step>(this, (int) i));
        for (std::size_t i = 0; i < g.size(); ++i) for (int u : g[i].up) v[u]->connect_to(*v[i]);
        stmt = std::make_shared<executor::common::execute>(gr);
    } else if (kind == 'W') { auto w = std::make_shared<WriteStmt>(); w->s = this; stmt = w; }
    else if (kind == 'D') { auto w = std::make_shared<DdlStmt>(); w->s = this; stmt = w; }
    plan = std::make_shared<plan::executable_statement>(maybe_shared_ptr<takatori::statement::statement>{std::make_shared<Kind>(kind)}, yugawara::compiled_info{}, maybe_shared_ptr<model::statement>{stmt}, nullptr, nullptr, mc, std::make_shared<std::string>(name));
}
inline std::map<std::string, Stat*> prepared_{};
inline bool Stat::submit(api::impl::database& db, std::shared_ptr<transaction_context> const& t, bool prepared, bool sync, maybe_shared_ptr<api::data_channel> const& ch) {
    auto cb = [this, h = holder](jogasaki::status c, std::shared_ptr<error::error_info> i, std::shared_ptr<request_statistics>) { (void) h; answer(c, i); };
    if (!prepared) return executor::execute_async(db, t, maybe_shared_ptr<api::executable_statement>{std::static_pointer_cast<api::executable_statement>(make())}, ch, std::move(cb), request_info{}, sync);
    std::shared_ptr<api::impl::prepared_statement> ps; { vs::quiet q; prepared_[name] = this; ps = std::make_shared<api::impl::prepared_statement>(std::make_shared<plan::prepared_statement>(nullptr, yugawara::compiled_info{}, nullptr, plan->mirrors(), name)); }
    return executor::execute_async(db, t, std::move(ps), nullptr, maybe_shared_ptr<executor::io::record_channel>{std::make_shared<executor::io::null_record_channel>()}, std::move(cb), sync, request_info{});
}
inline void Stat::done(bool may_be_inactive) {
    int n = answers.get(), b = bodies.get(); auto c = code.get(); bool bad = wanted_error.get();
    VS_CHECK(n == 1, "answers", "%s: answered %d times", name.c_str(), n);
    if (c == jogasaki::status::ok) { bool all = kind == 'Q' ? complete() : b == 1; VS_CHECK(all && !bad, "answer", "%s: answered ok, but %s", name.c_str(), bad ? "it failed" : "its work is not complete"); }
    else VS_CHECK(bad || may_be_inactive, "answer", "%s: answered with error %d, nothing failed", name.c_str(), (int) c);
    VS_CHECK(b <= 1, "bodies", "%s: performed %d times", name.c_str(), b);
    if (kind == 'Q') for (std::size_t i = 0; i < g.size(); ++i) { int a = st[i].activated.get(), d = st[i].deactivated.get(); bool ok = c == jogasaki::status::ok; VS_CHECK(!ok || (a == 1 && d == 1), "steps", "%s: step %zu was activated %d times and deactivated %d times", name.c_str(), i, a, d); }
    auto u = holder.use_count(); VS_CHECK(u == 1, "kept", "%s: the request is kept after it ended", name.c_str());
}
struct Bed {
    std::shared_ptr<configuration> cfg; std::unique_ptr<api::impl::database> db; std::vector<std::unique_ptr<Tx>> txs; storage::storage_manager* sm{}; kvs::database kdb{};
    explicit Bed(Mode m = Mode::stealing, bool inplace_teardown = true, bool inplace_dag = true) {
        { vs::quiet q; prepared_.clear();
        cfg = std::make_shared<configuration>(); cfg->inplace_teardown(inplace_teardown); cfg->inplace_dag_schedule(inplace_dag); cfg->thread_pool_size(workers); cfg->single_thread(m == Mode::serial); cfg->enable_hybrid_scheduler(m == Mode::hybrid);
        global::config_pool(cfg); global::storage_manager(std::make_unique<storage::storage_manager>()); sm = global::storage_manager().get(); sm->add_entry(1, "t", "k"); sm->add_entry(2, "u", "l");
        db = std::make_unique<api::impl::database>(cfg); }
        db->task_scheduler()->start();
    }
    ~Bed() { db->task_scheduler()->stop(); vs::quiet q; db.reset(); txs.clear(); }
    std::shared_ptr<transaction_context> begin() { vs::quiet q; auto t = std::make_unique<Tx>(); t->no = (int) txs.size(); next_tx = t.get(); txs.push_back(std::move(t)); auto r = std::make_shared<transaction_context>(std::make_shared<kvs::transaction>(kdb), std::make_shared<api::transaction_option>()); r->state(transaction_state_kind::init); return r; }
    void no_jobs() { auto j = jobs(); VS_CHECK(j == "job_count: 0" || cfg->single_thread(), "jobs", "after every request was answered: %s", j.c_str()); }
    // the transaction can still be ended, once
    void end(std::shared_ptr<transaction_context> const& t) {
        executor::abort_transaction(t); auto x = T(*t); int c = x->commits.get(), a = x->aborts.get(), u = x->using_.get();
        VS_CHECK(u == 0, "use", "%d tasks still use the transaction", u); VS_CHECK(c + a == 1, "ended", "the transaction was committed %d times and aborted %d times", c, a);
    }
    std::string jobs() { std::stringstream s; db->task_scheduler()->print_diagnostic(s); auto t = s.str(); return t.substr(0, t.find('\n')); }
};
}
// ---- stand-ins
namespace jogasaki::kvs {
transaction::transaction(kvs::database& d) : tx_(reinterpret_cast<sharksfin::TransactionControlHandle>(bed::next_tx)), database_(&d) { active_ = true; }
transaction::~transaction() noexcept { if (auto t = bed::T(*this); t && t->on_gone) t->on_gone(); }
status transaction::create_transaction(kvs::database& d, std::unique_ptr<transaction>& o, transaction_option const&) { o = std::make_unique<transaction>(d); return status::ok; }
status transaction::commit(bool) { std::abort(); }
bool transaction::commit(commit_callback_type cb) { auto t = bed::T(*this); int u = t->using_.get(), n = t->commits.add(1), a = t->aborts.get(); VS_CHECK(n == 1 && a == 0, "ended", "a transaction is committed %d times, aborted %d times", n, a); VS_CHECK(u == 0, "ended", "a transaction is committed while %d tasks use it", u); if (t->on_commit) t->on_commit(std::move(cb)); else cb(sharksfin::StatusCode::OK, sharksfin::ErrorCode::OK, 1); return true; }
status transaction::abort_transaction() { auto t = bed::T(*this); int u = t->using_.get(), n = t->aborts.add(1), c = t->commits.get(); VS_CHECK(n == 1 && c == 0, "ended", "a transaction is aborted %d times, committed %d times", n, c); VS_CHECK(u == 0, "ended", "a transaction is aborted while %d tasks use it", u); return t->abort_result; }
sharksfin::TransactionControlHandle transaction::control_handle() const noexcept { return tx_; }
sharksfin::TransactionHandle transaction::handle() { return handle_; }
kvs::database* transaction::database() const noexcept { return database_; }
sharksfin::TransactionState transaction::check_state() { return sharksfin::TransactionState{sharksfin::TransactionState::StateKind::STARTED}; }
std::shared_ptr<sharksfin::CallResult> transaction::recent_call_result() noexcept { return {}; }
std::string_view transaction::transaction_id() const noexcept { return "TID"; }
std::unique_ptr<kvs::transaction> transaction::acquire_strand() noexcept { return {}; }
bool transaction::release_strand() noexcept { return true; }
}
namespace jogasaki::executor::common {
bool write_statement::operator()(request_context& rc) { auto& s = *static_cast<bed::WriteStmt*>(this)->s; s.enter(); s.bodies.add(1); vs::point(); if (s.act == bed::Act::error || s.act == bed::Act::fatal) bed::fail(rc, s); s.leave(); if (s.act == bed::Act::fatal && rc.transaction()) executor::abort_transaction(rc.transaction(), rc.req_info()); if (s.act == bed::Act::throws) { s.wanted_error.set(1); throw bed::Boom{}; } return s.act == bed::Act::ok; }
model::statement_kind write_statement::kind() const noexcept { return model::statement_kind::write; }
model::statement_kind create_table::kind() const noexcept { return model::statement_kind::create_table; }
bool create_table::operator()(request_context& rc) const { auto& s = *static_cast<bed::DdlStmt const*>(this)->s; s.running.add(1); s.bodies.add(1); vs::point(); if (s.act == bed::Act::error) bed::fail(rc, s); s.running.add(-1); return s.act == bed::Act::ok; }
}
namespace bed { inline std::function<status(api::impl::prepared_statement const&, std::unique_ptr<api::executable_statement>&, std::shared_ptr<error::error_info>&)> on_resolve{}; inline vs::var<int>* disposed{}; }
namespace jogasaki::api::impl {
database::database(std::shared_ptr<class configuration> c) : cfg_(std::move(c)) {
    durability_manager_ = std::make_shared<durability_manager>();
    if (cfg_->single_thread()) task_scheduler_ = std::make_shared<scheduler::serial_task_scheduler>(); else if (cfg_->enable_hybrid_scheduler()) task_scheduler_ = std::make_shared<scheduler::hybrid_task_scheduler>(scheduler::thread_params{cfg_}); else task_scheduler_ = std::make_shared<scheduler::stealing_task_scheduler>(scheduler::thread_params{cfg_});
}
status database::start() { return status::ok; }
status database::stop() { stop_requested_ = true; return status::ok; }
status database::prepare(std::string_view, api::statement_handle&) { return status::ok; }
status database::prepare(std::string_view, std::unordered_map<std::string, api::field_type_kind> const&, api::statement_handle&) { return status::ok; }
status database::create_executable(std::string_view, std::unique_ptr<api::executable_statement>&) { return status::ok; }
status database::resolve(api::statement_handle, maybe_shared_ptr<api::parameter_set const>, std::unique_ptr<api::executable_statement>&) { return status::ok; }
status database::destroy_statement(api::statement_handle) { return status::ok; }
status database::destroy_transaction(api::transaction_handle) { if (bed::disposed) bed::disposed->add(1); return status::ok; }
status database::explain(api::executable_statement const&, std::ostream&) { return status::ok; }
status database::dump(std::ostream&, std::string_view, std::size_t) { return status::ok; }
status database::load(std::istream&, std::string_view, std::size_t) { return status::ok; }
status database::do_create_transaction(transaction_handle&, transaction_option const&) { return status::ok; }
scheduler::job_context::job_id_type database::do_create_transaction_async(create_transaction_callback, transaction_option const&) { return 0; }
std::shared_ptr<class configuration>& database::config() noexcept { return cfg_; }
std::shared_ptr<class configuration> const& database::configuration() const noexcept { return cfg_; }
void database::print_diagnostic(std::ostream&) {}
std::string database::diagnostic_string() { return {}; }
status database::list_tables(std::vector<std::string>&) { return status::ok; }
status database::do_create_table(std::shared_ptr<yugawara::storage::table>, std::string_view) { return status::ok; }
std::shared_ptr<yugawara::storage::table const> database::do_find_table(std::string_view, std::string_view) { return {}; }
status database::do_drop_table(std::string_view, std::string_view) { return status::ok; }
status database::do_create_index(std::shared_ptr<yugawara::storage::index>, std::string_view) { return status::ok; }
std::shared_ptr<yugawara::storage::index const> database::do_find_index(std::string_view, std::string_view) { return {}; }
status database::do_drop_index(std::string_view, std::string_view) { return status::ok; }
status database::do_create_sequence(std::shared_ptr<yugawara::storage::sequence>, std::string_view) { return status::ok; }
std::shared_ptr<yugawara::storage::sequence const> database::do_find_sequence(std::string_view, std::string_view) { return {}; }
status database::do_drop_sequence(std::string_view, std::string_view) { return status::ok; }
std::shared_ptr<kvs::database> const& database::kvs_db() const noexcept { return kvs_db_; }
std::shared_ptr<yugawara::storage::configurable_provider> const& database::tables() const noexcept { return tables_; }
scheduler::task_scheduler* database::task_scheduler() const noexcept { return task_scheduler_.get(); }
std::shared_ptr<scheduler::task_scheduler> const& database::scheduler() const noexcept { return task_scheduler_; }
executor::sequence::manager* database::sequence_manager() const noexcept { return nullptr; }
bool database::stop_requested() const noexcept { return stop_requested_; }
utils::use_counter const& database::requests_inprocess() const noexcept { return requests_inprocess_; }
std::shared_ptr<durability_manager> const& database::durable_manager() const noexcept { return durability_manager_; }
status database::resolve_common(impl::prepared_statement const& p, maybe_shared_ptr<api::parameter_set const>, std::unique_ptr<api::executable_statement>& s, std::shared_ptr<error::error_info>& e) {
    if (bed::on_resolve) return bed::on_resolve(p, s, e);
    auto t = bed::prepared_.at(std::string{p.body()->sql_text()}); s = std::make_unique<api::impl::executable_statement>(t->plan, nullptr, nullptr); return status::ok;
}
}
namespace jogasaki::api::impl {
std::shared_ptr<transaction_context> database::find_transaction(api::transaction_handle) { return {}; }
std::shared_ptr<prepared_statement> database::find_statement(api::statement_handle) { return {}; }
}
namespace bed { inline std::function<executor::file::loader_result()> on_load{}; }
namespace jogasaki::executor::file {
std::shared_ptr<arrow_writer> arrow_writer::open(maybe_shared_ptr<meta::external_record_meta>, std::string_view, arrow_writer_option) { return {}; }
std::shared_ptr<parquet_writer> parquet_writer::open(maybe_shared_ptr<meta::external_record_meta>, std::string_view, parquet_writer_option) { return {}; }
loader::loader(std::vector<std::string>, std::shared_ptr<api::impl::prepared_statement>, maybe_shared_ptr<api::parameter_set const>, std::shared_ptr<transaction_context>, api::impl::database&, std::size_t) noexcept {}
loader_result loader::operator()() { return bed::on_load ? bed::on_load() : loader_result::ok; }
std::pair<status, std::string> loader::error_info() const noexcept { return {status::err_io_error, "load"}; }
}
