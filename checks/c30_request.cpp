// C30: requests. Every statement request is answered exactly once, its steps run in order, and its job ends, under every schedule.
#include "reqbed.h"
using namespace bed;
struct Opt { Mode m{Mode::stealing}; bool it{true}, id{true}; };
static char const* nm(Mode m) { return m == Mode::stealing ? "stealing" : m == Mode::hybrid ? "hybrid" : "serial"; }
static char const* an(Act a) { static char const* n[] = {"ok", "error", "fatal", "yield", "throws"}; return n[(int) a]; }
static void drain(Bed& b) { if (b.cfg->single_thread()) b.db->task_scheduler()->wait_for_progress(scheduler::job_context::undefined_id); vs::wait_quiescent(); }
// one statement in one transaction
static void one(Opt o, char kind, std::vector<StepSpec> const& g, Act act, bool prepared, bool sync) {
    Bed b(o.m, o.it, o.id); auto tx = b.begin();
    Stat s; { vs::quiet q; s.name = "s"; s.kind = kind; s.g = g; s.act = act; s.tx = T(*tx); s.build(); }
    bool r = s.submit(*b.db, tx, prepared, sync);
    VS_CHECK(r, "refused", "a statement is refused");
    if (sync) { int n = s.answers.get(); VS_CHECK(n == 1, "sync", "a synchronous request returned and was answered %d times", n); }
    drain(b); s.done(false); b.no_jobs(); b.end(tx);
}
struct Nowhere : api::data_channel { status acquire(std::shared_ptr<api::writer>&) override { return status::err_unknown; } status release(api::writer&) override { return status::ok; } std::optional<std::size_t> max_writer_count() override { return {}; } };
enum class Why { ended, locked, no_result, unresolved, resolve_throws };
// a request that is refused before its work begins is answered once too, and nothing of it remains
static void refused(Opt o, char kind, Why w, bool prepared, bool sync) {
    Bed b(o.m, o.it, o.id); auto tx = b.begin();
    Stat s; { vs::quiet q; s.name = "s"; s.kind = kind; s.g = {{'P', 1, {}}}; s.tx = T(*tx); s.tables = {1}; s.build(); }
    std::unique_ptr<storage::unique_lock> l{};
    if (w == Why::ended) executor::abort_transaction(tx);
    if (w == Why::locked) { l = b.sm->create_unique_lock(); storage::storage_list list{1}; bool k = b.sm->add_locked_storages(list, *l); VS_CHECK(k, "setup", "lock"); }
    if (w == Why::unresolved) { vs::quiet q; on_resolve = [](api::impl::prepared_statement const&, std::unique_ptr<api::executable_statement>&, std::shared_ptr<error::error_info>& e) { e = create_error_info(error_code::value_evaluation_exception, "x", status::err_unresolved_host_variable); return status::err_unresolved_host_variable; }; }
    if (w == Why::resolve_throws) { vs::quiet q; on_resolve = [](api::impl::prepared_statement const&, std::unique_ptr<api::executable_statement>&, std::shared_ptr<error::error_info>&) -> status { throw std::runtime_error("x"); }; }
    maybe_shared_ptr<api::data_channel> ch{}; if (w == Why::no_result) ch = std::make_shared<Nowhere>();
    s.submit(*b.db, tx, prepared, sync, ch);
    if (sync) { int n = s.answers.get(); VS_CHECK(n == 1, "sync", "a synchronous request returned and was answered %d times", n); }
    drain(b);
    int n = s.answers.get(), k = kind == 'Q' ? s.st[0].started.get() + s.st[0].finished.get() : s.bodies.get(); auto c = s.code.get();
    VS_CHECK(n == 1, "answers", "a refused request is answered %d times", n); VS_CHECK(c != status::ok, "answer", "a refused request is answered ok"); VS_CHECK(k == 0, "bodies", "the work of a refused request is done");
    { vs::quiet q; on_resolve = nullptr; }
    auto u = s.holder.use_count(); VS_CHECK(u == 1, "kept", "a refused request is kept after it ended");
    l.reset(); b.no_jobs(); b.end(tx);
}
// several clients at once: statements, and requests to end the transaction (A aborts, C commits)
struct Client { char kind; std::vector<StepSpec> g{}; Act act{Act::ok}; bool prepared{}; int tx{}; };
static void together(Opt o, std::vector<Client> const& cs, int txs, bool own) {
    Bed b(o.m, o.it, o.id); std::vector<std::shared_ptr<transaction_context>> t; for (int i = 0; i < txs; ++i) t.push_back(b.begin());
    std::vector<std::unique_ptr<Stat>> st; vs::var<int> commits{}, commit_ok{}; bool ends = false;
    { vs::quiet q; for (auto& c : cs) { auto s = std::make_unique<Stat>(); s->name = std::string(1, c.kind) + std::to_string(st.size()); s->kind = c.kind; s->g = c.g; s->act = c.act; s->tx = T(*t[c.tx]); s->tables = {1}; if (c.kind != 'A' && c.kind != 'C') s->build(); else ends = true; if (c.act == Act::fatal) ends = true; for (auto& x : c.g) if (x.act == Act::fatal) ends = true; st.push_back(std::move(s)); } }
    auto work = [&](std::size_t i) {
        auto& c = cs[i];
        if (c.kind == 'A') executor::abort_transaction(t[c.tx]);
        else if (c.kind == 'C') { api::commit_option op{}; op.commit_response(commit_response_kind::accepted); executor::commit_async(*b.db, t[c.tx], [&](status s, std::shared_ptr<error::error_info>) { int n = commits.add(1); VS_CHECK(n == 1, "answers", "a commit is answered %d times", n); commit_ok.set(s == status::ok); }, op, request_info{}); }
        else { bool r = st[i]->submit(*b.db, t[c.tx], c.prepared, false); VS_CHECK(r, "refused", "a statement is refused"); }
    };
    // the last client runs at the same time as the others
    std::vector<std::thread> ts; if (own) ts.emplace_back(work, cs.size() - 1);
    for (std::size_t i = 0; i + own < cs.size(); ++i) work(i);
    for (auto& x : ts) x.join();
    drain(b);
    for (std::size_t i = 0; i < cs.size(); ++i) {
        if (cs[i].kind == 'C') { int n = commits.get(); VS_CHECK(n == 1, "answers", "a commit is answered %d times", n); bool k = T(*t[cs[i].tx])->commits.get(), a = commit_ok.get(); VS_CHECK(k == a, "commit", "a commit that was %s is answered %s", k ? "done" : "not done", a ? "ok" : "with an error"); }
        else if (cs[i].kind != 'A') st[i]->done(ends);
    }
    b.no_jobs();
    if (ends) for (auto& c : cs) if (c.kind == 'A' || c.kind == 'C') { auto x = T(*t[c.tx]); int n = x->commits.get() + x->aborts.get(); VS_CHECK(n == 1, "ended", "a transaction that a client ended was committed %d times and aborted %d times", x->commits.v, x->aborts.v); }
    for (auto& x : t) b.end(x);
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    tateyama::task_scheduler::scheduler<FT, CT>::factory = [] { return std::make_unique<Pool>(); };
    vs::options base; base.preempt = 1; int n = 0;
    auto run = [&](std::string const& name, vs::options o, std::function<void()> f) { if (auto only = getenv("C30_ONLY"); only && name != only) return; if (getenv("C30_LIST")) { puts(name.c_str()); return; } if (vf::mine(n++)) { { auto w = o; w.preempt = 0; w.max_execs = 1; vs::explore(name + " (first run)", w, f); } auto k = vs::explore(name, o, f); if (getenv("C30_T")) fprintf(stderr, "%-60s %llu\n", name.c_str(), (unsigned long long) k); } };
    struct Shape { char const* n; std::vector<StepSpec> g; };
    Shape shapes[] = {
        {"P", {{'P', 1, {}}}}, {"PP", {{'P', 2, {}}}}, {"P>X>P", {{'P', 1, {}}, {'X', 1, {0}}, {'P', 1, {1}}}}, {"PP>X>P", {{'P', 2, {}}, {'X', 1, {0}}, {'P', 1, {1}}}},
        {"P+P>X>P", {{'P', 1, {}}, {'X', 1, {0}}, {'P', 1, {}}, {'X', 1, {2}}, {'P', 1, {1, 3}}}}};
    Opt opts[] = {{Mode::stealing, true, true}, {Mode::stealing, true, false}, {Mode::stealing, false, true}, {Mode::stealing, false, false}, {Mode::hybrid, true, true}, {Mode::serial, true, true}};
    for (auto& o : opts) {
        for (auto& s : shapes) for (auto a : {Act::ok, Act::error, Act::fatal, Act::yield, Act::throws}) {
            auto g = s.g; g[0].act = a;
            run(vf::strf("query %s first %s, %s teardown %d dag %d", s.n, an(a), nm(o.m), o.it, o.id), base, [=] { one(o, 'Q', g, Act::ok, false, false); });
        }
        for (auto a : {Act::ok, Act::error, Act::fatal, Act::throws}) for (bool pre : {false, true})
            run(vf::strf("write %s, prepared %d, %s teardown %d dag %d", an(a), pre, nm(o.m), o.it, o.id), base, [=] { one(o, 'W', {}, a, pre, false); });
    }
    for (auto& o : opts) {
        for (bool pre : {false, true}) {
            for (char k : {'Q', 'W'}) for (auto w : {Why::ended, Why::locked, Why::no_result, Why::unresolved, Why::resolve_throws}) for (bool sync : {false, true}) {
                if (w == Why::no_result && pre) continue; if ((w == Why::unresolved || w == Why::resolve_throws) && !pre) continue;
                static char const* wn[] = {"ended transaction", "locked table", "no result", "unresolved", "a throwing resolution"};
                run(vf::strf("refused %c for %s, prepared %d sync %d, %s teardown %d dag %d", k, wn[(int) w], pre, sync, nm(o.m), o.it, o.id), base, [=] { refused(o, k, w, pre, sync); });
            }
            for (char k : {'Q', 'W', 'D'}) for (bool sync : {false, true}) if (pre || sync || k == 'D')
                run(vf::strf("%c, prepared %d sync %d, %s teardown %d dag %d", k, pre, sync, nm(o.m), o.it, o.id), base, [=] { one(o, k, {{'P', 1, {}}}, Act::ok, pre, sync); });
        }
        using K = model::task_transaction_kind;
        if (o.m == Mode::serial) continue;
        std::vector<StepSpec> p{{'P', 1, {}}}, ps{{'P', 1, {}, Act::ok, K::sticky}}, pxp{{'P', 1, {}}, {'X', 1, {0}}, {'P', 1, {1}, Act::ok, K::none}};
        std::pair<char const*, std::vector<Client>> pairs[] = {
            {"two writes", {{'W'}, {'W'}}}, {"write and query", {{'W'}, {'Q', p}}}, {"write and sticky query", {{'W'}, {'Q', ps}}}, {"two queries", {{'Q', p}, {'Q', pxp}}},
            {"write and abort", {{'W'}, {'A'}}}, {"query and abort", {{'Q', p}, {'A'}}}, {"chain and abort", {{'Q', pxp}, {'A'}}}, {"prepared write and abort", {{'W', {}, Act::ok, true}, {'A'}}},
            {"write and commit", {{'W'}, {'C'}}}, {"query and commit", {{'Q', p}, {'C'}}}, {"chain and commit", {{'Q', pxp}, {'C'}}}, {"abort and commit", {{'A'}, {'C'}}},
            {"failing write and write", {{'W', {}, Act::fatal}, {'W'}}}, {"failing write and commit", {{'W', {}, Act::fatal}, {'C'}}}};
        bool first = o.m == Mode::stealing && o.it && o.id;
        for (auto& [n, c] : pairs) for (bool own : {false, true}) {
            if (own && !vf::thorough() && !(first && c[1].kind == 'A' && (c[0].kind == 'W' || c[0].g.size() == 1))) continue;
            if (!first && !vf::thorough() && o.it != o.id) continue;
            run(vf::strf("%s%s, %s teardown %d dag %d", n, own ? " in threads" : "", nm(o.m), o.it, o.id), base, [o, c = c, own] { together(o, c, 1, own); });
        }
    }
    return vf::finish();
}
