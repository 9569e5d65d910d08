// C31: commits. Every commit is answered once, with what the engine and the log said about it, at the point the client asked for, and its job
// ends, under every schedule.
#include "reqbed.h"
#include <tateyama/api/server/response.h>
using namespace bed;
using RK = commit_response_kind;
struct Opt { Mode m{Mode::stealing}; bool it{true}; bool direct{}; bool omit{true}; };
static char const* nm(Mode m) { return m == Mode::stealing ? "stealing" : m == Mode::hybrid ? "hybrid" : "serial"; }
// a client's connection: says whether the client cancelled its request
struct Conn : tateyama::api::server::response {
    vs::var<int> cancelled;
    void session_id(std::size_t) override {} tateyama::status body(std::string_view) override { return tateyama::status::ok; } tateyama::status body_head(std::string_view) override { return tateyama::status::ok; }
    void error(tateyama::proto::diagnostics::Record const&) override {} tateyama::status acquire_channel(std::string_view, std::shared_ptr<tateyama::api::server::data_channel>&, std::size_t) override { return tateyama::status::ok; }
    tateyama::status release_channel(tateyama::api::server::data_channel&) override { return tateyama::status::ok; } tateyama::status add_blob(std::unique_ptr<tateyama::api::server::blob_info>) override { return tateyama::status::ok; }
    bool check_cancel() const override { return const_cast<Conn*>(this)->cancelled.get(); }
};
enum class Eng { ok, fails, ok_later, fails_later };
static char const* en(Eng e) { static char const* n[] = {"commits", "refuses", "commits later", "refuses later"}; return n[(int) e]; }
struct Com {
    Eng e{Eng::ok}; RK kind{RK::stored}; std::uint64_t marker{1}; bool dispose{}; bool keep{};      // keep: the client keeps its reference to the transaction
    int tx{};                                                                   // which transaction
};
struct World;
inline thread_local bool in_engine{};
struct World {
    Bed b; Opt o; vs::var<int> durable{}; std::vector<Com> cs; struct St { vs::var<int> responses, errors, decided, ok; std::shared_ptr<void> token = std::make_shared<int>(0); std::shared_ptr<Conn> conn = std::make_shared<Conn>(); };
    std::vector<std::unique_ptr<St>> st; std::vector<std::shared_ptr<transaction_context>> tx; std::vector<std::weak_ptr<transaction_context>> wtx; std::vector<Tx*> raw; vs::var<int> dis{}; std::vector<std::unique_ptr<vs::var<int>>> gone;
    std::mutex m; std::condition_variable cv; std::deque<std::pair<kvs::transaction::commit_callback_type, Com>> pending; std::unique_ptr<durability_callback> dc;
    World(Opt op, std::vector<Com> c, int txs) : b(op.m, op.it, true), o(op), cs(std::move(c)) {
        vs::quiet q; b.cfg->direct_commit_callback(o.direct); b.cfg->omit_task_when_idle(o.omit); disposed = &dis;
        for (int i = 0; i < txs; ++i) { tx.push_back(b.begin()); tx.back()->state(transaction_state_kind::active); wtx.push_back(tx.back()); raw.push_back(T(*tx.back())); gone.push_back(std::make_unique<vs::var<int>>()); }
        for (auto& x : cs) { st.push_back(std::make_unique<St>()); }
        for (int i = 0; i < txs; ++i) {
            auto& c = *std::find_if(cs.begin(), cs.end(), [&](auto& x) { return x.tx == i; });
            raw[i]->on_gone = [this, i] { VS_CHECK(!in_engine, "reentered", "a transaction is released from inside the engine"); gone[i]->add(1); };
            raw[i]->on_commit = [this, c](kvs::transaction::commit_callback_type cb) {
                if (c.e == Eng::ok || c.e == Eng::fails) { finish(std::move(cb), c); return; }
                { std::lock_guard k{m}; pending.emplace_back(std::move(cb), c); } cv.notify_all();
            };
            auto l = b.sm->create_unique_lock(); storage::storage_list list{static_cast<storage::storage_entry>(i + 1)}; if (b.sm->add_locked_storages(list, *l)) tx[i]->storage_lock(std::move(l));
            tx[i]->add_storage_ref(static_cast<storage::storage_entry>(i + 1));
        }
        b.sm->add_entry(3, "v", "m"); b.db->durable_manager()->instant_update_if_waitlist_empty(0); dc = std::make_unique<durability_callback>(*b.db);
    }
    ~World() { vs::quiet q; disposed = nullptr; dc.reset(); }
    // the engine ends a commit
    void finish(kvs::transaction::commit_callback_type cb, Com const& c) {
        bool ok = c.e == Eng::ok || c.e == Eng::ok_later; in_engine = true;
        for (std::size_t i = 0; i < cs.size(); ++i) if (cs[i].tx == c.tx) { st[i]->ok.set(ok); st[i]->decided.set(1); }
        cb(ok ? sharksfin::StatusCode::OK : sharksfin::StatusCode::ERR_ABORTED_RETRYABLE, ok ? sharksfin::ErrorCode::OK : sharksfin::ErrorCode::CC_LTX_READ_AREA_VIOLATION, c.marker);
        cb = nullptr; in_engine = false;
    }
    // the log became durable up to a marker
    void epoch(std::uint64_t k) { if ((int) k > durable.get()) durable.set((int) k); (*dc)(k); }
    // the engine's own thread: ends the commits that were left, then reports durability
    void engine(int n, std::vector<int> const& epochs, bool before) {
        auto it = epochs.begin(); if (before && it != epochs.end()) epoch(*it++);
        for (int i = 0; i < n; ++i) { std::pair<kvs::transaction::commit_callback_type, Com> p; { std::unique_lock k{m}; cv.wait(k, [&] { return !pending.empty(); }); p = std::move(pending.front()); pending.pop_front(); } finish(std::move(p.first), p.second); }
        while (it != epochs.end()) epoch(*it++);
    }
    void request(std::size_t i, bool drop) {
        auto& c = cs[i]; auto* s = st[i].get(); auto t = wtx[c.tx]; auto tok = s->token; std::shared_ptr<transaction_context> mine;
        { vs::quiet q; mine = tx[c.tx]; if (drop && !c.keep) tx[c.tx].reset(); }
        auto locked = [this, c](char const* w) { storage::storage_list l{static_cast<storage::storage_entry>(c.tx + 1)}; auto sl = b.sm->create_shared_lock(l); bool k = sl != nullptr; VS_CHECK(k, "locked", "a commit was answered %s and its tables are still locked", w); };
        commit_response_kind_set ks{}; if (c.kind != RK::undefined) ks.insert(c.kind); api::commit_option op{}; op.commit_response(c.kind == RK::undefined ? RK::stored : c.kind); op.auto_dispose_on_success(c.dispose);
        executor::commit_async(*b.db, std::move(mine), [=, this](RK k) {
            (void) tok; int n = s->responses.add(1), e = s->errors.get(), d = s->decided.get(), ok = s->ok.get(); auto want = c.kind == RK::undefined ? RK::stored : c.kind;
            VS_CHECK(n == 1 && e == 0, "answers", "a commit is answered ok %d times, with an error %d times", n, e); VS_CHECK(d && ok, "early", "a commit is answered ok before the engine committed"); VS_CHECK(k == want, "kind", "a commit is answered at another point than wanted: %d", (int) k);
            if (want == RK::stored) { int du = durable.get(); VS_CHECK(du >= (int) c.marker, "durable", "a commit is answered as stored, its marker is %d, durable is %d", (int) c.marker, du); }
            auto p = t.lock(); VS_CHECK(p != nullptr, "gone", "the transaction is gone before its commit is answered"); auto stt = p->state(); p.reset();
            bool good = stt == transaction_state_kind::committed_stored || (want == RK::accepted && stt == transaction_state_kind::committed_available); VS_CHECK(good, "state", "a commit is answered as %s, the transaction is in state %d", want == RK::stored ? "stored" : "accepted", (int) stt);
            if (c.dispose) { int di = dis.get(); VS_CHECK(di == 1, "dispose", "a commit is answered ok and its handle was disposed of %d times", di); }
            locked("ok");
        }, ks, [=, this](RK, status sc, std::shared_ptr<error::error_info> info) {
            (void) tok; int n = s->errors.add(1), r = s->responses.get(), d = s->decided.get(), ok = s->ok.get(), ca = s->conn->cancelled.get();
            VS_CHECK(n == 1 && r == 0, "answers", "a commit is answered ok %d times, with an error %d times", r, n); VS_CHECK(sc != status::ok && info && *info && info->status() == sc, "answer", "status and diagnostic of a failed commit differ: %d", (int) sc);
            auto p = t.lock(); VS_CHECK(p != nullptr, "gone", "the transaction is gone before its commit is answered"); auto stt = p->state(); p.reset();
            if (sc == status::request_canceled) { VS_CHECK(ca && d && ok && c.kind != RK::accepted, "cancel", "a commit is answered as cancelled, %s", ca ? "it did not wait for the log" : "it was not"); VS_CHECK(stt == transaction_state_kind::unknown, "state", "a wait was cancelled, the transaction is in state %d", (int) stt); }
            else if (sc == status::err_inactive_transaction) {}                              // judged at the end
            else { VS_CHECK(d && !ok, "failed", "a commit is answered with error %d, the engine %s it", (int) sc, d ? "did" : "has not decided about"); VS_CHECK(stt == transaction_state_kind::aborted, "state", "a commit failed, the transaction is in state %d", (int) stt); int di = dis.get(); VS_CHECK(di == 0, "dispose", "a commit failed and its handle was disposed of"); locked("with an error"); }
        }, op, request_info{1, {}, s->conn});
    }
    // everything is quiet: later epochs answer what still waits
    void done(int last) {
        vs::wait_quiescent();
        bool waiting = false; for (std::size_t i = 0; i < cs.size(); ++i) waiting |= st[i]->responses.get() + st[i]->errors.get() == 0;
        for (int k = last; waiting && k <= last + 1; ++k) { epoch(k); vs::wait_quiescent(); }
        std::vector<int> good(raw.size());
        for (std::size_t i = 0; i < cs.size(); ++i) {
            int r = st[i]->responses.get(), e = st[i]->errors.get(), ok = st[i]->ok.get(), ca = st[i]->conn->cancelled.get(); VS_CHECK(r + e == 1, "answers", "a commit is answered ok %d times, with an error %d times", r, e);
            if (raw.size() == cs.size()) VS_CHECK(r == ok || ca, "answers", "a commit that %s is answered %s", ok ? "succeeded" : "failed", r ? "ok" : "with an error");
            good[cs[i].tx] += r; auto u = st[i]->token.use_count(); VS_CHECK(u == 1, "kept", "a commit request is kept after it ended");
        }
        for (std::size_t i = 0; i < raw.size(); ++i) { bool anyok = false, ca = false; for (std::size_t k = 0; k < cs.size(); ++k) if (cs[k].tx == (int) i) { anyok |= st[k]->ok.get(); ca |= st[k]->conn->cancelled.get(); } VS_CHECK(good[i] == (anyok ? 1 : 0) || ca, "answers", "%d of the commits of one transaction are answered ok", good[i]); int n = raw[i]->commits.get(); VS_CHECK(n == 1, "ended", "a transaction is committed %d times", n); }
        b.no_jobs();
        for (std::size_t i = 0; i < raw.size(); ++i) { { vs::quiet q; tx[i].reset(); } int g = gone[i]->get(); bool k = wtx[i].expired(); VS_CHECK(k && g == 1, "kept", "a transaction is kept after its commit ended"); }
        std::stringstream ss; { vs::quiet q; b.db->durable_manager()->print_diagnostic(ss); } VS_CHECK(ss.str().find("durable_wait_count: 0") == 0, "kept", "after every commit was answered: %s", ss.str().c_str());
    }
};
struct one_worker { int old = workers; explicit one_worker(bool b = true) { if (b) workers = 1; } ~one_worker() { workers = old; } };
static int laters(std::vector<Com> const& c) { int n = 0; for (auto& x : c) n += x.e == Eng::ok_later || x.e == Eng::fails_later; return n; }
// commits, and then, while the workers run, the late answers of the engine and the reports of the log
static void commits(Opt o, std::vector<Com> const& cs, std::vector<int> const& epochs, bool before) {
    int txs = 0; for (auto& c : cs) txs = std::max(txs, c.tx + 1);
    one_worker ow{(!epochs.empty() || laters(cs)) && !vf::thorough()}; World w(o, cs, txs); int n = txs == (int) cs.size() ? laters(cs) : laters({cs[0]});
    for (std::size_t i = 0; i < cs.size(); ++i) w.request(i, txs == (int) cs.size() || i + 1 == cs.size());
    w.engine(n, epochs, before);
    w.done(20);
}
// a client stops waiting for the log while the log reports
static void cancels(Opt o, std::vector<Com> const& cs, std::vector<int> const& epochs) {
    one_worker ow{!vf::thorough()}; World w(o, cs, (int) cs.size()); for (std::size_t i = 0; i < cs.size(); ++i) w.request(i, true);
    bool first = vs::choose(2); if (first) w.st[0]->conn->cancelled.set(1); for (int k : epochs) w.epoch(k); if (!first) w.st[0]->conn->cancelled.set(1); w.done(20);
}
// what waits when everything is quiet is answered by the first epoch that covers it, and only that
static void prompt(Opt o, std::vector<Com> const& cs, std::vector<int> const& epochs) {
    one_worker ow{!vf::thorough()}; World w(o, cs, (int) cs.size()); for (std::size_t i = 0; i < cs.size(); ++i) w.request(i, true);
    vs::wait_quiescent(); int top = 0;
    for (int k : epochs) { w.epoch(k); top = std::max(top, k); vs::wait_quiescent(); for (std::size_t i = 0; i < cs.size(); ++i) { int r = w.st[i]->responses.get(); VS_CHECK(r == (cs[i].marker <= (unsigned) top), "prompt", "the log is durable up to %d, everything is quiet, a commit with marker %d is answered %d times", top, (int) cs[i].marker, r); } }
    w.done(20);
}
// a commit whose marker is durable already is answered without a further epoch
static void behind(Opt o, std::vector<int> const& epochs, Com first, Com c) {
    World w(o, {first, c}, 2); w.request(0, true); for (int k : epochs) w.epoch(k); vs::wait_quiescent(); w.request(1, true); vs::wait_quiescent();
    int r = w.st[1]->responses.get(), d = w.durable.get(); VS_CHECK(r == 1, "prompt", "the log is durable up to %d, everything is quiet, a commit with marker %d is answered %d times", d, (int) c.marker, r); w.done(20);
}
// the call that waits for the end of a commit
static void waits(Opt o, Com c, std::vector<int> const& epochs) {
    one_worker ow; World w(o, {c}, 1); std::thread t; int n = laters({c}); if (n || !epochs.empty()) t = std::thread([&] { w.engine(n, epochs, false); vs::wait_quiescent(); w.epoch(20); });
    api::commit_option op{}; op.commit_response(c.kind); auto x = w.tx[0]; auto r = executor::commit(*w.b.db, x, op); bool ok = c.e == Eng::ok || c.e == Eng::ok_later;
    VS_CHECK((r == status::ok) == ok, "answer", "commit returned %d, the engine %s", (int) r, en(c.e)); if (ok && c.kind == RK::stored) { int d = w.durable.get(); VS_CHECK(d >= (int) c.marker, "durable", "commit returned as stored, its marker is %d, durable is %d", (int) c.marker, d); }
    if (t.joinable()) t.join(); vs::wait_quiescent(); w.b.no_jobs(); auto u = x.use_count(); VS_CHECK(u == 2, "kept", "a transaction is kept after its commit ended"); vs::quiet q; w.tx[0].reset(); x.reset();
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    tateyama::task_scheduler::scheduler<FT, CT>::factory = [] { return std::make_unique<Pool>(); };
    vs::options base; base.preempt = 1; int n = 0;
    auto run = [&](std::string const& name, vs::options o, std::function<void()> f) { if (auto only = getenv("C30_ONLY"); only && name != only) return; if (getenv("C30_LIST")) { puts(name.c_str()); return; } if (vf::mine(n++)) { { auto w = o; w.preempt = 0; w.max_execs = 1; vs::explore(name + " (first run)", w, f); } auto k = vs::explore(name, o, f); if (getenv("C30_T")) fprintf(stderr, "%-60s %llu\n", name.c_str(), (unsigned long long) k); } };
    auto on = [](Opt o) { return vf::strf("%s teardown %d direct %d omit %d", nm(o.m), o.it, o.direct, o.omit); };
    std::vector<Opt> opts; for (auto m : {Mode::stealing, Mode::hybrid}) for (bool it : {true, false}) for (bool d : {false, true}) for (bool om : {true, false}) if (m == Mode::stealing || (it && om)) opts.push_back({m, it, d, om});
    auto kn = [](RK k) { return k == RK::accepted ? "accepted" : k == RK::stored ? "stored" : "unsaid"; };
    auto main_ones = [&](Opt o) { return vf::thorough() || (o.m == Mode::hybrid ? o.direct : o.it ? (!o.direct && o.omit) : (o.direct && !o.omit)); };
    for (auto& o : opts) for (auto e : {Eng::ok, Eng::fails, Eng::ok_later, Eng::fails_later}) for (auto k : {RK::accepted, RK::stored, RK::undefined}) for (bool keep : {false, true}) {
        if (k == RK::undefined && keep) continue; if (!main_ones(o) && (keep || k == RK::undefined)) continue;
        bool later = e == Eng::ok_later || e == Eng::fails_later;
        run(vf::strf("one, engine %s, %s, kept %d, %s", en(e), kn(k), keep, on(o).c_str()), base, [=] { commits(o, {{e, k, 1, keep, keep, 0}}, {}, false); });
        if (!keep && k != RK::undefined && main_ones(o) && (o.m == Mode::stealing || vf::thorough())) for (bool before : {false, true}) { if (before && !later) continue; run(vf::strf("one, engine %s, %s, epochs before %d, %s", en(e), kn(k), before, on(o).c_str()), base, [=] { commits(o, {{e, k, 2, false, false, 0}}, before ? std::vector<int>{2, 3} : std::vector<int>{1, 2}, before); }); }
    }
    for (auto& o : opts) {
        if (!main_ones(o)) continue;
        for (auto k : {RK::accepted, RK::stored}) for (auto e : {Eng::ok, Eng::ok_later}) {
            run(vf::strf("two transactions, engine %s, %s, %s", en(e), kn(k), on(o).c_str()), base, [=] { commits(o, {{e, k, 2, false, false, 0}, {e, k, 1, false, false, 1}}, {1, 2}, false); });
            run(vf::strf("one transaction twice, engine %s, %s, %s", en(e), kn(k), on(o).c_str()), base, [=] { commits(o, {{e, k, 1, false, false, 0}, {e, k, 1, false, false, 0}}, {}, false); });
        }
        run(vf::strf("prompt, %s", on(o).c_str()), base, [=] { prompt(o, {{Eng::ok, RK::stored, 3, false, false, 0}, {Eng::ok, RK::stored, 2, false, false, 1}}, {1, 2, 3}); });
        run(vf::strf("prompt, three, %s", on(o).c_str()), base, [=] { prompt(o, {{Eng::ok, RK::stored, 4, false, false, 0}, {Eng::ok, RK::stored, 3, false, false, 1}, {Eng::ok, RK::stored, 2, false, false, 2}}, {2, 3}); });
        run(vf::strf("behind, %s", on(o).c_str()), base, [=] { behind(o, {1, 2}, {Eng::ok, RK::stored, 5, false, false, 0}, {Eng::ok, RK::stored, 2, false, false, 1}); });
        run(vf::strf("cancel, %s", on(o).c_str()), base, [=] { cancels(o, {{Eng::ok, RK::stored, 2, false, false, 0}}, {1, 2}); });
        run(vf::strf("cancel one of two, %s", on(o).c_str()), base, [=] { cancels(o, {{Eng::ok, RK::stored, 2, false, false, 0}, {Eng::ok, RK::stored, 1, false, false, 1}}, {1}); });
        for (auto k : {RK::accepted, RK::stored}) for (auto e : {Eng::ok, Eng::fails, Eng::ok_later, Eng::fails_later}) run(vf::strf("wait, engine %s, %s, %s", en(e), kn(k), on(o).c_str()), base, [=] { waits(o, {e, k, 1, false, true, 0}, k == RK::stored ? std::vector<int>{1, 2} : std::vector<int>{}); });
    }
    return vf::finish();
}
