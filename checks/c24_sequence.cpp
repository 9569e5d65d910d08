// C24: sequences. (1) next() against exact integer arithmetic for every combination of corner parameters, (2) every history of
// create/drop/next/commit/abort/crash of bounded length against a reference model, over a store kept in memory, (3) the same
// with one failure of the store at every operation.
#include "vf.h"
#include <sharksfin/mem.h>
#include <jogasaki/constants.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/executor/sequence/exception.h>
#include <jogasaki/executor/sequence/manager.h>
#include <jogasaki/executor/sequence/metadata_store.h>
#include <jogasaki/executor/sequence/sequence.h>
#include <jogasaki/executor/wrt/fill_record_fields.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/kvs/transaction.h>
#include <jogasaki/request_context.h>
#include <jogasaki/transaction_context.h>
#include <algorithm>
#include <map>
#include <set>
using namespace jogasaki; namespace sq = executor::sequence; namespace mem = sharksfin::mem;
using i64 = std::int64_t; using wide = __int128;
#define CHECK(c, key, ...) do { if (!(c)) vf::violation(key, vf::strf(__VA_ARGS__)); } while (0)
struct Def { i64 init, inc, lo, hi; bool cycle; };
static std::string show(Def const& d) { return vf::strf("initial %lld increment %lld minimum %lld maximum %lld %s", (long long) d.init, (long long) d.inc, (long long) d.lo, (long long) d.hi, d.cycle ? "cycle" : "no cycle"); }
// what comes after (version, value); nothing if out of range
static std::optional<std::pair<std::size_t, i64>> after(Def const& d, std::size_t ver, i64 v) {
    if (ver == initial_sequence_version) return {{ver + 1, d.init}};
    wide n = (wide) v + d.inc;
    if (d.inc > 0 && n > d.hi) { if (!d.cycle) return {}; n = d.lo; }
    if (d.inc < 0 && n < d.lo) { if (!d.cycle) return {}; n = d.hi; }
    return {{ver + 1, (i64) n}};
}
static std::unique_ptr<mem::Db> fresh() { auto d = std::make_unique<mem::Db>(); auto s = std::make_shared<mem::Storage>(); s->name = std::string(system_sequences_name); d->storages[s->name] = s; return d; }

static void arithmetic() {
    std::vector<i64> S{INT64_MIN, INT64_MIN + 1, INT64_MIN + 2, -3, -2, -1, 0, 1, 2, 3, INT64_MAX - 2, INT64_MAX - 1, INT64_MAX};
    if (vf::thorough()) for (i64 v : {INT64_MIN + 3, i64(-4), i64(4), i64(INT64_MIN / 2), i64(INT64_MAX / 2), i64(-7), i64(7), INT64_MAX - 3}) S.push_back(v);
    std::sort(S.begin(), S.end());
    auto raw = fresh(); kvs::database db(raw.get()); std::uint64_t n = 0;
    for (i64 lo : S) for (i64 hi : S) for (i64 init : S) for (i64 inc : S) for (bool cyc : {false, true}) {
        if (lo > init || init > hi || inc == 0 || !vf::mine(n++)) continue;
        Def d{init, inc, lo, hi, cyc}; vf::at("next of a sequence with %s", show(d).c_str()); vf::state();
        sq::manager m(db); auto tx = db.create_transaction();
        auto* s = m.register_sequence(tx.get(), 7, "s", init, inc, lo, hi, cyc, false);
        std::size_t ver = initial_sequence_version; i64 cur = init;
        for (int k = 0; k < 6; ++k) {
            auto e = after(d, ver, cur); auto r = s->next(*tx); vf::step();
            if (!e) {
                auto want = inc > 0 ? sq::sequence_error::out_of_upper_bound : sq::sequence_error::out_of_lower_bound;
                CHECK(!r && r.error() == want, "range " + show(d), "after %lld a sequence with %s must report that its %s is passed; it %s", (long long) cur, show(d).c_str(), inc > 0 ? "maximum" : "minimum", r ? vf::strf("returned %lld", (long long) r.value()).c_str() : "reported the other end");
                CHECK(s->get().version_ == ver && s->get().value_ == (ver == initial_sequence_version ? init : cur), "kept " + show(d), "a sequence with %s changed although next failed", show(d).c_str());
            } else {
                CHECK((bool) r, "early " + show(d), "after %s%lld a sequence with %s has the value %lld next, but reports that its %s is passed", k ? "" : "the initial ", (long long) cur, show(d).c_str(), (long long) e->second, inc > 0 ? "maximum" : "minimum");
                CHECK(r.value() == e->second, "value " + show(d), "after %lld a sequence with %s gives %lld, expected %lld", (long long) cur, show(d).c_str(), (long long) r.value(), (long long) e->second);
                ver = e->first; cur = e->second;
                CHECK(s->get().version_ == ver && s->get().value_ == cur, "state " + show(d), "a sequence with %s gave %lld (number %zu) but holds %lld (number %zu)", show(d).c_str(), (long long) cur, ver, (long long) s->get().value_, s->get().version_);
            }
            CHECK(m.notify_updates(*tx), "notify", "notify_updates returned false");
            sequence_versioned_value p{}; 
            if (!tx->handle()->seqs.empty()) { auto& q = tx->handle()->seqs.back().second; CHECK(q.version == s->get().version_ && q.value == s->get().value_, "written " + show(d), "a sequence with %s holds %lld (number %zu); the store was told %lld (number %zu)", show(d).c_str(), (long long) s->get().value_, s->get().version_, (long long) q.value, q.version); }
            else CHECK(false, "notify", "a sequence was used; the store was told nothing");
            (void) p;
        }
        (void) tx->abort_transaction(); vf::trace();
    }
    vf::bound_note(vf::strf("next: %zu corner values for each of initial, increment, minimum, maximum (all orderings allowed by minimum <= initial <= maximum, increment not 0), with and without cycle, 6 steps", S.size()));
}

// ---- histories
static std::vector<Def> const defs{{10, 5, 0, 1000, false}, {-1, -1, -3, 0, true}, {0, 1, -2, 2, false}};
struct World {
    std::unique_ptr<mem::Db> raw = fresh(); std::unique_ptr<kvs::database> db; std::unique_ptr<sq::manager> m;
    std::shared_ptr<transaction_context> tx[2]; std::shared_ptr<request_context> rc[2];
    // reference
    struct Live { int kind; std::size_t ver; i64 val; std::size_t dver; i64 dval; std::vector<std::pair<std::size_t, i64>> committed; };
    std::map<std::size_t, Live> seqs;                                   // by definition id
    struct Use { std::size_t def; std::size_t ver; i64 val; bool given; };
    std::vector<Use> used[2];
    std::string log; std::vector<sharksfin::StatusCode> codes;
    World() { open(); }
    ~World() { for (auto& t : tx) { rc[&t - tx].reset(); t.reset(); } }
    void open() { db = std::make_unique<kvs::database>(raw.get()); m = std::make_unique<sq::manager>(*db); }
    bool begin(int t) {
        if (tx[t]) return true;
        auto x = db->create_transaction(); if (!x) return false;
        tx[t] = std::make_shared<transaction_context>(std::shared_ptr<kvs::transaction>(std::move(x)));
        rc[t] = std::make_shared<request_context>(std::make_shared<configuration>(), nullptr, nullptr, tx[t], m.get());
        return true;
    }
    void end(int t) { rc[t].reset(); tx[t].reset(); used[t].clear(); }
    void where(char const* f, ...) __attribute__((format(printf, 2, 3))) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); log += log.empty() ? "" : "; "; log += b; vf::at("%s", log.c_str()); }
    void audit() {
        std::set<std::size_t> ids;
        for (auto& [d, l] : seqs) {
            auto* s = m->find_sequence(d); CHECK(s, "find", "%s: sequence %zu is gone", log.c_str(), d);
            CHECK(s->info().definition_id() == d && s->info().increment() == defs[l.kind].inc && s->info().minimum_value() == defs[l.kind].lo && s->info().maximum_value() == defs[l.kind].hi && s->info().initial_value() == defs[l.kind].init && s->info().cycle() == defs[l.kind].cycle, "info", "%s: sequence %zu has another definition", log.c_str(), d);
            CHECK(ids.insert(s->info().id()).second, "shared", "%s: two sequences share one in the store", log.c_str());
            auto v = s->get(); CHECK(v.version_ == l.ver && v.value_ == l.val, "current", "%s: sequence %zu holds %lld (number %zu), expected %lld (number %zu)", log.c_str(), d, (long long) v.value_, v.version_, (long long) l.val, l.ver);
            auto i = raw->sequences.find(s->info().id()); CHECK(i != raw->sequences.end(), "store", "%s: sequence %zu is missing in the store", log.c_str(), d);
            std::size_t dv = i->second.written ? i->second.version : initial_sequence_version; CHECK(dv == l.dver && (!i->second.written || i->second.value == l.dval), "durable", "%s: the store has %lld (number %zu) for sequence %zu, expected %lld (number %zu)", log.c_str(), (long long) i->second.value, dv, d, (long long) l.dval, l.dver);
        }
        for (std::size_t d = 0; d < 4; ++d) if (!seqs.count(d)) CHECK(m->find_sequence(d) == nullptr, "ghost", "%s: sequence %zu does not exist but is found", log.c_str(), d);
        CHECK(m->sequences().size() == seqs.size(), "count", "%s: %zu sequences are known, expected %zu", log.c_str(), m->sequences().size(), seqs.size());
        std::map<std::size_t, std::size_t> got; auto t = db->create_transaction(); sq::metadata_store ms(*t);
        ms.scan([&](i64 d, i64 id) { got[d] = id; }); 
        CHECK(got.size() == seqs.size() && ms.size() == seqs.size(), "table", "%s: the system table lists %zu sequences, expected %zu", log.c_str(), got.size(), seqs.size());
        for (auto& [d, l] : seqs) CHECK(got.count(d) && got[d] == m->find_sequence(d)->info().id(), "table", "%s: the system table has another entry for sequence %zu", log.c_str(), d);
        std::size_t next{}; ms.find_next_empty_def_id(next); CHECK(!seqs.count(next), "empty", "%s: %zu is offered as unused definition id", log.c_str(), next);
        (void) t->commit();
    }
    // all operations; false = not possible now. If a fault is due, an operation may fail; it then must not pretend success
    bool faulty = false;
    bool create(int kind, bool crash_before_commit) {
        if (seqs.size() >= 2) return false;
        where("create (%s)%s", show(defs[kind]).c_str(), crash_before_commit ? ", crash" : "");
        auto x = db->create_transaction(); if (!x) { CHECK(faulty, "begin", "%s: begin failed", log.c_str()); return true; }
        std::size_t d{};
        try { sq::metadata_store ms(*x); ms.find_next_empty_def_id(d); auto& k = defs[kind]; auto* s = m->register_sequence(x.get(), d, "s" + std::to_string(d), k.init, k.inc, k.lo, k.hi, k.cycle, true, true); CHECK(s && s == m->find_sequence(d), "create", "%s: not registered", log.c_str()); }
        catch (sq::exception const& e) { CHECK(faulty, "create", "%s: %s", log.c_str(), e.what()); (void) x->abort_transaction(); x.reset(); crash(false); return true; }     // a failed definition: only a restart shows a defined state
        CHECK(!seqs.count(d), "reused", "%s: got the definition id %zu of another sequence", log.c_str(), d);
        if (crash_before_commit) { x.reset(); crash(false); return true; }
        if (x->commit() != status::ok) { CHECK(faulty, "commit", "%s: commit failed", log.c_str()); x.reset(); crash(false); return true; }
        seqs[d] = {kind, initial_sequence_version, defs[kind].init, initial_sequence_version, defs[kind].init, {}};
        return true;
    }
    bool drop(std::size_t d) {
        if (!seqs.count(d)) return false;
        for (auto& u : used) for (auto& x : u) if (x.def == d) return false;              // a table in use is not dropped
        where("drop %zu", d);
        auto x = db->create_transaction(); bool ok = m->remove_sequence(d, x.get()); CHECK(ok, "drop", "%s: not found", log.c_str());
        CHECK(!m->remove_sequence(d, x.get()), "drop", "%s: dropped twice", log.c_str());
        CHECK(x->commit() == status::ok, "drop", "%s: commit failed", log.c_str()); seqs.erase(d); return true;
    }
    bool next(int t, std::size_t d) {
        if (!seqs.count(d)) return false;
        where("next of %zu in transaction %d", d, t);
        if (!begin(t)) { CHECK(faulty, "begin", "%s: begin failed", log.c_str()); return true; }
        auto& l = seqs[d]; auto e = after(defs[l.kind], l.ver, l.val); sequence_value v = 4242; auto r = executor::wrt::next_sequence_value(*rc[t], d, v);
        bool dead = !tx[t]->handle()->active();
        if (e && r == status::ok) CHECK(v == e->second, "value", "%s: got %lld, expected %lld", log.c_str(), (long long) v, (long long) e->second);
        if (!e && !dead) { CHECK(r == status::err_illegal_operation && v == 4242 && rc[t]->error_info() && rc[t]->error_info()->code() == error_code::value_evaluation_exception && rc[t]->error_info()->message().find(defs[l.kind].inc > 0 ? "maximum" : "minimum") != std::string_view::npos, "limit", "%s: the limit was passed: %d %lld", log.c_str(), (int) r, (long long) v); }
        if (e && r != status::ok) CHECK(faulty, "next", "%s: failed with %d", log.c_str(), (int) r);
        if (r == status::ok) CHECK(!dead, "next", "%s: succeeded in an ended transaction", log.c_str());
        if (e) l.ver = e->first, l.val = e->second;                                       // taken from the sequence even if the transaction fails
        if (dead) { end(t); return true; }
        used[t].push_back({d, l.ver, l.val, e && r == status::ok});
        rc[t] = std::make_shared<request_context>(std::make_shared<configuration>(), nullptr, nullptr, tx[t], m.get());
        return true;
    }
    bool commit(int t) {
        if (!tx[t]) return false;
        where("commit %d", t); auto r = tx[t]->commit();
        if (r != status::ok) { CHECK(faulty, "commit", "%s: failed", log.c_str()); end(t); return true; }
        for (auto& u : used[t]) {
            auto& l = seqs[u.def]; if (u.ver > l.dver) l.dver = u.ver, l.dval = u.val;
            if (u.given) { for (auto& c : l.committed) CHECK(defs[l.kind].cycle || c.second != u.val, "twice", "%s: %lld of sequence %zu was given to two committed transactions", log.c_str(), (long long) u.val, u.def); l.committed.push_back({u.ver, u.val}); }
        }
        end(t); return true;
    }
    bool abort(int t) { if (!tx[t]) return false; where("abort %d", t); auto r = tx[t]->abort_transaction(); CHECK(r == status::ok || faulty, "abort", "%s: failed", log.c_str()); end(t); return true; }
    bool crash(bool say) {
        if (say) where("crash");
        auto img = mem::crash(*raw); auto h = std::move(mem::hook); mem::hook = {};
        // sequences that were registered are in the store even if never written
        for (auto& [id, s] : raw->sequences) if (!img->sequences.count(id)) img->sequences[id] = s;
        img->next_seq = raw->next_seq;
        for (int t : {0, 1}) end(t);
        m.reset(); db.reset(); raw = std::move(img); open();
        auto x = db->create_transaction(); auto n = m->load_id_map(x.get()); CHECK(n == seqs.size(), "recover", "%s: %zu sequences found, expected %zu", log.c_str(), n, seqs.size());
        auto prov = std::make_shared<yugawara::storage::configurable_provider>();
        for (auto& [d, l] : seqs) { auto& k = defs[l.kind]; prov->add_sequence(std::make_shared<yugawara::storage::sequence>(d, "s" + std::to_string(d), k.init, k.inc, k.lo, k.hi, k.cycle)); }
        try { m->register_sequences(x.get(), maybe_shared_ptr<yugawara::storage::configurable_provider>(prov), false); } catch (sq::exception const& e) { CHECK(false, "recover", "%s: %s", log.c_str(), e.what()); }
        CHECK(x->commit() == status::ok, "recover", "%s: commit failed", log.c_str());
        for (auto& [d, l] : seqs) l.ver = l.dver, l.val = l.dval;
        mem::hook = std::move(h); return true;
    }
    bool op(int o) {
        switch (o) {
            case 0: return create(0, false); case 1: return create(1, false); case 2: return create(2, false); case 3: return create(0, true);
            case 4: return drop(0); case 5: return drop(1);
            case 6: return next(0, 0); case 7: return next(0, 1); case 8: return next(1, 0); case 9: return next(1, 1);
            case 10: return commit(0); case 11: return commit(1); case 12: return abort(0); case 13: return abort(1);
            default: return crash(true);
        }
    }
};
static constexpr int OPS = 15;
// runs the operations; false if one is not possible
static bool run(std::vector<int> const& h, bool faults, std::size_t at, sharksfin::StatusCode code, std::size_t* count) {
    World w; w.faulty = faults; std::size_t n = 0; bool done = false;
    mem::hook = {};
    for (std::size_t i = 0; i < h.size(); ++i) {
        if (h[i] != 14 && h[i] != 4 && h[i] != 5 && h[i] != 3) mem::hook = [&](mem::Op o, mem::Tx*, std::string_view, std::string_view) -> std::optional<sharksfin::StatusCode> {
            if (o == mem::Op::storage_get) return {};
            if (n++ == at && !done && code != sharksfin::StatusCode::OK) { done = true; w.where("(%s fails with %d)", mem::op_name(o), (int) code); return code; } return {}; };
        else mem::hook = {};
        if (!w.op(h[i])) { mem::hook = {}; return false; }
        mem::hook = {}; vf::step(); w.audit();
    }
    // what was durable is what a restart continues from
    w.crash(true); w.audit();
    if (count) *count = n;
    vf::trace(); return true;
}
static void histories(std::size_t depth, bool faults) {
    // prefixes are distributed over the shards; within one, depth first
    std::uint64_t unit = 0;
    std::function<void(std::vector<int>&)> walk = [&](std::vector<int>& h) {
        for (int o = 0; o < OPS; ++o) {
            h.push_back(o); std::size_t n{};
            if (!(h.size() == 3 && !vf::mine(unit++)) && run(h, false, 0, sharksfin::StatusCode::OK, &n)) {
                if (h.size() < depth) walk(h);
                else if (!faults) vf::state();
                else for (std::size_t k = 0; k < n; ++k) for (auto c : {sharksfin::StatusCode::ERR_ABORTED_RETRYABLE, sharksfin::StatusCode::ERR_IO_ERROR}) { vf::state(); run(h, true, k, c, nullptr); }
            }
            h.pop_back();
        }
    };
    std::vector<int> h; walk(h);
    vf::bound_note(vf::strf("histories%s: every sequence of %zu of %d operations (create of 3 definitions, create cut by a crash, drop, next in two transactions of two sequences, commit, abort, crash and restart), then a restart; the state compared after each", faults ? " with one failure of the store at each of its operations, with two codes" : "", depth, OPS));
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    arithmetic();
    histories(vf::thorough() ? 7 : 5, false);
    histories(vf::thorough() ? 5 : 4, true);
    return vf::finish();
}
