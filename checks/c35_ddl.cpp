// C35: a statement that defines, drops, truncates or grants does all of it or nothing, everywhere the definition is kept.
// Histories of statements run through the real compiler front, executor and statements; after each one the catalog, the storage manager, the
// storages of the engine and the metadata stored in them must say what a model of tables says.
#include "sqlbed.h"
#include <jogasaki/auth/fill_action_set.h>
#include <jogasaki/constants.h>
#include <jogasaki/executor/sequence/metadata_store.h>
#include <jogasaki/proto/metadata/storage.pb.h>
#include <jogasaki/recovery/storage_options.h>
#include <jogasaki/storage/maintenance_storage.h>
#include <jogasaki/storage/storage_list.h>
#include <jogasaki/utils/storage_metadata_serializer.h>
#include <jogasaki/api/impl/prepared_statement.h>
using namespace sqlbed; namespace sf = sharksfin; namespace meta_ = jogasaki::proto::metadata::storage;
using SC = sf::StatusCode; using AK = tst::authorization_user_kind; using TA = tst::table_authorization_action_kind; using PA = tst::details::table_privilege_action;
static std::string H;       // the history so far
#define CHECK(c, k, f, ...) VF_CHECK(c, k, "%s: " f, H.c_str(), __VA_ARGS__)
// ---- who asks
struct Session : tateyama::api::server::session_info {};
struct Req : tateyama::api::server::request {
    Session i; tateyama::api::server::session_store st; tateyama::session::session_variable_set* v{}; tateyama::api::server::database_info d;
    Req(char const* u, bool admin) { i.user_ = u; i.type_ = admin ? tateyama::api::server::user_type::administrator : tateyama::api::server::user_type::standard; }
    std::size_t session_id() const override { return 1; } std::size_t service_id() const override { return 1; } std::string_view payload() const override { return {}; }
    tateyama::api::server::database_info const& database_info() const noexcept override { return d; } tateyama::api::server::session_info const& session_info() const noexcept override { return i; }
    tateyama::api::server::session_store& session_store() noexcept override { return st; } tateyama::session::session_variable_set& session_variable_set() noexcept override { return *v; }
    tateyama::api::server::blob_info const& get_blob(std::string_view) const override { std::abort(); }
};
static std::shared_ptr<Req> const admin = std::make_shared<Req>("a", true), user = std::make_shared<Req>("u", false);
// ---- the model
using Acts = std::set<int>;
struct MT { int kind{}; bool index{}; int rows{}; std::map<std::string, Acts> users{}; Acts all{}; };
static std::map<std::string, MT> tabs;
struct Gone { std::string key; bool pinned; bool secondary; };
static std::vector<Gone> gone;              // storages that are no longer in use, and whether an open transaction still holds them
static std::map<std::string, std::shared_ptr<st::table const>> known; static std::shared_ptr<st::index const> known_x;      // what statements were compiled against
static std::shared_ptr<transaction_context> other; static bool other_ref{}; static std::string locked; static std::size_t base_id{}; static bool keyed{true};
static void add(Acts& a, auth::action_kind k) { if (k == auth::action_kind::control) { a = {static_cast<int>(k)}; return; } if (!a.count(static_cast<int>(auth::action_kind::control))) a.insert(static_cast<int>(k)); }
static auth::action_set acts(Acts const& a) { auth::action_set r; for (int k : a) r.add_action(static_cast<auth::action_kind>(k)); return r; }
static int K(auth::action_kind k) { return static_cast<int>(k); }
static void open_world() {
    other.reset(); other_ref = false; locked.clear(); db.reset(); delete sequences; sequences = nullptr; global::db(nullptr); sqlbed::kvs.reset(); open_({}); sf::mem_current_db = [] { return raw; }; tabs.clear(); gone.clear(); known.clear(); known_x.reset(); base_id = storage::index_id_src; cfg->enable_storage_key(keyed);
    sf::StorageHandle h{}; sf::storage_create(raw, sf::Slice(system_sequences_name), sf::StorageOptions{}, &h); sf::storage_dispose(h); sequences = new executor::sequence::manager(*sqlbed::kvs); db = std::make_unique<api::impl::database>(cfg); db->task_scheduler()->start();
}
// ---- running
static std::string table_name(int t) { return t ? "U" : "T"; }
struct Made { std::shared_ptr<st::table> t; std::shared_ptr<st::index> i; };
static Outcome exec(Plan& p, std::shared_ptr<transaction_context> const& tx, std::shared_ptr<Req> const& who, Made m = {}) {
    Outcome o; auto stmt = std::make_shared<std::unique_ptr<tst::statement>>(std::move(p.st_)); auto info = p.info; yugawara::schema::declaration schema("public", tables);
    yugawara::compiler::hook = [&, stmt, info](std::string const&, yugawara::compiler_options const& c) { if (m.t) c.storage_processor()->run(schema, *m.t, *m.i); else if (m.i) c.storage_processor()->run(schema, *m.i); return yugawara::compiler_result(std::move(*stmt), info); };
    auto ctx = std::make_shared<plan::compiler_context>(); ctx->resource(std::make_shared<memory::lifo_paged_memory_resource>(&global::page_pool())); ctx->storage_provider(tables); ctx->aggregate_provider(aggregates); ctx->function_provider(functions); ctx->variable_provider(p.hosts);
    if (auto rc = plan::prepare("s", *ctx); rc != status::ok) { o.code = rc; o.error = ctx->error_info(); o.answers = 1; return o; }
    auto ps = std::make_shared<api::impl::prepared_statement>(ctx->prepared_statement()); auto params = std::shared_ptr<api::parameter_set>(p.params.clone());
    auto store = std::make_unique<data::result_store>();
    try {
        executor::execute_async(*db, tx, ps, params, maybe_shared_ptr<executor::io::record_channel>{std::make_shared<api::impl::result_store_channel>(maybe_shared_ptr{store.get()})}, [&](status c, std::shared_ptr<error::error_info> e, std::shared_ptr<request_statistics>) { ++o.answers; o.code = c; o.error = e; }, true, request_info(1, who, nullptr));
    } catch (std::exception const& e) { CHECK(false, "exception", "the statement ends with an exception: %s", e.what()); }
    CHECK(o.answers == 1, "answers", "%d answers", o.answers); vf::step(); return o;
}
// ---- what must agree
static std::string norm(std::string const& p) {     // the users in order: they are kept in no order
    meta_::Storage s; s.ParseFromString(p); auto* t = s.mutable_index()->has_table_definition() ? s.mutable_index()->mutable_table_definition() : nullptr; std::vector<std::string> l; std::string r;
    if (t) { for (auto& e : t->authorization_list()) if (e.privilege_list_size()) l.push_back(e.SerializeAsString()); t->clear_authorization_list(); std::sort(l.begin(), l.end()); }
    r = s.SerializeAsString(); for (auto& x : l) r += "|" + x; return r;
}
static void consistent() {
    auto& g = *global::storage_manager(); std::set<std::string> keys{std::string(system_sequences_name)}; std::set<storage::storage_entry> entries; std::size_t nt = 0, ni = 0, ns = 0;
    for (auto& [n, m] : tabs) {
        auto t = tables->find_table(n); CHECK(t, "catalog", "table %s is not in the catalog", n.c_str()); storage::storage_entry primary{};
        for (int x = 0; x <= (m.index ? 1 : 0); ++x) {
            std::string in = x ? "X" : n; auto i = tables->find_index(in); CHECK(i, "catalog", "index %s is not in the catalog", in.c_str()); CHECK(&i->table() == t.get(), "owner", "index %s is of another table object than the catalog has", in.c_str()); ++ni;
            for (auto& k : i->keys()) { bool is = false; for (auto& c : t->columns()) if (&c == &k.column()) is = true; CHECK(is, "column", "index %s has a key on a column of another table object", in.c_str()); }
            auto e = g.find_by_name(in); CHECK(e, "name", "the storage manager does not know %s", in.c_str()); auto c = g.find_entry(*e); CHECK(c, "entry", "the storage manager has no entry for %s", in.c_str()); entries.insert(*e);
            CHECK(c->is_primary() == !x && !c->delete_reserved() && c->name() && *c->name() == in, "entry", "the entry of %s says otherwise", in.c_str()); if (!x) primary = *e; else CHECK(c->primary_entry() && *c->primary_entry() == primary, "entry", "index %s does not belong to its table", in.c_str());
            std::string key(c->derived_storage_key()); CHECK(g.get_storage_key(in) == key && g.get_index_name(key) == in, "keys", "storage key of %s", in.c_str()); keys.insert(key); auto s = raw->storages.find(key); CHECK(s != raw->storages.end() && !s->second->deleted, "storage", "%s has no storage", in.c_str());
            std::string pay(s->second->opts.payload()), want; auto au = c->authorized_actions(); auto pu = c->public_actions(); std::optional<std::string_view> ok{}; if (keyed) ok = key;
            auto er = recovery::create_storage_option(*i, want, utils::metadata_serializer_option{false, x ? nullptr : &au, x ? nullptr : &pu, ok}); CHECK(!er && norm(pay) == norm(want), "metadata", "the metadata stored for %s is not its definition and privileges", in.c_str());
            if (!x) { std::size_t w = 0; for (auto& [u, y] : au) if (!y.empty()) ++w; std::size_t mw = 0; for (auto& [u, y] : m.users) { if (!y.empty()) ++mw; auto a = acts(y); for (int k = 0; k < 16; ++k) { auto q = static_cast<auth::action_kind>(k); if (q == auth::action_kind::control || q == auth::action_kind::select || q == auth::action_kind::insert || q == auth::action_kind::update || q == auth::action_kind::delete_) CHECK(au.find_user_actions(u).has_action(q) == a.has_action(q) && pu.has_action(q) == acts(m.all).has_action(q), "privileges", "privilege %d of %s or of all on %s", k, u.c_str(), n.c_str()); } } CHECK(w == mw, "privileges", "%zu users have privileges on %s, not %zu", w, n.c_str(), mw); }
            if (locked != n) CHECK((int) s->second->data.size() == m.rows, "rows", "%s has %zu entries, not %d", in.c_str(), s->second->data.size(), m.rows);
            bool can = c->lock(); if (can) c->release(); CHECK(can == (locked != n) || x, "lock", "%s is %slocked", in.c_str(), can ? "not " : "");
        }
        ++nt; if (m.kind) ++ns; for (auto& c : t->columns()) if (c.default_value().kind() == st::column_value_kind::sequence) { auto q = c.default_value().element<st::column_value_kind::sequence>(); auto f = tables->find_sequence(q->simple_name()); CHECK(f && f == q, "sequence", "sequence %s of %s", std::string(q->simple_name()).c_str(), n.c_str()); CHECK(q->definition_id() && sequences->find_sequence(*q->definition_id()), "sequence", "sequence %s is not registered", std::string(q->simple_name()).c_str()); }
    }
    std::size_t at = 0, ai = 0, as = 0; tables->each_relation([&](auto, auto const&) { ++at; }); tables->each_index([&](auto, auto const&) { ++ai; }); tables->each_sequence([&](auto, auto const&) { ++as; }); CHECK(at == nt && ai == ni && as == ns, "catalog", "%zu tables, %zu indexes and %zu sequences in the catalog, not %zu, %zu and %zu", at, ai, as, nt, ni, ns);
    if (locked.empty() && !other) { auto& d = raw->storages.at(std::string(system_sequences_name))->data; CHECK(d.size() == ns, "sequences", "%zu sequences in the system table, not %zu", d.size(), ns); }
    for (std::string n : {"T", "U", "X"}) if (!entries.count(g.find_by_name(n).value_or(0)) || !g.find_by_name(n)) CHECK(!g.find_by_name(n) , "name", "the storage manager still knows %s", n.c_str());
    std::set<std::string> reserved; for (std::size_t e = base_id; e < storage::index_id_src; ++e) if (!entries.count(e)) if (auto c = g.find_entry(e)) { CHECK(c->delete_reserved() && !c->name(), "left", "the storage manager has an entry (%s) of nothing", std::string(c->derived_storage_key()).c_str()); reserved.insert(std::string(c->derived_storage_key())); }
    for (auto& [k, s] : raw->storages) if (!keys.count(k) && !s->deleted) { CHECK(reserved.count(k), "garbage", "storage %s belongs to nothing and is never deleted", vf::hexs(k).c_str()); meta_::IndexDefinition d{}; std::uint64_t v{}; auto e = recovery::validate_extract(s->opts.payload(), d, v); CHECK(!e && d.delete_reserved(), "revenant", "storage %s of a dropped object would be back after a restart", vf::hexs(k).c_str()); }
    vf::state();
}
// ---- statements
static std::shared_ptr<st::index> index_of(std::shared_ptr<st::table const> const& t) { return std::make_shared<st::index>(std::nullopt, t, "X", std::vector<st::index::key>{st::index::key(t->columns()[1])}, std::vector<st::index::column_ref>{}, st::index_feature_set{}); }
static bool done(std::shared_ptr<transaction_context> const& tx, Outcome const& o) { if (o.code == status::ok) { bool c = tx->commit(false) == status::ok; return c; } CHECK(o.error && !o.error->message().empty(), "silent", "an error without message (%d)", (int) o.code); CHECK(tx->commit(false) != status::ok, "commit", "the transaction of the failed statement is committed (%d)", (int) o.code); return false; }
static std::string key_of(std::string const& n) { return global::storage_manager()->get_storage_key(n).value_or(""); }
static tst::details::table_privilege_element element(std::shared_ptr<st::table const> const& t, std::vector<TA> all, std::vector<std::tuple<AK, std::string, std::vector<TA>>> es) {
    yugawara::binding::factory f; auto pv = [](std::vector<TA> const& a) { std::vector<PA> r; for (auto k : a) r.emplace_back(k); return r; }; std::vector<tst::details::table_authorization_entry> e; for (auto& [k, n, a] : es) e.emplace_back(k, n, pv(a)); return {f.storage(t), pv(all), std::move(e)};
}
enum Op { c_t, c_tg, c_u, c_tu, c_x, c_xu, d_x, d_xu, d_t, d_tu, d_u, tr, trr, tru, tr_u, ins, ins_u, g_sel, r_sel, g_pub, r_pub, g_ctl, g_byu, r_all, g_two, maint, open_o, end_o, open_l, end_l, NOPS };
static char const* opname[] = {"create T", "create T without key", "create U with identity", "create T by u", "create X", "create X by u", "drop X", "drop X by u", "drop T", "drop T by u", "drop U", "truncate T", "truncate T restart", "truncate T by u", "truncate U restart", "insert T", "insert U", "grant select to u", "revoke select from u", "grant insert to public", "revoke insert from public", "grant control to u", "grant update to current user by u", "revoke all from *", "grant on T and U", "maintenance", "open a transaction with an insert into T", "end it", "truncate T, not committed", "commit that"};
static bool on_t(Op o) { return o == c_x || o == c_xu || (o >= d_x && o <= d_tu) || (o >= tr && o <= tru) || o == ins || (o >= g_sel && o <= g_two); }
static void pin(std::string const& k, bool t, bool secondary = false) { gone.push_back({k, t && other_ref, secondary}); }
static void insert_plan(Plan& p, std::string const& n, MT const& m) {
    p.st_.reset(); Table t; t.name = n; t.p = std::const_pointer_cast<st::table>(known[n]); Index x{}; x.name = n; x.p = std::const_pointer_cast<st::index>(tables->find_index(n)); if (!x.p) return; t.ix.push_back(x); static int next = 0; ++next;
    std::vector<int> cols; std::vector<E> r; if (m.kind == 2) { cols = {0}; r = {lit(I4, V(next))}; } else { cols = {0, 1}; r = {lit(I4, V(next)), lit(I8, V(next))}; } p.insert_values(rel::write_kind::insert, t, cols, {r});
}
// false: the statement does not apply here
static bool run_op(Op o, bool faulty, bool& failed) {
    failed = false; yugawara::binding::factory f; bool byu = o == c_tu || o == c_xu || o == d_xu || o == d_tu || o == tru || o == g_byu; auto who = byu ? user : admin; auto tn = o == c_u || o == d_u || o == tr_u || o == ins_u ? "U" : "T"; auto mi = tabs.find(tn); bool exists = mi != tabs.end();
    Plan p; Made m{}; bool want = true; Acts ctl{K(auth::action_kind::control)};
    auto may = [&] { if (!byu) return true; if (!exists) return true; return mi->second.users["u"].count(K(auth::action_kind::control)) || mi->second.all.count(K(auth::action_kind::control)); };
    if (o != maint && o != open_o && o != end_o && o != end_l && !(o >= c_t && o <= c_tu)) { if (!known[tn]) return false; }
    if (on_t(o) && locked == "T") want = false;
    switch (o) {
        case c_t: case c_tg: case c_u: case c_tu: {
            int kind = o == c_tg ? 1 : o == c_u ? 2 : 0; std::vector<st::column> cs; cs.emplace_back("K", ty::int4(), yugawara::variable::nullity{false}); cs.emplace_back("V", ty::int8(), yugawara::variable::nullity{kind != 2}, kind == 2 ? st::column_value{std::make_shared<st::sequence>("V")} : st::column_value{});
            takatori::util::reference_vector<st::column> cv; for (auto& c : cs) cv.emplace_back(c); m.t = std::make_shared<st::table>(std::nullopt, std::string(tn), std::move(cv)); m.i = std::make_shared<st::index>(std::nullopt, m.t, std::string(tn), kind == 1 ? std::vector<st::index::key>{} : std::vector<st::index::key>{st::index::key(m.t->columns()[0])}, std::vector<st::index::column_ref>{}, st::index_feature_set{});
            p.st_ = std::make_unique<tst::create_table>(f.schema(nullptr), f.storage(std::shared_ptr<st::table const>(m.t)), f.storage(std::shared_ptr<st::index const>(m.i))); want = !exists && !byu; if (!keyed && raw->storages.count(tn)) want = false; break; }
        case c_x: case c_xu: { m.i = index_of(known["T"]); p.st_ = std::make_unique<tst::create_index>(f.schema(nullptr), f.storage(known["T"]), f.storage(std::shared_ptr<st::index const>(m.i))); want = want && exists && !mi->second.index && mi->second.rows == 0 && may(); if (!keyed && raw->storages.count("X")) want = false; if (other && exists) return false; break; }
        case d_x: case d_xu: if (!known_x) return false; p.st_ = std::make_unique<tst::drop_index>(f.storage(known_x)); want = want && exists && mi->second.index && may(); break;
        case d_t: case d_tu: case d_u: p.st_ = std::make_unique<tst::drop_table>(f.storage(known[tn])); want = want && exists && may(); break;
        case tr: case trr: case tru: case tr_u: case open_l: if (o == open_l && (!exists || other || !locked.empty())) return false; p.st_ = std::make_unique<tst::truncate_table>(f.storage(known[tn]), o == trr || o == tr_u ? tst::truncate_table_option_kind_set{tst::truncate_table_option_kind::restart_identity} : tst::truncate_table_option_kind_set{}); want = want && exists && may(); break;
        case ins: case ins_u: if (!exists) return false; insert_plan(p, tn, mi->second); break;
        case open_o: if (!exists || other || !locked.empty()) return false; insert_plan(p, "T", mi->second); break;
        case g_sel: case g_pub: case g_ctl: case g_byu: case r_sel: case r_pub: case r_all: case g_two: {
            std::vector<tst::details::table_privilege_element> es; auto& t = known["T"]; bool grant = o == g_sel || o == g_pub || o == g_ctl || o == g_byu || o == g_two; using Es = std::vector<std::tuple<AK, std::string, std::vector<TA>>>;
            if (o == g_sel || o == r_sel) es.push_back(element(t, {}, Es{{AK::specified, "u", {TA::select}}})); else if (o == g_pub || o == r_pub) es.push_back(element(t, {TA::insert}, {})); else if (o == g_ctl) es.push_back(element(t, {}, Es{{AK::specified, "u", {TA::control}}})); else if (o == g_byu) es.push_back(element(t, {}, Es{{AK::current_user, "", {TA::update}}})); else if (o == r_all) es.push_back(element(t, {}, Es{{AK::all_users, "", {TA::control}}}));
            else { if (!known["U"]) return false; es.push_back(element(t, {}, Es{{AK::specified, "w", {TA::delete_}}})); es.push_back(element(known["U"], {TA::select}, Es{{AK::specified, "w", {TA::delete_}}})); want = want && tabs.count("U"); }
            want = want && exists && may(); if (grant) p.st_ = std::make_unique<tst::grant_table>(std::move(es)); else p.st_ = std::make_unique<tst::revoke_table>(std::move(es)); break; }
        case maint: {
            storage::maintenance_storage(nullptr); std::vector<Gone> left; for (auto& x : gone) { bool there = raw->storages.count(x.key) != 0; CHECK(there == x.pinned || (there && x.secondary && other_ref), "maintenance", "a dropped storage %s", there ? "is not deleted" : "is deleted while a transaction uses it"); if (there) left.push_back(x); } gone = left; return true; }
        case end_o: { if (!other || !locked.empty()) return false; bool c = other->commit(false) == status::ok; CHECK(c, "commit", "the other transaction is not committed (%d)", 0); if (exists && other_ref) ++mi->second.rows; other.reset(); other_ref = false; for (auto& x : gone) x.pinned = false; return true; }
        case end_l: { if (locked.empty()) return false; bool c = other->commit(false) == status::ok; CHECK(c, "commit", "the truncating transaction is not committed (%d)", 0); other.reset(); locked.clear(); other_ref = false; for (auto& x : gone) x.pinned = false; return true; }
        default: return false;
    }
    if (!p.st_) return false;
    std::string kt = exists ? key_of(tn) : "", kx = exists && mi->second.index ? key_of("X") : "";
    auto tx = sqlbed::begin(); auto r = exec(p, tx, who, m); bool ok = r.code == status::ok;
    if (faulty) { if (!ok) { failed = true; done(tx, r); return true; } } else CHECK(ok == want, ok ? "accepted" : "refused", "%s", ok ? "the statement should fail" : why(r).c_str());
    if (o == open_o || o == open_l) { if (o == open_o) { other = tx; other_ref = true; } } else if (ok && !done(tx, r)) { CHECK(false, "commit", "%s", "the commit fails"); } else if (!ok) done(tx, r);
    if (!ok) return true;
    switch (o) {
        case c_t: case c_tg: case c_u: case c_tu: { MT t; t.kind = o == c_tg ? 1 : o == c_u ? 2 : 0; t.users["a"] = ctl; tabs[tn] = t; known[tn] = tables->find_table(tn); break; }
        case c_x: case c_xu: mi->second.index = true; known_x = tables->find_index("X"); break;
        case d_x: case d_xu: pin(kx, true, true); mi->second.index = false; break;
        case d_t: case d_tu: case d_u: pin(kt, tn[0] == 'T'); if (!kx.empty() && tn[0] == 'T') pin(kx, true, true); if (tn[0] == 'T' && other_ref) other_ref = false; tabs.erase(mi); break;
        case tr: case trr: case tru: case tr_u: case open_l: if (o == open_l) { other = tx; other_ref = true; locked = "T"; } pin(kt, tn[0] == 'T'); if (!kx.empty() && tn[0] == 'T') pin(kx, true, true); mi->second.rows = 0; if (tn[0] == 'T') other_ref = o == open_l; known[tn] = tables->find_table(tn); known_x = tables->find_index("X") ? tables->find_index("X") : known_x; break;
        case ins: case ins_u: ++mi->second.rows; break;
        case g_sel: add(mi->second.users["u"], auth::action_kind::select); break; case r_sel: mi->second.users["u"].erase(K(auth::action_kind::select)); break;
        case g_pub: add(mi->second.all, auth::action_kind::insert); break; case r_pub: mi->second.all.erase(K(auth::action_kind::insert)); break;
        case g_ctl: add(mi->second.users["u"], auth::action_kind::control); break; case g_byu: add(mi->second.users["u"], auth::action_kind::update); break;
        case r_all: { auto a = mi->second.users["a"]; mi->second.users.clear(); mi->second.users["a"] = a; mi->second.all.clear(); break; }
        case g_two: add(mi->second.users["w"], auth::action_kind::delete_); { auto& u = tabs["U"]; add(u.users["w"], auth::action_kind::delete_); add(u.all, auth::action_kind::select); } break;
        default: break;
    }
    return true;
}
static bool play(std::vector<Op> const& h) { open_world(); H = keyed ? "" : "(storages by name) "; for (auto o : h) { H += std::string(H.empty() || H.back() == ' ' ? "" : "; ") + opname[o]; vf::at("%s", H.c_str()); bool f; if (!run_op(o, false, f)) return false; consistent(); } return true; }
int main(int argc, char** argv) {
    vf::init(argc, argv); bool deep = vf::thorough(); std::uint64_t unit = 0;
    std::vector<std::vector<Op>> starts{{}, {c_t, c_x}, {c_tg, ins}, {c_t, g_ctl, c_u}, {c_t, c_x, ins, open_o}, {c_t, c_x, open_l}};
    for (bool k : {true, false}) for (auto& s : starts) {
        keyed = k; std::vector<Op> h; std::function<void(int)> go = [&](int d) { if (d == 0) { vf::trace(); return; } for (int o = 0; o < NOPS; ++o) { if (d == (deep ? 4 : 3) && !vf::mine(unit++)) continue; h.push_back((Op) o); auto all = s; all.insert(all.end(), h.begin(), h.end()); if (!(k == false && (o == tr || o == trr || o == tru || o == tr_u || o == open_l))) if (play(all)) go(d - 1); h.pop_back(); } };
        if (!k && std::find(s.begin(), s.end(), open_l) != s.end()) continue; go(k ? (deep ? 4 : 3) : (deep ? 4 : 3) );
    }
    // one failure of the engine in the last statement: it does nothing, and works the next time
    keyed = true;
    std::vector<std::vector<Op>> hs; for (auto& s : std::vector<std::vector<Op>>{{}, {c_t}, {c_t, c_x}, {c_tg, ins}, {c_tg, c_x}, {c_u}, {c_t, g_sel, c_u}, {c_t, c_x, ins}, {c_t, d_t}, {c_u, d_u}}) for (int o = 0; o < maint; ++o) { auto h = s; h.push_back((Op) o); hs.push_back(h); if (deep) for (int q = 0; q < maint; ++q) { auto h2 = s; h2.push_back((Op) q); h2.push_back((Op) o); hs.push_back(h2); } }
    for (auto& h : hs) if (vf::mine(unit++)) for (int code = 0; code < 2; ++code) for (int n = 0; n < 200; ++n) {
        auto before = h; before.pop_back(); if (!play(before)) break; int at = 0, sets = 0; bool hit = false; std::string what;
        mem::hook = [&](mem::Op o, mem::Tx* t, std::string_view, std::string_view) -> std::optional<SC> {
            std::optional<SC> r; switch (o) { case mem::Op::storage_create: r = SC::ALREADY_EXISTS; break; case mem::Op::storage_set: if (sets++ > 0) return {}; r = SC::ERR_IO_ERROR; break; case mem::Op::scan: case mem::Op::next: case mem::Op::get: case mem::Op::put: case mem::Op::del: case mem::Op::seq_create: case mem::Op::seq_put: case mem::Op::seq_get: r = code ? SC::ERR_ABORTED_RETRYABLE : SC::ERR_IO_ERROR; break; default: return {}; }
            (void) t; if (at++ != n) return {}; hit = true; what = mem::op_name(o); return r; };
        Op o = h.back(); H += std::string("; ") + opname[o] + vf::strf(" (failure %d/%d)", n, code); vf::at("%s", H.c_str()); bool failed; bool app = run_op(o, true, failed); mem::hook = {}; if (!app || !hit) break; H += " at " + what; vf::at("%s", H.c_str());
        if (failed) { // what a failing DROP or TRUNCATE has given up before: the old storages, the sequences
            auto& g = *global::storage_manager(); bool gone = false, seq = false;
            for (auto& [n2, m2] : tabs) { gone = gone || !g.find_by_name(n2) || (m2.index && !g.find_by_name("X"));
                if (auto t2 = tables->find_table(n2)) for (auto& c : t2->columns()) if (c.default_value().kind() == st::column_value_kind::sequence) { auto q = c.default_value().element<st::column_value_kind::sequence>(); seq = seq || !q->definition_id() || !sequences->find_sequence(*q->definition_id()); } }
            bool t = o == tr || o == trr || o == tru || o == tr_u, d = o == d_t || o == d_tu || o == d_u;
            char const* key = t && gone && what == "storage_create" ? "truncate-create" : t && seq && (what == "seq_create" || what == "seq_get" || what == "put") ? "truncate-sequence" : d && seq && what == "storage_set" ? "drop-sequence" : nullptr;
            if (key) { vf::violation(key, H); vf::trace(); continue; } }
        consistent(); bool f2; run_op(maint, false, f2); consistent();
        if (failed) { H += "; again"; run_op(o, false, f2); consistent(); } vf::trace();
    }
    open_world(); vf::bound_note("histories of 30 statements after six starts, and one failure"); return vf::finish();
}
