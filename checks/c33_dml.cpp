// C33: data changing statements do all of what they say, in every index, or nothing
#include "sqlbed.h"
using namespace sqlbed;
static Table T{"T", {{"C0", I4, false}, {"C1", I8, true}, {"C2", VC, true}}, {{"T", {0}, {false}, {1, 2}, true}, {"I1", {1}, {false}, {}, false}, {"I2", {1, 2}, {true, false}, {}, false}, {"I3", {2, 0}, {false, true}, {}, false}}};
static Table U{"U", {{"K0", I4, false}, {"K1", I4, false}, {"V", I8, false, V{5}}, {"W", VC, true, V{"d"}}}, {{"U", {0, 1}, {false, true}, {2, 3}, true}, {"J1", {2}, {true}, {}, false}, {"J2", {3, 1}, {false, false}, {}, false}}};
static Table P{"P", {{"A", I4, false}, {"B", VC, true}}, {{"P", {0}, {true}, {1}, true}}};        // without secondary indexes
static std::vector<Table*> const ts{&T, &U, &P};
using WK = rel::write_kind;
// ---- the model: the effects on the rows; false: the statement is in error
struct Effect { bool fails{}; std::map<counter_kind, std::int64_t> counts{}; };
static bool legal(Table& t, Row const& r) { for (std::size_t i = 0; i < r.size(); ++i) if (!t.cols[i].nullable && r[i].null()) return false; return true; }
static void arrange(Table& t) { auto& x = t.ix[0]; std::sort(t.rows.begin(), t.rows.end(), [&](Row const& a, Row const& b) { for (std::size_t i = 0; i < x.key.size(); ++i) if (int o = order(a[x.key[i]], b[x.key[i]])) return x.desc[i] ? o > 0 : o < 0; return false; }); }
static void ins(Effect& e, WK k, Table& t, Row const& r) {
    if (e.fails) return; if (!legal(t, r)) { e.fails = true; return; } auto* old = t.find(t.key(r)); auto c = k == WK::insert_overwrite ? counter_kind::merged : counter_kind::inserted;
    if (!old) { t.rows.push_back(r); ++e.counts[c]; } else if (k == WK::insert) e.fails = true; else if (k == WK::insert_skip) e.counts[c] += 0; else { *old = r; ++e.counts[c]; }
}
static void upd(Effect& e, Table& t, Row const& key, std::vector<std::pair<int, V>> const& set) {
    if (e.fails) return; auto* old = t.find(key); if (!old) { e.fails = true; return; } Row r = *old; for (auto& [c, v] : set) r[c] = v; if (!legal(t, r)) { e.fails = true; return; }
    if (t.key(r) != key) { if (t.find(t.key(r))) { e.fails = true; return; } } *old = r; ++e.counts[counter_kind::updated];
}
static void del(Effect& e, Table& t, Row const& key) { if (e.fails) return; for (auto i = t.rows.begin(); i != t.rows.end(); ++i) if (t.key(*i) == key) { t.rows.erase(i); ++e.counts[counter_kind::deleted]; return; } e.fails = true; }
// ---- the statements: make the plan and tell the effect
struct Stmt { std::string name; std::function<Effect(Plan&)> make; };
static std::vector<Stmt> stmts;
static char const* name(WK k) { return k == WK::insert ? "insert" : k == WK::insert_skip ? "insert if not exists" : "insert or replace"; }
static void add_values(WK k, Table& t, std::vector<int> cols, Rows rows, bool host = false) {
    std::string n = std::string(name(k)) + " into " + t.name + "("; for (int c : cols) n += std::to_string(c); n += ")" + show(rows) + (host ? " host" : "");
    stmts.push_back({n, [=, &t](Plan& p) { std::vector<std::vector<E>> es; int h = 0; Effect e; for (auto& r : rows) { es.emplace_back(); Row full; for (auto& c : t.cols) full.push_back(c.def); for (std::size_t i = 0; i < r.size(); ++i) { auto ty = t.cols[cols[i]].t; es.back().push_back(host ? p.host("h" + std::to_string(h++), ty, r[i], ty == I8) : lit(ty, r[i])); full[cols[i]] = r[i]; } ins(e, k, t, full); } p.insert_values(k, t, cols, es); return e; }});
}
static void add_select(WK k, Table& t, std::string n, std::function<Stream(Plan&)> f, std::vector<int> cols) {   // the columns of the stream go to these
    stmts.push_back({std::string(name(k)) + " into " + t.name + " from " + n, [=, &t](Plan& p) { auto s = f(p); std::vector<std::pair<int, int>> km, cm; for (std::size_t i = 0; i < cols.size(); ++i) { if (cols[i] < 0) continue; auto& x = t.ix[0].key; (std::find(x.begin(), x.end(), cols[i]) != x.end() ? km : cm).emplace_back((int) i, cols[i]); }
        Effect e; for (auto& r : s.rows) { Row full; for (auto& c : t.cols) full.push_back(c.def); for (std::size_t i = 0; i < cols.size(); ++i) if (cols[i] >= 0) full[cols[i]] = r[i]; ins(e, k, t, full); } p.write(k, s, t, km, cm); return e; }});
}
using Src = std::function<Stream(Plan&)>;
static std::vector<std::pair<int, int>> key_columns(Table& t) { std::vector<std::pair<int, int>> r; for (int c : t.ix[0].key) r.emplace_back(c, c); return r; }   // the stream begins with the columns of the table
static void add_update(Table& t, std::string n, Src f, std::vector<std::pair<int, std::function<E(Plan&, Stream const&)>>> set) {
    stmts.push_back({"update " + t.name + " " + n, [=, &t](Plan& p) { auto s = f(p); std::vector<E> es; for (auto& [c, g] : set) es.push_back(g(p, s)); auto from = (int) s.cols.size(); auto q = p.project(s, es); std::vector<std::pair<int, int>> cm; for (std::size_t i = 0; i < set.size(); ++i) cm.emplace_back(from + (int) i, set[i].first);
        Effect e; for (auto& r : q.rows) { Row k; for (int c : t.ix[0].key) k.push_back(r[c]); std::vector<std::pair<int, V>> v; for (std::size_t i = 0; i < set.size(); ++i) v.emplace_back(set[i].first, r[from + i]); upd(e, t, k, v); } p.write(WK::update, q, t, key_columns(t), cm); return e; }});
}
static void add_delete(Table& t, std::string n, Src f) { stmts.push_back({"delete from " + t.name + " " + n, [=, &t](Plan& p) { auto s = f(p); Effect e; for (auto& r : s.rows) { Row k; for (int c : t.ix[0].key) k.push_back(r[c]); del(e, t, k); } p.write(WK::delete_, s, t, key_columns(t), {}); return e; }}); }
static void make_stmts() {
    auto kinds = {WK::insert, WK::insert_skip, WK::insert_overwrite};
    for (auto k : kinds) {
        for (int c0 : {1, 3}) for (auto& c1 : {N, V{1}, V{7}}) for (auto& c2 : {N, V{"a"}}) add_values(k, T, {0, 1, 2}, {{c0, c1, c2}}, c0 == 1);
        add_values(k, T, {0}, {{2}}); add_values(k, T, {2, 0}, {{"z", 4}}); add_values(k, T, {1, 2}, {{1, "a"}}); add_values(k, T, {0, 1}, {{N, 1}});
        add_values(k, T, {0, 1, 2}, {{3, 1, "a"}, {3, 2, "b"}}); add_values(k, T, {0, 1, 2}, {{4, N, "a"}, {1, -1, ""}, {5, 1, N}}); add_values(k, T, {0, 1, 2}, {{4, 1, "a"}, {N, 2, "b"}});
        add_values(k, U, {0, 1}, {{1, 1}}); add_values(k, U, {1, 0}, {{9, 1}, {9, 2}}); add_values(k, U, {0, 1, 2}, {{1, 2, N}}); add_values(k, U, {0, 1, 3}, {{1, 2, N}}, true); add_values(k, U, {0, 1, 2, 3}, {{1, 1, -3, "a"}, {1, 2, 3, ""}});
        add_values(k, P, {0, 1}, {{1, "x"}, {2, N}}); add_values(k, P, {1}, {{"x"}});
        add_select(k, T, "T+1", [](Plan& p) { auto s = p.take_flat(p.forward({p.scan(T)})); return Plan::pick(p.project(s, {add(s.col(0), lit(I4, 1))}), {3, 1, 2}); }, {0, 1, 2});
        add_select(k, T, "T+10 by I2", [](Plan& p) { auto s = p.scan(T, 2); return Plan::pick(p.project(s, {add(s.col(0), lit(I4, 10)), lit(I8, 4)}), {3, 4}); }, {0, 1});
        add_select(k, U, "T", [](Plan& p) { auto s = p.scan(T); return Plan::pick(p.project(s, {lit(I4, 1)}), {0, 3, 1, 2}); }, {0, 1, 2, 3});
        add_select(k, U, "T without V", [](Plan& p) { auto s = p.scan(T); return Plan::pick(p.project(s, {lit(I4, 1)}), {0, 3}); }, {0, 1});
        add_select(k, T, "group of U", [](Plan& p) { return p.aggregate({p.scan(U)}, {0}, {{"sum", 2}, {"max", 3}}); }, {0, 1, 2});
        add_select(k, P, "values", [](Plan& p) { return p.values({I4, VC}, {{lit(I4, 1), lit(VC, N)}, {lit(I4, 2), p.host("h", VC, "y")}}); }, {0, 1});
    }
    for (std::int64_t z : {0, 1, 2, 7}) {   // 1/(C1-z), 1/(C0-z)
        auto sub = [z](E a, Ty t) { return div(lit(t, 1), add(a, lit(t, -z))); };
        add_select(WK::insert, P, "T with 1/(C0-" + std::to_string(z) + ")", [=](Plan& p) { auto s = p.scan(T); return Plan::pick(p.project(s, {sub(s.col(0), I4)}), {3, 2}); }, {0, 1});
        add_select(WK::insert_overwrite, P, "U with 1/(K1-" + std::to_string(z) + ")", [=](Plan& p) { auto s = p.scan(U); return Plan::pick(p.project(s, {sub(s.col(1), I4)}), {0, 4}); }, {0, -1});
        add_update(T, "set C1=1/(C1-" + std::to_string(z) + ")", [](Plan& p) { return p.scan(T); }, {{1, [=](Plan&, Stream const& s) { return sub(s.col(1), I8); }}});
        add_update(U, "set V=1/(V-" + std::to_string(z + 3) + ") by J1", [](Plan& p) { return p.scan(U, 1); }, {{2, [=](Plan&, Stream const& s) { return div(lit(I8, 1), add(s.col(2), lit(I8, -z - 3))); }}});
        add_delete(T, "where 1/(C0-" + std::to_string(z) + ") <> 99", [=](Plan& p) { auto s = p.scan(T); return p.filter(s, compare(cmp::not_equal, sub(s.col(0), I4), lit(I4, 99))); });
    }
    auto all = [](Table& t, int ix) { return [&t, ix](Plan& p) { return p.scan(t, ix); }; };
    auto where = [](Table& t, int ix, Bound lo, Bound hi) { return [&t, ix, lo, hi](Plan& p) { return p.scan(t, ix, lo, hi); }; };
    auto found = [](Table& t, int ix, std::vector<E> k) { return [&t, ix, k](Plan& p) { return p.find(t, ix, k); }; };
    auto grouped = [](Table& t, int by) { return [&t, by](Plan& p) { auto x = p.group({p.scan(t)}, {by}); return p.flatten(p.take_group(x)); }; };
    auto E1 = EP::prefixed_inclusive;
    std::vector<std::pair<std::string, Src>> st{{"all", all(T, 0)}, {"all by I1", all(T, 1)}, {"where C1=1", where(T, 1, {{lit(I8, 1)}, E1}, {{lit(I8, 1)}, E1})}, {"where C1=1 and C2>=''", where(T, 2, {{lit(I8, 1), lit(VC, "")}, E1}, {{lit(I8, 1)}, E1})}, {"where C0=1", found(T, 0, {lit(I4, 1)})}, {"where C2='a' by I3", where(T, 3, {{lit(VC, "a")}, E1}, {{lit(VC, "a")}, E1})}, {"where C1=2 found", found(T, 1, {lit(I8, 2)})}, {"grouped", grouped(T, 1)},
        {"where exists in U", [](Plan& p) { auto s = p.scan(T); auto r = p.join_scan(rel::join_kind::semi, s, U, 0, {{s.col(0)}, EP::prefixed_inclusive}, {{s.col(0)}, EP::prefixed_inclusive}); return Plan::pick(r, {0, 1, 2}); }}, {"where C2 is null", [](Plan& p) { auto s = p.scan(T); return p.filter(s, isnull(s.col(2))); }}};
    for (auto& [n, f] : st) {
        add_delete(T, n, f);
        add_update(T, "set C1=C1+1 " + n, f, {{1, [](Plan&, Stream const& s) { return add(s.col(1), lit(I8, 1)); }}});
        add_update(T, "set C1=null,C2=C2||'b' " + n, f, {{1, [](Plan&, Stream const&) { return lit(I8, N); }}, {2, [](Plan&, Stream const& s) { return concat(s.col(2), lit(VC, "b")); }}});
        add_update(T, "set C2=:h " + n, f, {{2, [](Plan& p, Stream const&) { return p.host("h", VC, "a"); }}});
        add_update(T, "set C0=C0+10 " + n, f, {{0, [](Plan&, Stream const& s) { return add(s.col(0), lit(I4, 10)); }}});
    }
    add_update(T, "set C0=C0+1 all", all(T, 0), {{0, [](Plan&, Stream const& s) { return add(s.col(0), lit(I4, 1)); }}}); add_update(T, "set C0=C0-1,C1=C0 all", all(T, 0), {{0, [](Plan&, Stream const& s) { return add(s.col(0), lit(I4, -1)); }}, {1, [](Plan&, Stream const&) { return lit(I8, 9); }}});
    add_update(T, "set C0=null all", all(T, 0), {{0, [](Plan&, Stream const&) { return lit(I4, N); }}}); add_update(T, "set C0=C0 all", all(T, 0), {{0, [](Plan&, Stream const& s) { return s.col(0); }}});
    std::vector<std::pair<std::string, Src>> su{{"all", all(U, 0)}, {"where K0=1", where(U, 0, {{lit(I4, 1)}, E1}, {{lit(I4, 1)}, E1})}, {"where V<=5 by J1", where(U, 1, {}, {{lit(I8, 5)}, E1})}, {"grouped", grouped(U, 3)}};
    for (auto& [n, f] : su) {
        add_delete(U, n, f); add_update(U, "set V=null " + n, f, {{2, [](Plan&, Stream const&) { return lit(I8, N); }}}); add_update(U, "set V=V+1,W=null " + n, f, {{2, [](Plan&, Stream const& s) { return add(s.col(2), lit(I8, 1)); }}, {3, [](Plan&, Stream const&) { return lit(VC, N); }}});
        add_update(U, "set K1=K1+5 " + n, f, {{1, [](Plan&, Stream const& s) { return add(s.col(1), lit(I4, 5)); }}}); add_update(U, "set W='w' " + n, f, {{3, [](Plan&, Stream const&) { return lit(VC, "w"); }}});
    }
    add_update(U, "set K1=1 all", all(U, 0), {{1, [](Plan&, Stream const&) { return lit(I4, 1); }}});
    add_delete(P, "all", all(P, 0)); add_update(P, "set B='q' all", all(P, 0), {{1, [](Plan&, Stream const&) { return lit(VC, "q"); }}}); add_update(P, "set A=A-1 all", all(P, 0), {{0, [](Plan&, Stream const& s) { return add(s.col(0), lit(I4, -1)); }}});
}
// ---- the state of the database
using Image = std::vector<std::map<std::string, std::string>>; using Content = std::vector<Rows>;
static Content content() { Content c; for (auto* t : ts) { arrange(*t); c.push_back(t->rows); } return c; }
static void content(Content const& c) { for (std::size_t i = 0; i < ts.size(); ++i) ts[i]->rows = c[i]; }
static std::string show(Content const& c) { std::string s; for (std::size_t i = 0; i < c.size(); ++i) s += (i ? " " : "") + ts[i]->name + show(c[i]); return s; }
static Image image() { Image r; for (auto* t : ts) for (auto& x : t->ix) r.push_back(storage_of(x.name).data); return r; }
static void image(Image const& m) { std::size_t i = 0; for (auto* t : ts) for (auto& x : t->ix) storage_of(x.name).data = m[i++]; }
static void bad(std::string const& key, std::string const& what) { if (std::getenv("C33_ALL")) { std::fprintf(stderr, "BAD %s\n", what.c_str()); return; } vf::violation(key, what); }
// what the storage holds when exactly these rows were inserted
static Image const& canonical(Content const& c) {
    static std::map<Content, Image> memo; if (auto i = memo.find(c); i != memo.end()) return i->second;
    auto keep = content(); auto was = image(); auto h = std::move(mem::hook); mem::hook = {}; clear(); for (std::size_t i = 0; i < ts.size(); ++i) if (!c[i].empty() && !insert(*ts[i], c[i])) bad("insert", "rows cannot be inserted: " + show(c)); auto r = image(); image(was); content(keep); mem::hook = std::move(h); return memo[c] = r;
}
static std::string difference(Image const& a, Image const& b) { std::size_t i = 0; for (auto* t : ts) for (auto& x : t->ix) { if (a[i] != b[i]) return "index " + x.name + " has " + std::to_string(a[i].size()) + " entries, " + std::to_string(b[i].size()) + " are due" + (a[i].size() == b[i].size() ? " and they differ" : ""); ++i; } return {}; }
// every index shows the rows
static std::string look(std::shared_ptr<transaction_context> const& tx) {
    for (auto* t : ts) for (std::size_t i = 0; i < t->ix.size(); ++i) { Plan p; p.emit(p.scan(*t, (int) i)); auto o = run(p, tx); if (o.code != status::ok) return "a scan of " + t->ix[i].name + " fails with " + why(o); if (sorted(o.rows) != sorted(p.expected)) return "a scan of " + t->ix[i].name + " gives " + show(sorted(o.rows)) + " instead of " + show(sorted(p.expected)); }
    return {};
}
// runs a statement; the tables of the model get the effect
static Effect go(Stmt& s, std::shared_ptr<transaction_context> const& tx, Outcome& o) { auto before = content(); Plan p; eval_error = false; auto e = s.make(p); if (eval_error) e.fails = true; o = run(p, tx); if (e.fails) content(before); for (auto* t : ts) arrange(*t); return e; }
static std::string outcome(Effect const& e, Outcome const& o) {
    if (o.answers != 1) return "answered " + std::to_string(o.answers) + " times"; if (e.fails) return o.code == status::ok ? "is accepted" : "";
    if (o.code != status::ok) return "fails with " + why(o); for (auto k : {counter_kind::inserted, counter_kind::updated, counter_kind::merged, counter_kind::deleted}) { auto a = e.counts.find(k), b = e.counts.end(); auto got = o.counts.find(k); std::int64_t want = a == b ? 0 : a->second, have = got == o.counts.end() ? 0 : got->second; if (want != have) return "counts " + std::to_string(have) + " rows instead of " + std::to_string(want); } return {};
}
static std::uint64_t unit{};
static void history(Content const& c, std::vector<int> const& seq, bool commits, std::string const& setup) {
    std::string n; for (int i : seq) n += (n.empty() ? "" : "; ") + stmts[i].name; n += std::string(commits ? "; commit" : "; abort") + " over " + show(c) + ", " + setup; vf::at("%s", n.c_str()); vf::state();
    auto& start = canonical(c); content(c); image(start); auto tx = begin(); bool failed = false;
    for (int i : seq) { vf::step(); Outcome o; auto e = go(stmts[i], tx, o); if (auto w = outcome(e, o); !w.empty()) { bad(stmts[i].name, n + ": " + stmts[i].name + " " + w); return; } if (image() != start) { bad("early", n + ": the database is changed before the commit"); return; } if (e.fails) { failed = true; break; } }
    if (failed) { content(c); if (commit(tx)) { bad("aborted", n + ": the transaction can be committed after the error"); return; } }
    else { if (auto w = look(tx); !w.empty()) { bad("own", n + ": in the transaction, " + w); return; } if (commits) { if (!commit(tx)) { bad("commit", n + ": cannot be committed"); return; } } else { tx->object()->abort_transaction(); content(c); } }
    auto after = content(); if (auto w = difference(image(), canonical(after)); !w.empty()) bad("image", n + ": " + w + " for " + show(after));
}
// the rows in the storage, whatever they are, with a consistent set of indexes
static std::string consistent() { Content c; for (auto* t : ts) { Plan p; auto rows = t->rows; t->rows.clear(); p.emit(p.scan(*t)); t->rows = rows; auto tx = begin(); auto o = run(p, tx); if (o.code != status::ok) return "a scan fails"; c.push_back(o.rows); auto keep = t->rows; t->rows = o.rows; arrange(*t); c.back() = t->rows; t->rows = keep; } return difference(image(), canonical(c)); }
static char const* reads(mem::Op o) { switch (o) { case mem::Op::get: case mem::Op::exist: case mem::Op::scan: case mem::Op::next: case mem::Op::key: case mem::Op::value: case mem::Op::put: case mem::Op::del: return mem::op_name(o); default: return nullptr; } }
static void faults(Content const& c, int s, std::string const& setup) {
    auto& start = canonical(c); std::size_t n = 0; content(c); image(start);
    auto counting = [&](mem::Op o, mem::Tx*, std::string_view, std::string_view) -> std::optional<sharksfin::StatusCode> { if (reads(o)) ++n; return {}; };
    { auto tx = begin(); Outcome o; mem::hook = counting; go(stmts[s], tx, o); mem::hook = {}; tx->object()->abort_transaction(); }
    auto total = n; using SC = sharksfin::StatusCode;
    for (std::size_t at = 0; at < total; ++at) for (auto code : {SC::ERR_ABORTED_RETRYABLE, SC::ERR_UNKNOWN, SC::CONCURRENT_OPERATION, SC::ERR_CONFLICT_ON_WRITE_PRESERVE}) {
        content(c); image(start); n = 0; std::string where; bool hit = false; mem::Op what{}; auto tx = begin(); vf::step(); vf::state();
        mem::hook = [&](mem::Op o, mem::Tx*, std::string_view st, std::string_view) -> std::optional<SC> { if (!reads(o)) return {}; if (n++ != at) return {}; hit = true; what = o; where = std::string(mem::op_name(o)) + " of " + std::string(st); if (code == SC::CONCURRENT_OPERATION && o != mem::Op::key && o != mem::Op::value) { hit = false; return {}; } return code; };
        std::string w = stmts[s].name + " over " + show(c) + ", " + setup + ", operation " + std::to_string(at) + " fails with " + std::to_string((int) code); vf::at("%s", w.c_str()); Outcome o; auto e = go(stmts[s], tx, o); mem::hook = {}; w += " (" + where + ")";
        if (o.answers != 1) { bad("fault-answer", w + ": answered " + std::to_string(o.answers) + " times"); continue; }
        if (image() != start) { bad("early", w + ": the database is changed before the commit"); continue; }
        bool done = commit(tx);
        if (o.code != status::ok) { if (done) bad("fault-commit", w + ": the transaction can be committed after the error " + why(o)); if (image() != start) bad("fault-image", w + ": the error " + why(o) + " leaves changes"); continue; }
        if (!hit) continue; if (!done) { bad("fault-ok", w + ": answered with success, but the transaction cannot be committed"); continue; }
        // a row that another transaction is just inserting may be passed over; nothing else may be
        if (code != SC::CONCURRENT_OPERATION || what == mem::Op::put || what == mem::Op::del) { bad("fault-ignored", w + ": answered with success"); continue; }
        if (auto d = consistent(); !d.empty()) bad("fault-index", w + ": " + d); (void) e;
    }
}
int main(int argc, char** argv) {
    vf::init(argc, argv); open_(ts); cfg->enable_join_scan(true); cfg->enable_index_join(true); make_stmts(); bool deep = vf::thorough();
    std::vector<Content> cs; std::vector<V> c1{N, 1, 2}, c2{N, "", "a"};
    for (int rows = 0; rows <= 2; ++rows) { int total = rows == 0 ? 1 : rows == 1 ? 9 : 81; for (int x = 0; x < total; ++x) { if (rows == 2 && !deep && x % 4 != 1) continue; Content c(3); int y = x; for (int i = 0; i < rows; ++i) { c[0].push_back({i + 1, c1[y % 3], c2[y / 3 % 3]}); y /= 9; }
        for (int i = 0; i < 4; ++i) if ((x + rows) >> i & 1) c[1].push_back({i / 2 + 1, 2 - i % 2, 4 + (x + i) % 3, c2[(x + i) % 3]}); for (int i = 2; i > 0; --i) if ((x + rows) % 3 >= i) c[2].push_back({i, x % 2 ? N : V{"p"}}); cs.push_back(c); } }
    struct Setup { std::string n; int parts, block; bool try_; }; std::vector<Setup> us{{"one partition", 1, 100, false}, {"three partitions, yields at each row", 3, 1, true}};
    int n = (int) stmts.size();
    for (auto& u : us) {
        cfg->default_partitions(u.parts); cfg->scan_block_size(u.block); cfg->scan_yield_interval(0); cfg->try_insert_on_upserting_secondary(u.try_);
        for (auto& c : cs) for (int a = 0; a < n; ++a) if (vf::mine(unit++)) { history(c, {a}, true, u.n); if (!u.try_) history(c, {a}, false, u.n); }
        for (std::size_t i = 5; i < cs.size(); i += deep ? 5 : 11) for (int a = 0; a < n; ++a) if (vf::mine(unit++)) for (int b = 0; b < n; ++b) if (deep || (a + b) % 2 == (u.try_ ? 0 : 1)) history(cs[i], {a, b}, (a + b) % 5 != 0, u.n);
        for (std::size_t i = 3; i < cs.size(); i += deep ? 3 : 8) for (int a = 0; a < n; ++a) if (vf::mine(unit++)) faults(cs[i], a, u.n);
    }
    vf::bound_note(std::to_string(n) + " statements over " + std::to_string(cs.size()) + " contents, pairs of statements in a transaction, failures of each storage operation");
    return vf::finish();
}
