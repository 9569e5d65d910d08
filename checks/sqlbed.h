// Whole statements with a reference: a builder that makes the plan of a statement and at the same time the rows it stands for.
#pragma once
#include "dbstub.h"
namespace sqlbed {
namespace rel = takatori::relation; namespace sc = takatori::scalar; namespace ty = takatori::type; namespace va = takatori::value; namespace pl = takatori::plan; namespace st = yugawara::storage; namespace tst = takatori::statement; namespace tdesc = takatori::descriptor;
using tp = std::shared_ptr<takatori::type::data const>;
enum Ty { I4, I8, VC, BO };
inline tp type_of(Ty t) { static tp v[] = {std::make_shared<ty::int4>(), std::make_shared<ty::int8>(), std::make_shared<ty::character>(ty::varying, 20), std::make_shared<ty::boolean>()}; return v[t]; }
inline tp host_type_of(Ty t) { static tp v = std::make_shared<ty::character>(ty::varying); return t == VC ? v : type_of(t); }
// a value of the reference: NULL, a number (also: boolean), or text
struct V { int k{}; std::int64_t i{}; std::string s{}; V() = default; V(std::int64_t x) : k(1), i(x) {} V(int x) : k(1), i(x) {} V(char const* x) : k(2), s(x) {} V(std::string x) : k(2), s(std::move(x)) {}
    bool null() const { return k == 0; } bool yes() const { return k == 1 && i; }
    friend bool operator==(V const& a, V const& b) { return a.k == b.k && a.i == b.i && a.s == b.s; } friend bool operator!=(V const& a, V const& b) { return !(a == b); }
    friend bool operator<(V const& a, V const& b) { return std::tie(a.k, a.i, a.s) < std::tie(b.k, b.i, b.s); } };
inline V const N{};
using Row = std::vector<V>; using Rows = std::vector<Row>;
inline std::string show(V const& v) { return v.null() ? "null" : v.k == 1 ? std::to_string(v.i) : "'" + v.s + "'"; }
inline std::string show(Row const& r) { std::string s = "("; for (auto& v : r) s += (s.size() > 1 ? "," : "") + show(v); return s + ")"; }
inline std::string show(Rows const& r) { std::string s; for (std::size_t i = 0; i < r.size() && i < 12; ++i) s += show(r[i]); return s.empty() ? "(none)" : s + (r.size() > 12 ? ".." : ""); }
inline Rows sorted(Rows r) { std::sort(r.begin(), r.end()); return r; }
// ---- expressions
struct E { Ty t; sc::sp e; std::function<V(Row const&)> f; std::string s; };
inline sc::sp typed(sc::sp e, Ty t) { e->ty = type_of(t); return e; }
inline E lit(Ty t, V v) {
    std::shared_ptr<va::data const> d; if (v.null()) d = std::make_shared<va::unknown>(); else if (t == I4) d = std::make_shared<va::int4>((std::int32_t) v.i); else if (t == I8) d = std::make_shared<va::int8>(v.i); else if (t == BO) d = std::make_shared<va::boolean>(v.i != 0); else d = std::make_shared<va::character>(v.s);
    return {t, std::make_shared<sc::immediate>(d, type_of(t)), [v](Row const&) { return v; }, show(v)};
}
using cmp = sc::comparison_operator;
inline V compare(cmp o, V const& a, V const& b) {
    if (o == cmp::is_not_distinct_from) return V{int(a == b)};
    if (o == cmp::is_distinct_from) return V{int(a != b)};
    if (a.null() || b.null()) return N;
    switch (o) { case cmp::equal: return V{int(a == b)}; case cmp::not_equal: return V{int(a != b)}; case cmp::less: return V{int(a < b)}; case cmp::less_equal: return V{int(!(b < a))}; case cmp::greater: return V{int(b < a)}; default: return V{int(!(a < b))}; }
}
inline E compare(cmp o, E a, E b) { return {BO, typed(std::make_shared<sc::compare>(o, a.e, b.e), BO), [=](Row const& r) { return compare(o, a.f(r), b.f(r)); }, "(" + a.s + " " + std::string(sc::to_string_view(o)) + " " + b.s + ")"}; }
inline E eq(E a, E b) { return compare(cmp::equal, std::move(a), std::move(b)); }
inline E both(E a, E b) { return {BO, typed(std::make_shared<sc::binary>(sc::binary_operator::conditional_and, a.e, b.e), BO), [=](Row const& r) { V x = a.f(r), y = b.f(r); if ((!x.null() && !x.i) || (!y.null() && !y.i)) return V{0}; return x.null() || y.null() ? N : V{1}; }, "(" + a.s + " and " + b.s + ")"}; }
inline E isnull(E a) { return {BO, typed(std::make_shared<sc::unary>(sc::unary_operator::is_null, a.e), BO), [=](Row const& r) { return V{int(a.f(r).null())}; }, a.s + " is null"}; }
inline E add(E a, E b) { return {a.t, typed(std::make_shared<sc::binary>(sc::binary_operator::add, a.e, b.e), a.t), [=](Row const& r) { V x = a.f(r), y = b.f(r); return x.null() || y.null() ? N : V{x.i + y.i}; }, a.s + "+" + b.s}; }
// division by zero is an error
inline bool eval_error{};
inline E div(E a, E b) { return {a.t, typed(std::make_shared<sc::binary>(sc::binary_operator::divide, a.e, b.e), a.t), [=](Row const& r) { V x = a.f(r), y = b.f(r); if (x.null() || y.null()) return N; if (y.i == 0) { eval_error = true; return N; } return V{x.i / y.i}; }, a.s + "/" + b.s}; }
inline E concat(E a, E b) { return {VC, typed(std::make_shared<sc::binary>(sc::binary_operator::concat, a.e, b.e), VC), [=](Row const& r) { V x = a.f(r), y = b.f(r); return x.null() || y.null() ? N : V{x.s + y.s}; }, a.s + "||" + b.s}; }
// ---- tables
struct Index { std::string name; std::vector<int> key; std::vector<bool> desc; std::vector<int> value; bool primary; std::shared_ptr<st::index> p{}; };
struct Col { std::string name; Ty t; bool nullable; V def{}; };
struct Table { std::string name; std::vector<Col> cols; std::vector<Index> ix; Rows rows{}; std::shared_ptr<st::table> p{};
    Row key(Row const& r) const { Row k; for (int c : ix[0].key) k.push_back(r[c]); return k; }
    Row* find(Row const& k) { for (auto& r : rows) if (key(r) == k) return &r; return nullptr; } };
inline mem::Db* raw{}; inline std::shared_ptr<configuration> cfg{}; inline std::unique_ptr<api::impl::database> db{}; inline std::vector<Table*> all{};
inline mem::Storage& storage_of(std::string const& n) { return *raw->storages.at(n); }
inline void open_(std::vector<Table*> ts) {
    static bool once = false;
    if (!once) { once = true; cfg = std::make_shared<configuration>(); cfg->single_thread(true); global::config_pool(cfg); aggregates = std::make_shared<yugawara::aggregate::configurable_provider>(); functions = std::make_shared<yugawara::function::configurable_provider>();
        executor::function::incremental::add_builtin_aggregate_functions(*aggregates, global::incremental_aggregate_function_repository()); executor::function::add_builtin_aggregate_functions(*aggregates, global::aggregate_function_repository()); }
    raw = new mem::Db; kvs = std::make_shared<kvs::database>(raw); global::db(kvs); tables = std::make_shared<st::configurable_provider>(); global::storage_manager(std::make_unique<storage::storage_manager>());
    std::size_t id = 100; all = ts;
    for (auto* t : ts) {
        std::vector<st::column> cs; for (auto& c : t->cols) { std::shared_ptr<va::data const> d; if (!c.def.null()) { if (c.t == VC) d = std::make_shared<va::character>(c.def.s); else if (c.t == I4) d = std::make_shared<va::int4>((std::int32_t) c.def.i); else d = std::make_shared<va::int8>(c.def.i); } cs.emplace_back(c.name, type_of(c.t), yugawara::variable::nullity{c.nullable}, d ? st::column_value{d} : st::column_value{}); }
        takatori::util::reference_vector<st::column> cv; for (auto& c : cs) cv.emplace_back(c);
        t->p = tables->add_table(std::make_shared<st::table>(std::nullopt, t->name, std::move(cv)));
        auto primary = id; bool first = true;
        for (auto& x : t->ix) {
            std::vector<st::index::key> ks; for (std::size_t i = 0; i < x.key.size(); ++i) ks.emplace_back(t->p->columns()[x.key[i]], x.desc[i] ? takatori::relation::sort_direction::descendant : takatori::relation::sort_direction::ascendant);
            std::vector<st::index::column_ref> vs_; for (int i : x.value) vs_.emplace_back(t->p->columns()[i]);
            st::index_feature_set f{st::index_feature::find, st::index_feature::scan}; if (x.primary) { f.insert(st::index_feature::primary); f.insert(st::index_feature::unique); }
            x.p = tables->add_index(std::make_shared<st::index>(std::nullopt, t->p, x.name, std::move(ks), std::move(vs_), f));
            auto s = std::make_shared<mem::Storage>(); s->name = x.name; raw->storages[x.name] = s;
            global::storage_manager()->add_entry(id++, x.name, x.name, first, first ? std::optional<storage::storage_entry>{} : std::optional<storage::storage_entry>{primary}); first = false;
        }
    }
    db = std::make_unique<api::impl::database>(cfg); db->task_scheduler()->start();
}
inline void clear() { for (auto* t : all) { t->rows.clear(); for (auto& x : t->ix) storage_of(x.name).data.clear(); } }
// ---- plans
struct C { tdesc::variable v; Ty t; };
struct Stream { pl::process* p{}; rel::expression::output_port_type* out{}; std::vector<C> cols{}; Rows rows{};
    E col(int i) const { return {cols[i].t, std::make_shared<sc::variable_reference>(cols[i].v), [i](Row const& r) { return r[i]; }, "$" + std::to_string(i)}; } };
struct Groups { pl::process* p{}; rel::expression::output_port_type* out{}; std::vector<C> cols{}; std::vector<Rows> g{}; };
struct Cogroups { pl::process* p{}; rel::expression::output_port_type* out{}; std::vector<std::vector<C>> cols{}; std::vector<std::vector<Rows>> g{}; };
struct Exchange { pl::exchange* x{}; std::vector<C> cols{}; Rows rows{}; std::vector<int> keys{}; std::vector<std::pair<int, bool>> sort{}; std::optional<std::size_t> limit{}; };
using EP = rel::endpoint_kind;
struct Bound { std::vector<E> k{}; EP kind{EP::unbound}; };
inline int order(V const& a, V const& b) { return a < b ? -1 : b < a ? 1 : 0; }
// whether the row is within a bound (null key values select nothing; the caller has dealt with them)
struct Plan {
    std::unique_ptr<tst::statement> st_{}; tst::execute* ex{}; yugawara::compiled_info info{}; yugawara::binding::factory f{}; std::shared_ptr<yugawara::variable::configurable_provider> hosts{}; api::impl::parameter_set params{}; int n{};
    bool fails{};      // the statement is expected to fail
    Plan() { auto e = std::make_unique<tst::execute>(); ex = e.get(); st_ = std::move(e); }
    tdesc::variable var(Ty t) { auto v = f.stream_variable("v" + std::to_string(n++)); info.set(v, type_of(t)); return v; }
    tdesc::variable xvar(Ty t) { auto v = f.exchange_column("x" + std::to_string(n++)); info.set(v, type_of(t)); return v; }
    E host(std::string name, Ty t, V v, bool declared_wide = false) {
        if (!hosts) hosts = std::make_shared<yugawara::variable::configurable_provider>();
        std::shared_ptr<yugawara::variable::declaration const> d = hosts->add(std::make_shared<yugawara::variable::declaration>(name, host_type_of(t))); auto x = f.external_variable(d); info.set(x, host_type_of(t), yugawara::analyzer::variable_resolution_kind::external);
        if (v.null()) params.set_null(name); else if (t == I4 || declared_wide) params.set_int4(name, (std::int32_t) v.i); else if (t == I8) params.set_int8(name, v.i); else params.set_character(name, v.s);
        return {t, std::make_shared<sc::variable_reference>(x), [v](Row const&) { return v; }, ":" + name + "=" + show(v)};
    }
    pl::process* process() { return &ex->execution_plan().insert(std::make_unique<pl::process>()); }
    template <class O, class... A> O& op(pl::process* p, A&&... a) { return p->operators().insert(std::make_unique<O>(std::forward<A>(a)...)); }
    std::vector<rel::details::mapping_element> source_columns(Table& t, std::vector<C>& out) { std::vector<rel::details::mapping_element> m; for (std::size_t i = 0; i < t.cols.size(); ++i) { auto v = var(t.cols[i].t); m.emplace_back(f(t.p->columns()[i]), v); out.push_back({v, t.cols[i].t}); } return m; }
    std::vector<rel::details::search_key_element> keys(Table& t, Index& x, std::vector<E> const& k) { std::vector<rel::details::search_key_element> r; for (std::size_t i = 0; i < k.size(); ++i) r.emplace_back(f(t.p->columns()[x.key[i]]), k[i].e); return r; }
    static bool match(Index const& x, Row const& r, std::vector<E> const& k, Row const& left) { for (std::size_t i = 0; i < k.size(); ++i) { V v = k[i].f(left); if (v.null() || v != r[x.key[i]]) return false; } return true; }
    // lower / upper: in the logical order of the values
    static bool within(Table const& t, Index const& x, Row const& r, Bound const& lo, Bound const& hi, Row const& left) {
        std::size_t nl = lo.k.size(), nh = hi.k.size(), n = std::max(nl, nh);
        for (auto* b : {&lo, &hi}) for (auto& e : b->k) if (e.f(left).null()) return false;
        if (n == 0) return true;
        bool ranged = nl != nh || lo.kind == EP::prefixed_exclusive || hi.kind == EP::prefixed_exclusive || lo.kind == EP::exclusive || hi.kind == EP::exclusive || [&] { for (std::size_t i = 0; i < n; ++i) if (!(lo.k[i].f(left) == hi.k[i].f(left))) return true; return false; }();
        if (ranged && nl != nh) { if (r[x.key[n - 1]].null()) return false; }
        for (std::size_t i = 0; i < nl; ++i) { V v = lo.k[i].f(left); V const& c = r[x.key[i]]; if (c.null()) return false; int o = order(c, v); if (o < 0) return false; if (o > 0) { if (i + 1 < nl) return false; break; } if (i + 1 == nl && (lo.kind == EP::prefixed_exclusive || lo.kind == EP::exclusive)) return false; }
        for (std::size_t i = 0; i < nh; ++i) { V v = hi.k[i].f(left); V const& c = r[x.key[i]]; if (c.null()) return false; int o = order(c, v); if (o > 0) return false; if (o < 0) { if (i + 1 < nh) return false; break; } if (i + 1 == nh && (hi.kind == EP::prefixed_exclusive || hi.kind == EP::exclusive)) return false; }
        (void) t; return true;
    }
    rel::details::range_endpoint bound(Table& t, Index& x, Bound const& b) { return {keys(t, x, b.k), b.kind}; }
    // ---- sources
    Stream scan(Table& t, int ix = 0, Bound lo = {}, Bound hi = {}, std::optional<std::size_t> limit = {}) {
        Stream s; s.p = process(); auto m = source_columns(t, s.cols); auto& o = op<rel::scan>(s.p, f(*t.ix[ix].p), m, bound(t, t.ix[ix], lo), bound(t, t.ix[ix], hi), limit); s.out = &o.output();
        for (auto& r : t.rows) if (within(t, t.ix[ix], r, lo, hi, {})) s.rows.push_back(r);
        return s;
    }
    Stream find(Table& t, int ix, std::vector<E> k) { Stream s; s.p = process(); auto m = source_columns(t, s.cols); auto& o = op<rel::find>(s.p, f(*t.ix[ix].p), m, keys(t, t.ix[ix], k)); s.out = &o.output(); for (auto& r : t.rows) if (match(t.ix[ix], r, k, {})) s.rows.push_back(r); return s; }
    Stream values(std::vector<Ty> ts, std::vector<std::vector<E>> const& rows) {
        Stream s; s.p = process(); std::vector<tdesc::variable> vs_; for (auto t : ts) { auto v = var(t); vs_.push_back(v); s.cols.push_back({v, t}); } std::vector<rel::values::row> rs;
        for (auto& r : rows) { std::vector<sc::sp> es; Row w; for (auto& e : r) { es.push_back(e.e); w.push_back(e.f({})); } rs.emplace_back(es); s.rows.push_back(w); }
        auto& o = op<rel::values>(s.p, vs_, std::move(rs)); s.out = &o.output(); return s;
    }
    // ---- on streams
    Stream filter(Stream s, E c) { auto& o = op<rel::filter>(s.p, c.e); *s.out >> o.input(); s.out = &o.output(); Rows r; for (auto& x : s.rows) if (c.f(x).yes()) r.push_back(x); s.rows = r; return s; }
    Stream project(Stream s, std::vector<E> es) { std::vector<rel::details::search_key_element> cs; for (auto& e : es) { auto v = var(e.t); cs.emplace_back(v, e.e); s.cols.push_back({v, e.t}); } auto& o = op<rel::project>(s.p, std::move(cs)); *s.out >> o.input(); s.out = &o.output(); for (auto& r : s.rows) { Row old = r; for (auto& e : es) r.push_back(e.f(old)); } return s; }
    // the columns of a stream, in another order or fewer
    static Stream pick(Stream s, std::vector<int> c) { std::vector<C> cs; for (int i : c) cs.push_back(s.cols[i]); s.cols = cs; for (auto& r : s.rows) { Row w; for (int i : c) w.push_back(r[i]); r = w; } return s; }
    std::vector<Stream> buffer(Stream s, std::size_t k) { auto& o = op<rel::buffer>(s.p, k); *s.out >> o.input(); std::vector<Stream> r; for (std::size_t i = 0; i < k; ++i) { auto x = s; x.out = &o.output_ports()[i]; r.push_back(x); } return r; }
    using JK = rel::join_kind;
    // joins rows of the left with the candidates on the right (those that match the key)
    void join_rows(JK k, Stream& s, std::size_t width, std::function<Rows(Row const&)> const& cand, std::optional<E> const& c) {
        Rows out;
        for (auto& l : s.rows) {
            Rows hit; for (auto& r : cand(l)) { Row x = l; x.insert(x.end(), r.begin(), r.end()); if (!c || c->f(x).yes()) hit.push_back(x); }
            Row bare = l; bare.resize(l.size() + width);
            switch (k) { case JK::inner: out.insert(out.end(), hit.begin(), hit.end()); break; case JK::left_outer: if (hit.empty()) out.push_back(bare); else out.insert(out.end(), hit.begin(), hit.end()); break;
                case JK::left_outer_at_most_one: if (hit.size() > 1) fails = true; out.push_back(hit.empty() ? bare : hit[0]); break; case JK::semi: if (!hit.empty()) out.push_back(bare); break; case JK::anti: if (hit.empty()) out.push_back(bare); break; default: std::abort(); }
        }
        s.rows = out;
    }
    using Cond = std::function<E(Stream const&)>;
    Stream join_find(JK k, Stream s, Table& t, int ix, std::vector<E> ke, Cond cond = {}) {
        auto m = source_columns(t, s.cols); std::optional<E> c; if (cond) c = cond(s);
        auto& o = op<rel::join_find>(s.p, k, f(*t.ix[ix].p), m, keys(t, t.ix[ix], ke), c ? c->e : sc::sp{}); *s.out >> o.left(); s.out = &o.output();
        join_rows(k, s, t.cols.size(), [&](Row const& l) { Rows r; for (auto& x : t.rows) if (match(t.ix[ix], x, ke, l)) r.push_back(x); return r; }, c); return s;
    }
    Stream join_scan(JK k, Stream s, Table& t, int ix, Bound lo, Bound hi, Cond cond = {}) {
        auto m = source_columns(t, s.cols); std::optional<E> c; if (cond) c = cond(s);
        auto& o = op<rel::join_scan>(s.p, k, f(*t.ix[ix].p), m, bound(t, t.ix[ix], lo), bound(t, t.ix[ix], hi), c ? c->e : sc::sp{}); *s.out >> o.left(); s.out = &o.output();
        join_rows(k, s, t.cols.size(), [&](Row const& l) { Rows r; for (auto& x : t.rows) if (within(t, t.ix[ix], x, lo, hi, l)) r.push_back(x); return r; }, c); return s;
    }
    // ---- exchanges
    std::vector<rel::details::mapping_element> offer_columns(Stream const& s, std::vector<C> const& x) { std::vector<rel::details::mapping_element> m; for (std::size_t i = 0; i < x.size(); ++i) m.emplace_back(s.cols[i].v, x[i].v); return m; }
    void offer(std::vector<Stream> const& ss, Exchange& x, std::vector<C> const& cols) {
        std::vector<pl::process*> seen;
        for (auto& s : ss) { auto& o = op<rel::step::offer>(s.p, f(*x.x), offer_columns(s, cols)); *s.out >> o.input(); if (std::find(seen.begin(), seen.end(), s.p) == seen.end()) { pl::connect(*s.p, *x.x); seen.push_back(s.p); } x.rows.insert(x.rows.end(), s.rows.begin(), s.rows.end()); }
    }
    std::vector<C> exchange_columns(Stream const& s) { std::vector<C> r; for (auto& c : s.cols) r.push_back({xvar(c.t), c.t}); return r; }
    static std::vector<tdesc::variable> vars(std::vector<C> const& c) { std::vector<tdesc::variable> r; for (auto& x : c) r.push_back(x.v); return r; }
    Exchange forward(std::vector<Stream> ss, std::optional<std::size_t> limit = {}) { Exchange x; x.cols = exchange_columns(ss[0]); x.limit = limit; x.x = &ex->execution_plan().insert(std::make_unique<pl::forward>(vars(x.cols), limit)); offer(ss, x, x.cols); return x; }
    Exchange group(std::vector<Stream> ss, std::vector<int> keys, std::vector<std::pair<int, bool>> sort = {}, std::optional<std::size_t> limit = {}) {
        Exchange x; x.cols = exchange_columns(ss[0]); x.keys = keys; x.sort = sort; x.limit = limit; std::vector<tdesc::variable> k; for (int i : keys) k.push_back(x.cols[i].v); std::vector<rel::details::sort_key_element> so; for (auto& [i, d] : sort) so.emplace_back(x.cols[i].v, d ? rel::sort_direction::descendant : rel::sort_direction::ascendant);
        x.x = &ex->execution_plan().insert(std::make_unique<pl::group>(vars(x.cols), k, so, limit)); offer(ss, x, x.cols); return x;
    }
    std::vector<rel::details::mapping_element> take_columns(Exchange const& x, std::vector<C>& out) { std::vector<rel::details::mapping_element> m; for (auto& c : x.cols) { auto v = var(c.t); m.emplace_back(c.v, v); out.push_back({v, c.t}); } return m; }
    Stream take_flat(Exchange const& x) { Stream s; s.p = process(); pl::connect(*x.x, *s.p); auto m = take_columns(x, s.cols); s.out = &op<rel::step::take_flat>(s.p, f(*x.x), m).output(); s.rows = x.rows; return s; }
    static std::vector<Rows> grouped(Exchange const& x) {
        std::map<Row, Rows> m; for (auto& r : x.rows) { Row k; for (int i : x.keys) k.push_back(r[i]); m[k].push_back(r); } std::vector<Rows> g;
        for (auto& [k, rs] : m) { auto v = rs; std::stable_sort(v.begin(), v.end(), [&](Row const& a, Row const& b) { for (auto& [i, d] : x.sort) if (int o = order(a[i], b[i])) return d ? o > 0 : o < 0; return false; }); if (x.limit && v.size() > *x.limit) v.resize(*x.limit); if (!v.empty()) g.push_back(v); }
        return g;
    }
    Groups take_group(Exchange const& x) { Groups s; s.p = process(); pl::connect(*x.x, *s.p); auto m = take_columns(x, s.cols); s.out = &op<rel::step::take_group>(s.p, f(*x.x), m).output(); s.g = grouped(x); return s; }
    Cogroups take_cogroup(std::vector<Exchange> xs) {
        Cogroups s; s.p = process(); std::vector<rel::details::cogroup_element> gs; std::map<Row, std::vector<Rows>> m;
        for (std::size_t i = 0; i < xs.size(); ++i) { auto& x = xs[i]; pl::connect(*x.x, *s.p); std::vector<C> cs; auto mm = take_columns(x, cs); gs.emplace_back(f(*x.x), mm); s.cols.push_back(cs); for (auto& g : grouped(x)) { Row k; for (int j : x.keys) k.push_back(g[0][j]); auto& e = m[k]; e.resize(xs.size()); e[i] = g; } }
        s.out = &op<rel::step::take_cogroup>(s.p, std::move(gs)).output(); for (auto& [k, v] : m) s.g.push_back(v); return s;
    }
    Stream flatten(Groups g) { auto& o = op<rel::step::flatten>(g.p); *g.out >> o.input(); Stream s; s.p = g.p; s.out = &o.output(); s.cols = g.cols; for (auto& x : g.g) s.rows.insert(s.rows.end(), x.begin(), x.end()); return s; }
    Stream join(JK k, Cogroups g, Cond cond = {}) {
        Stream s; s.p = g.p; for (auto& c : g.cols) s.cols.insert(s.cols.end(), c.begin(), c.end()); std::optional<E> c; if (cond) c = cond(s);
        auto& o = op<rel::step::join>(g.p, k, c ? c->e : sc::sp{}); *g.out >> o.input(); s.out = &o.output(); std::size_t w = 0; for (auto& x : g.cols) w += x.size();
        for (auto& grp : g.g) {
            if (k == JK::full_outer) {
                std::vector<bool> used(grp[1].size());
                for (auto& l : grp[0]) { bool any = false; for (std::size_t j = 0; j < grp[1].size(); ++j) { Row x = l; x.insert(x.end(), grp[1][j].begin(), grp[1][j].end()); if (!c || c->f(x).yes()) { any = used[j] = true; s.rows.push_back(x); } } if (!any) { Row x = l; x.resize(w); s.rows.push_back(x); } }
                for (std::size_t j = 0; j < grp[1].size(); ++j) if (!used[j]) { Row x(g.cols[0].size()); x.insert(x.end(), grp[1][j].begin(), grp[1][j].end()); s.rows.push_back(x); }
                continue;
            }
            Stream t; t.rows = grp[0]; std::function<Rows(std::size_t)> rest = [&](std::size_t i) { Rows r; if (i == grp.size()) return Rows{{}}; for (auto& a : grp[i]) for (auto b : rest(i + 1)) { Row x = a; x.insert(x.end(), b.begin(), b.end()); r.push_back(x); } return r; };
            auto right = rest(1); join_rows(k, t, w - g.cols[0].size(), [&](Row const&) { return right; }, c); s.rows.insert(s.rows.end(), t.rows.begin(), t.rows.end());
        }
        return s;
    }
    // ---- aggregates: name, argument column (-1: none)
    struct Agg { std::string name; int arg; };
    static std::shared_ptr<yugawara::aggregate::declaration> declared(std::string const& n, std::vector<Ty> a, bool incremental) { for (auto& d : aggregates->v_) if (d->name() == n && d->incremental() == incremental && d->shared_parameter_types().size() == a.size() && (a.empty() || d->shared_parameter_types()[0]->kind() == type_of(a[0])->kind() || n.rfind("count", 0) == 0)) return d; std::fprintf(stderr, "no aggregate %s\n", n.c_str()); std::abort(); }
    static Ty result_type(Agg const& a, std::vector<C> const& c) { return a.name.rfind("count", 0) == 0 ? I8 : c[a.arg].t; }
    static V evaluate(Agg const& a, Rows const& rs) {
        if (a.name == "count" && a.arg < 0) return V{(std::int64_t) rs.size()};
        std::vector<V> v; for (auto& r : rs) if (!r[a.arg].null()) v.push_back(r[a.arg]);
        if (a.name == "count") return V{(std::int64_t) v.size()};
        if (a.name == "count$distinct") { std::sort(v.begin(), v.end()); return V{(std::int64_t) (std::unique(v.begin(), v.end()) - v.begin())}; }
        if (v.empty()) return N;
        if (a.name == "sum") { std::int64_t s = 0; for (auto& x : v) s += x.i; return V{s}; }
        return a.name == "max" ? *std::max_element(v.begin(), v.end()) : *std::min_element(v.begin(), v.end());
    }
    // aggregation in the exchange: keys and results are the columns of the outcome
    Stream aggregate(std::vector<Stream> ss, std::vector<int> keys, std::vector<Agg> as) {
        Exchange x; auto src = exchange_columns(ss[0]); std::vector<C> dst; std::vector<tdesc::variable> k; for (int i : keys) { dst.push_back(src[i]); k.push_back(src[i].v); } std::vector<rel::details::aggregate_element> el;
        for (auto& a : as) { Ty t = result_type(a, src); auto v = xvar(t); std::vector<tdesc::variable> args; std::vector<Ty> at; if (a.arg >= 0) { args.push_back(src[a.arg].v); at.push_back(src[a.arg].t); } el.emplace_back(f(std::shared_ptr<yugawara::aggregate::declaration const>(declared(a.name, at, true))), args, v); dst.push_back({v, t}); }
        x.x = &ex->execution_plan().insert(std::make_unique<pl::aggregate>(vars(src), vars(dst), k, el, keys.empty() ? pl::group_mode::equivalence_or_whole : pl::group_mode::equivalence)); offer(ss, x, src);
        std::map<Row, Rows> m; if (keys.empty()) m[{}]; for (auto& r : x.rows) { Row q; for (int i : keys) q.push_back(r[i]); m[q].push_back(r); }
        Rows out; for (auto& [q, rs] : m) { Row r = q; for (auto& a : as) r.push_back(evaluate(a, rs)); out.push_back(r); }
        x.cols = dst; x.keys = {}; for (std::size_t i = 0; i < keys.size(); ++i) x.keys.push_back((int) i);
        Groups g; g.p = process(); pl::connect(*x.x, *g.p); auto mm = take_columns(x, g.cols); g.out = &op<rel::step::take_group>(g.p, f(*x.x), mm).output(); for (auto& r : out) g.g.push_back({r}); return flatten(g);
    }
    // aggregation of the groups of a group exchange: the results are appended; one row for each group
    Stream aggregate(Groups g, std::vector<int> keys, std::vector<Agg> as) {
        std::vector<rel::details::aggregate_element> el; Stream s; s.p = g.p; for (int i : keys) s.cols.push_back(g.cols[i]);
        for (auto& a : as) { Ty t = result_type(a, g.cols); auto v = var(t); std::vector<tdesc::variable> args; std::vector<Ty> at; if (a.arg >= 0) { args.push_back(g.cols[a.arg].v); at.push_back(g.cols[a.arg].t); } el.emplace_back(f(std::shared_ptr<yugawara::aggregate::declaration const>(declared(a.name, at, false))), args, v); s.cols.push_back({v, t}); }
        auto& o = op<rel::step::aggregate>(g.p, std::move(el)); *g.out >> o.input(); s.out = &o.output();
        for (auto& rs : g.g) { Row r; for (int i : keys) r.push_back(rs[0][i]); for (auto& a : as) r.push_back(evaluate(a, rs)); s.rows.push_back(r); }
        return s;
    }
    // ---- ends
    std::vector<Ty> result{}; Rows expected{}; int emits{};
    void emit(Stream const& s) { std::vector<rel::emit::column> c; for (std::size_t i = 0; i < s.cols.size(); ++i) c.emplace_back(s.cols[i].v, "c" + std::to_string(i)); auto& o = op<rel::emit>(s.p, std::move(c)); *s.out >> o.input(); result.clear(); for (auto& x : s.cols) result.push_back(x.t); expected.insert(expected.end(), s.rows.begin(), s.rows.end()); }
    void write(rel::write_kind k, Stream const& s, Table& t, std::vector<std::pair<int, int>> keys, std::vector<std::pair<int, int>> cols) {
        std::vector<rel::details::mapping_element> km, cm; for (auto& [a, b] : keys) km.emplace_back(s.cols[a].v, f(t.p->columns()[b])); for (auto& [a, b] : cols) cm.emplace_back(s.cols[a].v, f(t.p->columns()[b]));
        auto& o = op<rel::write>(s.p, k, f(*t.ix[0].p), km, cm); *s.out >> o.input();
    }
    void insert_values(rel::write_kind k, Table& t, std::vector<int> cols, std::vector<std::vector<E>> const& rows) {
        std::vector<tdesc::variable> c; for (int i : cols) c.push_back(f(t.p->columns()[i])); std::vector<tst::write::tuple> tu; for (auto& r : rows) { std::vector<sc::sp> es; for (auto& e : r) es.push_back(e.e); tu.emplace_back(es); }
        ex = nullptr; st_ = std::make_unique<tst::write>(k, f(*t.ix[0].p), c, std::move(tu));
    }
};
// ---- running
struct Outcome { status code{status::err_unknown}; Rows rows{}; std::shared_ptr<error::error_info> error{}; std::map<counter_kind, std::int64_t> counts{}; int answers{}; };
inline std::shared_ptr<transaction_context> begin() { std::unique_ptr<kvs::transaction> t; auto rc = kvs::transaction::create_transaction(*kvs, t, {}); if (rc != status::ok) return {}; auto r = wrap(std::move(t), std::make_shared<api::transaction_option>()); r->state(transaction_state_kind::init); r->state(transaction_state_kind::active); return r; }
inline Outcome run(Plan& p, std::shared_ptr<transaction_context> const& tx) {
    Outcome o; auto stmt = std::make_shared<std::unique_ptr<tst::statement>>(std::move(p.st_)); auto info = p.info;
    yugawara::compiler::hook = [stmt, info](std::string const&, yugawara::compiler_options const&) { return yugawara::compiler_result(std::move(*stmt), info); };
    auto ctx = std::make_shared<plan::compiler_context>(); auto res = std::make_shared<memory::lifo_paged_memory_resource>(&global::page_pool()); ctx->resource(res); ctx->storage_provider(tables); ctx->aggregate_provider(aggregates); ctx->function_provider(functions); ctx->variable_provider(p.hosts);
    if (auto rc = plan::prepare("s", *ctx); rc != status::ok) { o.code = rc; o.error = ctx->error_info(); o.answers = 1; return o; }
    auto ps = std::make_shared<api::impl::prepared_statement>(ctx->prepared_statement()); auto store = std::make_unique<data::result_store>(); auto params = std::shared_ptr<api::parameter_set>(p.params.clone());
    executor::execute_async(*db, tx, ps, params, maybe_shared_ptr<executor::io::record_channel>{std::make_shared<api::impl::result_store_channel>(maybe_shared_ptr{store.get()})}, [&](status c, std::shared_ptr<error::error_info> e, std::shared_ptr<request_statistics> st) {
        ++o.answers; o.code = c; o.error = e; if (st) st->each_counter([&](counter_kind k, request_execution_counter const& n) { if (n.count()) o.counts[k] = *n.count(); }); }, true);
    if (!p.result.empty() && o.code == status::ok) {
        api::impl::result_set rs{std::move(store)}; auto it = rs.iterator();
        while (it->has_next()) { auto* r = it->next(); Row w; for (std::size_t i = 0; i < p.result.size(); ++i) { if (r->is_null(i)) w.push_back(N); else switch (p.result[i]) { case I4: w.push_back(V{(std::int64_t) r->get_int4(i)}); break; case I8: w.push_back(V{(std::int64_t) r->get_int8(i)}); break; case VC: w.push_back(V{std::string(r->get_character(i))}); break; default: w.push_back(V{(std::int64_t) r->get_boolean(i)}); } } o.rows.push_back(w); }
    }
    vf::trace(); return o;
}
inline std::string why(Outcome const& o) { std::stringstream s; s << o.code; if (o.error && *o.error) s << " " << o.error->message(); return s.str(); }
inline bool commit(std::shared_ptr<transaction_context> const& t) { return t->object()->commit(true) == status::ok; }
// fills the tables through INSERT statements
inline bool insert(Table& t, Rows const& rows) {
    auto tx = begin(); Plan p; std::vector<int> c; for (std::size_t i = 0; i < t.cols.size(); ++i) c.push_back((int) i); std::vector<std::vector<E>> es; for (auto& r : rows) { es.emplace_back(); for (std::size_t i = 0; i < r.size(); ++i) es.back().push_back(lit(t.cols[i].t, r[i])); }
    p.insert_values(rel::write_kind::insert, t, c, es); auto o = run(p, tx); if (o.code != status::ok) { std::fprintf(stderr, "insert: %s\n", why(o).c_str()); return false; } if (!commit(tx)) return false; t.rows.insert(t.rows.end(), rows.begin(), rows.end()); return true;
}
}
