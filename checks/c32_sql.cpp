// C32: the rows a query returns are the rows the SQL statement stands for
#include "sqlbed.h"
using namespace sqlbed;
static Table T{"T", {{"C0", I4, false}, {"C1", I8, true}, {"C2", VC, true}}, {{"T", {0}, {false}, {1, 2}, true}, {"I1", {1}, {false}, {}, false}, {"I2", {1, 2}, {true, false}, {}, false}, {"I3", {2, 0}, {false, true}, {}, false}}};
static Table K{"K", {{"K0", I4, false}, {"K1", I4, false}, {"V", I8, true}}, {{"K", {0, 1}, {false, true}, {2}, true}, {"J1", {2}, {true}, {}, false}}};
struct Case { std::string name; std::function<void(Plan&)> make; int weight{}; };   // weight 0: every set-up, 1: the small contents only
static std::vector<Case> cases;
static void add(std::string n, std::function<void(Plan&)> f, int w = 0) { cases.push_back({std::move(n), std::move(f), w}); }
static char const* name(EP k) { switch (k) { case EP::prefixed_inclusive: return "incl"; case EP::prefixed_exclusive: return "excl"; default: return "none"; } }
static char const* name(rel::join_kind k) { using J = rel::join_kind; switch (k) { case J::inner: return "inner"; case J::left_outer: return "left_outer"; case J::left_outer_at_most_one: return "at_most_one"; case J::semi: return "semi"; case J::anti: return "anti"; default: return "full_outer"; } }
// the bounds over an index: an equal prefix and an optional range over the column behind it
struct Range { std::vector<V> prefix; int lo{}, hi{}; V l{}, h{}; };   // lo, hi: 0 none, 1 inclusive, 2 exclusive
static std::string show(Range const& r) { std::string s = "["; for (auto& v : r.prefix) s += show(v) + " "; if (r.lo) s += (r.lo == 1 ? ">=" : ">") + show(r.l); if (r.hi) s += (r.hi == 1 ? "<=" : "<") + show(r.h); return s + "]"; }
static std::vector<V> domain(Table& t, int c, bool wide) {
    if (t.cols[c].t == VC) return wide ? std::vector<V>{N, "", "a", "b"} : std::vector<V>{N, "", "a"};
    if (!t.cols[c].nullable) return wide ? std::vector<V>{0, 1, 2, 3, N} : std::vector<V>{1, 2};
    return wide ? std::vector<V>{N, -1, 1, 2} : std::vector<V>{N, 1, 2};
}
static std::vector<Range> ranges(Table& t, Index& x, bool wide) {
    std::vector<Range> r; std::vector<std::vector<V>> pre{{}};
    for (std::size_t p = 0; p < x.key.size(); ++p) {
        auto d = domain(t, x.key[p], wide);
        for (auto& q : pre) for (int lo = 0; lo < 3; ++lo) for (int hi = 0; hi < 3; ++hi) for (auto& l : lo ? d : std::vector<V>{N}) for (auto& h : hi ? d : std::vector<V>{N}) { if (p && !lo && !hi) continue; r.push_back({q, lo, hi, l, h}); }
        std::vector<std::vector<V>> n; for (auto& q : pre) for (auto& v : d) { auto w = q; w.push_back(v); n.push_back(w); } pre = n;
        for (auto& q : pre) r.push_back({q, 0, 0, N, N});
    }
    return r;
}
static std::pair<Bound, Bound> bounds(Plan& p, Table& t, Index& x, Range const& r, int style) {
    int n = 0; auto e = [&](int i, V const& v) { Ty ty = t.cols[x.key[i]].t; return style == 0 ? lit(ty, v) : p.host("h" + std::to_string(n++), ty, v, style == 2 && ty == I8); };
    Bound lo, hi; for (std::size_t i = 0; i < r.prefix.size(); ++i) { auto v = e((int) i, r.prefix[i]); lo.k.push_back(v); hi.k.push_back(v); lo.kind = hi.kind = EP::prefixed_inclusive; }
    int at = (int) r.prefix.size(); if (r.lo) { lo.k.push_back(e(at, r.l)); lo.kind = r.lo == 1 ? EP::prefixed_inclusive : EP::prefixed_exclusive; } if (r.hi) { hi.k.push_back(e(at, r.h)); hi.kind = r.hi == 1 ? EP::prefixed_inclusive : EP::prefixed_exclusive; }
    return {lo, hi};
}
struct Top { Rows all; std::vector<int> keys; std::vector<std::pair<int, bool>> sort; std::optional<std::size_t> limit; };
static std::map<Plan*, Top> tops;
static std::string judge(Plan* p, Rows const& got, Rows const& want) {
    auto it = tops.find(p); if (it == tops.end()) return sorted(got) == sorted(want) ? "" : "rows " + show(sorted(got)) + " instead of " + show(sorted(want));
    auto& t = it->second; std::map<Row, Rows> g, w; auto key = [&](Row const& r) { Row k; for (int i : t.keys) k.push_back(r[i]); return k; };
    Row last; bool first = true; for (auto& r : got) { auto k = key(r); if (!first && k != last && g.count(k)) return "the rows of a group are not together: " + show(got); first = false; last = k; g[k].push_back(r); }
    for (auto& r : t.all) w[key(r)].push_back(r);
    auto sk = [&](Row const& r) { Row k; for (auto& [i, d] : t.sort) k.push_back(r[i]); return k; }; std::size_t groups = 0;
    for (auto& [k, v] : w) {
        std::stable_sort(v.begin(), v.end(), [&](Row const& a, Row const& b) { for (auto& [i, d] : t.sort) if (int o = order(a[i], b[i])) return d ? o > 0 : o < 0; return false; });
        std::size_t n = t.limit ? std::min(*t.limit, v.size()) : v.size(); auto& q = g[k]; if (q.size() != n) return "group " + show(k) + ": " + std::to_string(q.size()) + " rows instead of " + std::to_string(n); groups += n > 0;
        for (std::size_t i = 0; i < n; ++i) if (sk(q[i]) != sk(v[i])) return "group " + show(k) + ": " + show(q) + " is not the head of " + show(v);
        auto a = sorted(q), b = sorted(v); if (!std::includes(b.begin(), b.end(), a.begin(), a.end())) return "group " + show(k) + ": " + show(q) + " are not rows of " + show(v);
    }
    std::size_t have = 0; for (auto& [k, v] : g) have += !v.empty(); if (have != groups) return "groups that should not be there: " + show(got);
    return "";
}
static void make_cases() {
    using JK = rel::join_kind; bool deep = vf::thorough();
    for (auto* t : {&T, &K}) for (std::size_t i = 0; i < t->ix.size(); ++i) for (auto& r : ranges(*t, t->ix[i], deep || t->ix[i].key.size() == 1)) {
        bool full = r.prefix.size() == t->ix[i].key.size() && !r.lo && !r.hi; bool bare = r.prefix.empty() && !r.lo && !r.hi;
        for (int style : {0, 1, 2}) if (style == 0 || (!bare && (deep || t->ix[i].key.size() == 1) && (style == 1 || std::any_of(t->ix[i].key.begin(), t->ix[i].key.end(), [&](int c) { return t->cols[c].t == I8; })))) {
            int w = (style || !bare) && !(full && !style) ? 1 : 0;
            add("scan " + t->ix[i].name + show(r) + (style ? style == 1 ? " host" : " wide host" : ""), [=](Plan& p) { auto [lo, hi] = bounds(p, *t, t->ix[i], r, style); p.emit(p.scan(*t, (int) i, lo, hi)); }, w);
            if (full) add("find " + t->ix[i].name + show(r) + (style ? style == 1 ? " host" : " wide host" : ""), [=](Plan& p) { auto [lo, hi] = bounds(p, *t, t->ix[i], r, style); p.emit(p.find(*t, (int) i, lo.k)); }, w);
        }
    }
    auto conds = [](int c, Plan& p, Stream const& s) -> E { switch (c) { case 0: return eq(s.col(1), lit(I8, 1)); case 1: return compare(cmp::less, s.col(0), lit(I4, 2)); case 2: return isnull(s.col(2)); case 3: return compare(cmp::not_equal, s.col(1), p.host("h", I8, 2)); case 4: return both(compare(cmp::greater_equal, s.col(0), p.host("h", I4, 1)), eq(s.col(2), lit(VC, ""))); default: return compare(cmp::is_not_distinct_from, s.col(1), p.host("h", I8, N)); } };
    for (int c = 0; c < 6; ++c) add("filter " + std::to_string(c), [=](Plan& p) { auto s = p.scan(T); p.emit(p.filter(s, conds(c, p, s))); });
    add("project", [](Plan& p) { auto s = p.scan(T); s = p.project(s, {add(s.col(1), lit(I8, 1)), concat(s.col(2), s.col(2)), lit(I4, 7), p.host("h", VC, "x"), lit(I8, N)}); s = p.project(s, {add(s.col(3), s.col(1))}); p.emit(Plan::pick(s, {8, 0, 3, 4, 5, 6, 7})); });
    add("buffer", [](Plan& p) { auto s = p.scan(T); auto b = p.buffer(s, 2); auto x = p.forward({p.filter(b[0], eq(b[0].col(1), lit(I8, 1))), Plan::pick(p.project(b[1], {lit(I4, 1)}), {3, 1, 2})}); p.emit(p.take_flat(x)); });
    add("buffer 3", [](Plan& p) { auto s = p.scan(T); auto b = p.buffer(s, 3); auto x = p.forward({b[0], p.filter(b[1], isnull(b[1].col(2)))}); auto y = p.group({b[2]}, {1}); auto z = p.forward({p.take_flat(x), p.flatten(p.take_group(y))}); p.emit(p.take_flat(z)); });
    add("values", [](Plan& p) { p.emit(p.values({I4, I8, VC}, {{lit(I4, 1), p.host("a", I8, 5), lit(VC, "")}, {lit(I4, 2), lit(I8, N), p.host("b", VC, N)}, {lit(I4, 2), lit(I8, N), p.host("b2", VC, N)}})); });
    add("values of no rows", [](Plan& p) { p.emit(p.values({I4}, {})); });
    add("values joined", [](Plan& p) { auto s = p.values({I8}, {{lit(I8, 1)}, {lit(I8, N)}, {lit(I8, 2)}}); p.emit(p.join_find(JK::left_outer, s, T, 1, {s.col(0)})); });
    // ---- index joins
    struct On { std::string n; int c; }; auto jc = [](int c, std::size_t r) -> Plan::Cond { if (c == 0) return {}; if (c == 1) return [r](Stream const& s) { return compare(cmp::not_equal, s.col(0), s.col((int) r)); }; if (c == 2) return [r](Stream const& s) { return compare(cmp::less, s.col((int) r), lit(I4, 2)); }; return [](Stream const&) { return lit(BO, 0); }; };
    for (auto k : {JK::inner, JK::left_outer, JK::semi, JK::anti}) for (int c = 0; c < 4; ++c) {
        std::string n = std::string(" ") + name(k) + " cond " + std::to_string(c);
        // semi and anti hide the columns of the right
        auto done = [k](Plan& p, Stream s, std::size_t left) { if (k == JK::semi || k == JK::anti) { std::vector<int> c; for (std::size_t i = 0; i < left; ++i) c.push_back((int) i); s = Plan::pick(s, c); } p.emit(s); };
        add("join_find T" + n, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_find(k, s, T, 0, {s.col(0)}, jc(c, 3)), 3); });
        add("join_find I1" + n, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_find(k, s, T, 1, {s.col(1)}, jc(c, 3)), 3); });
        add("join_find I2" + n, [=](Plan& p) { auto s = p.scan(T, 1); done(p, p.join_find(k, s, T, 2, {s.col(1), s.col(2)}, jc(c, 3)), 3); });
        add("join_find I3" + n, [=](Plan& p) { auto s = p.scan(T, 1); done(p, p.join_find(k, s, T, 3, {s.col(2), lit(I4, 1)}, jc(c, 3)), 3); });
        add("join_find K" + n, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_find(k, s, K, 0, {s.col(0), p.host("h", I4, 1)}, jc(c, 3)), 3); });
        add("join_find J1" + n, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_find(k, s, K, 1, {s.col(1)}, jc(c, 3)), 3); });
        for (int kind : {1, 2}) {
            EP e = kind == 1 ? EP::prefixed_inclusive : EP::prefixed_exclusive; std::string m = n + " " + name(e);
            add("join_scan I1 below" + m, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_scan(k, s, T, 1, {}, {{s.col(1)}, e}, jc(c, 3)), 3); });
            add("join_scan I1 above" + m, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_scan(k, s, T, 1, {{s.col(1)}, e}, {}, jc(c, 3)), 3); });
            add("join_scan I2 above" + m, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_scan(k, s, T, 2, {{s.col(1), s.col(2)}, e}, {{s.col(1)}, EP::prefixed_inclusive}, jc(c, 3)), 3); });
            add("join_scan I2 below" + m, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_scan(k, s, T, 2, {{lit(I8, 1)}, EP::prefixed_inclusive}, {{lit(I8, 1), s.col(2)}, e}, jc(c, 3)), 3); });
            add("join_scan I2 desc" + m, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_scan(k, s, T, 2, {{s.col(1)}, e}, {}, jc(c, 3)), 3); });
            add("join_scan I3 desc" + m, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_scan(k, s, T, 3, {{s.col(2)}, EP::prefixed_inclusive}, {{s.col(2), s.col(0)}, e}, jc(c, 3)), 3); });
            add("join_scan K desc" + m, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_scan(k, s, K, 0, {{s.col(0), lit(I4, 1)}, e}, {{s.col(0), p.host("h", I4, 2)}, EP::prefixed_inclusive}, jc(c, 3)), 3); });
        }
        add("join_scan K prefix" + n, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_scan(k, s, K, 0, {{s.col(0)}, EP::prefixed_inclusive}, {{s.col(0)}, EP::prefixed_inclusive}, jc(c, 3)), 3); });
        add("join_scan whole" + n, [=](Plan& p) { auto s = p.scan(T); done(p, p.join_scan(k, s, K, 0, {}, {}, jc(c, 3)), 3); });
    }
    add("joins in a row", [](Plan& p) { auto s = p.scan(T); s = p.join_scan(JK::left_outer, s, K, 0, {{s.col(0)}, EP::prefixed_inclusive}, {{s.col(0)}, EP::prefixed_inclusive}); s = p.join_find(JK::inner, s, T, 1, {s.col(5)}, [](Stream const& q) { return compare(cmp::not_equal, q.col(6), lit(I4, 9)); }); p.emit(p.filter(s, compare(cmp::is_distinct_from, s.col(6), s.col(0)))); });
    // ---- joins of exchanges
    for (auto k : {JK::inner, JK::left_outer, JK::full_outer, JK::semi, JK::anti, JK::left_outer_at_most_one}) for (int c = 0; c < 4; ++c) {
        std::string n = std::string(" ") + name(k) + " cond " + std::to_string(c); auto done = [k](Plan& p, Stream s, std::size_t left) { if (k == JK::semi || k == JK::anti) { std::vector<int> c; for (std::size_t i = 0; i < left; ++i) c.push_back((int) i); s = Plan::pick(s, c); } p.emit(s); };
        auto two = [=](Plan& p, std::vector<int> a, Table& t, std::vector<int> b) { std::vector<Exchange> x; x.push_back(p.group({p.scan(T)}, a)); x.push_back(p.group({p.scan(t)}, b)); return p.take_cogroup(x); };
        add("join T.C1" + n, [=](Plan& p) { done(p, p.join(k, two(p, {1}, T, {1}), jc(c, 3)), 3); });
        add("join T.C2" + n, [=](Plan& p) { done(p, p.join(k, two(p, {2}, T, {2}), jc(c, 3)), 3); });
        add("join T.C0" + n, [=](Plan& p) { done(p, p.join(k, two(p, {0}, K, {0}), jc(c, 3)), 3); });
        add("join T.C1 K.V" + n, [=](Plan& p) { done(p, p.join(k, two(p, {1}, K, {2}), jc(c, 3)), 3); });
        add("join T.(C1,C2)" + n, [=](Plan& p) { done(p, p.join(k, two(p, {1, 2}, T, {1, 2}), jc(c, 3)), 3); });
        add("join whole" + n, [=](Plan& p) { done(p, p.join(k, two(p, {}, K, {}), jc(c, 3)), 3); });
        add("join equal" + n, [=](Plan& p) { done(p, p.join(k, two(p, {1}, T, {1}), [](Stream const& s) { return both(eq(s.col(1), s.col(4)), compare(cmp::less_equal, s.col(0), s.col(3))); }), 3); });
        if (k == JK::inner || k == JK::left_outer) add("join of three" + n, [=](Plan& p) { std::vector<Exchange> x; x.push_back(p.group({p.scan(T)}, {1})); x.push_back(p.group({p.scan(T, 1)}, {1})); x.push_back(p.group({p.scan(K)}, {2})); (void) k; p.emit(p.join(JK::inner, p.take_cogroup(x), jc(c, 3))); });
    }
    // ---- order, groups, limits
    for (auto& srt : std::vector<std::vector<std::pair<int, bool>>>{{}, {{1, false}}, {{1, true}}, {{2, false}, {0, true}}, {{2, true}, {1, false}}, {{0, true}}}) for (auto& keys : std::vector<std::vector<int>>{{}, {1}, {2}, {1, 2}}) for (int l : {-1, 0, 1, 2, 5}) {
        std::string n = "group by"; for (int q : keys) n += " " + std::to_string(q); n += " order by"; for (auto& [q, d] : srt) n += " " + std::to_string(q) + (d ? "d" : ""); if (l >= 0) n += " limit " + std::to_string(l);
        add(n, [=](Plan& p) { auto x = p.group({p.scan(T, 1)}, keys, srt, l < 0 ? std::nullopt : std::optional<std::size_t>(l)); tops[&p] = {x.rows, keys, srt, x.limit}; p.emit(p.flatten(p.take_group(x))); });
    }
    for (int l : {0, 1, 2, 3}) add("limit " + std::to_string(l), [=](Plan& p) { auto x = p.forward({p.scan(T)}, l); tops[&p] = {x.rows, {}, {}, x.limit}; p.emit(p.take_flat(x)); });
    for (auto& keys : std::vector<std::vector<int>>{{0}, {1}, {0, 1}}) add("distinct " + std::to_string(keys.size()) + std::to_string(keys[0]), [=](Plan& p) { auto s = Plan::pick(p.scan(T), {1, 2}); auto x = p.group({s}, keys, {}, 1); tops[&p] = {x.rows, keys, {}, 1}; p.emit(p.flatten(p.take_group(x))); });
    for (auto& keys : std::vector<std::vector<int>>{{}, {1}, {2}, {1, 2}, {2, 1}}) for (int f = 0; f < 2; ++f) {
        std::string n = f ? "aggregate in filter by" : "aggregate by"; for (int q : keys) n += " " + std::to_string(q); std::vector<Plan::Agg> as{{"count", -1}, {"count", 1}, {"sum", 1}, {"max", 1}, {"min", 0}, {"count", 2}, {"max", 2}, {"min", 2}};
        add(n, [=](Plan& p) { auto s = p.scan(T, 1); if (f) s = p.filter(s, compare(cmp::greater, s.col(0), lit(I4, 1))); p.emit(p.aggregate({s}, keys, as)); });
        if (!keys.empty()) { as = {{"count$distinct", 1}, {"count$distinct", 2}}; add("groups: " + n, [=](Plan& p) { auto s = p.scan(T); if (f) s = p.filter(s, compare(cmp::greater, s.col(0), lit(I4, 1))); auto x = p.group({s}, keys); p.emit(p.aggregate(p.take_group(x), keys, as)); }); }
    }
    add("aggregate of two", [](Plan& p) { auto s = Plan::pick(p.scan(T), {0, 1}), q = Plan::pick(p.scan(K), {0, 2}); p.emit(p.aggregate({s, q}, {0}, {{"count", 1}, {"sum", 1}, {"max", 1}})); });
    add("having", [](Plan& p) { auto s = p.aggregate({p.scan(T)}, {1}, {{"count", -1}, {"max", 0}}); s = p.filter(s, compare(cmp::greater, s.col(1), lit(I8, 1))); p.emit(s); });
    add("aggregate of an aggregate", [](Plan& p) { auto s = p.aggregate({p.scan(T)}, {1, 2}, {{"count", -1}}); p.emit(p.aggregate({s}, {0}, {{"sum", 2}, {"count", 1}, {"max", 2}})); });
    // ---- unions
    add("union of two scans", [](Plan& p) { auto x = p.forward({p.scan(T), p.scan(T, 1)}); p.emit(p.take_flat(x)); });
    add("union of four", [](Plan& p) { auto s = p.values({I4, I8, VC}, {{lit(I4, 9), lit(I8, N), lit(VC, "v")}}); auto y = p.group({p.scan(T)}, {2}); auto x = p.forward({p.scan(T), s, p.flatten(p.take_group(y)), p.scan(T, 0, {{lit(I4, 2)}, EP::prefixed_inclusive})}); p.emit(p.take_flat(x)); });
    add("union distinct", [](Plan& p) { auto s = Plan::pick(p.scan(T), {1}), q = Plan::pick(p.scan(K), {2}); auto x = p.group({s, q}, {0}, {}, 1); p.emit(p.flatten(p.take_group(x))); });
    add("except", [](Plan& p) { std::vector<Exchange> x; x.push_back(p.group({Plan::pick(p.scan(T), {1})}, {0}, {}, 1)); x.push_back(p.group({Plan::pick(p.scan(K), {2})}, {0})); p.emit(Plan::pick(p.join(JK::anti, p.take_cogroup(x)), {0})); });
    add("intersect", [](Plan& p) { std::vector<Exchange> x; x.push_back(p.group({Plan::pick(p.scan(T), {1})}, {0}, {}, 1)); x.push_back(p.group({Plan::pick(p.scan(K), {2})}, {0})); p.emit(Plan::pick(p.join(JK::semi, p.take_cogroup(x)), {0})); });
    add("union limit", [](Plan& p) { auto x = p.forward({p.scan(T), p.scan(T, 1)}, 3); tops[&p] = {x.rows, {}, {}, x.limit}; p.emit(p.take_flat(x)); });
    add("join of a join", [](Plan& p) { std::vector<Exchange> x; x.push_back(p.group({p.scan(T)}, {1})); x.push_back(p.group({p.scan(K)}, {2})); auto s = p.join(JK::left_outer, p.take_cogroup(x)); std::vector<Exchange> y; y.push_back(p.group({s}, {0}, {{3, true}})); y.push_back(p.group({p.scan(T, 1)}, {0})); s = p.join(JK::inner, p.take_cogroup(y)); p.emit(p.aggregate({s}, {2}, {{"count", -1}, {"sum", 5}, {"min", 4}})); });
}
struct Setup { std::string name; int partitions; int block; int parallel; bool uniform; };
static std::uint64_t unit{};
static void bad(std::string const& key, std::string const& what) { if (std::getenv("C32_ALL")) { std::fprintf(stderr, "BAD %s\n", what.c_str()); return; } vf::violation(key, what); }
static void check(Setup const& u, std::string const& contents, bool small) {
    cfg->default_partitions(u.partitions); cfg->scan_block_size(u.block); cfg->scan_yield_interval(0);
    for (auto& c : cases) {
        if (c.weight && !small) continue; if (!vf::mine(unit++)) continue;
        Plan p; c.make(p); auto tx = begin(); if (!tx) { vf::violation("begin", "no transaction"); return; }
        if (std::getenv("C32_T")) std::fprintf(stderr, "%s | %s | %s\n", c.name.c_str(), contents.c_str(), u.name.c_str());
        auto what = c.name + " over " + contents + ", " + u.name; vf::at("%s", what.c_str()); vf::state(); vf::step(); auto o = run(p, tx);
        if (o.answers != 1) bad(c.name, what + ": answered " + std::to_string(o.answers) + " times");
        else if (p.fails) { if (o.code == status::ok) bad(c.name, what + ": answers rows where the statement is in error"); }
        else if (o.code != status::ok) bad(c.name, what + ": fails with " + why(o));
        else if (auto e = judge(&p, o.rows, p.expected); !e.empty()) bad(c.name, what + ": " + e);
        tops.erase(&p); tx->object()->abort_transaction();
    }
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    open_({&T, &K}); cfg->enable_join_scan(true); cfg->enable_index_join(true); make_cases(); bool deep = vf::thorough();
    std::vector<Setup> setups{{"one partition", 1, 100, 1, false}, {"three partitions, yields at each row", 3, 1, 1, false}}; if (deep) setups.push_back({"two partitions, yields at each 2 rows", 2, 2, 1, false});
    std::vector<V> c1{N, 1, 2}, c2{N, "", "a"}; int most = deep ? 3 : 2; std::size_t n = 0;
    for (int rows = 0; rows <= most; ++rows) { std::size_t total = 1; for (int i = 0; i < rows; ++i) total *= 9;
        for (std::size_t x = 0; x < total; ++x) {
            std::size_t y = x; Rows r; for (int i = 0; i < rows; ++i) { r.push_back({i + 1, c1[y % 3], c2[y / 3 % 3]}); y /= 9; }
            Rows k; for (int i = 0; i < 4; ++i) if ((x + rows) >> i & 1) k.push_back({i / 2 + 1, i % 2 + 1, x % 3 == 0 ? V{} : V{(int) (1 + (x + i) % 2)}});
            clear(); if (!insert(T, r) || !insert(K, k)) { vf::violation("insert", "rows cannot be inserted"); return vf::finish(); }
            for (auto& u : setups) check(u, "T" + show(r) + " K" + show(k), true); ++n;
        } }
    vf::bound_note(std::to_string(cases.size()) + " statements over " + std::to_string(n) + " contents, " + std::to_string(setups.size()) + " set-ups");
    return vf::finish();
}
