// C25: locks on tables, references from transactions and lookups by name, under every schedule of a few threads
#include "vf.h"
#include "vs.h"
#include <jogasaki/storage/reference_scope.h>
#include <jogasaki/storage/shared_lock.h>
#include <jogasaki/storage/storage_list.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/storage/unique_lock.h>
#include <memory>
#include <thread>
#include <vector>
using namespace jogasaki; using namespace jogasaki::storage;
static constexpr int N = 2;
struct Bed {
    storage_manager m; std::shared_ptr<impl::storage_control> c[N]; vs::var<int> readers[N], writers[N];
    Bed() { for (int i = 0; i < N; ++i) { m.add_entry(10 + i, std::string("t") + char('0' + i), std::string("k") + char('0' + i)); c[i] = m.find_entry(10 + i); } }
    void in_write(int i) { int w = writers[i].add(1); int r = readers[i].get(); VS_CHECK(w == 1 && r == 0, "exclusive", "table %d is locked exclusively by %d with %d shared locks held", i, w, r); vs::point(); w = writers[i].get(); r = readers[i].get(); VS_CHECK(w == 1 && r == 0, "exclusive", "table %d is locked exclusively by %d with %d shared locks held", i, w, r); }
    void out_write(int i) { writers[i].add(-1); }
    void in_read(int i) { readers[i].add(1); int w = writers[i].get(); VS_CHECK(w == 0, "shared", "table %d is locked shared while %d hold it exclusively", i, w); vs::point(); w = writers[i].get(); VS_CHECK(w == 0, "shared", "table %d is locked shared while %d hold it exclusively", i, w); }
    void out_read(int i) { readers[i].add(-1); }
    void free_now() { for (int i = 0; i < N; ++i) { bool a = c[i]->can_lock(), b = c[i]->can_lock_shared(); VS_CHECK(a && b, "released", "table %d is still locked after every lock was given up", i); bool l = c[i]->lock(); VS_CHECK(l, "released", "table %d cannot be locked", i); bool l2 = c[i]->lock(), s2 = c[i]->lock_shared(); VS_CHECK(!l2 && !s2, "exclusive", "table %d is locked twice", i); c[i]->release(); } }
};
// sets as bits. programs: U exclusive on a set, released by destruction; V exclusive, released one by one; W exclusive on one, extended to the set, taken back; S shared; P exclusive on the first of the set, then shared on the set through it
struct Prog { char k; int set; };
static storage_list list(int set) { std::vector<storage_entry> v; for (int i = 0; i < N; ++i) if (set >> i & 1) v.push_back(10 + i); return storage_list{v}; }
static storage_list rlist(int set) { std::vector<storage_entry> v; for (int i = N; i-- > 0;) if (set >> i & 1) v.push_back(10 + i); return storage_list{v}; }
static int work(Bed& b, Prog p, int t) {
    int got = 0;
    auto l = [&](int set) { return t & 1 ? rlist(set) : list(set); };       // different orders of locking
    auto each = [&](int set, auto f) { for (int i = 0; i < N; ++i) if (set >> i & 1) f(i); };
    switch (p.k) {
        case 'U': { auto u = b.m.create_unique_lock(); auto s = l(p.set); if (b.m.add_locked_storages(s, *u)) { got = 1; each(p.set, [&](int i) { b.in_write(i); }); VS_CHECK(u->storage().size() == s.size(), "list", "the lock lists %zu tables of %zu", u->storage().size(), s.size()); each(p.set, [&](int i) { b.out_write(i); }); } else VS_CHECK(u->storage().size() == 0, "list", "a failed lock lists %zu tables", u->storage().size()); break; }
        case 'V': { auto u = b.m.create_unique_lock(); auto s = l(p.set); if (b.m.add_locked_storages(s, *u)) { got = 1; each(p.set, [&](int i) { b.in_write(i); }); each(p.set, [&](int i) { b.out_write(i); u->release_storage(10 + i); VS_CHECK(!u->storage().contains(10 + i), "list", "a released table stays listed"); }); } break; }
        case 'W': { auto u = b.m.create_unique_lock(); auto first = p.set & -p.set; auto s1 = l(first), s = l(p.set);
            if (b.m.add_locked_storages(s1, *u)) { each(first, [&](int i) { b.in_write(i); });
                bool more = b.m.add_locked_storages(s, *u); got = more; if (more) { each(p.set & ~first, [&](int i) { b.in_write(i); b.out_write(i); }); VS_CHECK(u->storage().size() == s.size(), "list", "the lock lists %zu tables of %zu", u->storage().size(), s.size()); auto rest = l(p.set & ~first); b.m.remove_locked_storages(rest, *u); VS_CHECK(u->storage().size() == 1, "list", "the lock lists %zu tables, expected 1", u->storage().size()); }
                else VS_CHECK(u->storage().size() == 1, "list", "a failed extension lists %zu tables, expected 1", u->storage().size());
                each(first, [&](int i) { int w = b.writers[i].get(), r = b.readers[i].get(); VS_CHECK(w == 1 && r == 0, "exclusive", "the first lock was lost by the extension"); b.out_write(i); }); } break; }
        case 'S': { auto s = l(p.set); if (auto x = b.m.create_shared_lock(s)) { got = 1; each(p.set, [&](int i) { b.in_read(i); }); each(p.set, [&](int i) { b.out_read(i); }); } break; }
        case 'P': { auto u = b.m.create_unique_lock(); auto first = p.set & -p.set; auto s1 = l(first), s = l(p.set);
            if (b.m.add_locked_storages(s1, *u)) { each(first, [&](int i) { b.in_write(i); });
                if (auto x = b.m.create_shared_lock(s, u.get())) { got = 1; each(p.set & ~first, [&](int i) { b.in_read(i); b.out_read(i); }); }
                each(first, [&](int i) { int w = b.writers[i].get(), r = b.readers[i].get(); VS_CHECK(w == 1 && r == 0, "exclusive", "the first lock was lost"); b.out_write(i); }); } break; }
    }
    return got;
}
static void locks(std::vector<Prog> ps) {
    Bed b; std::vector<std::thread> ts; std::vector<int> got(ps.size());
    for (std::size_t t = 0; t < ps.size(); ++t) ts.emplace_back([&, t] { got[t] = work(b, ps[t], (int) t); });
    for (auto& t : ts) t.join();
    bool allread = true; for (auto& p : ps) allread = allread && p.k == 'S';
    if (allread) for (std::size_t t = 0; t < ps.size(); ++t) VS_CHECK(got[t], "shared", "shared locks exclude each other");
    b.free_now();
}
static void references(int n) {
    Bed b; { std::vector<std::unique_ptr<reference_scope>> r; r.push_back(std::make_unique<reference_scope>(b.m)); r.push_back(std::make_unique<reference_scope>(b.m));
        std::vector<std::thread> ts;
        for (int t = 0; t < n; ++t) ts.emplace_back([&, t] { auto& x = *r[t == 2 ? 0 : t & 1]; x.add_storage(10); auto k = b.c[0]->ref_transaction_count(); VS_CHECK(k >= 1 && k <= 2, "references", "%zu transactions refer to a table, there are 2", k); x.add_storage(11); x.add_storage(10); x.add_storage(99); if (t == 1) r[1].reset(); });
        for (auto& t : ts) t.join();
        auto k = b.c[0]->ref_transaction_count(); VS_CHECK(k == 1, "references", "%zu transactions refer to a table after one of two ended", k); }
    for (int i = 0; i < N; ++i) { auto k = b.c[i]->ref_transaction_count(); VS_CHECK(k == 0, "references", "%zu transactions refer to table %d after all ended", k, i); }
}
// writers change the catalog, readers look names and keys up; every lookup must end, and give what some moment allows
static void lookups(std::string prog) {
    Bed b; std::vector<std::thread> ts;
    for (char c : prog) ts.emplace_back([&, c] {
        switch (c) {
            case 'd': { bool r = b.m.reserve_delete_entry(10); VS_CHECK(r, "reserve", "an existing table cannot be reserved for deletion"); auto k = b.m.find_by_name("t0"); VS_CHECK(!k || *k == 20, "name", "a dropped table is found by name"); break; }
            case 'r': { b.m.remove_entry(10); VS_CHECK(!b.m.find_entry(10), "remove", "a removed table is found"); break; }
            case 'm': { b.m.reserve_delete_entry(10); auto v = b.m.get_delete_reserved_entries(); VS_CHECK(v.size() == 1 && v[0] == 10, "maintain", "%zu tables to delete, expected 1", v.size()); bool r = b.m.remove_entry(10); VS_CHECK(r, "remove", "not removed"); break; }
            case 'a': { bool r = b.m.add_entry(20, "t9", "k9"); VS_CHECK(r, "add", "not added"); auto k = b.m.find_by_name("t9"); VS_CHECK(k && *k == 20, "add", "an added table is not found"); auto s = b.m.get_storage_key("t9"); VS_CHECK(s && *s == "k9", "add", "an added table has no key"); break; }
            case 'k': { auto s = b.m.get_storage_key("t0"); VS_CHECK(!s || *s == "k0", "key", "table t0 has the key %s", s->c_str()); break; }
            case 'n': { auto s = b.m.get_index_name("k0"); VS_CHECK(!s || *s == "t0", "name", "key k0 has the name %s", s->c_str()); break; }
            case 'x': { auto s = b.m.get_storage_key("t1"); VS_CHECK(s && *s == "k1", "key", "another table lost its key"); auto n = b.m.get_index_name("k1"); VS_CHECK(n && *n == "t1", "name", "another table lost its name"); auto e = b.m.find_by_name("t1"); VS_CHECK(e && *e == 11, "name", "another table is not found"); break; }
            case 'f': { auto e = b.m.find_by_name("t0"); if (e) { VS_CHECK(*e == 10, "name", "t0 is %zu", *e); auto p = b.m.find_entry(*e); (void) p; } break; }
        }
    });
    for (auto& t : ts) t.join();
    bool gone = prog.find_first_of("drm") != prog.npos; auto e = b.m.find_by_name("t0"); VS_CHECK(gone ? !e : e && *e == 10, "final", "t0 is %s at the end", e ? "found" : "not found");
    auto n = b.m.get_index_name("k0"); VS_CHECK(gone ? !n : n && *n == "t0", "final", "k0 is %s at the end", n ? "found" : "not found");
    std::size_t want = N - (prog.find_first_of("rm") != prog.npos) + (prog.find('a') != prog.npos); VS_CHECK(b.m.size() == want, "final", "%zu tables at the end, expected %zu", b.m.size(), want);
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    int d = vf::thorough() ? 3 : 2;
    std::vector<Prog> all; for (char k : {'U', 'V', 'W', 'S', 'P'}) for (int s = 1; s < 4; ++s) if (s == 3 || k == 'U' || k == 'S') all.push_back({k, s});
    std::uint64_t u = 0; vs::options o; o.preempt = d;
    auto name = [](std::vector<Prog> const& v) { std::string s = "locks"; for (auto& p : v) s += vf::strf(" %c%d", p.k, p.set); return s; };
    for (std::size_t i = 0; i < all.size(); ++i) for (std::size_t j = i; j < all.size(); ++j) {
        std::vector<Prog> v{all[i], all[j]}; if (vf::mine(u++)) vs::explore(name(v), o, [=] { locks(v); });
        for (std::size_t k = j; k < all.size(); ++k) { std::vector<Prog> w{all[i], all[j], all[k]}; if (!vf::thorough() && !(all[i].set == 3 && all[j].set == 3 && all[k].set == 3)) continue; if (vf::mine(u++)) { auto o3 = o; o3.preempt = vf::thorough() ? 2 : 1; vs::explore(name(w), o3, [=] { locks(w); }); } }
    }
    for (int n : {2, 3}) if (vf::mine(u++)) vs::explore(vf::strf("references %d", n), o, [=] { references(n); });
    std::vector<std::string> ps; std::string cs = "drmakxnf"; for (char a : cs) for (char b : cs) if (std::string("drm").find(b) == std::string::npos || std::string("drm").find(a) == std::string::npos) ps.push_back({a, b});
    for (auto p : {"dkn", "rkn", "mkn", "mna", "dka", "rxn", "mxk"}) ps.push_back(p);
    for (auto& p : ps) if (p[0] <= p[1] || p.size() == 3) if (!(p.size() == 2 && p[0] == 'a' && p[1] == 'a')) if (vf::mine(u++)) vs::explore("lookups " + p, o, [=] { lookups(p); });
    vf::bound_note(vf::strf("2 tables; all pairs of 9 locking programs and triples of those on both tables, up to %d deviations (triples %d); 2 or 3 threads adding references; all pairs and 7 triples of catalog changes and lookups", d, d - 1));
    return vf::finish();
}
