// C14: the use counter: every operation sequence over a few objects, and concurrent copying and dropping under every schedule
#include "vf.h"
#include "vs.h"
#include <jogasaki/utils/use_counter.h>
#include <memory>
#include <optional>
#include <thread>
#include <vector>
using jogasaki::utils::use_counter;

// an object is reborn at slot i by construction; each object belongs to a group, its count is the group's size
struct op { int k, i, j; };   // 0 construct, 1 copy construct, 2 move construct, 3 copy assign, 4 move assign, 5 reset, 6 destroy
static char const* const names[] = {"construct", "copy", "move", "copy-assign", "move-assign", "reset", "destroy"};
static std::string text(std::vector<op> const& ops) { std::string s; for (auto& o : ops) s += vf::strf("%s(%d,%d) ", names[o.k], o.i, o.j); return s; }

static void run(int n, std::vector<op> const& ops) {
    std::vector<std::optional<use_counter>> v(n);
    std::vector<int> g(n, -1);   // group of each object, -1: no object
    int next = 0;
    for (auto& o : ops) {
        switch (o.k) {
            case 0: v[o.i].emplace(); g[o.i] = next++; break;
            case 1: v[o.i].emplace(*v[o.j]); g[o.i] = g[o.j]; break;
            case 2: v[o.i].emplace(std::move(*v[o.j])); g[o.i] = g[o.j]; g[o.j] = next++; break;
            case 3: *v[o.i] = *v[o.j]; g[o.i] = g[o.j]; break;
            case 4: *v[o.i] = std::move(*v[o.j]); g[o.i] = g[o.j]; g[o.j] = next++; break;
            case 5: v[o.i]->reset(); g[o.i] = next++; break;
            case 6: v[o.i].reset(); g[o.i] = -1; break;
        }
        vf::step();
        for (int a = 0; a < n; ++a) if (g[a] >= 0) {
            std::size_t want = 0; for (int b = 0; b < n; ++b) want += g[b] == g[a];
            VF_CHECK(v[a]->count() == want, "use-count", "%s: object %d reports %zu users, expected %zu", text(ops).c_str(), a, v[a]->count(), want);
        }
    }
    vf::state(); vf::trace();
}
static void sequences(int n, int depth, std::vector<op>& ops, std::vector<char>& live, std::uint64_t& u) {
    if (!ops.empty() && (int)ops.size() == depth) { if (vf::mine(u++)) { vf::at("%s", text(ops).c_str()); run(n, ops); } return; }
    bool any = false;
    auto go = [&](op o) {
        any = true;
        ops.push_back(o); char keep = live[o.i];
        if (o.k <= 2) live[o.i] = 1; else if (o.k == 6) live[o.i] = 0;
        sequences(n, depth, ops, live, u);
        live[o.i] = keep; ops.pop_back();
    };
    for (int i = 0; i < n; ++i) {
        if (!live[i]) {
            if (i == 0 || live[i - 1]) go({0, i, 0});   // symmetric otherwise
            for (int j = 0; j < n; ++j) if (live[j]) { go({1, i, j}); go({2, i, j}); }
        } else {
            for (int j = 0; j < n; ++j) if (live[j]) { go({3, i, j}); if (i != j) go({4, i, j}); }
            go({5, i, 0}); go({6, i, 0});
        }
    }
}

// threads work on copies of one counter; programs: c copy and drop, m move a copy around, r reset own, k keep a copy, q ask for the count
static void conc(std::vector<std::string> const& progs) {
    use_counter root;
    std::vector<std::thread> ts;
    std::vector<std::optional<use_counter>> own(progs.size());
    std::size_t kept = 0;
    for (auto& p : progs) kept += p.find('r') == p.npos && p.find('d') == p.npos;
    for (std::size_t t = 0; t < progs.size(); ++t) own[t].emplace(root);
    std::size_t maxlive = 1 + progs.size() * 2;
    for (std::size_t t = 0; t < progs.size(); ++t) ts.emplace_back([&, t] {
        bool mine = true;   // own[t] still shares with root
        for (char c : progs[t]) {
            if (c == 'c') { use_counter x{root}; std::size_t n = x.count(); VS_CHECK(n >= 2 && n <= maxlive, "use-count-range", "%zu users seen", n); }
            else if (c == 'm') { use_counter x{*own[t]}; use_counter y{std::move(x)}; VS_CHECK(x.count() == 1, "use-count", "a moved object reports %zu users", x.count()); std::size_t n = y.count(); VS_CHECK(mine ? n >= 3 && n <= maxlive : n == 2, "use-count-range", "%zu users seen", n); }
            else if (c == 'r') { own[t]->reset(); mine = false; VS_CHECK(own[t]->count() == 1, "use-count", "a reset object reports %zu users", own[t]->count()); }
            else if (c == 'a') { *own[t] = root; mine = true; }
            else if (c == 'd') { own[t].reset(); }
            else if (c == 'q') { std::size_t n = root.count(); VS_CHECK(n >= 1 && n <= maxlive, "use-count-range", "%zu users seen", n); }
        }
    });
    for (auto& t : ts) t.join();
    std::size_t want = 1;
    for (auto& p : progs) { bool in = true; for (char c : p) { if (c == 'r' || c == 'd') in = false; else if (c == 'a') in = true; } want += in; }
    std::size_t n = root.count();
    VS_CHECK(n == want, "use-count-final", "%zu users at the end, expected %zu", n, want);
}

int main(int argc, char** argv) {
    vf::init(argc, argv);
    bool th = vf::thorough();
    std::uint64_t u = 0;
    int depth = th ? 8 : 7;
    for (int d = 1; d <= depth; ++d) { std::vector<op> ops; std::vector<char> live(3, 0); sequences(3, d, ops, live, u); }
    vs::options o;
    std::vector<std::string> ps{"c", "m", "r", "d", "q", "cr", "ra", "mc", "cc", "qd", "ram"};
    std::vector<std::vector<std::string>> ss;
    for (auto& a : ps) for (auto& b : ps) if (a <= b) ss.push_back({a, b});
    for (auto& a : ps) if (a.size() == 1 || th) for (auto& b : ps) if (a <= b && (b.size() == 1 || th)) for (auto& c : ps) if (b <= c && c.size() <= 2) ss.push_back({a, b, c});
    std::uint64_t n = 0;
    for (auto& s : ss) {
        if (!vf::mine(u++)) continue;
        std::string t; for (auto& p : s) t += p + "|";
        o.preempt = s.size() == 2 ? 4 : 2; if (th) ++o.preempt;
        n += vs::explore("use_counter " + t, o, [&] { conc(s); });
        if (vf::shard() == 0) vf::sample(t);
    }
    vf::note("schedules", n);
    vf::bound_note(vf::strf("all sequences of up to %d operations (construct, copy, move, assign, reset, destroy) over 3 objects; 2..3 threads of 11 programs of 1..3 operations on copies of one counter, every schedule with up to %d deviations", depth, th ? 5 : 4));
    return vf::finish();
}
