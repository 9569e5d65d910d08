// C17: the stopwatch: every small set of recorded points against a reference, and concurrent recording under every schedule
#include "vf.h"
#include "vs.h"
#include <jogasaki/utils/performance_tools.h>
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <thread>
#include <vector>
using jogasaki::utils::watch;
using L = watch::point_in_code;
using W = watch::worker_id;
static constexpr L npos = watch::npos;
static watch::Clock::time_point now() { return watch::Clock::now(); }
static constexpr std::uint64_t MS = 1000000;

struct ev { L loc; W worker; };
struct model {
    watch::Clock::time_point base;
    std::map<W, std::map<L, watch::Clock::time_point>> at;
    bool has(L l) const { if (l == npos) return true; for (auto& w : at) if (w.second.count(l)) return true; return false; }
    watch::Clock::time_point first(L l) const { if (l == npos) return base; watch::Clock::time_point r = watch::Clock::time_point::max(); for (auto& w : at) if (w.second.count(l)) r = std::min(r, w.second.at(l)); return has(l) ? r : watch::Clock::time_point{}; }
    watch::Clock::time_point last(L l) const { if (l == npos) return base; watch::Clock::time_point r = watch::Clock::time_point::min(); for (auto& w : at) if (w.second.count(l)) r = std::max(r, w.second.at(l)); return has(l) ? r : watch::Clock::time_point{}; }
    std::vector<std::size_t> durations(L b, L e) const {
        std::vector<std::size_t> r;
        for (auto& w : at) {
            bool hb = b != npos && w.second.count(b), he = e != npos && w.second.count(e);
            if (!hb && !he) continue;
            auto tb = hb ? w.second.at(b) : first(b), te = he ? w.second.at(e) : last(e);
            r.push_back((std::size_t) std::chrono::duration_cast<watch::Duration>(te - tb).count());
        }
        return r;
    }
};
static std::string show(std::vector<ev> const& es) { std::string s; for (auto& e : es) s += vf::strf("%d@%zd ", (int) e.loc, (ssize_t) e.worker); return s; }

static void compare(watch& w, model const& m, std::string const& h, std::vector<L> const& locs) {
    VF_CHECK(w.base() == m.base, "watch-base", "%s: base time", h.c_str());
    auto all = locs; all.push_back(npos);
    for (auto b : all) {
        VF_CHECK(w.view_first(b) == m.first(b), "watch-first", "%s: first time at %d", h.c_str(), (int) b);
        VF_CHECK(w.view_last(b) == m.last(b), "watch-last", "%s: last time at %d", h.c_str(), (int) b);
        for (auto e : all) {
            vf::step();
            if (!m.has(b) || !m.has(e)) continue;
            auto ms = [](auto d) { return (std::size_t) std::chrono::duration_cast<watch::Duration>(d).count(); };
            VF_CHECK(w.duration(b, e) == ms(m.last(e) - m.first(b)), "watch-duration", "%s: duration %d to %d", h.c_str(), (int) b, (int) e);
            VF_CHECK(w.duration(b, e, false) == ms(m.last(e) - m.first(b)) && w.duration(b, e, true) == ms(m.first(e) - m.last(b)), "watch-duration", "%s: duration %d to %d complementary", h.c_str(), (int) b, (int) e);
            auto want = m.durations(b, e);
            auto got = w.durations(b, e);
            auto sw = want; std::sort(sw.begin(), sw.end()); auto sg = *got; std::sort(sg.begin(), sg.end());
            VF_CHECK(sw == sg, "watch-durations", "%s: durations %d to %d are %zu values, expected %zu or other values: first %zd", h.c_str(), (int) b, (int) e, sg.size(), sw.size(), sg.empty() ? -1 : (ssize_t) sg[0]);
            std::size_t tot = 0; for (auto x : want) tot += x;
            bool neg = false; for (auto x : want) neg |= (ssize_t) x < 0;
            if (neg) continue;   // an interval that ends before it begins has no average
            std::size_t avg = want.empty() ? 0 : tot / want.size();
            VF_CHECK(w.average_duration(b, e) == avg, "watch-average", "%s: average %d to %d is %zu, expected %zu", h.c_str(), (int) b, (int) e, w.average_duration(b, e), avg);
            auto t = jogasaki::utils::textualize(w, b, e, "lb");
            auto tw = vf::strf("lb: total %zums, average %zums", ms(m.last(e) - m.first(b)), avg);
            VF_CHECK(t == tw, "watch-text", "%s: %s, expected %s", h.c_str(), t.c_str(), tw.c_str());
        }
    }
}
static void one(std::vector<ev> const& es, int restart_at, std::uint64_t gap) {
    std::string h = show(es) + vf::strf("restart=%d gap=%lu", restart_at, (unsigned long) gap);
    vf::at("%s", h.c_str()); vf::state(); vf::trace();
    watch w; model m; m.base = now();
    if (w.base() != m.base) m.base = w.base();
    std::vector<L> locs{0, 1, 19, 7};
    for (std::size_t i = 0; i <= es.size(); ++i) {
        if ((int) i == restart_at) { vs::advance_clock(gap * MS); w.restart(); m = {}; m.base = now(); }
        if (i == es.size()) break;
        vs::advance_clock(gap * MS * (i + 1) + 1);
        bool fresh = !m.at[es[i].worker].count(es[i].loc);
        if (fresh) m.at[es[i].worker][es[i].loc] = now();
        bool r = es[i].worker == W(-1) ? w.set_point(es[i].loc) : w.set_point(es[i].loc, es[i].worker);
        VF_CHECK(r == fresh, "watch-set", "%s: recording %zu reported %d", h.c_str(), i, (int) r);
    }
    compare(w, m, h, locs);
}

// workers record concurrently; each (point, worker) is recorded once
static void conc(std::vector<std::vector<ev>> const& progs, bool restart) {
    watch w;
    if (restart) w.restart();
    std::vector<std::vector<char>> res(progs.size());
    std::vector<std::thread> ts;
    for (std::size_t t = 0; t < progs.size(); ++t) ts.emplace_back([&, t] { for (auto& e : progs[t]) { bool r = w.set_point(e.loc, e.worker); vs::quiet q; res[t].push_back(r); } });
    for (auto& t : ts) t.join();
    std::map<std::pair<L, W>, int> firsts;
    for (std::size_t t = 0; t < progs.size(); ++t) for (std::size_t i = 0; i < progs[t].size(); ++i) firsts[{progs[t][i].loc, progs[t][i].worker}] += res[t][i];
    for (auto& f : firsts) {
        VS_CHECK(f.second == 1, "watch-once", "point %zu of worker %zu recorded %d times", f.first.first, f.first.second, f.second);
        VS_CHECK(w.view_first(f.first.first) >= w.base() && w.view_last(f.first.first) >= w.view_first(f.first.first), "watch-lost", "point %zu lost", f.first.first);
    }
}

int main(int argc, char** argv) {
    vf::init(argc, argv);
    bool th = vf::thorough();
    std::uint64_t u = 0, n = 0;
    std::vector<ev> al{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {1, 3}, {19, 3}, {19, W(-1)}, {0, W(-1)}};
    int depth = th ? 6 : 5;
    vs::options o;
    auto batch = [&](std::vector<ev> const& es) {
        for (int r = -1; r <= (int) es.size(); ++r) for (std::uint64_t gap : {3u, 1000u}) one(es, r, gap);
    };
    std::function<void(std::vector<ev>&)> rec = [&](std::vector<ev>& es) {
        if (vf::mine(u++)) { o.preempt = 0; o.cache = 0; n += vs::explore("watch " + show(es), o, [&] { batch(es); }); }
        if ((int) es.size() == depth) return;
        for (auto& e : al) { es.push_back(e); rec(es); es.pop_back(); }
    };
    std::vector<ev> es; rec(es);
    vs::options p; 
    std::vector<std::vector<ev>> pr{{{0, 0}}, {{0, 1}}, {{0, 0}, {1, 0}}, {{1, 0}, {0, 0}}, {{0, 1}, {1, 1}}, {{0, 0}, {0, 1}, {1, 2}}, {{2, 0}, {2, 0}}};
    for (auto& a : pr) for (auto& b : pr) for (bool rs : {false, true}) {
        if (vf::mine(u++)) { p.preempt = th ? 4 : 3; n += vs::explore("watch concurrent " + show(a) + "| " + show(b), p, [&] { conc({a, b}, rs); }); }
        for (auto& c : pr) if (vf::mine(u++)) { p.preempt = th ? 3 : 2; n += vs::explore("watch concurrent " + show(a) + "| " + show(b) + "| " + show(c), p, [&] { conc({a, b, c}, rs); }); }
    }
    vf::note("schedules", n);
    vf::bound_note(vf::strf("all sequences of up to %d recordings over 8 (point, worker) pairs with a restart at every place, all pairs of points incl. the beginning; 2..3 threads of 7 recording programs, every schedule with up to 3 (thorough 4) deviations", depth));
    return vf::finish();
}
