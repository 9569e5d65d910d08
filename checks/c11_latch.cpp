// C11: the latch under every schedule
#include "vf.h"
#include "vs.h"
#include <jogasaki/utils/latch.h>
#include <memory>
#include <thread>
#include <vector>
using jogasaki::utils::latch;
using namespace std::chrono;

struct scen { int rel; std::vector<int> waiters; bool initial; int rounds; };  // waiter kinds: 0 wait, 1 wait(5ms), 2 wait(0), 3 wait twice, 4 timed then untimed

static std::string text(scen const& s) {
    std::string t = vf::strf("releasers=%d initial=%d rounds=%d waiters=", s.rel, (int)s.initial, s.rounds);
    for (int w : s.waiters) t += char('0' + w);
    return t;
}

static void body(scen const& s) {
    latch l{s.initial};
    if (s.initial) {
        // released from the start: nothing waits
        l.wait();
        bool r = l.wait(milliseconds(5));
        VS_CHECK(r, "latch-initial", "a latch created released timed out");
        l.reset();
    }
    std::string out;
    for (int round = 0; round < s.rounds; ++round) {
        int data = 0;                       // written before release, read after wait
        vs::var<bool> released{false};              // bookkeeping, not synchronisation
        vs::var<bool> full{false};                  // a release() call has returned
        std::vector<std::thread> ts;
        std::vector<int> res(s.waiters.size() * 2, -1);
        for (int i = 0; i < s.rel; ++i) ts.emplace_back([&, i] {
            if (i == 0) data = round + 1;
            released.set(true);
            l.release();
            full.set(true);
        });
        for (std::size_t i = 0; i < s.waiters.size(); ++i) ts.emplace_back([&, i] {
            auto once = [&](int kind, int slot) {
                bool before; std::uint64_t t0;
                { vs::quiet q; before = full.get(); t0 = vs::clock_ns(); }
                bool ok = true;
                if (kind == 0) l.wait();
                else ok = l.wait(milliseconds(kind == 1 ? 5 : 0));
                if (ok && s.rel == 1) { int d = data; VS_CHECK(d == round + 1, "latch-early", "the waiter went on before the release (data=%d)", d); }
                {
                    vs::quiet q;
                    VS_CHECK(!ok || released.get(), "latch-early", "the waiter was let through although nobody released");
                    VS_CHECK(ok || !before, "latch-missed", "a wait that began after release() returned timed out");
                    if (!ok) VS_CHECK(vs::clock_ns() >= t0 + (kind == 1 ? 5000000u : 0u), "latch-timeout", "timed out after %lu ns", (unsigned long)(vs::clock_ns() - t0));
                    res[i * 2 + slot] = ok;
                }
            };
            int k = s.waiters[i];
            if (k <= 2) once(k, 0);
            else if (k == 3) { once(0, 0); once(0, 1); }
            else { once(1, 0); once(0, 1); }
        });
        for (auto& t : ts) t.join();
        if (s.rel) {
            l.wait();
            bool r = l.wait(milliseconds(0));
            VS_CHECK(r, "latch-missed", "a released latch timed out");
        }
        l.reset();
        bool r = l.wait(milliseconds(1));
        VS_CHECK(!r, "latch-reset", "a reset latch lets a waiter through");
        { vs::quiet q; for (int x : res) out += char('1' + x); out += '/'; }
    }
    vs::quiet q;
    vf::outcome(text(s) + out);
}

int main(int argc, char** argv) {
    vf::init(argc, argv);
    std::vector<scen> ss;
    bool th = vf::thorough();
    for (int rounds = 1; rounds <= 2; ++rounds) for (bool init : {false, true}) {
        for (int rel = 1; rel <= 2; ++rel) {
            for (int a = 0; a <= 4; ++a) {
                ss.push_back({rel, {a}, init, rounds});
                if (rel == 1 || th) for (int b = a; b <= 4; ++b) if (rounds == 1 || th || a == 0) ss.push_back({rel, {a, b}, init, rounds});
            }
        }
        ss.push_back({1, {0, 0, 0}, init, rounds});
        ss.push_back({1, {0, 1, 2}, init, rounds});
        ss.push_back({0, {1, 2}, init, rounds});
        ss.push_back({1, {}, init, rounds});
    }
    vs::options o; o.spurious = true;
    std::uint64_t n = 0; std::size_t u = 0;
    for (auto& s : ss) {
        if (!vf::mine(u++)) continue;
        std::size_t thr = s.waiters.size() + s.rel;
        o.preempt = s.rounds == 1 ? (thr <= 2 ? 4 : thr == 3 ? 3 : 2) : (thr <= 2 ? 3 : thr == 3 ? 2 : 1);
        if (th) ++o.preempt;
        n += vs::explore(text(s), o, [&] { body(s); });
        if (vf::shard() == 0) vf::sample(text(s));
    }
    vf::note("schedules", n);
    vf::bound_note("1..2 releasing threads, 0..3 waiting threads of 5 kinds (untimed, timed, zero timeout, twice, timed then untimed), latch created open or closed, 1..2 rounds with reset; every schedule with up to 1-4 (thorough 2-5) deviations: preemptions, timeouts while others can run, spurious wakeups");
    return vf::finish();
}
