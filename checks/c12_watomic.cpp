// C12: the waitable atomic under every schedule
#include "vf.h"
#include "vs.h"
#include <jogasaki/utils/waitable_atomic.h>
#include <memory>
#include <thread>
#include <vector>
using jogasaki::utils::waitable_atomic;
using namespace std::chrono;

// waiter: 0 wait(old), 1 wait_for(5ms, old), 2 wait_for(0, old), 3 wait(old) then wait(old) again
// writer: 0 store + notify_all, 1 assignment + notify_all, 2 cas_strong + notify_all, 3 cas_weak loop + notify_all, 4 store + notify_one per waiter
struct scen { std::vector<int> waiters, writers; };
static std::string text(char const* tn, scen const& s) {
    std::string t = std::string(tn) + " waiters="; for (int w : s.waiters) t += char('0' + w);
    t += " writers="; for (int w : s.writers) t += char('0' + w);
    return t;
}

template <class T> void body(char const* tn, scen const& s) {
    T const old = T(0); T const neu = T(1);
    waitable_atomic<T> a{old};
    int data = 0;
    vs::var<bool> stored{false}, done{false};   // a store may have happened; a writer has stored and notified
    std::vector<std::thread> ts;
    std::vector<int> res(s.waiters.size(), -1);
    bool single = s.writers.size() == 1;
    for (std::size_t i = 0; i < s.writers.size(); ++i) ts.emplace_back([&, i] {
        int k = s.writers[i];
        if (i == 0) data = 7;
        stored.set(true);
        if (k == 0 || k == 4) a.store(neu);
        else if (k == 1) a = neu;
        else if (k == 2) { T e = old; bool r = a.compare_exchange_strong(e, neu); if (single) VS_CHECK(r && e == old, "watomic-cas", "strong exchange failed with nobody else writing"); else VS_CHECK(r || e != old, "watomic-cas", "a failed exchange left the expected value"); }
        else { T e = old; while (!a.compare_exchange_weak(e, neu)) { if (e != old) break; } }
        if (k == 4) for (std::size_t j = 0; j < s.waiters.size(); ++j) a.notify_one();
        else a.notify_all();
        done.set(true);
    });
    for (std::size_t i = 0; i < s.waiters.size(); ++i) ts.emplace_back([&, i] {
        int k = s.waiters[i];
        bool before = done.get(); std::uint64_t t0 = vs::clock_ns();
        bool ok = true;
        if (k == 0 || k == 3) { a.wait(old); if (k == 3) a.wait(old); }
        else ok = a.wait_for(milliseconds(k == 1 ? 5 : 0), old);
        if (ok) {
            if (single) { int d = data; VS_CHECK(d == 7, "watomic-order", "the waiter went on but does not see what was written before the store (%d)", d); }
            VS_CHECK(stored.get(), "watomic-early", "the waiter went on although the value never changed");
            T v = a.load();
            VS_CHECK(v == neu, "watomic-early", "the waiter went on and reads the old value");
        } else {
            VS_CHECK(!before, "watomic-missed", "timed out although the value had changed before the wait");
            VS_CHECK(vs::clock_ns() >= t0 + (k == 1 ? 5000000u : 0u), "watomic-timeout", "timed out too early");
        }
        vs::quiet q; res[i] = ok;
    });
    for (auto& t : ts) t.join();
    T v = static_cast<T>(a);
    VS_CHECK(v == neu, "watomic-value", "the stored value is gone");
    vs::quiet q;
    std::string o = text(tn, s); for (int r : res) o += char('1' + r);
    vf::outcome(o);
}
// no lost update between concurrent exchanges, and every waiter of a counting protocol gets through
static void counter(int threads, int steps, bool weak) {
    waitable_atomic<int> a{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) ts.emplace_back([&] {
        for (int i = 0; i < steps; ++i) {
            int e = a.load();
            for (;;) { int seen = e; bool r = weak ? a.compare_exchange_weak(e, e + 1) : a.compare_exchange_strong(e, e + 1); if (r) { VS_CHECK(e == seen, "watomic-cas", "a successful exchange changed the expected value"); break; } }
            a.notify_all();
        }
    });
    int last = 0;
    while (last != threads * steps) {
        a.wait(last);
        int n = a.load();
        VS_CHECK(n > last, "watomic-early", "woke without a change: %d after %d", n, last);
        last = n;
    }
    for (auto& t : ts) t.join();
    int v = a.load();
    VS_CHECK(v == threads * steps, "watomic-lost-update", "%d increments gave %d", threads * steps, v);
}
// hand over back and forth
static void pingpong(int rounds) {
    waitable_atomic<bool> a{false};
    int data = 0;
    std::thread t([&] { for (int i = 0; i < rounds; ++i) { a.wait(false); ++data; a.store(false); a.notify_one(); } });
    for (int i = 0; i < rounds; ++i) { ++data; a.store(true); a.notify_one(); a.wait(true); }
    t.join();
    VS_CHECK(data == 2 * rounds, "watomic-order", "%d handovers counted %d", rounds, data);
}

int main(int argc, char** argv) {
    vf::init(argc, argv);
    bool th = vf::thorough();
    std::vector<scen> ss;
    for (int w = 0; w <= 4; ++w) {
        for (int a = 0; a <= 3; ++a) { ss.push_back({{a}, {w}}); for (int b = a; b <= 3; ++b) ss.push_back({{a, b}, {w}}); }
        ss.push_back({{0, 0, 0}, {w}}); ss.push_back({{0, 1, 2}, {w}});
        for (int w2 = w; w2 <= 4; ++w2) for (int a = 0; a <= 2; ++a) ss.push_back({{a}, {w, w2}});
    }
    vs::options o; o.spurious = true;
    std::size_t u = 0;
    auto pre = [&](scen const& s) { std::size_t n = s.waiters.size() + s.writers.size(); return th ? (n <= 2 ? 6 : n == 3 ? 4 : 3) : (n <= 2 ? 4 : n == 3 ? 2 : 1); };
    for (auto& s : ss) {
        o.preempt = pre(s);
        if (vf::mine(u++)) vs::explore(text("bool", s), o, [&] { body<bool>("bool", s); });
        if (vf::mine(u++)) vs::explore(text("int", s), o, [&] { body<int>("int", s); });
        if (vf::shard() == 0) vf::sample(text("int", s));
    }
    for (int t = 1; t <= 2; ++t) for (int k = 1; k <= (th ? 3 : 2); ++k) for (bool w : {false, true}) { o.preempt = th ? 4 : (t == 1 ? 3 : 2); if (vf::mine(u++)) vs::explore(vf::strf("counter %d x %d", t, k), o, [&] { counter(t, k, w); }); }
    for (int r = 1; r <= (th ? 4 : 3); ++r) { o.preempt = th ? 4 : 3; if (vf::mine(u++)) vs::explore(vf::strf("ping-pong %d", r), o, [&] { pingpong(r); }); }
    vf::bound_note("bool and int; 1..3 waiters of 4 kinds, 1..2 writers of 5 kinds, counters with 1..2 writers and a follower, hand-over; every schedule with up to 1-4 (thorough 3-6) deviations: preemptions, timeouts while others can run, spurious wakeups");
    return vf::finish();
}
