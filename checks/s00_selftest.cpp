// not a property: shows that the schedule explorer finds what it should find and stays quiet otherwise
#include "vf.h"
#include "vs.h"
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <shared_mutex>
int main(int argc, char** argv) {
    vf::init(argc, argv);
    std::string what = getenv("WHAT") ? getenv("WHAT") : "ok";
    vs::options o; o.preempt = 3;
    std::uint64_t n = 0;
    if (what == "ok") n = vs::explore("ok", o, [] {
        auto m = std::make_shared<std::mutex>(); int x = 0; std::atomic<int> a{0};
        std::thread t([&, m] { std::lock_guard g(*m); ++x; a.fetch_add(1); });
        std::thread u([&, m] { std::lock_guard g(*m); ++x; a.fetch_add(1); });
        while (a.load() != 2) std::this_thread::yield();
        t.join(); u.join();
        VS_CHECK(x == 2, "x", "%d", x);
    });
    if (what == "spin") n = vs::explore("spin", o, [] {
        std::atomic<bool> f{false}; int data = 0;
        std::thread t([&] { data = 1; f.store(true, std::memory_order_release); });
        while (!f.load(std::memory_order_acquire)) {}
        VS_CHECK(data == 1, "data", "%d", data);
        t.join();
    });
    if (what == "relaxed") n = vs::explore("relaxed", o, [] {
        std::atomic<bool> f{false}; int data = 0;
        std::thread t([&] { data = 1; f.store(true, std::memory_order_relaxed); });
        while (!f.load(std::memory_order_acquire)) {}
        VS_CHECK(data == 1, "data", "%d", data);
        t.join();
    });
    if (what == "lost") n = vs::explore("lost wakeup", o, [] {
        std::mutex m; std::condition_variable c; std::atomic<bool> f{false};
        std::thread t([&] { f = true; c.notify_one(); });
        { std::unique_lock l(m); while (!f) c.wait(l); }
        t.join();
    });
    if (what == "atomicity") n = vs::explore("atomicity", o, [] {
        std::atomic<int> a{0};
        auto f = [&] { int v = a.load(); a.store(v + 1); };
        std::thread t(f), u(f); t.join(); u.join();
        VS_CHECK(a == 2, "lost-update", "%d", a.load());
    });
    if (what == "deadlock") n = vs::explore("deadlock", o, [] {
        std::mutex a, b;
        std::thread t([&] { std::lock_guard x(a); std::lock_guard y(b); });
        std::thread u([&] { std::lock_guard x(b); std::lock_guard y(a); });
        t.join(); u.join();
    });
    if (what == "uaf") n = vs::explore("uaf", o, [] {
        struct S { std::mutex m; std::condition_variable c; bool d{false}; };
        auto s = std::make_unique<S>(); auto* p = s.get();
        std::thread t([p] { { std::lock_guard g(p->m); p->d = true; } p->c.notify_all(); });
        { std::unique_lock l(p->m); p->c.wait(l, [&] { return p->d; }); }
        s.reset();
        t.join();
    });
    if (what == "shared") n = vs::explore("shared", o, [] {
        std::shared_mutex m; int x = 0;
        std::thread t([&] { std::unique_lock l(m); ++x; });
        std::thread u([&] { std::shared_lock l(m); int y = x; (void)y; });
        { std::shared_lock l(m); int y = x; (void)y; }
        t.join(); u.join();
    });
    if (what == "timed") n = vs::explore("timed", o, [] {
        std::mutex m; std::condition_variable c; bool d = false;
        std::thread t([&] { { std::lock_guard g(m); d = true; } c.notify_all(); });
        bool r; { std::unique_lock l(m); r = c.wait_for(l, std::chrono::milliseconds(10), [&] { return d; }); }
        t.join();
        { vs::quiet q; vf::outcome(r ? "in time" : "timeout"); }
        try { throw 1; } catch (int) {}
    });
    printf("%s: %lu schedules\n", what.c_str(), (unsigned long)n);
    return vf::finish();
}
