// Systematic schedule exploration of the real (multi-threaded) code.
// The code under test and the driver are compiled with -fsanitize=thread but linked with sched/rt.cpp instead of the
// thread-sanitizer runtime: every thread is a fiber, every synchronisation operation is a scheduling point, and
// explore() runs the body under every schedule with at most `preempt` preemptions. A vector-clock race detector, a
// use-after-free detector and deadlock / livelock detection run in every explored schedule.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
namespace vs {
struct options {
    int preempt{2};                 // deviations from "run until blocked" allowed per schedule
    std::uint64_t max_execs{0};     // 0: no limit
    int max_steps{20000};           // longer fair schedules count as livelock
    bool races{true};
    std::size_t cache{4000000};     // remembered states (0: no state caching)
    bool unlock_points{false};      // also preempt before unlocking (needed where try_lock or timed locks are used)
    bool spurious{false};           // spurious wakeups of condition variables, each counts as a deviation
};
// returns the number of schedules. The body runs as thread 0 and creates threads with std::thread.
std::uint64_t explore(std::string const& name, options opt, std::function<void()> const& body);
int choose(int n);                  // a choice of the environment: every value is explored
void wait_quiescent();              // blocks until no other thread can run (all blocked or finished)
int live_threads();                 // threads created and not finished, except the caller
void point();                       // an explicit scheduling point
std::uint64_t now();                // logical time: number of steps so far in this schedule
std::uint64_t clock_ns();           // virtual clock
void advance_clock(std::uint64_t ns);
void fail(std::string const& key, std::string const& detail);
bool active();
unsigned self();
// suppress instrumentation and scheduling for harness bookkeeping
struct quiet { quiet(); ~quiet(); };
// harness bookkeeping that checks depend on: tells the state cache that the order of these accesses matters
void mark(void const* obj, bool write);
template <class T> struct var {
    T v{};
    var() = default; var(T x) : v(x) {}
    T get() const { quiet q; mark(this, false); return v; }
    void set(T x) { quiet q; mark(this, true); v = x; }
    T add(T x) { quiet q; mark(this, true); v = v + x; return v; }
};
std::string const& history();       // text log of this schedule, shown with a violation
void log(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
}
#define VS_CHECK(cond, key, ...) do { if (!(cond)) { ::vs::quiet q_; ::vs::fail((key), ::vf::strf(__VA_ARGS__)); } } while (0)
