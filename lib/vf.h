// Common support of the sequential (enumerating) checks and of the schedule explorer drivers.
// A harness enumerates a bounded space completely, calls the real code on every element and compares it with
// a reference model. Everything it counts is counted here and written to --out as JSON for the evidence file.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace vf {

struct counters {
    std::uint64_t states{};       // distinct states / inputs reached
    std::uint64_t transitions{};  // operations executed on the real code
    std::uint64_t traces{};       // complete sequences replayed on the real code and compared with the model
};
extern counters cnt;

void init(int argc, char** argv);
bool thorough();
std::uint64_t seed();
std::string const& id();
unsigned shard();
unsigned nshards();
// true if this shard owns the n-th unit of work
inline bool mine(std::uint64_t n);

// describes what is being run now; a crash, sanitizer report or hang is attributed to it
void at(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void sample(std::string s);          // keeps the first few
void note(std::string key, std::uint64_t value);  // extra integer for the evidence coverage
void assume(std::string s);
void bound_note(std::string s);      // text describing the bounds, goes in evidence coverage.bounds
void outcome(std::string const& s);  // distinct observed outcomes are counted
void exhaustive(bool v);

// report a violation (key identifies the failing input/site for the known-findings file). Does not return unless known.
void violation(std::string const& key, std::string const& detail);
int finish();  // writes the result, returns the exit code

std::string hexs(std::string_view s);
std::string strf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));

inline bool mine(std::uint64_t n) { return n % nshards() == shard(); }
// record one enumerated distinct case
inline void state() { ++cnt.states; }
inline void step(std::uint64_t n = 1) { cnt.transitions += n; }
inline void trace() { ++cnt.traces; }

// hang limit for one vf::at() interval
void hang_limit(unsigned seconds);
void tick();

// all strings over alphabet with length 0..maxlen, shortest first
inline void all_strings(std::string_view alphabet, std::size_t maxlen, std::function<void(std::string const&)> const& f) {
    for (std::size_t len = 0; len <= maxlen; ++len) {
        std::vector<std::size_t> ix(len, 0);
        std::string s(len, alphabet.empty() ? '\0' : alphabet[0]);
        for (;;) {
            f(s);
            std::size_t k = len;
            while (k > 0) {
                --k;
                if (++ix[k] < alphabet.size()) { s[k] = alphabet[ix[k]]; break; }
                ix[k] = 0; s[k] = alphabet[0];
                if (k == 0) { k = len + 1; break; }
            }
            if (len == 0 || k == len + 1) break;
        }
    }
}

} // namespace vf

#define VF_CHECK(cond, key, ...) do { if (!(cond)) ::vf::violation((key), ::vf::strf(__VA_ARGS__)); } while (0)
