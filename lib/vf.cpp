#include "vf.h"
#include <atomic>
#include <chrono>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>

namespace vf {
counters cnt{};
namespace {
std::string g_id, g_tier{"quick"}, g_out, g_replay, g_known, g_cur;
std::uint64_t g_seed{1};
unsigned g_shard{0}, g_nshards{1};
std::vector<std::string> g_samples, g_assume, g_bounds;
std::map<std::string, std::uint64_t> g_notes;
std::unordered_set<std::string> g_outcomes;
std::set<std::string> g_known_keys, g_known_hit;
std::map<std::string, std::string> g_known_text;
bool g_exhaustive{true};
char* g_curbuf{};
constexpr std::size_t curcap = 65536;
std::atomic<std::uint64_t> g_tick{0};
std::atomic<unsigned> g_hang{60};
std::string jesc(std::string_view s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
}

void init(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--id") g_id = v;
        else if (k == "--tier") g_tier = v;
        else if (k == "--out") g_out = v;
        else if (k == "--replay") g_replay = v;
        else if (k == "--known") g_known = v;
        else if (k == "--cur") g_cur = v;
        else if (k == "--shard") g_shard = (unsigned)atoi(v.c_str());
        else if (k == "--nshards") g_nshards = (unsigned)atoi(v.c_str());
        else if (k == "--seed") g_seed = std::strtoull(v.c_str(), nullptr, 10);
    }
    if (!g_known.empty()) {
        std::ifstream f(g_known);
        std::string line;
        // known: property=<id> key=<key> <text>
        while (std::getline(f, line)) {
            if (line.rfind("known: ", 0) != 0) continue;
            auto p = line.find("property=" + g_id + " ");
            if (p == std::string::npos) continue;
            auto k = line.find("key=");
            if (k == std::string::npos) continue;
            auto e = line.find(' ', k);
            auto key = line.substr(k + 4, e == std::string::npos ? e : e - k - 4);
            g_known_keys.insert(key);
            g_known_text[key] = e == std::string::npos ? "" : line.substr(e + 1);
        }
    }
    if (!g_cur.empty()) {
        int fd = open(g_cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, curcap) == 0) {
            void* p = mmap(nullptr, curcap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) g_curbuf = static_cast<char*>(p);
            close(fd);
        }
    }
    std::thread([] {
        std::uint64_t last = 0; unsigned same = 0;
        for (;;) {
            usleep(500000);
            auto t = g_tick.load();
            if (t == last) ++same; else { same = 0; last = t; }
            if (g_hang && same > g_hang * 2) {
                static char const m[] = "vf: HANG: one case did not finish in its time limit\n";
                (void)!write(2, m, sizeof m - 1);
                _exit(97);
            }
        }
    }).detach();
}
bool thorough() { return g_tier == "thorough"; }
std::uint64_t seed() { return g_seed; }
unsigned shard() { return g_shard; }
unsigned nshards() { return g_nshards; }
std::string const& id() { return g_id; }
void hang_limit(unsigned s) { g_hang = s; }
void tick() { g_tick.fetch_add(1, std::memory_order_relaxed); }
void at(char const* fmt, ...) {
    g_tick.fetch_add(1, std::memory_order_relaxed);
    if (!g_curbuf) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_curbuf, curcap, fmt, ap);
    va_end(ap);
}
void sample(std::string s) { if (g_samples.size() < 8) g_samples.push_back(std::move(s)); }
void note(std::string k, std::uint64_t v) { g_notes[k] = v; }
void assume(std::string s) { g_assume.push_back(std::move(s)); }
void bound_note(std::string s) { g_bounds.push_back(std::move(s)); }
void outcome(std::string const& s) { if (g_outcomes.size() < 200000) g_outcomes.insert(s); }
void exhaustive(bool v) { g_exhaustive = v; }

static void write_out(int violations) {
    if (g_out.empty()) return;
    std::ofstream f(g_out);
    f << "{\"states\":" << cnt.states << ",\"transitions\":" << cnt.transitions << ",\"traces\":" << cnt.traces
      << ",\"distinct_outcomes\":" << g_outcomes.size() << ",\"exhaustive\":" << (g_exhaustive ? "true" : "false")
      << ",\"violations\":" << violations << ",\"samples\":[";
    for (std::size_t i = 0; i < g_samples.size(); ++i) f << (i ? "," : "") << '"' << jesc(g_samples[i]) << '"';
    f << "],\"bounds\":[";
    for (std::size_t i = 0; i < g_bounds.size(); ++i) f << (i ? "," : "") << '"' << jesc(g_bounds[i]) << '"';
    f << "],\"assumptions\":[";
    for (std::size_t i = 0; i < g_assume.size(); ++i) f << (i ? "," : "") << '"' << jesc(g_assume[i]) << '"';
    f << "],\"notes\":{";
    bool first = true;
    for (auto& [k, v] : g_notes) { f << (first ? "" : ",") << '"' << jesc(k) << "\":" << v; first = false; }
    f << "}}\n";
}

void violation(std::string const& key, std::string const& detail) {
    if (g_known_keys.count(key)) {
        if (g_known_hit.insert(key).second) {
            printf("KNOWN-FINDING: property=%s key=%s %s\n", g_id.c_str(), key.c_str(), g_known_text[key].c_str());
            fflush(stdout);
        }
        return;
    }
    if (!g_replay.empty()) {
        std::ofstream f(g_replay);
        f << "property: " << g_id << "\nkey: " << key << "\ncase: " << (g_curbuf ? g_curbuf : "") << "\ndetail: " << detail << "\n";
    }
    write_out(1);
    fprintf(stderr, "violation key=%s case=[%s] %s\n", key.c_str(), g_curbuf ? g_curbuf : "", detail.c_str());
    fflush(stderr);
    _exit(96);
}
int finish() {
    write_out(0);
    fflush(stdout);
    return 0;
}
std::string hexs(std::string_view s) {
    std::string o;
    char b[4];
    for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; }
    return o.empty() ? std::string{"(empty)"} : o;
}
std::string strf(char const* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char buf[8192];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}
} // namespace vf
