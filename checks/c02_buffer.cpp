// C02: the growable byte buffer keeps exactly what was put in it, through every sequence of operations.
#include "vf.h"
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/data/binary_string_value.h>
#include <deque>
#include <optional>
#include <sstream>
using jogasaki::data::aligned_buffer;

struct model {               // known bytes: content the caller wrote or assigned; nullopt: unspecified
    std::vector<std::optional<unsigned char>> c;
    std::size_t cap{};
};
static unsigned char stamp;
static std::uint64_t g_states;
static std::unordered_set<std::string> seen;

static void compare(aligned_buffer const& b, model const& m, std::string const& h, std::size_t align) {
    VF_CHECK(b.size() == m.c.size(), "buf-size", "%s: size %zu expected %zu", h.c_str(), b.size(), m.c.size());
    VF_CHECK(b.empty() == m.c.empty(), "buf-empty", "%s: empty() wrong", h.c_str());
    VF_CHECK(b.capacity() >= b.size(), "buf-cap", "%s: capacity %zu below size %zu", h.c_str(), b.capacity(), b.size());
    VF_CHECK(static_cast<bool>(b) == (b.capacity() != 0), "buf-bool", "%s", h.c_str());
    VF_CHECK(b.alignment() == align, "buf-align", "%s: alignment became %zu", h.c_str(), b.alignment());
    VF_CHECK(b.size() == 0 || b.data() != nullptr, "buf-null", "%s: no storage", h.c_str());
    VF_CHECK(reinterpret_cast<std::uintptr_t>(b.data()) % align == 0, "buf-addr", "%s: storage not aligned to %zu", h.c_str(), align);
    auto sv = static_cast<std::string_view>(b);
    VF_CHECK(sv.size() == m.c.size() && (sv.empty() || sv.data() == static_cast<char*>(b.data())), "buf-view", "%s: view does not cover the data", h.c_str());
    for (std::size_t i = 0; i < m.c.size(); ++i)
        if (m.c[i]) VF_CHECK(static_cast<unsigned char>(sv[i]) == *m.c[i], "buf-content", "%s: byte %zu is %02x expected %02x", h.c_str(), i, (unsigned char) sv[i], *m.c[i]);
    std::string st = vf::strf("%zu/%zu/%zu:", b.size(), b.capacity(), align);
    for (auto& x : m.c) st += x ? 'k' : 'u';
    if (seen.insert(st).second) vf::state();
}
static void fill(aligned_buffer& b, model& m) {   // writing the whole capacity is allowed by the interface
    auto* p = static_cast<unsigned char*>(b.data());
    for (std::size_t i = 0; i < b.capacity(); ++i) p[i] = ++stamp;
    for (std::size_t i = 0; i < m.c.size(); ++i) m.c[i] = p[i];
}
static std::vector<std::size_t> const sizes{0, 1, 3, 8, 15, 16, 17};

static void apply(int op, aligned_buffer& b, model& m) {
    int n = (int) sizes.size();
    auto kept = [&](std::size_t sz) { m.c.resize(sz); };
    if (op < n) { b.resize(sizes[op]); kept(sizes[op]); }
    else if (op < 2 * n) {
        std::string s(sizes[op - n], '\0');
        for (auto& x : s) x = (char) ++stamp;
        auto& r = b.assign(std::string_view{s});
        VF_CHECK(&r == &b, "buf-ret", "assign returned another object");
        m.c.clear(); for (unsigned char x : s) m.c.push_back(x);
    } else if (op == 2 * n || op == 2 * n + 1) {  // another buffer, with spare capacity and other alignment
        std::size_t l = op == 2 * n ? 5 : 16;
        aligned_buffer o(24, 32); o.resize(l);
        auto* p = static_cast<unsigned char*>(o.data());
        m.c.clear();
        for (std::size_t i = 0; i < l; ++i) { p[i] = ++stamp; m.c.push_back(p[i]); }
        auto a = b.alignment(); b.assign(o); (void) a;
        VF_CHECK(o.size() == l && o.alignment() == 32, "buf-src", "assign changed its source");
    } else if (op == 2 * n + 2) { b.shrink_to_fit(); VF_CHECK(b.capacity() == b.size(), "buf-shrink", "capacity %zu after shrink of %zu", b.capacity(), b.size()); }
    else if (op == 2 * n + 3) { aligned_buffer t(std::move(b)); b = std::move(t); }
    else if (op == 2 * n + 4) { fill(b, m); }
}
static char const* opname(int op) {
    static std::string s; int n = (int) sizes.size();
    s = op < n ? vf::strf("resize(%zu)", sizes[op]) : op < 2 * n ? vf::strf("assign(%zu)", sizes[op - n]) : op == 2 * n ? "assign(buf5)" : op == 2 * n + 1 ? "assign(buf16)" :
        op == 2 * n + 2 ? "shrink" : op == 2 * n + 3 ? "move" : "fill";
    return s.c_str();
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    int nops = 2 * (int) sizes.size() + 5;
    int depth = vf::thorough() ? 5 : 4;
    vf::bound_note(vf::strf("every sequence of %d operations out of %d (resize/assign of sizes 0,1,3,8,15,16,17; assign from another buffer; shrink; move; write whole capacity), from buffers of capacity 0/8/16 and alignment 1/8/64", depth, nops));
    struct init { std::size_t cap, al; int kind; };
    std::vector<init> inits{{0, 1, 0}, {8, 1, 1}, {16, 8, 1}, {0, 64, 1}, {7, 1, 2}};
    std::uint64_t unit = 0;
    for (auto& in : inits) {
        std::vector<int> ix(depth, 0);
        for (;;) {
            if (vf::mine(unit++)) {
                stamp = 0;
                std::string h = vf::strf("init(cap %zu align %zu kind %d)", in.cap, in.al, in.kind);
                model m{};
                auto b = in.kind == 0 ? aligned_buffer{} : in.kind == 1 ? aligned_buffer(in.cap, in.al) : aligned_buffer(std::string_view("ab\0cdef", 7));
                if (in.kind == 2) for (char c : std::string("ab\0cdef", 7)) m.c.push_back((unsigned char) c);
                VF_CHECK(b.capacity() == in.cap, "buf-initcap", "%s: capacity %zu", h.c_str(), b.capacity());
                compare(b, m, h, in.al);
                std::string full = h;
                for (int k = 0; k < depth; ++k) full += std::string(" ") + opname(ix[k]);
                vf::at("%s", full.c_str());
                for (int k = 0; k < depth; ++k) { apply(ix[k], b, m); vf::step(); compare(b, m, full, in.al); }
                std::ostringstream os; os << b; b.dump(os); vf::trace();
            }
            int k = depth - 1;
            while (k >= 0 && ++ix[k] == nops) ix[k--] = 0;
            if (k < 0) break;
        }
    }
    for (auto& s : {std::string(), std::string("\0\xff\x80z", 4), std::string(100, 'q')}) {
        jogasaki::data::binary_string_value a{s}, c{std::string_view{s}}; auto d = a;
        VF_CHECK(a.str() == s && c.str() == s && d.str() == s, "bsv", "binary string value changed %s", vf::hexs(s).c_str());
    }
    vf::outcome("ok"); for (auto& s : seen) vf::outcome(s);
    vf::sample("e.g. init(cap 16 align 8) resize(17) assign(buf5) shrink move");
    return vf::finish();
}
