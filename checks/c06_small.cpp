// C06: sizes, multiset difference and dump printers
#include "vf.h"
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <jogasaki/utils/round.h>
#include <jogasaki/utils/subtract_vectors.h>
#include <jogasaki/utils/binary_printer.h>
#include <jogasaki/utils/hex.h>
#include <jogasaki/utils/base_filename.h>
#include <jogasaki/utils/map_schema_name.h>
#include <jogasaki/utils/aligned_unique_ptr.h>
#include <jogasaki/logging_helper.h>

using namespace jogasaki;
using u128 = unsigned __int128;

static void pow2(std::size_t v) {
    vf::state(); vf::step(3); vf::trace();
    vf::at("round %zu", v);
    std::size_t down = 0;
    bool is = false;
    for (int k = 0; k < 64; ++k) { std::size_t p = std::size_t{1} << k; if (p <= v) down = p; if (p == v) is = true; }
    VF_CHECK(utils::is_power_of_two(v) == is, "pow2:is", "is_power_of_two(%zu)=%d", v, !is);
    VF_CHECK(utils::round_down_to_power_of_two(v) == down, "pow2:down", "round_down_to_power_of_two(%zu)=%zu expected %zu", v, utils::round_down_to_power_of_two(v), down);
    u128 up = 0;
    if (v) { up = 1; while (up < v) up *= 2; }
    if (up <= ~std::size_t{}) VF_CHECK(utils::round_up_to_power_of_two(v) == static_cast<std::size_t>(up), "pow2:up", "round_up_to_power_of_two(%zu)=%zu expected %zu", v, utils::round_up_to_power_of_two(v), static_cast<std::size_t>(up));
}

template <class T>
static void subtract(std::vector<T> const& alphabet, std::size_t maxlen) {
    std::vector<std::vector<T>> all{{}};
    for (std::size_t i = 0, b = 0; i < maxlen; ++i) { auto e = all.size(); for (; b < e; ++b) for (auto& a : alphabet) { auto v = all[b]; v.push_back(a); all.push_back(v); } }
    std::uint64_t n = 0;
    for (auto& x : all) for (auto& y : all) {
        if (!vf::mine(n++)) continue;
        vf::state(); vf::step(); vf::trace();
        std::multiset<T> m(x.begin(), x.end());
        for (auto& e : y) { auto it = m.find(e); if (it != m.end()) m.erase(it); }
        std::string d; for (auto& e : x) d += (std::ostringstream() << e).str() + ","; d += " minus "; for (auto& e : y) d += (std::ostringstream() << e).str() + ",";
        vf::at("subtract %s", d.c_str());
        auto x2 = x; auto y2 = y;
        auto r = utils::subtract_vectors(x, y);
        VF_CHECK(std::multiset<T>(r.begin(), r.end()) == m, "subtract:result", "%s gives %zu elements, expected %zu or other elements", d.c_str(), r.size(), m.size());
        VF_CHECK(x == x2 && y == y2, "subtract:argument", "%s: argument changed", d.c_str());
        vf::outcome(vf::strf("sub%zu", m.size()));
    }
}

static std::string hx(unsigned char c) { char b[3]; std::snprintf(b, 3, "%02x", c); return b; }

struct st { std::ios_base::fmtflags f; char fill; std::streamsize prec; };
static std::vector<st> states() {
    std::vector<st> r;
    for (auto base : {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct})
        for (auto adj : {std::ios_base::fmtflags{}, std::ios_base::internal, std::ios_base::right})
            for (auto up : {std::ios_base::fmtflags{}, std::ios_base::boolalpha})
                for (char fill : {' ', '*'}) r.push_back({base | adj | up, fill, 6});
    return r;
}
static void set(std::ostream& o, st const& s) { o.flags(s.f); o.fill(s.fill); o.precision(s.prec); }

static void printers() {
    std::string alpha("\x00\x01\x0f\x10\x41\x5c\x7f\x80\xff", 9);
    auto sts = states();
    std::uint64_t n = 0;
    vf::all_strings(alpha, 3, [&](std::string const& s) {
        if (!vf::mine(n++)) return;
        for (std::size_t bpl : {0, 1, 2}) for (bool hy : {true, false}) for (bool lit : {false, true}) for (std::size_t k = 0; k < (s.size() < 3 ? sts.size() : 2u); ++k) {
            vf::state(); vf::step(); vf::trace();
            vf::at("binary_printer %s bpl=%zu hyphen=%d literal=%d state=%zu", vf::hexs(s).c_str(), bpl, hy, lit, k);
            std::string exp;
            for (std::size_t i = 0; i < s.size(); ++i) {
                auto c = static_cast<unsigned char>(s[i]);
                if (lit) { exp += (c >= 0x20 && c < 0x7f) ? std::string(1, c) : "\\u00" + hx(c); continue; }
                if (i) { if (hy) exp += "-"; if (bpl && i % bpl == 0) exp += "\n"; }
                exp += hx(c);
            }
            std::string heap(s);   // exact storage
            auto* p = new char[s.size()]; std::memcpy(p, s.data(), s.size());
            std::ostringstream o; set(o, sts[k]);
            utils::binary_printer bp(p, s.size(), bpl);
            bp.show_hyphen(hy).cpp_literal(lit);

            o << bp;
            delete[] p;
            VF_CHECK(o.str() == exp, "binary_printer:text", "bytes %s printed '%s' expected '%s'", vf::hexs(s).c_str(), o.str().c_str(), exp.c_str());
            VF_CHECK(o.flags() == sts[k].f && o.fill() == sts[k].fill && o.width() == 0 && o.precision() == sts[k].prec, "binary_printer:state", "stream format changed by printing %s", vf::hexs(s).c_str());
            vf::outcome(vf::strf("bp%zu", exp.size()));
        }
        std::ostringstream o; o << utils::binary_printer(std::string_view(s));
        std::string exp; for (std::size_t i = 0; i < s.size(); ++i) exp += (i ? "-" : "") + hx(static_cast<unsigned char>(s[i]));
        VF_CHECK(o.str() == exp, "binary_printer:view", "view %s printed '%s'", vf::hexs(s).c_str(), o.str().c_str());
    });
}

template <class T> static void hexes(std::vector<T> const& vals, char const* fmt, std::size_t dw) {
    for (auto v : vals) for (auto& s : states()) for (std::size_t w : {std::size_t{0}, std::size_t{1}, std::size_t{5}, dw, dw + 2}) {
        vf::state(); vf::step(2); vf::trace();
        vf::at("hex %llx width %zu", (unsigned long long) v, w);
        char raw[64]; std::snprintf(raw, sizeof raw, fmt, v);
        std::string e(raw); while (e.size() < w) e.insert(0, "0");
        std::ostringstream o; set(o, s);
        o << utils::hex(v, w);
        VF_CHECK(o.str() == e, "hex:text", "hex of %s width %zu printed '%s'", raw, w, o.str().c_str());
        VF_CHECK(o.flags() == s.f && o.fill() == s.fill && o.width() == 0, "hex:state", "stream format changed by hex of %s", raw);
        std::ostringstream o2; o2 << utils::hex(v);
        std::string e2(raw); while (e2.size() < dw) e2.insert(0, "0");
        VF_CHECK(o2.str() == e2, "hex:default", "hex of %s printed '%s'", raw, o2.str().c_str());
    }
}

int main(int argc, char** argv) {
    vf::init(argc, argv);
    vf::bound_note("power of two: every value below 2^20 and 2^i+-d, 2^i-2^j for all i,j; multiset difference: all pairs of vectors of length<=4 (quick) / 5 (thorough) over 3 values; printers: all byte strings of length<=3 over 9 byte classes x options x stream states");
    if (vf::shard() == 0) {
        std::size_t lim = vf::thorough() ? (1UL << 24) : (1UL << 20);
        for (std::size_t v = 0; v < lim; ++v) pow2(v);
        for (int i = 0; i < 64; ++i) { for (long d = -4; d <= 4; ++d) pow2((std::size_t{1} << i) + d); for (int j = 0; j < 64; ++j) { pow2((std::size_t{1} << i) - (std::size_t{1} << j)); pow2((std::size_t{1} << i) + (std::size_t{1} << j)); } }
        pow2(~std::size_t{});
        for (std::size_t al : {1, 8, 16, 64, 4096}) for (std::size_t sz : {1, 3, 8, 9, 64, 65, 4095, 4097, 70000}) {
            vf::state(); vf::step(); vf::at("make_aligned_array %zu %zu", al, sz);
            if (al < sizeof(void*)) continue;
            auto p = utils::make_aligned_array<char>(al, sz);
            VF_CHECK(p && reinterpret_cast<std::uintptr_t>(p.get()) % al == 0, "aligned", "array of size %zu not aligned to %zu", sz, al);
            std::memset(p.get(), 1, sz);
        }
        hexes<std::uint16_t>({0, 1, 0x9a, 0xabc, 0xffff}, "%x", 4);
        hexes<std::uint32_t>({0, 1, 0x10, 0xabcdef, 0x80000000u, 0xffffffffu}, "%x", 8);
        hexes<std::uint64_t>({0, 1, 0xfedcba9876543210ull, ~0ull}, "%lx", 16);
        hexes<std::int32_t>({0, 1, 0x7fffffff, -1}, "%x", 8);
        vf::all_strings("a/.", 8, [&](std::string const& s) {
            vf::state(); vf::step(); vf::at("basename %s", s.c_str());
            auto p = s.rfind('/');
            std::size_t e = p == std::string::npos ? 0 : p + 1;
            VF_CHECK(utils::basename_start(s.c_str()) == e, "basename", "basename_start(%s)=%zu", s.c_str(), utils::basename_start(s.c_str()));
        });
        for (std::string s : {"", "public", "Public", "publi", "publicx", "a", " public"}) {
            vf::state(); vf::step(); vf::at("schema %s", s.c_str());
            VF_CHECK(utils::map_schema_name_to_storage_namespace(s) == (s == "public" ? std::string{} : s), "schema", "schema '%s'", s.c_str());
        }
    }
    subtract<int>({1, 2, 3}, vf::thorough() ? 5 : 4);
    subtract<std::string>({"a", "b"}, 5);
    printers();
    return vf::finish();
}
