// C04: text made safe for clients: sanitize_utf8 output is always well-formed printable UTF-8 from which the input can be
// told; log text has no control characters.
#include "vf.h"
#include <jogasaki/utils/sanitize_utf8.h>
#include <jogasaki/utils/convert_control_characters.h>
#include <jogasaki/utils/string_utils.h>
#include <jogasaki/utils/string_manipulation.h>
#include <memory>
using namespace jogasaki::utils;
// strict RFC 3629 decoder: length of the well-formed sequence at p, code point in cp; 0 if ill-formed
static int strict(unsigned char const* p, std::size_t n, unsigned& cp) {
    if (!n) return 0;
    unsigned a = p[0];
    if (a < 0x80) { cp = a; return 1; }
    auto c = [&](std::size_t i, unsigned lo = 0x80, unsigned hi = 0xbf) { return i < n && p[i] >= lo && p[i] <= hi; };
    if (a >= 0xc2 && a <= 0xdf && c(1)) { cp = (a & 31) << 6 | (p[1] & 63); return 2; }
    if (a >= 0xe0 && a <= 0xef && c(1, a == 0xe0 ? 0xa0 : 0x80, a == 0xed ? 0x9f : 0xbf) && c(2)) { cp = (a & 15) << 12 | (p[1] & 63) << 6 | (p[2] & 63); return 3; }
    if (a >= 0xf0 && a <= 0xf4 && c(1, a == 0xf0 ? 0x90 : 0x80, a == 0xf4 ? 0x8f : 0xbf) && c(2) && c(3)) { cp = (a & 7) << 18 | (p[1] & 63) << 12 | (p[2] & 63) << 6 | (p[3] & 63); return 4; }
    return 0;
}
static bool printable(unsigned cp) { return !(cp < 0x20 || (cp >= 0x7f && cp <= 0x9f)); }
static std::string ref(std::string const& s) {
    std::string o; std::size_t i = 0; auto* p = (unsigned char const*) s.data();
    auto esc = [&](unsigned char b) { char t[8]; snprintf(t, sizeof t, "\\x{%02x}", b); o += t; };
    while (i < s.size()) {
        unsigned cp = 0; int l = strict(p + i, s.size() - i, cp);
        if (l && printable(cp)) o.append(s, i, l); else for (int k = 0; k < (l ? l : 1); ++k) esc(p[i + k]);
        i += l ? l : 1;
    }
    return o;
}
static std::string logref(std::string const& s) { std::string o; for (unsigned char c : s) { if (c >= 0x80) continue; o += c < 0x20 ? '!' : (char) c; } return o; }
static void one(std::string const& s) {
    std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]); memcpy(b.get(), s.data(), s.size());
    std::string_view v(b.get(), s.size());
    auto o = sanitize_utf8(v);
    VF_CHECK(o == ref(s), "sanitize", "input %s gave %s expected %s", vf::hexs(s).c_str(), vf::hexs(o).c_str(), vf::hexs(ref(s)).c_str());
    std::size_t i = 0;
    while (i < o.size()) { unsigned cp = 0; int l = strict((unsigned char const*) o.data() + i, o.size() - i, cp); VF_CHECK(l && printable(cp), "sanitize-valid", "input %s: output %s is not printable UTF-8", vf::hexs(s).c_str(), vf::hexs(o).c_str()); i += l; }
    VF_CHECK(sanitize_utf8(o) == o, "sanitize-idem", "input %s: not idempotent", vf::hexs(s).c_str());
    auto c = convert_control_characters(v);
    VF_CHECK(c == logref(s), "log-text", "input %s gave %s", vf::hexs(s).c_str(), vf::hexs(c).c_str());
    vf::state(); vf::step(3); vf::trace(); vf::outcome(vf::strf("%zu->%zu,%zu", s.size(), o.size(), c.size()));
}
static void trims(std::string const& s, std::vector<std::string> const& all) {
    std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]); memcpy(b.get(), s.data(), s.size());
    std::string_view v(b.get(), s.size());
    std::size_t f = 0, e = s.size();
    while (f < e && s[f] == ' ') ++f;
    auto l = ltrim(v);
    VF_CHECK(l == std::string_view(s).substr(f), "ltrim", "%s", vf::hexs(s).c_str());
    std::size_t e2 = s.size(); while (e2 > 0 && s[e2 - 1] == ' ') --e2;
    VF_CHECK(rtrim(v) == std::string_view(s).substr(0, e2), "rtrim", "%s", vf::hexs(s).c_str());
    vf::step(2);
    for (auto& p : all) {
        std::unique_ptr<char[]> pb(new char[p.size() ? p.size() : 1]); memcpy(pb.get(), p.data(), p.size());
        bool e3 = s.compare(0, p.size(), p) == 0 && p.size() <= s.size();
        VF_CHECK(is_prefix(v, std::string_view(pb.get(), p.size())) == e3, "is-prefix", "%s / %s", vf::hexs(s).c_str(), vf::hexs(p).c_str());
        vf::step();
    }
    vf::trace();
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    vf::bound_note("all strings up to length 2 over 256 bytes, every 3-byte string with a lead byte >= e0 (thorough: every 4-byte string over 24 boundary bytes), all strings up to length 4 over 24 boundary bytes; trims/prefix: all strings up to length 4 over {space,a,b,00,e3} and all pairs");
    std::string all; for (int c = 0; c < 256; ++c) all += (char) c;
    std::uint64_t u = 0;
    auto f = [&](std::string const& s) { if (!vf::mine(u++)) return; if ((u & 4095) < 8) vf::at("string near %s", vf::hexs(s).c_str()); one(s); };
    vf::at("short"); vf::all_strings(all, 2, f);
    for (int a = 0xe0; a < 256; ++a) for (int b = 0; b < 256; ++b) for (int c = 0x7c; c < 0xc4; ++c) f(std::string{(char) a, (char) b, (char) c});
    std::string al("\x00\x1f\x20\x41\x5c\x7e\x7f\x80\x8f\x90\x9f\xa0\xbf\xc1\xc2\xdf\xe0\xe1\xed\xef\xf0\xf4\xf5\xff", 24);
    vf::all_strings(al, vf::thorough() ? 5 : 4, f);
    std::vector<std::string> ts; vf::all_strings(std::string("\x20\x61\x62\x00\xe3", 5), 4, [&](auto& s) { ts.push_back(s); });
    for (auto& s : ts) if (vf::mine(u++)) { vf::at("trim/prefix %s", vf::hexs(s).c_str()); trims(s, ts); }
    vf::sample("ed a0 80 (surrogate), f4 90 80 80 (out of range), c2 85 (C1 control), e3 81 (truncated)");
    return vf::finish();
}
