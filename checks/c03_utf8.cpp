// C03: the UTF-8 scanner used by string functions and LIKE: stays inside the string, classifies every position as the
// scanner grammar says (ASCII, or lead byte c2-df/e0-ef/f0-f4 followed by 1/2/3 continuation bytes).
#include "vf.h"
#include <jogasaki/utils/utf8_utils.h>
#include <memory>
using namespace jogasaki::utils;
static int ref_len(unsigned char const* p, std::size_t n) {
    if (n == 0) return 0;
    unsigned c = p[0]; int l = c <= 0x7f ? 1 : c >= 0xc2 && c <= 0xdf ? 2 : c >= 0xe0 && c <= 0xef ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
    if (l == 0 || (std::size_t) l > n) return 0;
    for (int i = 1; i < l; ++i) if (p[i] < 0x80 || p[i] > 0xbf) return 0;
    return l;
}
static void one(std::string const& s) {
    // exact heap copy without terminator
    std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]); memcpy(b.get(), s.data(), s.size());
    std::string_view v(b.get(), s.size());
    auto* p = reinterpret_cast<unsigned char const*>(b.get());
    std::string cls;
    for (std::size_t o = 0; o <= s.size() + 1; ++o) {
        auto e = detect_next_encoding(v, o);
        std::size_t l = get_byte(e), r = o < s.size() ? ref_len(p + o, s.size() - o) : 0;
        VF_CHECK(l == r, "utf8-detect", "string %s offset %zu: %zu bytes, expected %zu", vf::hexs(s).c_str(), o, l, r);
        VF_CHECK((e == encoding_type::INVALID) == (r == 0), "utf8-kind", "string %s offset %zu", vf::hexs(s).c_str(), o);
        cls += char('0' + l); vf::step();
    }
    bool valid = true; std::size_t o = 0;
    while (o < s.size()) { int l = ref_len(p + o, s.size() - o); if (!l) { valid = false; break; } o += l; }
    VF_CHECK(is_valid_utf8(v) == valid, "utf8-valid", "string %s: valid=%d expected %d", vf::hexs(s).c_str(), (int) is_valid_utf8(v), (int) valid);
    vf::step(); vf::state(); vf::trace();
    vf::outcome(cls + (valid ? "v" : "i"));
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    for (int c = 0; c < 256; ++c) VF_CHECK(is_continuation_byte((unsigned char) c) == ((c & 0xc0) == 0x80), "utf8-cont", "%02x", c);
    std::string all; for (int c = 0; c < 256; ++c) all += (char) c;
    vf::bound_note("all strings up to length 2 over all 256 bytes; all strings up to length 5 (7 thorough) over {00,41,7f,80,bf,c1,c2,df,e0,ed,ef,f0,f4,f5,ff}; every offset, including past the end");
    vf::at("short strings");
    if (vf::shard() == 0) vf::all_strings(all, 2, [](auto& s) { one(s); });
    std::string al("\x00\x41\x7f\x80\xbf\xc1\xc2\xdf\xe0\xed\xef\xf0\xf4\xf5\xff", 15);
    std::uint64_t u = 0;
    vf::all_strings(al, vf::thorough() ? 6 : 5, [&](auto& s) { if (!vf::mine(u++)) return; if ((u & 255) < 16) vf::at("string %s", vf::hexs(s).c_str()); one(s); });
    // a complete or truncated sequence at every end position after a prefix
    for (auto& tail : {std::string("\xc3"), std::string("\xe3\x81"), std::string("\xe3"), std::string("\xf0\x9f\x98"), std::string("\xf0\x9f"), std::string("\xf0"), std::string("\xf0\x9f\x98\x80"), std::string("\xe3\x81\x82"), std::string("\xc3\xa9")})
        for (std::size_t l = 0; l <= 40; ++l) for (auto& unit : {std::string("a"), std::string("\xc3\xa9"), std::string("\xe3\x81\x82")}) {
            std::string s; while (s.size() < l) s += unit; s += tail; vf::at("prefix+tail %s", vf::hexs(s).c_str()); one(s); }
    vf::sample("41c3 (truncated), e381 82, f4 bf bf bf, ...");
    return vf::finish();
}
