// C05: base64 and hexadecimal conversions are exact inverses, and accept exactly the valid texts.
#include "vf.h"
#include <jogasaki/utils/base64_utils.h>
#include <jogasaki/utils/hex_to_octet.h>
#include <memory>
using namespace jogasaki::utils;
static char const* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_enc(std::string const& s) {
    std::string o; std::size_t n = s.size();
    for (std::size_t i = 0; i < n; i += 3) {
        unsigned a = (unsigned char) s[i], b = i + 1 < n ? (unsigned char) s[i + 1] : 0, c = i + 2 < n ? (unsigned char) s[i + 2] : 0;
        o += T[a >> 2]; o += T[(a & 3) << 4 | b >> 4]; o += i + 1 < n ? T[(b & 15) << 2 | c >> 6] : '='; o += i + 2 < n ? T[c & 63] : '=';
    }
    return o;
}
static bool ref_is(std::string const& s) {
    if (s.empty() || s.size() % 4) return false;
    std::size_t pads = 0; while (pads < 2 && pads < s.size() && s[s.size() - 1 - pads] == '=') ++pads;
    for (std::size_t i = 0; i + pads < s.size(); ++i) if (s[i] == 0 || !strchr(T, s[i])) return false;
    return true;
}
static std::string ref_dec(std::string const& s) {
    std::string o; unsigned buf = 0; int bits = 0;
    for (char c : s) { if (c == '=') break; buf = (buf << 6 | (unsigned) (strchr(T, c) - T)) & 0xffffff; bits += 6; if (bits >= 8) { bits -= 8; o += (char) (buf >> bits & 255); } }
    return o;
}
static void rt(std::string const& s) {
    std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]); memcpy(b.get(), s.data(), s.size());
    auto e = encode_base64(std::string_view(b.get(), s.size()));
    VF_CHECK(e == ref_enc(s), "b64-encode", "%s encoded as %s expected %s", vf::hexs(s).c_str(), e.c_str(), ref_enc(s).c_str());
    VF_CHECK(s.empty() || is_base64(e), "b64-accept-own", "own encoding %s refused", e.c_str());
    auto d = decode_base64(e);
    VF_CHECK(d == s, "b64-roundtrip", "%s came back as %s", vf::hexs(s).c_str(), vf::hexs(d).c_str());
    std::string h; char t[4]; for (unsigned char c : s) { snprintf(t, sizeof t, (c & 1) ? "%02x" : "%02X", c); h += t; }
    std::string out = "garbage";
    VF_CHECK(hex_to_octet(h, out) && out == s, "hex-roundtrip", "%s from %s", vf::hexs(out).c_str(), h.c_str());
    vf::state(); vf::step(4); vf::trace();
}
static bool hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void txt(std::string const& s) {
    std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]); memcpy(b.get(), s.data(), s.size());
    std::string_view v(b.get(), s.size());
    bool ok = is_base64(v);
    VF_CHECK(ok == ref_is(s), "b64-accept", "text %s: accepted=%d", vf::hexs(s).c_str(), (int) ok);
    if (ok) VF_CHECK(decode_base64(v) == ref_dec(s), "b64-decode", "text %s decoded as %s", vf::hexs(s).c_str(), vf::hexs(decode_base64(v)).c_str());
    vf::outcome(ok ? "b64" : "no"); vf::state(); vf::step(2); vf::trace();
}
static void hextxt(std::string const& s) {
    std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]); memcpy(b.get(), s.data(), s.size());
    bool e = s.size() % 2 == 0; std::string x;
    for (char c : s) e = e && hexd(c);
    if (e) for (std::size_t i = 0; i < s.size(); i += 2) x += (char) (hv(s[i]) * 16 + hv(s[i + 1]));
    std::string out(3, 'z');
    bool r = hex_to_octet(std::string_view(b.get(), s.size()), out);
    VF_CHECK(r == e, "hex-accept", "text %s: accepted=%d", vf::hexs(s).c_str(), (int) r);
    if (e) VF_CHECK(out == x, "hex-value", "text %s gave %s", vf::hexs(s).c_str(), vf::hexs(out).c_str());
    vf::state(); vf::step(); vf::trace();
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    vf::bound_note("round trip: all byte strings up to length 2, all of length 3 over 48 values, all up to length 9 (12 thorough) over {00,a5,ff}; acceptance: all texts up to length 4 over 20 characters and of length 5..8 over {A,/,=,!}; hex: all texts up to length 2 over 256 bytes and up to length 6 over 10 characters");
    std::string all; for (int c = 0; c < 256; ++c) all += (char) c;
    std::uint64_t u = 0;
    auto w = [&](void (*fn)(std::string const&)) { return [&u, fn](std::string const& s) { if (!vf::mine(u++)) return; if ((u & 4095) < 8) vf::at("near %s", vf::hexs(s).c_str()); fn(s); }; };
    vf::at("2 bytes"); vf::all_strings(all, 2, w(rt)); vf::all_strings(all, 2, w(txt)); vf::all_strings(all, 2, w(hextxt));
    std::string al; for (int i = 0; i < 256; i += vf::thorough() ? 3 : 8) { al += (char) i; } for (int i : {1, 3, 0x3f, 0x40, 0x7f, 0xbf, 0xc3, 0xfb, 0xfc, 0xfe, 0xff, 0xf0, 0x0f, 0xcc, 0x33}) if (al.find((char) i) == std::string::npos) al += (char) i;
    for (char a : al) for (char b : al) for (char c : al) w(rt)(std::string{a, b, c});
    vf::all_strings(std::string("\x00\xa5\xff", 3), vf::thorough() ? 12 : 9, w(rt));
    vf::all_strings(std::string("AZaz09+/=-_. \n\0\x80\xff@[`{:", 22), 4, w(txt));
    vf::all_strings("A/=!", 8, w(txt));
    vf::all_strings(std::string("09afAFgG@`/:\0 -", 15), 4, w(hextxt)); vf::all_strings("09aFgG", 6, w(hextxt));
    for (std::size_t l : {99, 100, 101, 1000, 4096, 65537}) { std::string s(l, 0); for (std::size_t i = 0; i < l; ++i) s[i] = (char) (i * 7 + (i >> 8)); vf::at("len %zu", l); rt(s); }
    vf::sample("ff a5 00 -> /6UA; texts: 'AA=A' refused, 'AA==' accepted");
    return vf::finish();
}
