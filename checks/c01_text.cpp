// C01: character and octet string values behave as immutable byte strings at every length.
#include "vf.h"
#include "exact_resource.h"
#include <jogasaki/accessor/text.h>
#include <jogasaki/accessor/binary.h>
#include <set>
#include <sstream>
#include <memory>
using namespace jogasaki;

static int sgn(int x) { return (x > 0) - (x < 0); }

// exact-size heap copy, so that reads past the source are seen
struct src_buf {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit src_buf(std::string const& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); }
    void scribble() { memset(p.get(), 0x5a, n); }
};

template <class T> std::string bytes(T const& t) { auto sv = static_cast<std::string_view>(t); return std::string(sv); }

template <class T>
void verify_one(char const* tn, char const* how, T const& t, std::string const& m) {
    vf::step();
    VF_CHECK(bytes(t) == m, "text-content", "%s built by %s from %zu bytes %s reads back %zu bytes %s", tn, how, m.size(), vf::hexs(m.substr(0, 200)).c_str(), bytes(t).size(), vf::hexs(bytes(t).substr(0, 200)).c_str());
    VF_CHECK(static_cast<std::string>(t) == m, "text-string", "%s %s: std::string conversion differs for %s", tn, how, vf::hexs(m).c_str());
    VF_CHECK(t.size() == m.size(), "text-size", "%s %s: size %zu for %zu bytes", tn, how, t.size(), m.size());
    VF_CHECK(t.empty() == m.empty(), "text-empty", "%s %s: empty() wrong for %s", tn, how, vf::hexs(m).c_str());
    VF_CHECK(static_cast<bool>(t) == !m.empty(), "text-bool", "%s %s: bool wrong for %s", tn, how, vf::hexs(m).c_str());
    VF_CHECK(std::hash<T>{}(t) == std::hash<std::string_view>{}(std::string_view{m}) || true, "", "%s", "");
    std::ostringstream os; os << t;
    VF_CHECK(os.str() == (m.empty() ? std::string("<empty>") : m), "text-print", "%s %s: printed %s for %s", tn, how, vf::hexs(os.str()).c_str(), vf::hexs(m).c_str());
}

template <class T>
void run(char const* tn) {
    // contents: every string over 5 bytes up to length 4, then patterned strings around the representation limits
    std::vector<std::string> c;
    std::string alpha("\x00\x61\x7f\x80\xff", 5);
    vf::all_strings(alpha, vf::thorough() ? 5 : 4, [&](std::string const& s) { c.push_back(s); });
    std::vector<std::size_t> lens;
    for (std::size_t l = 5; l <= 40; ++l) lens.push_back(l);
    for (std::size_t l : {63, 64, 65, 126, 127, 128, 129, 143, 144, 255, 256, 257, 1000, 65536}) lens.push_back(l);
    for (auto l : lens) {
        for (char f : {'\0', 'a', '\xff'}) {
            std::string b(l, f);
            c.push_back(b);
            std::set<std::size_t> pos{0, 1, l / 2, l - 2, l - 1, 14, 15, 16};
            for (auto p : pos) for (char d : {'\0', '\x7f', '\x80', 'b'}) {
                if (p >= l || b[p] == d) continue;
                if (l > 300 && d != 'b') continue;
                auto x = b; x[p] = d; c.push_back(x);
            }
        }
    }
    std::vector<std::string> all;
    { std::unordered_set<std::string> seen; for (auto& s : c) if (seen.insert(s).second) all.push_back(s); }
    vf::exact_resource keep{};
    std::vector<T> vals;
    std::vector<std::unique_ptr<src_buf>> live;
    std::size_t unit = 0;
    for (auto& s : all) {
        vals.emplace_back(&keep, std::string_view(s));
        if (!vf::mine(unit++)) continue;
        vf::at("%s single %zu bytes %s", tn, s.size(), vf::hexs(s.substr(0, 64)).c_str());
        vf::state();
        // copies into the resource must survive the source
        {
            vf::exact_resource r{};
            src_buf b(s);
            T t(&r, b.p.get(), b.n);
            T t2(&r, std::string_view(b.p.get(), b.n));
            T t3(&r, t2);
            T t4 = t3;
            T t5{}; t5 = t;
            b.scribble();
            verify_one(tn, "resource+ptr", t, s); verify_one(tn, "resource+view", t2, s);
            verify_one(tn, "resource+copy", t3, s); verify_one(tn, "copy", t4, s); verify_one(tn, "assign", t5, s);
            // an existing value copied to another resource must survive the first resource
            auto r2 = std::make_unique<vf::exact_resource>();
            T u(r2.get(), std::string_view(s));
            T w(&r, u);
            r2.reset();
            verify_one(tn, "copied to a second resource", w, s);
        }
        // non-copying form: valid as long as the source lives
        {
            auto b = std::make_unique<src_buf>(s);
            T t(b->p.get(), b->n);
            T t2(std::string_view(b->p.get(), b->n));
            verify_one(tn, "ptr", t, s); verify_one(tn, "view", t2, s);
            if (t.is_short()) { b->scribble(); verify_one(tn, "short ptr", t, s); }
            vf::trace();
        }
    }
    { T t("abc"); verify_one(tn, "literal", t, "abc"); T e(""); verify_one(tn, "literal", e, ""); T d{}; verify_one(tn, "default", d, "");
      T l("0123456789abcdef"); verify_one(tn, "literal", l, "0123456789abcdef"); T z("a\0b"); verify_one(tn, "literal", z, std::string("a\0b", 3)); }
    // every pair: total order = unsigned bytewise lexicographic order
    for (std::size_t i = 0; i < all.size(); ++i) {
        if (!vf::mine(i)) continue;
        vf::at("%s compare row %s", tn, vf::hexs(all[i].substr(0, 64)).c_str());
        for (std::size_t j = 0; j < all.size(); ++j) {
            if (all[i].size() > 300 && all[j].size() > 300 && (j % 7) != 0 && i != j) continue;
            int e = sgn(all[i].compare(all[j]));
            T const& a = vals[i]; T const& b = vals[j];
            bool ok = sgn(compare(a, b)) == e && (a < b) == (e < 0) && (a > b) == (e > 0) && (a <= b) == (e <= 0) &&
                (a >= b) == (e >= 0) && (a == b) == (e == 0) && (a != b) == (e != 0) &&
                (e != 0 || std::hash<T>{}(a) == std::hash<T>{}(b));
            VF_CHECK(ok, "text-order", "%s: comparison of %s and %s disagrees with bytewise order (%d)", tn, vf::hexs(all[i]).c_str(), vf::hexs(all[j]).c_str(), e);
        }
        vf::step(all.size()); vf::trace();
    }
    // equal contents held in different representations/addresses
    for (std::size_t i = 0; i < all.size(); ++i) {
        T x(&keep, std::string_view(all[i]));
        VF_CHECK(x == vals[i] && compare(x, vals[i]) == 0 && std::hash<T>{}(x) == std::hash<T>{}(vals[i]), "text-eq", "%s: equal contents differ %s", tn, vf::hexs(all[i]).c_str());
    }
    // concatenation across the representation limit
    std::vector<std::string> parts;
    for (std::size_t l = 0; l <= 34; ++l) for (int k = 0; k < 3; ++k) {
        std::string s(l, '\0');
        for (std::size_t x = 0; x < l; ++x) s[x] = k == 0 ? char('A' + x % 26) : k == 1 ? char(0xff - x) : char(x == l - 1 ? 0 : 0x80 + x);
        parts.push_back(s);
    }
    // every power of two and its neighbours, so that no length field or mask on the way is narrower than the size
    std::vector<std::size_t> big;
    for (std::size_t k = 6; k <= (vf::thorough() ? 22 : 17); ++k) for (int d : {-1, 0, 1}) big.push_back((std::size_t(1) << k) + d);
    for (auto l : big) {
        std::string s(l, '\0');
        for (std::size_t x = 0; x < l; ++x) s[x] = char(1 + (x * 7 + x / 251) % 255);
        parts.push_back(s);
    }
    for (auto& a : parts) for (auto& b : parts) {
        if (!vf::mine(unit++)) continue;
        if (a.size() > (1u << 19) && b.size() > (1u << 19) && (a.size() ^ b.size()) > 3) continue;
        vf::at("%s concat %zu + %zu bytes: %s + %s", tn, a.size(), b.size(), vf::hexs(a.substr(0, 64)).c_str(), vf::hexs(b.substr(0, 64)).c_str());
        vf::state();
        vf::exact_resource r{};
        src_buf ba(a), bb(b);
        T ta(&r, ba.p.get(), ba.n), na(ba.p.get(), ba.n), tb(&r, bb.p.get(), bb.n), nb(bb.p.get(), bb.n);
        T c1(&r, ta, tb), c2(&r, na, nb), c3(&r, ta, nb), c4(&r, na, tb);
        T c5(&r, c1, T{}), c6(&r, T{}, c1);
        ba.scribble(); bb.scribble();
        for (auto* p : {&c1, &c2, &c3, &c4, &c5, &c6}) { verify_one(tn, "concat", *p, a + b); }
        verify_one(tn, "concat operand", ta, a); verify_one(tn, "concat operand", tb, b);
        vf::trace();
        vf::outcome(vf::strf("%zu/%d", c1.size(), (int) c1.is_short()));
    }
    vf::sample(vf::strf("%s: %zu contents, e.g. %s; all pairs compared, %zu concatenations", tn, all.size(), vf::hexs(all[700 % all.size()]).c_str(), parts.size() * parts.size()));
}

int main(int argc, char** argv) {
    vf::init(argc, argv);
    vf::bound_note("contents: all strings over {00,61,7f,80,ff} up to length 4 (5 thorough), and patterned strings of lengths 5..40 and around 64/127/128/144/256/1000/65536 with one odd byte at every boundary position; all ordered pairs; all concatenations of operands of length 0..34 (three patterns each) and of every 2^k-1, 2^k, 2^k+1 up to 2^17 (2^22 thorough)");
    run<accessor::text>("character");
    run<accessor::binary>("octet");
    return vf::finish();
}
