// C20: identifier hashing and the pseudo random generators
#include "vf.h"
#include <jogasaki/utils/hash_combine.h>
#include <jogasaki/utils/random.h>
#include <jogasaki/utils/split_mix64.h>
#include <algorithm>
#include <array>
#include <stdexcept>
#include <unordered_set>
using namespace jogasaki::utils;
namespace jogasaki::utils {
void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error("fail"); }
void fail_no_exception_impl(std::string_view, std::string_view, std::string_view) {}
}
using u64 = std::uint64_t; using u32 = std::uint32_t;
// inverse of the finalizer: each step is undone
static u64 inv_shift(u64 y, unsigned s) { u64 x = y; for (unsigned i = 0; i < 64; i += s) x = y ^ (x >> s); return x; }
static u64 inv_mul(u64 a) { u64 x = a; for (int i = 0; i < 6; ++i) x *= 2 - a * x; return x; }
static u64 unmix(u64 y) {
    y = inv_shift(y, 31); y *= inv_mul(0x94d049bb133111ebull);
    y = inv_shift(y, 27); y *= inv_mul(0xbf58476d1ce4e5b9ull);
    y = inv_shift(y, 30); return y - 0x9e3779b97f4a7c15ull;
}
static std::vector<u64> patterns() {
    std::vector<u64> r;
    for (u64 i = 0; i < 70000; ++i) { r.push_back(i); r.push_back(~i); r.push_back(i << 47); r.push_back(i * 0x100000001ull); }
    for (int i = 0; i < 64; ++i) for (int j = 0; j < 64; ++j) for (int k = 0; k < 64; k += 3) r.push_back((u64{1} << i) ^ (u64{1} << j) ^ (u64{1} << k));
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
// 64x64 matrices over GF(2), columns as words
using mat = std::array<u64, 64>;
static u64 mulv(mat const& m, u64 v) { u64 r = 0; for (int i = 0; i < 64; ++i) if (v >> i & 1) r ^= m[i]; return r; }
static mat mul(mat const& a, mat const& b) { mat r; for (int i = 0; i < 64; ++i) r[i] = mulv(a, b[i]); return r; }
static mat ident() { mat r; for (int i = 0; i < 64; ++i) r[i] = u64{1} << i; return r; }
static mat power(mat b, u64 e) { mat r = ident(); for (; e; e >>= 1, b = mul(b, b)) if (e & 1) r = mul(r, b); return r; }

int main(int argc, char** argv) {
    vf::init(argc, argv);
    vf::hang_limit(600);
    if (vf::shard() == 0) {
        vf::at("mixing");
        u64 ref[] = {0xe220a8397b1dcdafull, 0x6e789e6aa1b965f4ull, 0x06c45d188009454full, 0xf88bb8a8724c81ecull};
        for (u64 i = 0; i < 4; ++i) VF_CHECK(split_mix64(i * 0x9e3779b97f4a7c15ull) == ref[i], "mix-published", "output %lu differs from the published generator", (unsigned long) i);
        for (auto x : patterns()) { vf::state(); vf::step(); vf::trace(); VF_CHECK(unmix(split_mix64(x)) == x, "mix-one-to-one", "%lx is not recovered from its mixed value", (unsigned long) x); }
    }
    if (vf::shard() == 1) {
        vf::at("combining");
        std::vector<u64> xs; for (u64 i = 0; i < 600; ++i) { xs.push_back(i); } for (int i = 10; i < 64; ++i) { xs.push_back(u64{1} << i); xs.push_back(~(u64{1} << i)); }
        for (auto a : xs) { std::unordered_set<u64> seen, seen2; vf::tick();
            for (auto b : xs) { vf::state(); vf::step(); vf::trace();
                auto h = hash_combine(a, b);
                VF_CHECK(seen.insert(h).second, "combine-collision", "two second parts collide with first part %lx", (unsigned long) a);
                u64 e = a ^ (b + 0x9e3779b9u + (a << 6) + (a >> 2)); VF_CHECK(h == e, "combine-value", "%lx %lx gives %lx, expected %lx", (unsigned long) a, (unsigned long) b, (unsigned long) h, (unsigned long) e);
            } }
    }
    if (vf::shard() == 2) {
        // the 32 bit generator visits every value but 0 once before it repeats
        vf::at("32 bit generator: whole period");
        xorshift_random32 r(1); u64 n = 0; u32 v;
        do { v = r(); ++n; if ((n & 0xfffffff) == 0) vf::tick(); if (v == 0) vf::violation("random32-zero", "the generator reaches 0 and stays there"); } while (v != 1 && n <= 0xffffffffull);
        VF_CHECK(n == 0xffffffffull, "random32-period", "the period is %lu, expected 4294967295", (unsigned long) n);
        vf::cnt.states += n; vf::step(n); vf::trace();
        xorshift_random32 d; u32 y = 123456789; for (int i = 0; i < 1000; ++i) { y ^= y << 13; y ^= y >> 17; y ^= y << 5; VF_CHECK(d() == y, "random32-default", "output %d", i); }
    }
    if (vf::shard() == 3) {
        // the 64 bit generator is linear; its matrix has full order 2^64-1
        vf::at("64 bit generator");
        auto next = [](u64 s) { xorshift_random64 r(s); return r(); };
        mat m; for (int i = 0; i < 64; ++i) m[i] = next(u64{1} << i);
        for (auto x : patterns()) if (x) { vf::state(); vf::step(); vf::trace(); VF_CHECK(next(x) == mulv(m, x), "random64-linear", "the step from %lx", (unsigned long) x); }
        auto id = ident();
        VF_CHECK(power(m, ~u64{0}) == id, "random64-period", "the period does not divide 2^64-1");
        for (u64 p : {3ull, 5ull, 17ull, 257ull, 641ull, 65537ull, 6700417ull}) { vf::state(); VF_CHECK(power(m, ~u64{0} / p) != id, "random64-period", "the period divides (2^64-1)/%lu", (unsigned long) p); }
        xorshift_random64 d; u64 y = 88172645463325252ull; for (int i = 0; i < 1000; ++i) { y ^= y << 13; y ^= y >> 7; y ^= y << 17; VF_CHECK(d() == y, "random64-default", "output %d", i); }
    }
    if (vf::shard() == 4) {
        vf::at("seeding");
        for (u64 s = 0; s < 5000; ++s) {
            vf::state(); vf::step(4); vf::trace();
            auto bad = [&](auto f) { try { f(); } catch (std::logic_error&) { return true; } return false; };
            VF_CHECK(bad([&] { xorshift_random32 r((u32) s); }) == (s == 0) && bad([&] { xorshift_random64 r(s); }) == (s == 0), "random-seed", "seed %lu", (unsigned long) s);
            xorshift_random32 a; xorshift_random64 b; u32 x = 0; u64 y = 0;
            VF_CHECK(bad([&] { a.seed((u32) s); }) == (s == 0) && bad([&] { b.seed(s); }) == (s == 0), "random-seed", "reseeding with %lu", (unsigned long) s);
            if (s) { x = a(); y = b(); xorshift_random32 c((u32) s); xorshift_random64 e(s); VF_CHECK(c() == x && e() == y, "random-seed", "seed %lu does not repeat the sequence", (unsigned long) s); }
        }
    }
    vf::bound_note("whole period of the 32 bit generator (2^32-1 states); full order of the linear 64 bit generator from its matrix, linearity on 260 thousand patterns; mixing inverted on the same patterns; all pairs of 700 values combined");
    vf::sample("split_mix64(0) = e220a8397b1dcdaf");
    return vf::finish();
}
