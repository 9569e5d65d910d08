// Exact decimal numbers for oracles.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include "anyval.h"
using big = boost::multiprecision::cpp_int;
struct Dec { big c; int e; };
inline Dec exact(triple t) { big c = t.coefficient_high(); c <<= 64; c += t.coefficient_low(); return {t.sign() < 0 ? -c : c, t.exponent()}; }
inline big p10(int n) { big r = 1; while (n-- > 0) r *= 10; return r; }
inline void align(Dec& a, Dec& b) { if (a.e > b.e) { a.c *= p10(a.e - b.e); a.e = b.e; } if (b.e > a.e) { b.c *= p10(b.e - a.e); b.e = a.e; } }
inline int cmp(Dec a, Dec b) { align(a, b); return a.c < b.c ? -1 : a.c > b.c; }
inline bool fits(Dec d) { while (d.c != 0 && d.c % 10 == 0) { d.c /= 10; ++d.e; } big m = d.c < 0 ? big(-d.c) : d.c; return m < p10(38); }
inline triple tri(long long c, int e) { unsigned long long m = c < 0 ? 0ULL - (unsigned long long) c : (unsigned long long) c; return triple{c == 0 ? 0 : c < 0 ? -1 : 1, 0, m, e}; }
inline triple trib(big c, int e) { bool n = c < 0; if (n) c = -c; return triple{c == 0 ? 0 : n ? -1 : 1, static_cast<u64>(c >> 64), static_cast<u64>(c & big(0xFFFFFFFFFFFFFFFFULL)), e}; }
