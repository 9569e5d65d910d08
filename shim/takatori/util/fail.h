// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <cstdlib>
namespace takatori::util { [[noreturn]] inline void fail() { std::abort(); } template <class M> [[noreturn]] inline void fail(M const&) { std::abort(); } }
