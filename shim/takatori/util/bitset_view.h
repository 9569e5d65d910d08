// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <takatori/util/basic_bitset_view.h>
namespace takatori::util { using bitset_view = basic_bitset_view<char>; using const_bitset_view = basic_bitset_view<char const>; }
