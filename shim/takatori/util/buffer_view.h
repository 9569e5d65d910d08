// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <takatori/util/basic_buffer_view.h>
namespace takatori::util { using buffer_view = basic_buffer_view<char>; using const_buffer_view = basic_buffer_view<char const>; }
