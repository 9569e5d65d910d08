// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
namespace takatori::relation { enum class sort_direction { ascendant, descendant }; }
