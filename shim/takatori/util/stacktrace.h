// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#define BOOST_STACKTRACE_USE_NOOP
#include <boost/stacktrace.hpp>
namespace takatori::util {
template <class E> boost::stacktrace::stacktrace const* find_trace(E const&) { return nullptr; }
}
