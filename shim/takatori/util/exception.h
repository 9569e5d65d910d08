// Stand-in for the takatori library (absent here): the same interface as far as /repo's sources under check use it.
#pragma once
#include "stacktrace.h"
#include <memory>
#include <boost/exception/diagnostic_information.hpp>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace takatori::util {
template <class T> [[noreturn]] inline void throw_exception(T&& e) { throw std::forward<T>(e); }
}
