// Pre-included into all simulated code: std::array's subscripts are checked like those of C arrays
// (-fsanitize=bounds), because overruns inside one stack frame cannot be seen from the addresses.
#pragma once
extern "C" void sim_index(unsigned long index, unsigned long size);
#include <initializer_list>
#include <debug/assertions.h>
#pragma push_macro("__glibcxx_requires_subscript")
#undef __glibcxx_requires_subscript
#define __glibcxx_requires_subscript(n) \
    if (__builtin_expect((n) >= this->size(), 0)) sim_index((n), this->size())
#include <array>
#pragma pop_macro("__glibcxx_requires_subscript")
