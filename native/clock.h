#pragma once
#include <chrono>
// the steady clock is under the control of the test
static long fake_ns = 1000000000l; static long clock_reads = 0;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { ++clock_reads; return time_point(duration(fake_ns)); } } } }
