// What the monitor does when the library's assert() fires. glibc's assert() calls __assert_fail(), which is overridden
// in vassert.cpp.
#pragma once
namespace vassert
{
// Number of the assertion expectation; if true, a firing assertion ends the (forked) process with code 42.
extern bool expectAbort;
} // namespace vassert
