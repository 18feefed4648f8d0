#include "vassert.h"
#include "mon.h"
#include <unistd.h>

namespace vassert
{
bool expectAbort = false;
}

extern "C" [[noreturn]] void
__assert_fail(const char * expr, const char * file, unsigned line, const char * func) noexcept
{
  if (vassert::expectAbort) {
    _exit(42);
  }
  mon::fail("assert() fired: %s at %s:%u (%s)", expr, file, line, func);
  std::fflush(stdout);
  _exit(5);
}
