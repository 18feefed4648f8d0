#include "mon.h"
#include <csignal>
#include <exception>
#include <unistd.h>

namespace mon
{
Options opt;

namespace
{
  struct Suite
  {
    const char * name;
    Fn fn;
  };
  Suite suites[4096];
  int numSuites = 0;

  uint64_t numEvals = 0;
  uint64_t numFailures = 0;

  // Open addressing set of signatures.
  constexpr size_t kCap = size_t(1) << 21;
  uint64_t * table = nullptr;
  uint64_t numDistinct = 0;

  struct Counter
  {
    const char * name;
    uint64_t n;
  };
  Counter counters[256];
  int numCounters = 0;

  char samples[24][1024];
  int numSamples = 0;

  const char * ctxSuite = "";
  char ctxDetail[512] = "";

  struct Tr
  {
    const char * op;
    long a, b, c;
  };
  constexpr int kTrace = 64;
  Tr traceBuf[kTrace];
  unsigned long traceLen = 0;

  void dump_trace()
  {
    unsigned long first = traceLen > kTrace ? traceLen - kTrace : 0;
    std::printf("    history (last %lu of %lu operations):\n", traceLen - first, traceLen);
    for (unsigned long i = first; i < traceLen; ++i) {
      Tr const & t = traceBuf[i % kTrace];
      std::printf("      #%lu %s(%ld,%ld,%ld)\n", i, t.op, t.a, t.b, t.c);
    }
  }

  void on_terminate()
  {
    std::printf("FAIL: std::terminate called in suite '%s' [%s]\n", ctxSuite, ctxDetail);
    dump_trace();
    std::fflush(stdout);
    _exit(3);
  }

  void on_signal(int sig)
  {
    std::printf("FAIL: signal %d in suite '%s' [%s]\n", sig, ctxSuite, ctxDetail);
    dump_trace();
    std::fflush(stdout);
    _exit(4);
  }
} // namespace

void eval(uint64_t n) { numEvals += n; }

void seen(uint64_t s)
{
  if (!table) {
    table = static_cast<uint64_t *>(std::calloc(kCap, sizeof(uint64_t)));
  }
  if (s == 0) {
    s = 1;
  }
  if (numDistinct * 2 > kCap) {
    return; // saturated; the count is then a lower bound
  }
  size_t i = static_cast<size_t>(s * 0x9E3779B97F4A7C15ull >> 20) & (kCap - 1);
  while (table[i] != 0 && table[i] != s) {
    i = (i + 1) & (kCap - 1);
  }
  if (table[i] == 0) {
    table[i] = s;
    ++numDistinct;
  }
}

void count(const char * name, uint64_t n)
{
  for (int i = 0; i < numCounters; ++i) {
    if (counters[i].name == name || std::strcmp(counters[i].name, name) == 0) {
      counters[i].n += n;
      return;
    }
  }
  if (numCounters < 256) {
    counters[numCounters++] = Counter{name, n};
  }
}

void sample(const char * fmt, ...)
{
  if (numSamples >= 24) {
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(samples[numSamples], sizeof samples[0], fmt, ap);
  va_end(ap);
  for (char * p = samples[numSamples]; *p; ++p) {
    if (*p == '"' || *p == '\\' || *p == '\n') {
      *p = '\'';
    }
  }
  ++numSamples;
}

void context(const char * suite, const char * detail)
{
  ctxSuite = suite;
  std::snprintf(ctxDetail, sizeof ctxDetail, "%s", detail);
}

void trace_clear() { traceLen = 0; }
void trace(const char * op, long a, long b, long c)
{
  traceBuf[traceLen % kTrace] = Tr{op, a, b, c};
  ++traceLen;
}

namespace
{
void vfail(const char * tag, const char * fmt, va_list ap)
{
  ++numFailures;
  if (numFailures > 40) {
    if (numFailures > 100000) {
      std::printf("FAIL: too many failures, stopping\n");
      std::fflush(stdout);
      _exit(1);
    }
    return;
  }
  std::printf("FAIL: %s[%s %s] ", tag, ctxSuite, ctxDetail);
  std::vprintf(fmt, ap);
  std::printf("\n");
  if (numFailures <= 4) {
    dump_trace();
  }
  std::fflush(stdout);
}

} // namespace

void fail(const char * fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vfail("", fmt, ap);
  va_end(ap);
}

void failt(const char * tag, const char * fmt, ...)
{
  if (opt.tags) {
    // is 'tag' in the comma separated list?
    size_t const n = std::strlen(tag);
    bool in = false;
    for (const char * p = opt.tags; (p = std::strstr(p, tag)) != nullptr; p += n) {
      if ((p == opt.tags || p[-1] == ',') && (p[n] == 0 || p[n] == ',')) {
        in = true;
        break;
      }
    }
    if (!in) {
      return;
    }
  }
  va_list ap;
  va_start(ap, fmt);
  vfail(tag, fmt, ap);
  va_end(ap);
}

uint64_t failures() { return numFailures; }

Registrar::Registrar(const char * name, Fn fn)
{
  if (numSuites < 4096) {
    suites[numSuites++] = Suite{name, fn};
  }
}
} // namespace mon

int main(int argc, char ** argv)
{
  using namespace mon;
  for (int i = 1; i < argc; ++i) {
    if (!std::strcmp(argv[i], "--seed") && i + 1 < argc) {
      opt.seed = std::strtoull(argv[++i], nullptr, 10);
    }
    else if (!std::strcmp(argv[i], "--scale") && i + 1 < argc) {
      opt.scale = std::strtol(argv[++i], nullptr, 10);
    }
    else if (!std::strcmp(argv[i], "--only") && i + 1 < argc) {
      opt.only = argv[++i];
    }
    else if (!std::strcmp(argv[i], "--mode") && i + 1 < argc) {
      opt.mode = argv[++i];
    }
    else if (!std::strcmp(argv[i], "--tags") && i + 1 < argc) {
      opt.tags = argv[++i];
    }
    else if (!std::strcmp(argv[i], "--log")) {
      opt.log = true;
    }
    else if (!std::strcmp(argv[i], "--list")) {
      opt.list = true;
    }
    else {
      std::printf("unknown argument %s\n", argv[i]);
      return 9;
    }
  }
  std::set_terminate(on_terminate);
#if !defined(__SANITIZE_ADDRESS__) && !defined(MON_NO_SIGNALS)
  std::signal(SIGSEGV, on_signal);
  std::signal(SIGBUS, on_signal);
  std::signal(SIGFPE, on_signal);
  std::signal(SIGILL, on_signal);
#endif
  (void)&on_signal;

  // The registration order depends on link order; run in name order so that logs are comparable.
  for (int i = 1; i < numSuites; ++i) {
    Suite s = suites[i];
    int j = i;
    while (j > 0 && std::strcmp(suites[j - 1].name, s.name) > 0) {
      suites[j] = suites[j - 1];
      --j;
    }
    suites[j] = s;
  }

  int ran = 0;
  for (int i = 0; i < numSuites; ++i) {
    if (opt.only && !std::strstr(suites[i].name, opt.only)) {
      continue;
    }
    if (opt.list) {
      std::printf("%s\n", suites[i].name);
      continue;
    }
    context(suites[i].name);
    trace_clear();
    suites[i].fn();
    ++ran;
  }
  if (opt.list) {
    return 0;
  }
  std::printf("STATS {\"suites\": %d, \"evaluations\": %llu, \"distinct\": %llu, \"failures\": %llu", ran,
              (unsigned long long)numEvals, (unsigned long long)numDistinct, (unsigned long long)numFailures);
  std::printf(", \"counters\": {");
  for (int i = 0; i < numCounters; ++i) {
    std::printf("%s\"%s\": %llu", i ? ", " : "", counters[i].name, (unsigned long long)counters[i].n);
  }
  std::printf("}, \"samples\": [");
  for (int i = 0; i < numSamples; ++i) {
    std::printf("%s\"%s\"", i ? ", " : "", samples[i]);
  }
  std::printf("]}\n");
  std::fflush(stdout);
  std::free(table);
  return numFailures ? 1 : 0;
}
