// Controlled scheduler and access monitor: the library is compiled with
// -fsanitize=thread instrumentation whose runtime calls land in c19rt.cc
// instead of the ThreadSanitizer runtime.
#ifndef C19RT_HH
#define C19RT_HH
#include <functional>
#include <vector>
#include <cstdint>
namespace rt
{
  enum { STATIC = 0, SHARED = 1, T0 = 2, T1 = 3, T2 = 4, HARNESS = 5 };
  void setOwner(int o);         // allocations of the calling thread go to this arena
  int  owner();
  struct Result {
    long accesses[3] = {0, 0, 0};        // shared accesses of each thread
    long switches = 0;
    bool deadlock = false, race = false, foreign = false;
    void const * where = 0;              // racy address
    bool staticWhere = false;
    long sharedWrites = 0;
  };
  // run the bodies as threads; plan = list of (thread, number of further shared accesses);
  // after the plan, remaining threads run to completion in order
  struct Slice { int t; long n; };
  Result run(std::vector<std::function<void()>> const & bodies, std::vector<Slice> const & plan);
}
#endif
