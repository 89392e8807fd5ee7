// Exploration of thread interleavings of the real code.
//
// The library is compiled with the instrumentation of -fsanitize=thread but linked with
// the runtime in sched.cpp. One thread runs at a time; before every synchronisation
// operation the runtime decides which thread continues. All decisions of an execution
// form its schedule; the schedules are enumerated depth first, each in a forked process.
// The runtime also keeps vector clocks and reports conflicting accesses that are not
// ordered, and accesses to freed memory.
#pragma once
#include <functional>
#include <set>
#include <string>

namespace sched {

struct Config {
  // First all schedules up to equivalence, within maxRuns executions. If that does not end:
  // with 0, 1, 2, ... preemptions, as long as levelRuns allows, but up to atLeast in any case.
  int atLeast = 0;
  int preemptions = -1;     // (internal)
  int spurious = 0;         // at most so many spurious wake-ups of condition variables
  long maxRuns = 1000, levelRuns = 1000;
  long compareUpTo = 0;     // up to so many executions: searches also without reduction and compares the classes met
  long hardLimit = 100000;  // executions after which an obligatory level is given up (not exhaustive)
};

// bound: preemptions up to which the exploration is complete, -1: all schedules
struct Stats { int bound = 0; long runs = 0, complete = 0, steps = 0, states = 0; bool capped = false, compared = false; std::set<unsigned long> classes; int maxThreads = 0; };

// Every execution is: prepare() single-threaded, body() under the scheduler, then check().
// body and check throw mc::Violation when the property is violated.
Stats explore(const Config& c, const std::function<void()>& prepare, const std::function<void()>& body,
              const std::function<void()>& check, const std::function<std::string()>& where);

// Runs f in a forked process and returns the string it gives.
std::string inFork(const std::function<std::string()>& f);

// For use by harness code while it runs under the scheduler
int currentThread();

// Accesses to this memory are not checked (bookkeeping of the harness).
void ignore(void* p, size_t n);

} // namespace sched
