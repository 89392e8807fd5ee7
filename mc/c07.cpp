// C07: multi-threaded grouping under every interleaving.
#include "api.hpp"
#include "sched.hpp"

// The clock the library sees.
static struct { long offset, perCall; } gClock = {0, 0};
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  gClock.offset += gClock.perCall;
  return time_point(std::chrono::seconds(1500000000 + gClock.offset));
}
} } }

namespace {

using namespace mc;

struct Scenario {
  Data data;
  int threads;
  std::string distance;
  double threshold;
  bool whole = false;
  int warm = 0;        // 0: first use in the process, 1: the same distance was used before
  int clock = 0;       // 0: stands still, 1: twenty seconds after the start, 2: eleven seconds per call
  bool full = false;   // with a budget for all schedules
  bool many = false;   // many tasks, few schedules
  int again = 0;       // 1: grouped again with another distance, 2: another dataset is grouped next
};
std::string show(const Scenario& s) {
  const char* c[] = {"", ", progress is due once", ", progress is always due"};
  const char* a[] = {"", ", then grouped again with another distance", ", then another dataset"};
  return cat(s.threads, " threads, ", s.distance, " threshold ", s.threshold, s.whole ? " whole series, " : ", ", mc::show(s.data), s.warm ? ", used before" : ", first use", c[s.clock], a[s.again]);
}

struct Null : std::streambuf { int overflow(int c) { return c; } };

std::string groups(GenexAPI& api, const std::string& name, int count) {
  std::string p = scratchPath(cat("out_", name, getpid(), ".txt"));
  api.saveGroupsOld(name, p, false);
  std::string s = cat(count, "\n") + readFile(p);
  unlink(p.c_str());
  return s;
}

const char* other(const std::string& d) { return d == "manhattan" ? "sorensen" : "manhattan"; }

// What is grouped, with the number of threads given; returns everything observable.
std::vector<int> work(GenexAPI& api, const Scenario& s, int threads) {
  std::vector<int> counts;
  counts.push_back(api.groupDataset("a", s.threshold, s.distance, threads, s.whole));
  if (s.again == 1) counts.push_back(api.groupDataset("a", s.threshold * 2, other(s.distance), threads, s.whole));
  if (s.again == 2) counts.push_back(api.groupDataset("b", s.threshold, s.distance, threads, s.whole));
  return counts;
}
std::string observe(GenexAPI& api, const Scenario& s, const std::vector<int>& counts) {
  std::string r = groups(api, "a", s.again == 1 ? counts[1] : counts[0]);
  for (int c : counts) r += cat(" ", c);
  if (s.again == 2) r += groups(api, "b", counts[1]);
  return r;
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  Data none = {{1}, {2}}, two = {{1, 2}, {2, 2}, {5, 1}}, three = {{1, 2, 3}, {2, 2, 1}}, mixed = {{1, 2, 4, 3}, {2, 2}}, four = {{1, 2, 3, 1}, {3, 1, 2, 2}};
  std::vector<Scenario> all;
  { Scenario s{three, 2, "euclidean", 1.0}; s.full = true; all.push_back(s); s.distance = "sorensen"; s.threshold = 0.3; s.warm = 1; all.push_back(s); }
  for (auto& d : std::vector<std::string>{"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"}) {
    for (int warm = 0; warm < 2; warm++) {
      Scenario s{three, 2, d, d == "cosine" || d == "sorensen" ? 0.3 : 1.0};
      s.warm = warm;
      all.push_back(s);
      s.data = two; all.push_back(s);
      s.threads = 3; s.data = three; all.push_back(s);
      if (th || d == "euclidean" || d == "sorensen") { s.threads = 2; s.data = four; all.push_back(s); s.data = mixed; all.push_back(s); }
      if (th) { s.threads = 3; all.push_back(s); s.data = four; all.push_back(s); }
    }
    Scenario s{three, 2, d, d == "cosine" || d == "sorensen" ? 0.3 : 1.0};
    for (int again = 1; again <= 2; again++) { s.again = again; all.push_back(s); }
    s.again = 0; s.whole = true; all.push_back(s);
    s.data = none; s.whole = false; all.push_back(s);
    for (int clock = 1; clock <= 2; clock++) { s.clock = clock; s.data = three; s.warm = 1; all.push_back(s); s.warm = 0; s.data = two; s.again = 2; all.push_back(s); s.again = 0; }
  }
  // many lengths, so many more tasks than threads
  auto longRows = [](int n) { Seq a, b; for (int i = 0; i < n; i++) { a.push_back(i * 7 % 5); if (i < n - 2) b.push_back(i * 3 % 4); } return Data{a, b}; };
  for (int n : {12, 20, 40}) for (auto d : {"manhattan", "sorensen"}) { Scenario s{longRows(n), 2, d, 1.0}; s.many = true; all.push_back(s); }
  for (auto& s : all)
    unit([&] { return show(s); }, [&] {
      static Null null;
      sched::ignore(&gClock, sizeof gClock);
      // The distances must not be used in this process: every execution is a fork of it.
      GenexAPI api;
      mc::load(api, "a", s.data); mc::load(api, "b", {{3, 1, 1}, {1, 1}});
      auto quiet = [] { std::cout.rdbuf(&null); };
      std::string expected = sched::inFork([&] { quiet(); auto c = work(api, s, 1); return observe(api, s, c); });
      MC_REQUIRE(expected.size() > 5, "no groups were saved");
      std::vector<int> counts;
      sched::Config c; c.maxRuns = th ? 100000 : s.full ? 60000 : 1000; c.levelRuns = th ? 30000 : 1500; c.hardLimit = th ? 100000 : 6000; c.compareUpTo = th ? 300 : 60;
      if (s.many) { c.maxRuns = 20; c.levelRuns = 100; c.compareUpTo = 0; }
      auto st = sched::explore(c,
        [&] {
          quiet();
          if (s.warm) { GenexAPI w; mc::load(w, cat("w", getpid()), {{1, 2}, {3, 4}}); w.groupDataset(cat("w", getpid()), 0.1, s.distance, 1, false); unlink(scratchPath(cat("ds_w", getpid(), ".txt")).c_str()); }
          gClock.offset = s.clock == 1 ? 20 : 0; gClock.perCall = s.clock == 2 ? 11 : 0;
        },
        [&] { counts = work(api, s, s.threads); },
        [&] {
          std::string got = observe(api, s, counts);
          MC_REQUIRE(got == expected, "the groups differ from those of single-threaded grouping: ", got, " instead of ", expected);
        },
        [&] { return "; " + show(s); });
      counter("traces", st.runs); counter("transitions", st.steps); counter("visited", st.states); counter("orders", st.classes.size());
      if (st.compared) counter("scenarios_also_searched_without_reduction");
      if (st.capped) counter("capped");
      eval(st.runs); nontrivial(st.complete);
      outcome(st.bound < 0 ? "scenarios with all schedules" : cat("scenarios with all schedules of ", st.bound, " preemptions"));
      sample(cat(show(s), ": ", st.runs, " schedules, ", st.classes.size(), " different orders, ", st.bound < 0 ? "all schedules" : cat("complete for ", st.bound, " preemptions")));
    });
}
