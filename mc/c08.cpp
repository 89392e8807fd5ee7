// C08: the worker pool under every interleaving.
#include "mc.hpp"
#include "sched.hpp"

#include "lib/ThreadPool.hpp"

namespace {

// a scenario of a pool
struct Scenario {
  int workers, tasks;
  int submitters = 1;     // 1: the main thread, 2: one more thread submits the second half
  int throwing = 0;       // bit mask of the tasks that throw
  int wait = 0;           // 0: results after destruction, 1: results before destruction, 2: futures dropped, 3: each result before the next submission
  int nested = 0;         // the first task submits that many further tasks
  int late = 0;           // a task is submitted after shutdown has begun
  int together = 0;       // the first that many tasks each wait until all of them have been started
  int spurious = 0;
};
std::string show(const Scenario& s) {
  const char* w[] = {"results taken after destruction", "results taken before destruction", "results dropped", "each result taken before the next submission"};
  return mc::cat(s.workers, " workers, ", s.tasks, " tasks, ", s.submitters, " submitters, throwing mask ", s.throwing, ", ", w[s.wait], ", ", s.nested,
                 " tasks submitted by a task", s.late ? ", submission after shutdown" : "", s.together ? mc::cat(", the first ", s.together, " tasks wait for each other") : "", ", spurious wake-ups ", s.spurious);
}

struct Boom : std::runtime_error { int id; Boom(int i) : std::runtime_error("boom"), id(i) {} };

// order in which tasks are submitted and started, kept outside the memory under test
const int MAXT = 320;
struct Book { int nsub, started[MAXT], nstart, done[MAXT], ndone; int refused, accepted; };
Book* book;

int taskBody(int id, bool boom, int* cell) {
  book->started[book->nstart++] = id;
  *cell += 1;                              // a plain write: two runs of a task would race
  book->done[book->ndone++] = id;
  if (boom) throw Boom(id);
  return id * 10 + 1;
}

void check(const Scenario& s, int total) {
  int seen[MAXT] = {0};
  MC_REQUIRE(book->nstart == total, book->nstart, " of ", total, " tasks were started");
  for (int i = 0; i < total; i++) seen[book->started[i]]++;
  for (int i = 0; i < total; i++) MC_REQUIRE(seen[i] == 1, "task ", i, " ran ", seen[i], " times");
  MC_REQUIRE(book->ndone == total, "only ", book->ndone, " of ", total, " tasks were finished when the pool was destroyed");
  if (s.submitters == 1 && !s.nested && !s.together)
    // a worker that has taken a task may be overtaken by the other workers before it starts it
    for (int k = 0; k < total; k++) {
      int id = book->started[k], earlier = 0;
      for (int j = k + 1; j < total; j++) if (book->started[j] < id) earlier++;
      MC_REQUIRE(earlier <= s.workers - 1, "task ", id, " was started before ", earlier, " tasks submitted earlier");
    }
}

int cells[MAXT];

void take(std::future<int>& f, int id, bool boom) {
  try {
    int r = f.get();
    MC_REQUIRE(!boom, "task ", id, " threw but its future gave the value ", r);
    MC_REQUIRE(r == id * 10 + 1, "the future of task ", id, " gave ", r);
    MC_REQUIRE(cells[id] == 1, "the effect of task ", id, " is not visible with its result");
  } catch (Boom& b) {
    MC_REQUIRE(boom && b.id == id, "the future of task ", id, " gave the exception of task ", b.id);
  }
}

// A worker ends only when shutdown has begun. One task waits until the worker of the other
// task has ended and then submits: this must be refused.
std::mutex* lateMutex; std::condition_variable* lateCond; int arrived, ended;
struct AtExit { bool on = false; ~AtExit() { if (on) { std::lock_guard<std::mutex> l(*lateMutex); ended = 1; lateCond->notify_all(); } } };
thread_local AtExit atExit;

void meet() {
  std::unique_lock<std::mutex> l(*lateMutex);
  arrived++; lateCond->notify_all();
  lateCond->wait(l, [] { return arrived == 2; });
}

void lateBody(const Scenario& s) {
  std::mutex m; std::condition_variable c; lateMutex = &m; lateCond = &c; arrived = ended = 0;
  std::future<int> f0, f1;
  {
    ThreadPool pool(s.workers);
    ThreadPool* p = &pool;
    auto a = [p] {
      meet();
      { std::unique_lock<std::mutex> l(*lateMutex); lateCond->wait(l, [] { return ended == 1; }); }
      try { p->enqueue(taskBody, 5, false, &cells[5]); }
      catch (std::runtime_error& e) { return 1; }
      return 2;
    };
    auto b = [] { atExit.on = true; meet(); return 3; };
    if (s.late == 1) { f0 = pool.enqueue(a); f1 = pool.enqueue(b); } else { f1 = pool.enqueue(b); f0 = pool.enqueue(a); }
  }
  MC_REQUIRE(f0.get() == 1, "a submission after shutdown had begun was not refused");
  MC_REQUIRE(f1.get() == 3 && cells[5] == 0, "a refused task ran");
}

void body(const Scenario& s) {
  if (s.late) { lateBody(s); return; }
  std::vector<std::future<int>> fut(MAXT);
  auto boom = [&](int id) { return id < 31 && (s.throwing >> id & 1) != 0; };
  std::mutex m; std::condition_variable c; lateMutex = &m; lateCond = &c; arrived = 0;
  {
    std::unique_ptr<ThreadPool> pool(new ThreadPool(s.workers));
    ThreadPool* p = pool.get();
    auto submit = [&, p](int id) {
      book->nsub++;
      if (s.nested && id == 0)
        fut[0] = p->enqueue([&, p] {
          int r = taskBody(0, false, &cells[0]);
          for (int n = 0; n < s.nested; n++) {
            int id = s.tasks + n;
            try { fut[id] = p->enqueue(taskBody, id, boom(id), &cells[id]); book->accepted |= 1 << id; }
            catch (std::runtime_error&) { book->refused |= 1 << id; }
          }
          return r;
        });
      else if (id < s.together)
        fut[id] = p->enqueue([&, id] {
          { std::unique_lock<std::mutex> l(m); arrived++; c.notify_all(); c.wait(l, [&] { return arrived == s.together; }); }
          return taskBody(id, boom(id), &cells[id]);
        });
      else fut[id] = p->enqueue(taskBody, id, boom(id), &cells[id]);
      if (s.wait == 3) take(fut[id], id, boom(id));
    };
    if (s.submitters == 2) {
      std::thread other([&] { for (int i = s.tasks / 2; i < s.tasks; i++) submit(i); });
      for (int i = 0; i < s.tasks / 2; i++) submit(i);
      other.join();
    } else
      for (int i = 0; i < s.tasks; i++) submit(i);
    if (s.wait == 1) for (int i = 0; i < s.tasks; i++) take(fut[i], i, boom(i));
  }
  // all tasks have finished now
  int total = s.tasks;
  for (int n = 0; n < s.nested; n++) {
    int id = s.tasks + n;
    MC_REQUIRE((book->accepted >> id & 1) != (book->refused >> id & 1), "nested submission ", id, " was neither accepted nor refused");
    if (book->accepted >> id & 1) total++;
  }
  if (s.nested && total < s.tasks + s.nested) {
    // refusing is only right once shutdown has begun, i.e. when nobody waited for the first task
    MC_REQUIRE(s.wait == 0 || s.wait == 2, "a submission was refused although the pool was not being destroyed");
  }
  if (s.nested) {
    // accepted submissions are a prefix; renumbering is not needed
    for (int i = 0; i < s.tasks + s.nested; i++)
      if (i < s.tasks || (book->accepted >> i & 1)) MC_REQUIRE(cells[i] == 1, "task ", i, " ran ", cells[i], " times");
      else MC_REQUIRE(cells[i] == 0, "refused task ", i, " ran");
    MC_REQUIRE(book->ndone == total, "only ", book->ndone, " of ", total, " tasks were finished when the pool was destroyed");
  } else check(s, total);
  if (s.wait == 0)
    for (int i = 0; i < s.tasks + s.nested; i++)
      if (fut[i].valid()) {
        MC_REQUIRE(fut[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready, "the result of task ", i, " is not there after destruction");
        take(fut[i], i, boom(i));
      }
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  std::vector<Scenario> all;
  auto add = [&](Scenario s) { all.push_back(s); };
  for (int w = 1; w <= 3; w++)
    for (int t = 0; t <= 4; t++)
      for (int wait = 0; wait < 4; wait++) {
        bool big = w + t > 4 || w == 3;
        if (w + t > (th ? 6 : 5) || (big && !th && wait > 1)) continue;
        Scenario s{w, t}; s.wait = wait;
        add(s);
        if (t >= 1 && !big) { s.throwing = 1; add(s); s.throwing = 0; }
        if (t >= 2) { s.throwing = (1 << t) - 2; add(s); s.throwing = 0; }
        if (t >= 2 && (!big || th)) { s.submitters = 2; add(s); s.submitters = 1; }
        if (t >= 1 && (!big || th)) { s.spurious = th ? 2 : 1; add(s); s.spurious = 0; }
        if (t >= 1 && wait != 3) for (int n = 1; n <= 2; n++) { if (w + t + n > 4 && !th) continue; s.nested = n; add(s); s.nested = 0; }
      }
  for (int late = 1; late <= 2; late++)
    for (int w = 2; w <= 3; w++) { Scenario s{w, 2}; s.late = late; add(s); }
  // tasks that need each other: as many as there are workers run at the same time
  for (int w = 2; w <= 3; w++)
    for (int k = 2; k <= w; k++)
      for (int extra = 0; extra <= (w == 2 ? 1 : 0); extra++)
        for (int wait = 0; wait < 3; wait++) {
          Scenario s{w, k + extra}; s.together = k; s.wait = wait;
          add(s);
          if (w == 2) { s.throwing = 1; add(s); s.throwing = 0; s.submitters = 2; add(s); s.submitters = 1; if (!extra) { s.spurious = 1; add(s); s.spurious = 0; } }
        }
  // many tasks, many workers
  for (int t : {9, 17, 33, 65, 129, 257}) for (int wait = 0; wait < 4; wait++) {
    if (t > 65 && wait > 1) continue;
    Scenario s{1, t}; s.wait = wait; s.throwing = 0xaa; add(s);
    if (t <= 33 && wait < 3) { s.workers = 2; add(s); }
  }
  for (int w : {4, 5, 6}) add(Scenario{w, 2});
  for (auto& s : all)
    unit([&] { return show(s); }, [&] {
      if (!book) book = (Book*)mmap(nullptr, sizeof(Book), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      sched::ignore(book, sizeof *book);
      sched::Config c; c.spurious = s.spurious; c.maxRuns = th ? 100000 : 5000; c.levelRuns = th ? 30000 : 2000; c.hardLimit = th ? 100000 : 8000;
      if (s.tasks > 8 || s.workers > 3) { c.maxRuns = 50; c.levelRuns = 200; c.hardLimit = 3000; }
      c.compareUpTo = th ? 500 : 60;
      auto st = sched::explore(c, [&] { memset(book, 0, sizeof *book); memset(cells, 0, sizeof cells); }, [&] { body(s); }, [] {}, [&] { return "; " + show(s); });
      counter("traces", st.runs); counter("transitions", st.steps); counter("visited", st.states);
      if (st.capped) counter("capped");
      eval(st.runs);
      nontrivial(st.complete);
      counter("orders", st.classes.size());
      if (st.compared) counter("scenarios_also_searched_without_reduction");
      outcome(st.bound < 0 ? "scenarios with all schedules" : cat("scenarios with all schedules of ", st.bound, " preemptions"));
      sample(cat(show(s), ": ", st.runs, " schedules, ", st.classes.size(), " different orders, ", st.states, " decision states, ", st.bound < 0 ? "all schedules" : cat("complete for ", st.bound, " preemptions")));
    });
}
