// Runtime of the interleaving exploration. This file is compiled without instrumentation.
#define MC_NO_MAIN
#include "sched.hpp"
#include "mc.hpp"

#include <algorithm>
#include <dlfcn.h>
#include <execinfo.h>
#include <future>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unordered_map>

extern "C" char __executable_start;

#define PC ((uptr)__builtin_return_address(0))

namespace {

const int MAXT = 10;
const int MAXPOINTS = 6000;
const int MAXSTEPS = 60000;
typedef unsigned int u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

struct VC {
  u32 c[MAXT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

enum Op { NONE, START, LOCK, CONDWAIT, REACQUIRE, NOTIFY, JOIN, ONCE, GUARD, FUTEXWAIT, FUTEXWAKE, ATOMIC, YIELD, RDLOCK, WRLOCK, CHOICE };
const char* opName[] = {"none", "start", "lock", "wait", "wake-up", "notify", "join", "once", "initialisation", "future wait", "future wake", "atomic", "yield", "read lock", "write lock", "choice"};

struct Thr {
  sem_t sem;
  pthread_t real;
  bool used = false, finished = false;
  Op op = NONE; uptr obj = 0, obj2 = 0; u32 val = 0;
  bool spurious = false, signalled = false, timed = false, timedOut = false;
  VC hb, dep, wakeDep, relAcq, relFence;
  u32 events = 0;
  bool yielded = false;
  uptr spinAddr = 0; int spins = 0;
  std::vector<std::pair<void (*)(void*), void*>> atexit;
};

struct Mutex { int owner = -1, depth = 0, readers = 0; VC hb, dep; };
struct Obj { VC hb, dep, reads; int running = -1, user = -1; std::set<int> sites; };
struct Cond { std::vector<int> waiters; VC dep, reads; };

struct Point { unsigned short options, chosen; };

// One step of an execution: a thread runs from one synchronisation operation to the next.
struct Access { uptr obj; bool write; };
struct Node {
  unsigned char kind;                 // 0: a thread continues, 1: a notification picks a waiting thread
  unsigned char options, thread;
  unsigned short chosen;              // thread (+256: spurious wake-up) or option
  unsigned short enabled, spurious, sleep;
  Access pending[MAXT];               // what the next operation of each thread uses
  int naccs; Access accs[24];         // what the step used
};

enum Status { RUNNING = 0, FINISHED = 1, PRUNED = 2, VIOLATED = 3, HARNESS = 4 };

struct SharedRun {
  volatile int status;
  int prefixLen;
  unsigned short prefix[MAXPOINTS];
  int points;
  Point point[MAXPOINTS];
  int nodes, sleepAt; unsigned short startSleep;
  Node node[MAXPOINTS];
  long steps; int threads;
  u64 final;                          // identifies the class of the execution
  uptr pcs[256]; int npcs;            // call sites of atomic operations seen
  char quiet[256];                    // those that only count references
  char shared[256];                   // those that use objects other threads use too
  volatile int changed;
  int suppressed;                     // an option was left out because of the bound on preemptions
  uptr racePc[2];
  int classified;                     // so many of the call sites are classified
  char message[6000];
  char text[1 << 20];
};

const u64 TABLE = 1 << 21;
struct Visited { u64 key; u32 used; u32 pad; };

SharedRun* S;
Visited* table;
long* tableCount;

// state of the current execution (in the forked process)
bool active = false;        // scheduler decides
bool tracking = false;      // accesses are checked
Thr T[MAXT];
int nT = 0, cur = 0;
__thread int self = -1;
std::map<uptr, Mutex>* mutexes; std::map<uptr, Cond>* conds; std::map<uptr, Obj>* objs;
u64 fp = 0;
int preUsed = 0, spuUsed = 0;
bool dpor = false;
int curNode = -1;           // the step being executed
unsigned short sleepSet = 0;
sched::Config conf;
__thread int inRuntime = 0;

struct Enter { Enter() { inRuntime++; } ~Enter() { inRuntime--; } };

struct Byte { u32 wclk; u32 rclk[MAXT]; uptr wpc, rpc; unsigned char wtid, freed, rlast; };
struct Gran { uptr key; Byte b[8]; };
const u32 GRANS = 1 << 16;
Gran* grans;
u32 granCount = 0;

[[noreturn]] void finish(int st, const std::string& msg) {
  snprintf(S->message, sizeof S->message, "%s", msg.c_str());
  S->status = st;
  _exit(0);
}

std::string describeThreads() {
  std::string s;
  for (int i = 0; i < nT; i++)
    s += mc::cat(" thread ", i, ": ", T[i].finished ? "finished" : opName[T[i].op], T[i].op == REACQUIRE && !T[i].finished ? (T[i].signalled ? " (notified)" : " (not notified)") : "", ";");
  return s;
}

Gran* gran(uptr k, bool create) {
  u64 h = ((k >> 4) * 0x9e3779b97f4a7c15ull) >> 40;
  for (u32 i = (h << 4 | (k & 15)) & (GRANS - 1);; i = (i + 1) & (GRANS - 1)) {
    if (grans[i].key == k) return &grans[i];
    if (!grans[i].key) {
      if (!create) return nullptr;
      if (++granCount > GRANS * 3 / 4) finish(HARNESS, "too much memory is accessed");
      grans[i].key = k;
      return &grans[i];
    }
  }
}

[[noreturn]] void race(const char* what, uptr addr, uptr pc1, uptr pc2, int t1, int t2) {
  S->racePc[0] = pc1 ? pc1 - (uptr)&__executable_start - 1 : 0; S->racePc[1] = pc2 ? pc2 - (uptr)&__executable_start - 1 : 0;
  finish(VIOLATED, mc::cat(what, " (threads ", t1, " and ", t2, ")"));
}

uptr ignoredFrom = 0, ignoredTo = 0;

void access(uptr a, uptr n, bool write, uptr pc) {
  if (!tracking || inRuntime || self < 0) return;
  if (a >= ignoredFrom && a < ignoredTo) return;
  Enter e;
  Thr& t = T[self];
  uptr end = a + n;
  while (a < end) {
    Gran* g = gran(a >> 3, true);
    for (uptr k = a & 7; k < 8 && a < end; k++, a++) {
      Byte& b = g->b[k];
      if (b.freed) race("access to freed memory", a, pc, b.wpc, self, b.wtid);
      if (b.wclk && b.wtid != self && b.wclk > t.hb.c[b.wtid]) race(write ? "data race: two unordered writes" : "data race: read not ordered with a write", a, pc, b.wpc, self, b.wtid);
      if (write) {
        for (int i = 0; i < nT; i++)
          if (i != self && b.rclk[i] > t.hb.c[i]) race("data race: write not ordered with a read", a, pc, b.rpc, self, i);
        b.wclk = t.hb.c[self]; b.wtid = self; b.wpc = pc;
      } else { b.rclk[self] = t.hb.c[self]; b.rpc = pc; }
    }
  }
}

void forget(uptr a, uptr n) {           // newly allocated memory
  if (!tracking || self < 0) return;
  Enter e;
  for (uptr k = a >> 3; k <= (a + n - 1) >> 3; k++) { Gran* g = gran(k, false); if (g) memset(g->b, 0, sizeof g->b); }
}
void released(uptr a, uptr n, uptr pc) {
  if (!tracking || self < 0) return;
  // freeing is a write that must be ordered with all other accesses
  access(a, n, true, pc);
  Enter e;
  for (uptr x = a; x < a + n; x++) gran(x >> 3, true)->b[x & 7].freed = 1;
}

// ---- decisions ----------------------------------------------------------------------

bool seen(u64 key, u32 used) {
  if (!key) key = 1;
  for (u64 i = key & (TABLE - 1);; i = (i + 1) & (TABLE - 1)) {
    if (table[i].key == key) { if (table[i].used <= used) return true; table[i].used = used; return false; }
    if (!table[i].key) {
      if (*tableCount > (long)(TABLE / 2)) finish(HARNESS, "too many states");
      ++*tableCount; table[i].key = key; table[i].used = used; return false;
    }
  }
}

void touch(uptr obj, bool write) {
  if (!dpor || curNode < 0) return;
  Node& n = S->node[curNode];
  for (int i = 0; i < n.naccs; i++) if (n.accs[i].obj == obj) { n.accs[i].write |= write; return; }
  if (n.naccs >= 24) finish(HARNESS, "a step uses too many objects");
  n.accs[n.naccs++] = Access{obj, write};
}
uptr threadObj(int id) { return 16 + id; }
uptr wakeObj(int id) { return 64 + id; }

Node& newNode(int kind) {
  if (S->nodes >= MAXPOINTS) finish(HARNESS, "too many steps");
  Node& n = S->node[S->nodes++];
  n.kind = kind; n.naccs = 0; n.enabled = n.spurious = n.sleep = 0; n.chosen = 0; n.options = 0;
  return n;
}

// Picks one of n options; every option costs preemptions and spurious wake-ups already checked.
int decide(int n, u64 salt) {
  if (dpor) {
    int i = S->nodes;
    Node& x = newNode(1);
    x.options = n;
    if (i < S->prefixLen) x.chosen = S->prefix[i];
    if (x.chosen >= n) finish(HARNESS, "the execution is not deterministic");
    return x.chosen;
  }
  if (S->points >= MAXPOINTS) finish(HARNESS, "too many decisions");
  int i = S->points++;
  int c = 0;
  if (i < S->prefixLen) c = S->prefix[i];
  else {
    u64 key = mix(mix(fp, salt), spuUsed);
    u32 used = 0;
    if (conf.preemptions >= 0) { key = mix(key, cur + 1); used = preUsed; }
    if (seen(key, used)) finish(PRUNED, "");
  }
  if (c >= n) finish(HARNESS, mc::cat("the execution is not deterministic: decision ", i, " has ", n, " options, ", c + 1, " expected"));
  S->point[i].options = n; S->point[i].chosen = c;
  return c;
}

Mutex& mutexOf(uptr a) { return (*mutexes)[a]; }

bool ready(int i) {
  Thr& t = T[i];
  if (!t.used || t.finished) return false;
  switch (t.op) {
    case LOCK: case WRLOCK: { Mutex& m = mutexOf(t.obj); return (m.owner < 0 && m.readers == 0) || (m.owner == i && t.op == LOCK && t.val); }
    case RDLOCK: return mutexOf(t.obj).owner < 0;
    case REACQUIRE: { Mutex& m = mutexOf(t.obj2); return t.signalled && m.owner < 0 && m.readers == 0; }
    case JOIN: return T[t.obj].finished;
    case ONCE: case GUARD: return (*objs)[t.obj].running < 0;
    case FUTEXWAIT: return t.signalled || *(volatile u32*)t.obj2 != t.val;
    default: return true;
  }
}
bool canSpurious(int i) {
  Thr& t = T[i];
  if (!t.used || t.finished || t.op != REACQUIRE || t.signalled) return false;
  Mutex& m = mutexOf(t.obj2);
  return m.owner < 0 && m.readers == 0 && (t.timed || spuUsed < conf.spurious);
}

void event(Op op, VC* objDep) {
  Thr& t = T[self];
  t.events++;
  t.dep.c[self]++;
  if (objDep) { t.dep.join(*objDep); *objDep = t.dep; }
  u64 h = mix(mix(self + 1, t.events), op);
  for (int i = 0; i < MAXT; i++) h = mix(h, t.dep.c[i]);
  fp += h;
}

// operations on an object that commute with each other, and those that do not
template <class O> void readEvent(Op op, O& o) { T[self].dep.join(o.dep); event(op, nullptr); o.reads.join(T[self].dep); }
template <class O> void writeEvent(Op op, O& o) { T[self].dep.join(o.reads); event(op, &o.dep); }

void switchTo(int n) {
  int me = self;
  if (n == me) return;
  cur = n;
  sem_post(&T[n].sem);
  if (!T[me].finished) while (sem_wait(&T[me].sem)) {}
}

Access pendingAccess(Thr& t) {
  if (!t.used || t.finished) return Access{0, false};
  switch (t.op) {
    case LOCK: case WRLOCK: case NOTIFY: case ONCE: case GUARD: case FUTEXWAKE: return Access{t.obj, true};
    case RDLOCK: case CONDWAIT: case FUTEXWAIT: return Access{t.obj, false};
    case REACQUIRE: return Access{t.obj2, true};
    case ATOMIC: return Access{t.obj, t.val != 0};
    default: return Access{0, false};
  }
}

void wake(int i) {          // a spurious wake-up or a timeout
  T[i].signalled = T[i].spurious = true;
  if (T[i].timed) T[i].timedOut = true; else spuUsed++;
  for (auto& p : *conds) { auto& w = p.second.waiters; for (size_t k = 0; k < w.size(); k++) if (w[k] == i) { w.erase(w.begin() + k); break; } }
}

void scheduleReduced() {
  // threads in the sleep set stay there while the steps are independent of theirs
  if (curNode >= 0) {
    Node& last = S->node[curNode];
    for (int z = 0; z < nT; z++) {
      if (!(sleepSet >> z & 1)) continue;
      Access a = pendingAccess(T[z]);
      bool clash = z == self;
      for (int k = 0; k < last.naccs && !clash; k++) {
        const Access& b = last.accs[k];
        if (a.obj == b.obj && (a.write || b.write)) clash = true;
        auto it = mutexes->find(b.obj);
        if (it != mutexes->end() && it->second.owner == z) clash = true;
      }
      if (clash) sleepSet &= ~(1 << z);
    }
  }
  int i = S->nodes;
  Node& n = newNode(0);
  for (int k = 0; k < nT; k++) {
    n.pending[k] = pendingAccess(T[k]);
    if (ready(k)) n.enabled |= 1 << k;
  }
  for (int k = nT; k < MAXT; k++) n.pending[k] = Access{0, false};
  bool timeout = false;
  for (int k = 0; k < nT; k++)
    if (canSpurious(k)) {
      if (T[k].timed) { if (!n.enabled || timeout) { n.enabled |= 1 << k; timeout = true; } }
      else if (n.enabled) n.spurious |= 1 << k;
    }
  if (!n.enabled) {
    S->nodes--;
    bool all = true;
    for (int k = 0; k < nT; k++) if (!T[k].finished) all = false;
    if (all) return;
    finish(VIOLATED, "deadlock:" + describeThreads());
  }
  seen(mix(mix(fp, 7), spuUsed), 0);
  if (i == S->sleepAt) sleepSet = S->startSleep;
  n.sleep = sleepSet;
  int next; bool spu = false;
  if (i < S->prefixLen) {
    next = S->prefix[i] & 255; spu = S->prefix[i] >> 8;
    if (!((spu ? n.spurious : n.enabled) >> next & 1)) finish(HARNESS, mc::cat("the execution is not deterministic: thread ", next, " cannot run at step ", i));
  } else {
    unsigned avail = n.enabled & ~sleepSet;
    if (!avail) finish(PRUNED, "");
    bool stay = (avail >> self & 1) && !T[self].yielded;
    if (!stay && avail != (1u << self)) avail &= ~(1u << self);
    next = stay ? self : __builtin_ctz(avail);
  }
  n.chosen = next | (spu ? 256 : 0); n.thread = next;
  if (spu || (timeout && T[next].op == REACQUIRE && !T[next].signalled)) wake(next);
  T[self].yielded = false;
  curNode = i;
  switchTo(next);
}

// Chooses the thread that continues. The caller has announced its next operation.
void schedule() {
  if (++S->steps > MAXSTEPS) finish(VIOLATED, "the execution does not end: " + describeThreads());
  if (dpor) { scheduleReduced(); return; }
  int opt[2 * MAXT]; bool spu[2 * MAXT]; int n = 0;
  bool curReady = !T[self].finished && ready(self);
  bool yielding = curReady && T[self].yielded;
  auto add = [&](int i, bool s) { opt[n] = i; spu[n] = s; n++; };
  if (curReady && !yielding) add(self, false);
  bool preempt = curReady && !yielding;     // choosing another thread is a preemption
  for (int i = 0; i < nT; i++) {
    if (i == self) continue;
    if (!ready(i)) continue;
    if (preempt && conf.preemptions >= 0 && preUsed >= conf.preemptions) { S->suppressed = 1; break; }
    add(i, false);
  }
  if (yielding) add(self, false);
  bool anyReady = n > 0;
  for (int i = 0; i < nT; i++)
    if (canSpurious(i)) {
      if (anyReady && conf.preemptions >= 0 && preempt && preUsed >= conf.preemptions) { S->suppressed = 1; break; }
      if (T[i].timed && anyReady) continue;         // a timeout fires when nothing else can run
      if (!T[i].timed && !anyReady) continue;       // spurious wake-ups cannot be relied on
      add(i, true);
    }
  if (n == 0) {
    bool all = true;
    for (int i = 0; i < nT; i++) if (!T[i].finished) all = false;
    if (all) return;
    finish(VIOLATED, "deadlock:" + describeThreads());
  }
  int c = n > 1 ? decide(n, 7) : 0;
  int next = opt[c];
  if (preempt && next != self) preUsed++;
  if (spu[c]) wake(next);
  T[self].yielded = false;
  switchTo(next);
}

void point(Op op, uptr obj, uptr obj2 = 0, u32 val = 0) {
  Thr& t = T[self];
  t.op = op; t.obj = obj; t.obj2 = obj2; t.val = val;
  schedule();
}

void acquired(Mutex& m) { m.owner = self; m.depth = 1; T[self].hb.join(m.hb); }
void releasedMutex(Mutex& m) { m.owner = -1; m.depth = 0; m.hb.join(T[self].hb); T[self].hb.c[self]++; }

bool on() { return active && self >= 0 && !inRuntime; }

template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

struct StartArg { void* (*f)(void*); void* arg; int id; };

void runAtexit(Thr& t) {
  while (!t.atexit.empty()) { auto p = t.atexit.back(); t.atexit.pop_back(); p.first(p.second); }
}

void* threadMain(void* p) {
  StartArg a = *(StartArg*)p;
  self = a.id;
  while (sem_wait(&T[self].sem)) {}
  { Enter e; event(START, nullptr); touch(threadObj(self), false); }
  void* r = a.f(a.arg);
  runAtexit(T[self]);
  {
    Enter e;
    event(START, nullptr);
    touch(threadObj(self), true);
    T[self].finished = true;
    T[self].op = NONE;
    schedule();
  }
  return r;
}

int site(uptr pc) {
  uptr o = pc - (uptr)&__executable_start - 1;
  for (int i = 0; i < S->npcs; i++) if (S->pcs[i] == o) return i;
  if (S->npcs >= 256) finish(HARNESS, "too many call sites");
  S->quiet[S->npcs] = S->shared[S->npcs] = 0;
  S->pcs[S->npcs] = o;
  return S->npcs++;
}

// An operation on an object that no other thread uses commutes with everything. Call sites
// are assumed to be of that kind until an execution shows that they are not; the search
// then starts again.
bool sharedSite(uptr addr, int pc) {
  Obj& o = (*objs)[addr];
  o.sites.insert(pc);
  if (o.user < 0) o.user = self;
  if (o.user != self) {
    for (int p : o.sites) if (!S->shared[p]) { S->shared[p] = 1; S->changed = 1; }
  }
  return S->shared[pc];
}

uptr guards[64]; int nguards = 0;        // function-local statics that are initialised
u64 guardSeen[MAXT];
// a guard this thread has already seen set: it never changes again
bool initialised(uptr a) {
  for (int i = 0; i < nguards; i++)
    if (guards[i] == a) { bool r = guardSeen[self] >> i & 1; guardSeen[self] |= 1ull << i; return r; }
  return false;
}

} // namespace

// ---- atomic operations ----------------------------------------------------------------

namespace {
struct AtomicScope {
  bool in;
  AtomicScope(uptr addr, uptr pc, bool load, bool store, int mo) : in(on()) {
    if (!in) return;
    Enter e;
    Thr& t = T[self];
    int at = site(pc);
    bool q = S->quiet[at] || (load && !store && initialised(addr)) || !sharedSite(addr, at);
    if (!q) {
      if (load && !store) { if (t.spinAddr == addr) { if (++t.spins > 40) { t.yielded = true; t.spins = 0; } } else { t.spinAddr = addr; t.spins = 0; } }
      else t.spinAddr = 0;
      point(ATOMIC, addr, 0, store);
      touch(addr, store);
      Obj& o = (*objs)[addr];
      if (store) writeEvent(ATOMIC, o); else readEvent(ATOMIC, o);
    }
    Obj& o = (*objs)[addr];
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
    bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if (load) { if (acq) t.hb.join(o.hb); else t.relAcq.join(o.hb); }
    if (store) {
      if (!load) o.hb = VC();                 // a plain store starts a new release sequence
      if (rel) { o.hb.join(t.hb); t.hb.c[self]++; } else o.hb.join(t.relFence);
    }
  }
};
}

extern "C" {
#define ATOMICS(bits, T_) \
  T_ __tsan_atomic##bits##_load(const volatile T_* a, int mo) { AtomicScope s((uptr)a, PC, true, false, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T_* a, T_ v, int mo) { AtomicScope s((uptr)a, PC, false, true, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_exchange(volatile T_* a, T_ v, int mo) { AtomicScope s((uptr)a, PC, true, true, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_add(volatile T_* a, T_ v, int mo) { AtomicScope s((uptr)a, PC, true, true, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_sub(volatile T_* a, T_ v, int mo) { AtomicScope s((uptr)a, PC, true, true, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_and(volatile T_* a, T_ v, int mo) { AtomicScope s((uptr)a, PC, true, true, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_or(volatile T_* a, T_ v, int mo) { AtomicScope s((uptr)a, PC, true, true, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_xor(volatile T_* a, T_ v, int mo) { AtomicScope s((uptr)a, PC, true, true, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_fetch_nand(volatile T_* a, T_ v, int mo) { AtomicScope s((uptr)a, PC, true, true, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* a, T_* c, T_ v, int mo, int fmo) { AtomicScope s((uptr)a, PC, true, true, mo); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* a, T_* c, T_ v, int mo, int fmo) { AtomicScope s((uptr)a, PC, true, true, mo); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* a, T_ c, T_ v, int mo, int fmo) { AtomicScope s((uptr)a, PC, true, true, mo); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  Enter e;
  Thr& t = T[self];
  if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED) t.hb.join(t.relAcq);
  if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME && mo != __ATOMIC_RELAXED) { t.relFence = t.hb; t.hb.c[self]++; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- memory accesses --------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
  void __tsan_read##n(void* a) { access((uptr)a, n, false, PC); } \
  void __tsan_write##n(void* a) { access((uptr)a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { access((uptr)a, n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { access((uptr)a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { access((uptr)a, n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { access((uptr)a, n, true, PC); } \
  void __tsan_read_write##n(void* a) { access((uptr)a, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, unsigned long n) { access((uptr)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { access((uptr)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((uptr)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access((uptr)a, 8, false, PC); }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { access((uptr)s, n, false, PC); access((uptr)d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { access((uptr)s, n, false, PC); access((uptr)d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) access((uptr)d, n, true, PC); return __real_memset(d, c, n); }
}

// Memory is never reused while an execution is tracked.
static void* allocate(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  if (tracking && !inRuntime) forget((uptr)p, n ? n : 1);
  return p;
}
extern "C" void __libc_free(void*);
extern "C" void free(void* p) { if (!active) __libc_free(p); }
static void deallocate(void* p, uptr pc) {
  if (!p) return;
  if (tracking && !inRuntime && self >= 0) { released((uptr)p, malloc_usable_size(p), pc); return; }
  free(p);
}
void* operator new(size_t n) { return allocate(n); }
void* operator new[](size_t n) { return allocate(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void operator delete(void* p) noexcept { deallocate(p, PC); }
void operator delete[](void* p) noexcept { deallocate(p, PC); }
void operator delete(void* p, size_t) noexcept { deallocate(p, PC); }
void operator delete[](void* p, size_t) noexcept { deallocate(p, PC); }

// ---- synchronisation ----------------------------------------------------------------------
extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*f)(void*), void* arg) {
  typedef int (*F_)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static F_ r; if (!r) r = real<F_>("pthread_create");
  if (!on()) return r(th, at, f, arg);
  Enter e;
  if (nT >= MAXT) finish(HARNESS, "too many threads");
  int id = nT++;
  Thr& t = T[id];
  t.used = true; t.op = START;
  sem_init(&t.sem, 0, 0);
  t.hb = T[self].hb; t.hb.c[id] = 1;
  t.dep = T[self].dep;
  event(START, nullptr);
  touch(threadObj(id), true);
  T[self].hb.c[self]++;
  tracking = true;
  StartArg* a = (StartArg*)malloc(sizeof(StartArg)); *a = StartArg{f, arg, id};
  if (r(&t.real, at, threadMain, a)) finish(HARNESS, "cannot create a thread");
  *th = t.real;
  if (nT > S->threads) S->threads = nT;
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  typedef int (*F_)(pthread_t, void**); static F_ r; if (!r) r = real<F_>("pthread_join");
  if (on()) {
    Enter e;
    for (int i = nT - 1; i > 0; i--)          // identifiers of joined threads are used again
      if (T[i].used && pthread_equal(T[i].real, th)) {
        point(JOIN, i);
        T[self].hb.join(T[i].hb);
        event(JOIN, &T[i].dep);
        touch(threadObj(i), false);
        break;
      }
  }
  return r(th, ret);
}

static int lockOp(pthread_mutex_t* m) {
  Enter e;
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  point(LOCK, (uptr)m, 0, rec);
  Mutex& x = mutexOf((uptr)m);
  if (x.owner == self) { x.depth++; return 0; }
  acquired(x);
  event(LOCK, &x.dep);
  touch((uptr)m, true);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  typedef int (*F_)(pthread_mutex_t*); static F_ r; if (!r) r = real<F_>("pthread_mutex_lock");
  return on() ? lockOp(m) : r(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  typedef int (*F_)(pthread_mutex_t*, const struct timespec*); static F_ r; if (!r) r = real<F_>("pthread_mutex_timedlock");
  return on() ? lockOp(m) : r(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
  typedef int (*F_)(pthread_mutex_t*, clockid_t, const struct timespec*); static F_ r; if (!r) r = real<F_>("pthread_mutex_clocklock");
  return on() ? lockOp(m) : r(m, c, t);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  typedef int (*F_)(pthread_mutex_t*); static F_ r; if (!r) r = real<F_>("pthread_mutex_trylock");
  if (!on()) return r(m);
  Enter e;
  point(ATOMIC, (uptr)m, 0, 1);
  touch((uptr)m, true);
  Mutex& x = mutexOf((uptr)m);
  event(LOCK, &x.dep);
  if (x.owner >= 0 || x.readers) return EBUSY;
  acquired(x);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  typedef int (*F_)(pthread_mutex_t*); static F_ r; if (!r) r = real<F_>("pthread_mutex_unlock");
  if (!on()) return r(m);
  Enter e;
  auto it = mutexes->find((uptr)m);
  if (it == mutexes->end() || it->second.owner < 0) { if (m->__data.__owner) return r(m); finish(VIOLATED, "a mutex is unlocked that is not locked"); }
  if (it->second.owner != self) finish(VIOLATED, "a mutex is unlocked by another thread than the one holding it");
  if (--it->second.depth) return 0;
  releasedMutex(it->second);
  event(LOCK, &it->second.dep);
  touch((uptr)m, true);
  return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  typedef int (*F_)(pthread_rwlock_t*); static F_ r; if (!r) r = real<F_>("pthread_rwlock_rdlock");
  if (!on()) return r(m);
  Enter e; point(RDLOCK, (uptr)m); Mutex& x = mutexOf((uptr)m);
  x.readers++; T[self].hb.join(x.hb); event(RDLOCK, &x.dep); touch((uptr)m, false); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  typedef int (*F_)(pthread_rwlock_t*); static F_ r; if (!r) r = real<F_>("pthread_rwlock_wrlock");
  if (!on()) return r(m);
  Enter e; point(WRLOCK, (uptr)m); Mutex& x = mutexOf((uptr)m); acquired(x); event(WRLOCK, &x.dep); touch((uptr)m, true); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  typedef int (*F_)(pthread_rwlock_t*); static F_ r; if (!r) r = real<F_>("pthread_rwlock_unlock");
  if (!on()) return r(m);
  Enter e; Mutex& x = mutexOf((uptr)m);
  if (x.owner == self) releasedMutex(x); else if (x.readers > 0) { x.readers--; x.hb.join(T[self].hb); T[self].hb.c[self]++; } else return r(m);
  event(LOCK, &x.dep); touch((uptr)m, true); return 0;
}

static void notified(int w) { T[w].signalled = true; T[w].wakeDep = T[self].dep; touch(wakeObj(w), true); }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Enter e;
  Thr& t = T[self];
  point(CONDWAIT, (uptr)c);
  Mutex& x = mutexOf((uptr)m);
  Cond& k = (*conds)[(uptr)c];
  if (x.owner != self) finish(VIOLATED, "waiting on a condition without holding its mutex");
  readEvent(CONDWAIT, k);
  releasedMutex(x);
  event(LOCK, &x.dep);
  touch((uptr)c, false); touch((uptr)m, true);
  k.waiters.insert(std::lower_bound(k.waiters.begin(), k.waiters.end(), self), self);
  t.signalled = false; t.timed = timed; t.timedOut = false;
  point(REACQUIRE, (uptr)c, (uptr)m);
  t.signalled = false;
  Mutex& y = mutexOf((uptr)m);
  acquired(y);
  t.dep.join(t.wakeDep);
  event(REACQUIRE, &y.dep);
  if (t.spurious) { writeEvent(REACQUIRE, (*conds)[(uptr)c]); touch((uptr)c, true); }
  touch(wakeObj(self), false); touch((uptr)m, true);
  t.spurious = false;
  return timed && t.timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  typedef int (*F_)(pthread_cond_t*, pthread_mutex_t*); static F_ r; if (!r) r = real<F_>("pthread_cond_wait");
  return on() ? condWait(c, m, false) : r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  typedef int (*F_)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); static F_ r; if (!r) r = real<F_>("pthread_cond_timedwait");
  return on() ? condWait(c, m, true) : r(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  typedef int (*F_)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); static F_ r; if (!r) r = real<F_>("pthread_cond_clockwait");
  return on() ? condWait(c, m, true) : r(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
  typedef int (*F_)(pthread_cond_t*); static F_ r; if (!r) r = real<F_>("pthread_cond_signal");
  if (!on()) return r(c);
  Enter e;
  point(NOTIFY, (uptr)c);
  Cond& k = (*conds)[(uptr)c];
  writeEvent(NOTIFY, k);
  touch((uptr)c, true);
  if (!k.waiters.empty()) {
    int w = k.waiters.size() > 1 ? decide(k.waiters.size(), 1000) : 0;
    notified(k.waiters[w]);
    fp += mix(mix(mix(99, self), T[self].events), k.waiters[w]);   // which one was chosen
    k.waiters.erase(k.waiters.begin() + w);
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  typedef int (*F_)(pthread_cond_t*); static F_ r; if (!r) r = real<F_>("pthread_cond_broadcast");
  if (!on()) return r(c);
  Enter e;
  point(NOTIFY, (uptr)c);
  Cond& k = (*conds)[(uptr)c];
  writeEvent(NOTIFY, k);
  touch((uptr)c, true);
  for (int w : k.waiters) notified(w);
  k.waiters.clear();
  return 0;
}

int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!on()) { if (*o != 2) { *o = 1; try { f(); } catch (...) { *o = 0; throw; } *o = 2; } return 0; }
  {
    Enter e;
    if (sharedSite((uptr)o, site(PC))) point(ONCE, (uptr)o);
    Obj& x = (*objs)[(uptr)o];
    event(ONCE, &x.dep);
    touch((uptr)o, true);
    if (*o == 2) { T[self].hb.join(x.hb); return 0; }
    T[self].hb.join(x.hb);
    x.running = self; *o = 1;
  }
  auto done = [&](int v) {
    Enter e;
    Obj& x = (*objs)[(uptr)o];
    x.running = -1; *o = v;
    x.hb.join(T[self].hb); T[self].hb.c[self]++;
    event(ONCE, &x.dep);
    touch((uptr)o, true);
  };
  try { f(); } catch (...) { done(0); throw; }
  done(2);
  return 0;
}

int __cxa_guard_acquire(long long* gg) {
  char* g = (char*)gg;
  if (!on()) { if (g[0]) return 0; g[1] = 1; return 1; }
  Enter e;
  point(GUARD, (uptr)g);
  Obj& x = (*objs)[(uptr)g];
  event(GUARD, &x.dep);
  touch((uptr)g, true);
  T[self].hb.join(x.hb);
  if (g[0]) return 0;
  x.running = self; g[1] = 1;
  return 1;
}
static void guardDone(char* g, char v) {
  g[1] = 0; __atomic_store_n(g, v, __ATOMIC_SEQ_CST);
  if (v && nguards < 64) {
    guards[nguards++] = (uptr)g;
    for (int i = 0; i < MAXT; i++) if (i == self || !on()) guardSeen[i] |= 1ull << (nguards - 1);
  }
  if (!on()) return;
  Enter e;
  Obj& x = (*objs)[(uptr)g];
  x.running = -1;
  x.hb.join(T[self].hb); T[self].hb.c[self]++;
  event(GUARD, &x.dep);
  touch((uptr)g, true);
}
void __cxa_guard_release(long long* g) { guardDone((char*)g, 1); }
void __cxa_guard_abort(long long* g) { guardDone((char*)g, 0); }

int __cxa_thread_atexit(void (*f)(void*), void* p, void* dso) {
  typedef int (*F_)(void (*)(void*), void*, void*); static F_ r; if (!r) r = real<F_>("__cxa_thread_atexit_impl");
  if (on() && self > 0) { Enter e; T[self].atexit.push_back({f, p}); return 0; }
  return r(f, p, dso);
}

int sched_yield() {
  if (on()) { Enter e; T[self].yielded = true; point(YIELD, 0); event(YIELD, nullptr); }
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (on()) return sched_yield();
  return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
  if (on()) return sched_yield();
  return syscall(SYS_clock_nanosleep, c, fl, a, b) ? errno : 0;
}
int usleep(useconds_t) { return on() ? sched_yield() : 0; }
}

namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
  if (!on()) { if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr); return true; }
  Enter e;
  Thr& t = T[self];
  t.signalled = timed;
  point(FUTEXWAIT, (uptr)a, (uptr)a, v);
  t.signalled = false;
  readEvent(FUTEXWAIT, (*objs)[(uptr)a]);
  touch((uptr)a, false);
  return !timed;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) {
  return _M_futex_wait_until(a, v, timed, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  if (!on()) { syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff); return; }
  Enter e;
  point(FUTEXWAKE, (uptr)a);
  writeEvent(FUTEXWAKE, (*objs)[(uptr)a]);
  touch((uptr)a, true);
  for (int i = 0; i < nT; i++) if (T[i].used && !T[i].finished && T[i].op == FUTEXWAIT && T[i].obj == (uptr)a) T[i].signalled = true;
}
}

// ---- the search -------------------------------------------------------------------------

namespace sched {

int currentThread() { return self; }
void ignore(void* p, size_t n) { ignoredFrom = (uptr)p; ignoredTo = ignoredFrom + n; }

static void shared() {
  if (S) return;
  // only one thread runs at a time: keep them on one processor
  cpu_set_t all, one; CPU_ZERO(&one);
  if (!sched_getaffinity(0, sizeof all, &all) && CPU_COUNT(&all) > 0) {
    int k = mc::ctx().shard % CPU_COUNT(&all);
    for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && k-- == 0) CPU_SET(i, &one);
    sched_setaffinity(0, sizeof one, &one);
  }
  auto map = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(97); } return p; };
  S = (SharedRun*)map(sizeof(SharedRun));
  table = (Visited*)map(TABLE * sizeof(Visited));
  tableCount = (long*)map(4096);
  grans = (Gran*)mmap(nullptr, GRANS * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

static int waitChild(pid_t pid) {
  int st;
  while (waitpid(pid, &st, 0) < 0) {}
  return st;
}

std::string inFork(const std::function<std::string()>& f) {
  shared();
  S->status = RUNNING; S->text[0] = 0; S->message[0] = 0;
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(97); }
  if (pid == 0) {
    alarm(60);
    try { std::string s = f(); if (s.size() >= sizeof S->text) finish(HARNESS, "text too long"); memcpy(S->text, s.c_str(), s.size() + 1); finish(FINISHED, ""); }
    catch (std::exception& e) { finish(VIOLATED, e.what()); }
  }
  int st = waitChild(pid);
  if (S->status == HARNESS) { fprintf(stderr, "%s\n", S->message); _exit(97); }
  if (S->status != FINISHED) mc::fail(mc::cat("the reference run ended with status ", st, ": ", S->message));
  return S->text;
}

static void runOnce(const std::function<void()>& prepare, const std::function<void()>& body, const std::function<void()>& check) {
  S->status = RUNNING; S->points = S->nodes = 0; S->message[0] = 0; S->threads = 1; S->steps = 0; S->racePc[0] = S->racePc[1] = 0;
  mc::tick();
  S->changed = 0;
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(97); }
  if (pid == 0) {
    alarm(20);
    try {
      prepare();
      mutexes = new std::map<uptr, Mutex>(); conds = new std::map<uptr, Cond>(); objs = new std::map<uptr, Obj>();
      nT = 1; self = 0; T[0].used = true; T[0].hb.c[0] = 1; T[0].real = pthread_self();
      sem_init(&T[0].sem, 0, 0);
      active = true;
      body();
      tracking = false;
      // threads that were left running
      { Enter e; for (int i = 1; i < nT; i++) if (!T[i].finished) point(JOIN, i); }
      active = false;
      S->final = fp;
      check();
      finish(FINISHED, "");
    }
    catch (std::exception& e) { active = tracking = false; finish(VIOLATED, e.what()); }
    catch (...) { active = tracking = false; finish(VIOLATED, "unexpected exception of unknown type"); }
  }
  int st = waitChild(pid);
  if (S->status == RUNNING) {
    S->status = VIOLATED;
    if (WIFSIGNALED(st)) snprintf(S->message, sizeof S->message, WTERMSIG(st) == SIGALRM ? "the execution does not end" : "crash with signal %d", WTERMSIG(st));
    else snprintf(S->message, sizeof S->message, "the execution ended with code %d", WEXITSTATUS(st));
  }
}

static std::string symbol(uptr pc) {
  char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
  std::string cmd = mc::cat("addr2line -s -f -C -e ", exe, " 0x", std::hex, pc, " 2>/dev/null");
  FILE* f = popen(cmd.c_str(), "r"); std::string s; char b[500];
  if (f) { while (fgets(b, sizeof b, f)) { s += b; if (!s.empty() && s.back() == '\n') s.back() = ' '; } pclose(f); }
  return s;
}

// Operations on the reference counts of shared pointers only keep objects alive. Their
// order is left to the surrounding decisions.
static bool classify() {
  bool changed = false;
  char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
  for (int& i = S->classified; i < S->npcs; i++) {
    std::string cmd = mc::cat("addr2line -i -e ", exe, " 0x", std::hex, S->pcs[i], " 2>/dev/null");
    FILE* f = popen(cmd.c_str(), "r"); char b[2000]; bool q = false;
    if (f) { while (fgets(b, sizeof b, f)) if (strstr(b, "shared_ptr") || strstr(b, "/atomicity.h")) q = true; pclose(f); }
    S->quiet[i] = q; changed |= q;
    if (getenv("MC_SITES")) fprintf(stderr, "site %d %s %s\n", i, symbol(S->pcs[i]).c_str(), q ? "reference count" : "");
  }
  return changed;
}

static void clearTable() {
  if (*tableCount && madvise(table, TABLE * sizeof(Visited), MADV_REMOVE)) memset(table, 0, TABLE * sizeof(Visited));
  *tableCount = 0;
}

// A failing schedule must fail a second time.
[[noreturn]] static void report(const std::function<void()>& prepare, const std::function<void()>& body,
                                const std::function<void()>& check, const std::function<std::string()>& where, bool nodes) {
  std::string msg = S->message, text; uptr p0 = S->racePc[0], p1 = S->racePc[1];
  int n = nodes ? S->nodes : S->points;
  for (int i = 0; i < n; i++) {
    S->prefix[i] = nodes ? S->node[i].chosen : S->point[i].chosen;
    text += mc::cat(i ? "," : "", S->prefix[i]);
  }
  S->prefixLen = n; S->sleepAt = -1;
  dpor = nodes;
  runOnce(prepare, body, check);
  dpor = false;
  if (S->status != VIOLATED) { fprintf(stderr, "a failing schedule did not fail again: %s\n", msg.c_str()); _exit(97); }
  if (p0) msg += " at " + symbol(p0);
  if (p1) msg += " and " + symbol(p1);
  mc::fail(msg + where() + " schedule " + text);
}

static Stats level(const Config& c, const std::function<void()>& prepare, const std::function<void()>& body,
                   const std::function<void()>& check, const std::function<std::string()>& where) {
  shared();
  conf = c;
  Stats st;
  clearTable();
  S->suppressed = 0;
  std::vector<Point> path;
  for (;;) {
    S->prefixLen = path.size();
    for (size_t i = 0; i < path.size(); i++) S->prefix[i] = path[i].chosen;
    runOnce(prepare, body, check);
    st.runs++; st.steps += S->steps;
    if (S->threads > st.maxThreads) st.maxThreads = S->threads;
    if (S->status == HARNESS) {
      if (strstr(S->message, "too many states")) { st.capped = true; break; }
      fprintf(stderr, "%s\n", S->message); _exit(97);
    }
    if ((S->classified < S->npcs && classify()) | S->changed) { S->changed = 0; path.clear(); clearTable(); S->suppressed = 0; st.classes.clear(); continue; }
    if (S->status == VIOLATED) report(prepare, body, check, where, false);
    if (S->status == FINISHED) { st.complete++; st.classes.insert(S->final); }
    int np = S->points;
    if (S->status == PRUNED) np--;       // the last decision belongs to a known state
    // continue with the deepest decision that has another option
    int keep = np;
    while (keep > 0) {
      Point p = S->point[keep - 1];
      if (p.chosen + 1 < p.options) break;
      keep--;
    }
    if (keep == 0) break;
    path.assign(S->point, S->point + keep);
    path.back().chosen++;
    if (st.runs >= c.maxRuns) { st.capped = true; break; }
  }
  st.states = *tableCount;
  return st;
}

// Exploration of one schedule per class of equivalent ones (dynamic partial-order reduction
// with sleep sets): whenever two dependent steps could have come in the other order, the
// other order is scheduled too.
struct Frame { unsigned short backtrack, done, spDone, sleep; };

static void addRaces(std::vector<Frame>& frames, int from, bool pruned) {
  int n = S->nodes;
  std::vector<VC> clock(MAXT); std::vector<u32> stepNo(n, 0); std::vector<u32> count(MAXT, 0);
  std::map<uptr, VC> writes, reads;
  auto races = [&](int j, int p, const Access& a, const VC& pre) {
    if (!a.obj) return;
    for (int i = j - 1; i >= 0; i--) {
      Node& x = S->node[i];
      if (x.kind || x.thread == p) continue;
      const Access& b = x.pending[x.thread];
      if (b.obj != a.obj || !(a.write || b.write) || stepNo[i] <= pre.c[x.thread]) continue;
      unsigned e = x.enabled & (1u << p);
      for (int k = i + 1; k < j; k++) {
        Node& y = S->node[k];
        if (!y.kind && stepNo[k] <= pre.c[y.thread]) e |= x.enabled & (1u << y.thread);
      }
      Frame& f = frames[i];
      if (e & f.backtrack) continue;
      if (!e) f.backtrack |= x.enabled;
      else f.backtrack |= e >> p & 1 ? 1u << p : e & -e;
    }
  };
  int steps = pruned ? n - 1 : n;
  for (int j = 0; j < steps; j++) {
    Node& x = S->node[j];
    if (x.kind) continue;
    int p = x.thread;
    if (j >= from) races(j, p, x.pending[p], clock[p]);
    stepNo[j] = ++count[p];
    VC& c = clock[p];
    c.c[p] = count[p];
    for (int k = 0; k < x.naccs; k++) {
      c.join(writes[x.accs[k].obj]);
      if (x.accs[k].write) c.join(reads[x.accs[k].obj]);
    }
    for (int k = 0; k < x.naccs; k++) (x.accs[k].write ? writes : reads)[x.accs[k].obj].join(c);
  }
  if (pruned && n > 0)
    for (int p = 0; p < MAXT; p++) races(n - 1, p, S->node[n - 1].pending[p], clock[p]);
}

static bool reduced(const Config& c, const std::function<void()>& prepare, const std::function<void()>& body,
                    const std::function<void()>& check, const std::function<std::string()>& where, Stats& st) {
  conf = c; conf.preemptions = -1;
  clearTable();
  std::vector<Frame> frames; std::vector<unsigned short> chosen;
  S->sleepAt = -1;
  for (;;) {
    S->prefixLen = chosen.size();
    for (size_t i = 0; i < chosen.size(); i++) S->prefix[i] = chosen[i];
    dpor = true;
    runOnce(prepare, body, check);
    dpor = false;
    st.runs++; st.steps += S->steps;
    if (S->threads > st.maxThreads) st.maxThreads = S->threads;
    if (S->status == HARNESS && strstr(S->message, "too many states")) return false;
    if (S->status == HARNESS) { fprintf(stderr, "%s\n", S->message); _exit(97); }
    if ((S->classified < S->npcs && classify()) | S->changed) { S->changed = 0; frames.clear(); chosen.clear(); S->sleepAt = -1; clearTable(); st.classes.clear(); continue; }
    if (S->status == VIOLATED) report(prepare, body, check, where, true);
    bool pruned = S->status == PRUNED;
    if (!pruned) { st.complete++; st.classes.insert(S->final); }
    int n = pruned ? S->nodes - 1 : S->nodes;
    int from = std::max(0, (int)chosen.size() - 1);
    for (int i = frames.size(); i < n; i++) {
      Frame f = {0, 0, 0, S->node[i].sleep};
      if (!S->node[i].kind) f.backtrack = 1u << S->node[i].thread;
      frames.push_back(f);
    }
    if (pruned) frames.push_back(Frame{0, 0, 0, 0});
    addRaces(frames, from, pruned);
    frames.resize(n);
    chosen.resize(n);
    for (int i = 0; i < n; i++) chosen[i] = S->node[i].chosen;
    // the deepest step with an alternative
    int i = n - 1;
    for (; i >= 0; i--) {
      Node& x = S->node[i];
      if (x.kind) {
        if (chosen[i] + 1 < x.options) { chosen[i]++; break; }
        continue;
      }
      Frame& f = frames[i];
      if (chosen[i] >> 8) f.spDone |= 1u << x.thread; else f.done |= 1u << x.thread;
      unsigned next = f.backtrack & x.enabled & ~f.done & ~f.sleep;
      if (next) { chosen[i] = __builtin_ctz(next); break; }
      next = x.spurious & ~f.spDone;
      if (next) { chosen[i] = __builtin_ctz(next) | 256; break; }
    }
    if (i < 0) break;
    frames.resize(i + 1); chosen.resize(i + 1);
    int at = i;
    while (S->node[at].kind) at--;
    S->sleepAt = at;
    S->startSleep = frames[at].sleep | frames[at].done;
    if (st.runs >= c.maxRuns) return false;
  }
  st.states = *tableCount;
  st.bound = -1;
  return true;
}

Stats explore(const Config& c, const std::function<void()>& prepare, const std::function<void()>& body,
              const std::function<void()>& check, const std::function<std::string()>& where) {
  shared();
  Stats sum;
  if (reduced(c, prepare, body, check, where, sum)) {
    if (sum.runs > c.compareUpTo) return sum;
    // the search without reduction must meet the same classes of executions
    Config k = c; k.preemptions = -1; k.maxRuns = c.hardLimit;
    Stats full = level(k, prepare, body, check, where);
    if (full.capped) { fprintf(stderr, "the search without reduction is too large\n"); _exit(97); }
    if (full.classes != sum.classes) { fprintf(stderr, "the reduced search met %zu classes of executions, the full search %zu\n", sum.classes.size(), full.classes.size()); _exit(97); }
    sum.runs += full.runs; sum.steps += full.steps; sum.complete += full.complete; sum.compared = true;
    return sum;
  }
  sum.states = 0; sum.classes.clear();
  long before = sum.runs;
  for (int bound = 0; bound < 50; bound++) {
    Config k = c; k.preemptions = bound; k.maxRuns = c.hardLimit;
    if (bound > c.atLeast) k.maxRuns = c.levelRuns - (sum.runs - before);
    if (k.maxRuns <= 0) break;
    Stats st = level(k, prepare, body, check, where);
    sum.runs += st.runs; sum.complete += st.complete; sum.steps += st.steps;
    sum.maxThreads = std::max(sum.maxThreads, st.maxThreads);
    if (st.capped) { if (bound <= c.atLeast) sum.capped = true; break; }
    sum.states = st.states; sum.bound = bound; sum.classes = st.classes;
    if (!S->suppressed) { sum.bound = -1; break; }
  }
  return sum;
}

} // namespace sched
