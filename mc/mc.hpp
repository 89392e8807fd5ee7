// Small framework for exhaustive bounded exploration on the real library.
//
// A harness enumerates its space as a fixed sequence of "units". Each of the parallel
// processes takes the next unit nobody has taken. The number of a unit does not depend
// on that, so "--only N" replays exactly one unit and "--units F" a list of them.
//
// Exit codes of a harness: 0 explored completely, 1 property violated (details in
// the result file), 3 no progress (possible hang), anything else: crash.
#pragma once
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>

namespace mc {

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };

struct Shared { volatile long unit; volatile long ticks; volatile int inUnit; char note[4096]; };

struct Ctx {
  std::string tier = "quick", outFile, scratch, progressFile, repo;
  int shard = 0, nshards = 1;
  long only = -1;
  int hangSeconds = 25;
  long nextUnit = 0, unitsRun = 0, evals = 0, nontrivial = 0;
  std::map<std::string, long> outcomes;   // histogram of what the executions did
  std::map<std::string, long> counters;   // additive counters (states, transitions, ...)
  std::vector<std::string> samples;
  std::set<uint64_t> states;
  std::vector<std::string> known;         // keys of known findings that were met
  std::set<std::string> knownKeys;
  Shared* sh = nullptr;
  std::atomic<long>* claim = nullptr;     // next unit not yet taken, shared by all processes
  long claimed = -1;
  std::set<long> list;
  bool useList = false;
  int unitLog = -1;
  bool thorough() const { return tier == "thorough"; }
};

inline Ctx& ctx() { static Ctx* c = new Ctx(); return *c; }

inline std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

template <class... A> std::string cat(const A&... a) {
  std::ostringstream os; os.precision(17); (void)std::initializer_list<int>{(os << a, 0)...}; return os.str();
}

inline std::string vec(const std::vector<double>& v) {
  std::ostringstream os; os.precision(17); os << "[";
  for (size_t i = 0; i < v.size(); i++) os << (i ? " " : "") << v[i];
  os << "]"; return os.str();
}

inline void tick() { ctx().sh->ticks = ctx().sh->ticks + 1; }
inline void eval(long n = 1) { ctx().evals += n; tick(); }
inline void nontrivial(long n = 1) { ctx().nontrivial += n; }
inline void outcome(const std::string& k, long n = 1) { ctx().outcomes[k] += n; }
inline void counter(const std::string& k, long n = 1) { ctx().counters[k] += n; }
inline void sample(const std::string& s) { if (ctx().samples.size() < 3) ctx().samples.push_back(s); }
inline void state(uint64_t h) { ctx().states.insert(h); }
inline void note(const std::string& s) {
  snprintf(ctx().sh->note, sizeof ctx().sh->note, "%s", s.c_str());
}

// A short description of the step being executed, kept outside the process so
// that it survives a crash.
[[noreturn]] inline void fail(const std::string& msg) { throw Violation(msg); }
inline void require(bool ok, const std::function<std::string()>& msg) { if (!ok) fail(msg()); }
#define MC_REQUIRE(cond, ...) do { if (!(cond)) mc::fail(mc::cat(__VA_ARGS__)); } while (0)

// Violations that are recorded as known findings do not stop the exploration.
inline void failKey(const std::string& key, const std::string& msg) {
  if (ctx().knownKeys.count(key)) { ctx().known.push_back(key); return; }
  fail("[" + key + "] " + msg);
}

inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

inline void writeResult(int status, const std::string& msg, const std::string& desc, long unit) {
  Ctx& c = ctx();
  std::ofstream f(c.outFile + ".tmp");
  f << "{\"status\":" << status << ",\"message\":" << jesc(msg) << ",\"desc\":" << jesc(desc)
    << ",\"unit\":" << unit << ",\"units\":" << c.unitsRun << ",\"total_units\":" << c.nextUnit
    << ",\"evals\":" << c.evals << ",\"nontrivial\":" << c.nontrivial;
  auto dump = [&](const char* n, const std::map<std::string, long>& m) {
    f << ",\"" << n << "\":{"; bool first = true;
    for (auto& p : m) { f << (first ? "" : ",") << jesc(p.first) << ":" << p.second; first = false; }
    f << "}";
  };
  dump("outcomes", c.outcomes); dump("counters", c.counters);
  f << ",\"samples\":["; for (size_t i = 0; i < c.samples.size(); i++) f << (i ? "," : "") << jesc(c.samples[i]);
  f << "],\"known\":["; std::set<std::string> k(c.known.begin(), c.known.end());
  { bool first = true; for (auto& x : k) { f << (first ? "" : ",") << jesc(x); first = false; } }
  f << "],\"states\":[";
  { bool first = true; for (auto x : c.states) { f << (first ? "" : ",") << x; first = false; } }
  f << "]}\n";
  f.close();
  rename((c.outFile + ".tmp").c_str(), c.outFile.c_str());
}

inline bool mine(long id) {
  Ctx& c = ctx();
  if (c.only >= 0) return id == c.only;
  if (c.useList) return c.list.count(id) > 0;
  if (!c.claim) return id % c.nshards == c.shard;
  if (c.claimed < 0) c.claimed = c.claim->fetch_add(1);
  if (id != c.claimed) return false;
  c.claimed = c.claim->fetch_add(1);
  if (c.unitLog >= 0 && write(c.unitLog, &id, sizeof id) != sizeof id) _exit(97);
  return true;
}

// Runs one unit if it belongs to this shard.
template <class D, class B> void unit(D describe, B body) {
  Ctx& c = ctx();
  long id = c.nextUnit++;
  if (!mine(id)) return;
  c.sh->unit = id; c.sh->inUnit = 1; c.sh->note[0] = 0;
  if (c.only >= 0) {
    std::ofstream f(c.outFile + ".desc"); f << describe();
  }
  c.unitsRun++;
  tick();
  auto t0 = std::chrono::steady_clock::now();
  std::string err;
  try { body(); }
  catch (Violation& v) { err = v.what(); if (err.empty()) err = "violation"; }
  catch (std::exception& e) { err = cat("unexpected exception: ", e.what()); }
  catch (...) { err = "unexpected exception of unknown type"; }
  c.sh->inUnit = 0;
  if (getenv("MC_TIMES")) {
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (dt > 1) fprintf(stderr, "unit %ld took %.1f s: %s\n", id, dt, describe().substr(0, 150).c_str());
  }
  if (!err.empty()) {
    writeResult(1, err, describe(), id);
    _exit(1);
  }
}

inline void watchdog() {
  static std::atomic<bool> started{false};
  std::thread([] {
    Ctx& c = ctx();
    started = true;
    long last = -1; int same = 0;
    for (;;) {
      struct timespec ts = {1, 0}; nanosleep(&ts, nullptr);
      long now = c.sh->ticks;
      if (c.sh->inUnit && now == last) same++; else same = 0;
      last = now;
      if (same >= c.hangSeconds) _exit(3);
    }
  }).detach();
  // a harness that forks must not do so while the thread is being set up and holds locks
  while (!started) std::this_thread::yield();
}

inline std::string scratchPath(const std::string& name) { return ctx().scratch + "/" + name; }

inline void writeFile(const std::string& path, const std::string& content) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) { perror(path.c_str()); _exit(97); }
  if (fwrite(content.data(), 1, content.size(), f) != content.size()) { perror("write"); _exit(97); }
  fclose(f);
}
inline std::string readFile(const std::string& path) {
  std::ifstream f(path, std::ios::binary); std::ostringstream os; os << f.rdbuf(); return os.str();
}

void explore();   // supplied by the harness

inline int mainImpl(int argc, char** argv) {
  Ctx& c = ctx();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--tier") c.tier = next();
    else if (a == "--shard") { c.shard = atoi(next().c_str()); }
    else if (a == "--nshards") { c.nshards = atoi(next().c_str()); }
    else if (a == "--only") c.only = atol(next().c_str());
    else if (a == "--out") c.outFile = next();
    else if (a == "--scratch") c.scratch = next();
    else if (a == "--progress") c.progressFile = next();
    else if (a == "--hang") c.hangSeconds = atoi(next().c_str());
    else if (a == "--repo") c.repo = next();
    else if (a == "--known") c.knownKeys.insert(next());
    else if (a == "--units") {
      c.useList = true;
      std::ifstream f(next(), std::ios::binary); long id;
      while (f.read((char*)&id, sizeof id)) c.list.insert(id);
    }
    else if (a == "--claim") {
      int fd = open(next().c_str(), O_RDWR);
      if (fd < 0) { perror("claim"); return 97; }
      c.claim = (std::atomic<long>*)mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
  }
  if (c.claim) c.unitLog = open((c.outFile + ".units").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  int fd = open(c.progressFile.c_str(), O_RDWR | O_CREAT, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("progress"); return 97; }
  c.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  c.sh->unit = -1;
  mkdir(c.scratch.c_str(), 0755);
  watchdog();
  explore();
  writeResult(0, "", "", -1);
  return 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { int r = mc::mainImpl(argc, argv); fflush(stdout); _exit(r); }
#endif
