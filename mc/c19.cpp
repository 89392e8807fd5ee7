// C19: repeating operations does not accumulate memory, files or threads.
#include "grouping.hpp"
#include <dirent.h>

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
size_t __sanitizer_get_allocated_size(const volatile void*);
}

namespace {

using namespace mc;

std::atomic<long> bytes, blocks;
void onMalloc(const volatile void* p, size_t) { if (p) { bytes += __sanitizer_get_allocated_size((const void*)p); blocks++; } }
void onFree(const volatile void* p) { if (p) { bytes -= __sanitizer_get_allocated_size((const void*)p); blocks--; } }

int entries(const char* dir) {
  int n = 0;
  if (DIR* d = opendir(dir)) { while (readdir(d)) n++; closedir(d); }
  return n;
}
int filesOpen() {                            // only those the operations can have opened
  static std::string dir = scratchPath("");
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    char b[512];
    while (dirent* e = readdir(d)) { ssize_t k = readlinkat(dirfd(d), e->d_name, b, sizeof b); n += k >= (ssize_t)dir.size() && !memcmp(b, dir.data(), dir.size()); }
    closedir(d);
  }
  return n;
}
struct Usage {
  long bytes, blocks; int files, threads;
  bool operator==(const Usage& o) const { return bytes == o.bytes && blocks == o.blocks && files == o.files && threads == o.threads; }
  std::string show() const { return cat(bytes, " bytes in ", blocks, " blocks, ", files, " open files, ", threads, " threads"); }
};
int ownThreads;
Usage usage() {
  Usage u; u.files = filesOpen(); u.threads = entries("/proc/self/task");
  // a thread that has been joined may still be listed by the kernel for a moment
  for (int i = 0; i < 2000 && u.threads > ownThreads; i++) { usleep(500); u.threads = entries("/proc/self/task"); }
  u.bytes = bytes; u.blocks = blocks;
  return u;
}

const Data A = {{1, 2, 3, 1, 0}, {2, 2, 1}, {0, 4, 4, 4}}, B = {{0, 4}, {2, 1}, {3, 3}};

struct Op { const char* name; std::function<void(GenexAPI&)> run; bool core; };
std::vector<Op>& ops() {
  static std::vector<Op>* v = nullptr;
  if (v) return *v;
  v = new std::vector<Op>();
  auto add = [&](const char* n, std::function<void(GenexAPI&)> f, bool core = false) { v->push_back({n, f, core}); };
  static std::string fa = scratchPath("A.txt"), fb = scratchPath("B.txt"), bad = scratchPath("bad.txt"), bin = scratchPath("g.bin"), txt = scratchPath("g.txt"), cut = scratchPath("cut.bin"), cutTxt = scratchPath("cut.txt"), foreign = scratchPath("foreign.bin"), out = scratchPath("out.txt");
  writeFile(fa, toText(A)); writeFile(fb, toText(B)); writeFile(bad, "1 2 3\n4 5 6\n7 x 9\n");
  add("load a", [](GenexAPI& g) { g.loadDataset("a", fa, " "); }, true);
  add("load b", [](GenexAPI& g) { g.loadDataset("b", fb, " "); });
  add("load a part", [](GenexAPI& g) { g.loadDataset("a", fa, " ", 2, 1); });
  add("load a named", [](GenexAPI& g) { g.loadDataset("a", fa, " ", 0, 0, true); });
  add("load a bad file", [](GenexAPI& g) { g.loadDataset("c", bad, " "); });
  add("load a missing file", [](GenexAPI& g) { g.loadDataset("c", "/nonexistent/file", " "); });
  add("load with a column too large", [](GenexAPI& g) { g.loadDataset("c", fa, " ", 0, 9); });
  add("unload a", [](GenexAPI& g) { g.unloadDataset("a"); }, true);
  add("unload all", [](GenexAPI& g) { g.unloadAllDataset(); });
  add("normalise a", [](GenexAPI& g) { g.normalizeDataset("a"); }, true);
  add("save a", [](GenexAPI& g) { g.saveDataset("a", out, ' '); });
  add("save a nowhere", [](GenexAPI& g) { g.saveDataset("a", "/nonexistent/file", ' '); });
  static const char* dists[] = {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"};
  for (int i = 0; i < 5; i++) {
    add(i == 0 ? "group a by euclidean" : i == 1 ? "group a by manhattan" : i == 2 ? "group a by chebyshev" : i == 3 ? "group a by cosine" : "group a by sorensen", [i](GenexAPI& g) { g.groupDataset("a", 0.6, dists[i], 1, false); }, i == 0);
    add(i == 0 ? "group a whole by euclidean" : i == 1 ? "group a whole by manhattan" : i == 2 ? "group a whole by chebyshev" : i == 3 ? "group a whole by cosine" : "group a whole by sorensen", [i](GenexAPI& g) { g.groupDataset("a", 0.6, dists[i], 1, true); });
  }
  add("group a with two threads", [](GenexAPI& g) { g.groupDataset("a", 0.4, "euclidean", 2, false); }, true);
  add("group a with three threads", [](GenexAPI& g) { g.groupDataset("a", 0.4, "manhattan", 3, false); });
  add("group b", [](GenexAPI& g) { g.groupDataset("b", 0.4, "euclidean", 1, false); });
  add("group by an unknown distance", [](GenexAPI& g) { g.groupDataset("a", 0.4, "unknown", 2, false); });
  add("group with no threads", [](GenexAPI& g) { g.groupDataset("a", 0.4, "euclidean", 0, false); });
  add("save groups", [](GenexAPI& g) { g.saveGroups("a", bin); }, true);
  add("load groups", [](GenexAPI& g) { g.loadGroups("a", bin); }, true);
  add("save groups nowhere", [](GenexAPI& g) { g.saveGroups("a", "/nonexistent/file"); });
  add("load missing groups", [](GenexAPI& g) { g.loadGroups("a", "/nonexistent/file"); });
  add("save groups as text", [](GenexAPI& g) { g.saveGroupsOld("a", txt, false); }, true);
  add("save group sizes", [](GenexAPI& g) { g.saveGroupsOld("a", out, true); });
  add("load groups from text", [](GenexAPI& g) { g.loadGroupsOld("a", txt); }, true);
  add("save text groups nowhere", [](GenexAPI& g) { g.saveGroupsOld("a", "/nonexistent/file", false); });
  add("load missing text groups", [](GenexAPI& g) { g.loadGroupsOld("a", "/nonexistent/file"); });
  add("load cut groups", [](GenexAPI& g) { g.loadGroups("a", cut); });
  add("load cut text groups", [](GenexAPI& g) { g.loadGroupsOld("a", cutTxt); });
  add("load foreign groups", [](GenexAPI& g) { g.loadGroups("a", foreign); });
  add("prepare PAA 2", [](GenexAPI& g) { g.preparePAA("a", 2); }, true);
  add("prepare PAA 3", [](GenexAPI& g) { g.preparePAA("a", 3); });
  add("prepare PAA 0", [](GenexAPI& g) { g.preparePAA("a", 0); });
  add("ratio 0.1", [](GenexAPI& g) { g.setWarpingBandRatio(0.1); });
  add("ratio 1", [](GenexAPI& g) { g.setWarpingBandRatio(1); }, true);
  add("best match", [](GenexAPI& g) { g.getBestMatch("a", "a", 0, 1, 4); }, true);
  add("best match of the whole series", [](GenexAPI& g) { g.getBestMatch("a", "a", 1, -1, -1); });
  add("best match in b", [](GenexAPI& g) { g.getBestMatch("a", "b", 1, 0, 2); });
  add("best match out of range", [](GenexAPI& g) { g.getBestMatch("a", "a", 0, 1, 9); });
  add("k best matches", [](GenexAPI& g) { g.getKBestMatches(3, 5, "a", "a", 0, 0, 3); }, true);
  add("many best matches", [](GenexAPI& g) { g.getKBestMatches(50, 60, "a", "a", 2, 0, 4); });
  add("no best matches", [](GenexAPI& g) { g.getKBestMatches(0, 0, "a", "a", 2, 0, 4); });
  for (int i = 0; i < 5; i++) {
    static const char* bn[] = {"brute force euclidean", "brute force manhattan", "brute force chebyshev", "brute force cosine", "brute force sorensen"};
    static const char* pn[] = {"PAA euclidean", "PAA manhattan", "PAA chebyshev", "PAA cosine", "PAA sorensen"};
    static const char* dn[] = {"distance euclidean", "distance manhattan", "distance chebyshev", "distance cosine", "distance sorensen"};
    static const char* wn[] = {"warped euclidean", "warped manhattan", "warped chebyshev", "warped cosine", "warped sorensen"};
    static const char* mn[] = {"matching euclidean", "matching manhattan", "matching chebyshev", "matching cosine", "matching sorensen"};
    add(bn[i], [i](GenexAPI& g) { g.getKBestMatchesBruteForce(4, "a", "a", 0, 0, 3, dists[i]); }, i == 0);
    add(pn[i], [i](GenexAPI& g) { g.getKBestMatchesPAA(4, "a", "a", 0, 0, 3, dists[i]); }, i == 0);
    add(dn[i], [i](GenexAPI& g) { g.distanceBetween("a", 0, 0, 3, "a", 1, 0, 3, dists[i]); });
    add(wn[i], [i](GenexAPI& g) { g.distanceBetween("a", 0, 0, 5, "a", 1, 0, 3, std::string(dists[i]) + "_dtw"); });
    add(mn[i], [i](GenexAPI& g) { g.matchingBetween("a", 0, 0, 5, "a", 2, 0, 4, std::string(dists[i]) + "_dtw"); }, i == 0);
  }
  add("matching of equal lengths", [](GenexAPI& g) { g.matchingBetween("a", 0, 0, 3, "a", 2, 0, 3, "euclidean_dtw"); });
  add("matching of points", [](GenexAPI& g) { g.matchingBetween("a", 0, 0, 1, "a", 2, 0, 1, "manhattan_dtw"); });
  add("distance of different lengths", [](GenexAPI& g) { g.distanceBetween("a", 0, 0, 5, "a", 1, 0, 3, "euclidean"); });
  add("distance with an unknown name", [](GenexAPI& g) { g.distanceBetween("a", 0, 0, 5, "a", 1, 0, 3, "unknown"); });
  add("matching with an unknown name", [](GenexAPI& g) { g.matchingBetween("a", 0, 0, 5, "a", 1, 0, 3, "unknown_dtw"); });
  add("get series", [](GenexAPI& g) { g.getTimeSeries("a", 0, 1, 3); });
  add("get series out of range", [](GenexAPI& g) { g.getTimeSeries("a", 7, 1, 3); });
  add("information", [](GenexAPI& g) { g.getAllDatasetInfo(); g.getAllDistanceInfo(); g.getDatasetInfo("a"); g.getTimeSeriesName("a", 0); });
  return *v;
}

// The files read by operations are the same whatever ran before.
void resetFiles() {
  static std::string keep[3]; static bool have;
  if (!have) {
    GenexAPI g; load(g, "a", A); load(g, "b", B);
    g.groupDataset("a", 0.6, "euclidean", 1, false); g.groupDataset("b", 0.6, "euclidean", 1, false);
    g.saveGroups("a", scratchPath("g.bin")); g.saveGroupsOld("a", scratchPath("g.txt"), false); g.saveGroups("b", scratchPath("foreign.bin"));
    keep[0] = readFile(scratchPath("g.bin")); keep[1] = readFile(scratchPath("g.txt"));
    writeFile(scratchPath("cut.bin"), keep[0].substr(0, keep[0].size() * 2 / 3));
    writeFile(scratchPath("cut.txt"), keep[1].substr(0, keep[1].size() * 2 / 3));
    have = true;
  }
  writeFile(scratchPath("g.bin"), keep[0]); writeFile(scratchPath("g.txt"), keep[1]);
}

bool call(const Op& o, GenexAPI& g) { return !throwsStd([&] { o.run(g); }); }

const std::vector<std::vector<const char*>> bases = {
  {}, {"load a"}, {"load a", "normalise a"}, {"load a", "group a by euclidean"}, {"load a", "prepare PAA 2"},
  {"load a", "load b", "group a by manhattan", "prepare PAA 2"}, {"load a", "group a by chebyshev", "normalise a", "ratio 1"},
  {"load a", "load b", "group a whole by euclidean", "group b"}, {"load a named", "group a by cosine", "prepare PAA 3"}, {"load a", "load groups from text"},
};
const Op& find(const char* n) { for (auto& o : ops()) if (!strcmp(o.name, n)) return o; abort(); }

std::string named(const std::vector<const Op*>& w) { std::string s; for (auto o : w) s += (s.empty() ? "" : "; ") + std::string(o->name); return s; }
std::string named(const std::vector<const char*>& b) { std::string s; for (auto o : b) s += (s.empty() ? "" : "; ") + std::string(o); return "[" + s + "]"; }

// Repeats a word of operations; usage after the third repetition must stay.
void repeat(const std::vector<const char*>& base, const std::vector<const Op*>& word) {
  note(named(base) + " " + named(word));
  resetFiles();
  bool all = true;
  Usage before = usage();
  {
    GenexAPI g; g.setWarpingBandRatio(0.1);
    for (auto b : base) call(find(b), g);
    for (int i = 0; i < 3; i++) for (auto o : word) all &= call(*o, g) || i == 0;
    Usage u = usage();
    for (int i = 0; i < 3; i++) for (auto o : word) call(*o, g);
    Usage now = usage();
    MC_REQUIRE(now == u, "repeating ", named(word), " after ", named(base), " three more times changed the use of resources from ", u.show(), " to ", now.show());
  }
  // The first use of a function may set up things that stay for the rest of the process.
  Usage after = usage();
  if (!(after == before)) {
    before = after;
    GenexAPI* g = new GenexAPI; g->setWarpingBandRatio(0.1);
    for (auto b : base) call(find(b), *g);
    for (int i = 0; i < 3; i++) for (auto o : word) call(*o, *g);
    delete g;
    after = usage();
    MC_REQUIRE(after == before, "after ", named(base), " and ", named(word), " destroying the object left ", after.show(), " instead of ", before.show());
  }
  outcome(all ? "all operations succeed when repeated" : "with operations that are refused");
  counter("operations", base.size() + 6 * word.size());
  eval(); if (all) nontrivial();
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  Quiet quiet;
  ownThreads = entries("/proc/self/task");
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  for (auto& b : bases)
    for (auto& o : ops()) {
      unit([&] { return cat(named(b), " then ", o.name, ", alone and with every other operation"); }, [&] {
        resetFiles(); usage();
        repeat(b, {&o});
        for (auto& p : ops()) repeat(b, {&o, &p});
        sample(cat(named(b), " ", o.name));
      });
    }
  std::vector<const Op*> core;
  for (auto& o : ops()) if (o.core) core.push_back(&o);
  for (auto& b : bases) {
    if (!th && &b - &bases[0] > 3) break;
    for (auto p : core) for (auto q : core) unit([&] { return cat(named(b), " then ", p->name, "; ", q->name, " and every core operation"); }, [&] {
      resetFiles(); usage();
      for (auto r : core) repeat(b, {p, q, r});
    });
  }
  // Damaged group files of every kind: nothing stays behind from the part that was read.
  for (int text = 0; text < 2; text++)
    for (int grouped = 0; grouped < 2; grouped++)
      unit([&] { return cat("group files cut at every byte or with one byte changed", text ? ", text" : "", grouped ? ", already grouped" : ""); }, [&] {
        resetFiles();
        std::string file = scratchPath(text ? "g.txt" : "g.bin"), good = readFile(file), p = scratchPath("damaged");
        GenexAPI g; load(g, "a", A);
        if (grouped) g.groupDataset("a", 0.5, "manhattan", 1, false);
        auto go = [&] { return throwsStd([&] { if (text) g.loadGroupsOld("a", p); else g.loadGroups("a", p); }); };
        auto one = [&](const std::string& content, const std::string& what) {
          note(what);
          writeFile(p, content);
          go(); bool refused = go();
          Usage u = usage();
          refused &= go();
          Usage now = usage();
          MC_REQUIRE(now == u, "loading a group file ", what, " changed the use of resources from ", u.show(), " to ", now.show());
          outcome(refused ? "damaged file refused" : "changed file accepted");
          eval(); nontrivial();
        };
        for (size_t i = 0; i < good.size(); i++) one(good.substr(0, i), cat("cut to ", i, " bytes"));
        for (size_t i = 0; i < good.size(); i++) {
          std::string c = good;
          if (text) { if (!isdigit((unsigned char)c[i])) continue; c[i] = c[i] == '9' ? '1' : c[i] + 1; if (i && isdigit((unsigned char)c[i - 1])) continue; }
          else c[i] ^= 1;
          one(c, cat("with byte ", i, " changed"));
        }
      });
  // Data files that are refused at every possible field.
  unit([] { return std::string("data files with one bad field"); }, [&] {
    GenexAPI g; load(g, "a", A);
    std::string p = scratchPath("baddata");
    for (int rows = 1; rows <= 4; rows++) for (int cols = 1; cols <= 4; cols++) for (int bad = 0; bad < rows * cols; bad++) for (int named = 0; named < 2; named++) {
      std::string s;
      for (int r = 0; r < rows; r++) for (int c = 0; c < cols; c++) s += cat(r * cols + c == bad ? "x" : "1.5", c + 1 < cols ? " " : "\n");
      writeFile(p, s);
      auto go = [&] { return throwsStd([&] { g.loadDataset("c", p, " ", 0, 0, named); }); };
      auto back = [&] { if (!throwsStd([&] { g.unloadDataset("c"); })) outcome("data file accepted"); else outcome("data file refused"); };
      for (int i = 0; i < 2; i++) { go(); back(); }
      Usage u = usage(); go(); back();
      Usage now = usage();
      MC_REQUIRE(now == u, "loading ", s, " changed the use of resources from ", u.show(), " to ", now.show());
      eval(); nontrivial();
    }
  });
}
