// C22: the command line shell under all short sequences of lines.
//
// The real main function of the shell runs with a readline function that branches: at each
// prompt the process is duplicated for every possible next line. A second instance of the
// library, driven directly, says what each line has to do.
#include "grouping.hpp"
#include <sys/prctl.h>
#include <sys/wait.h>

int genexcli_main(int argc, char** argv);
std::string atPrompt(const char* prompt, bool& eof);

extern "C" char* readline(const char* prompt) {
  bool eof = false;
  std::string s = atPrompt(prompt ? prompt : "", eof);
  return eof ? nullptr : strdup(s.c_str());
}
extern "C" void add_history(const char*) {}
unsigned int std::thread::hardware_concurrency() noexcept { return 2; }

namespace {

using namespace mc;

// ---- expectations ----------------------------------------------------------------------------

struct Refused : std::runtime_error { Refused() : std::runtime_error("refused") {} };

struct Piece { bool number; std::string text; double value; };
struct Needs {
  std::vector<Piece> v;
  Needs& s(const std::string& t) { v.push_back({false, t, 0}); return *this; }
  Needs& n(double x) { v.push_back({true, "", x}); return *this; }
};

// The pieces occur in the text in this order. Numbers have six digits.
bool contains(const std::string& t, const Needs& needs, std::string& missing) {
  size_t pos = 0;
  for (auto& p : needs.v) {
    if (!p.number) {
      size_t i = t.find(p.text, pos);
      if (i == std::string::npos) { missing = p.text; return false; }
      pos = i + p.text.size();
    } else {
      bool found = false;
      while (pos < t.size() && !found) {
        char c = t[pos];
        bool start = (isdigit((unsigned char)c) || ((c == '-' || c == '+') && pos + 1 < t.size() && isdigit((unsigned char)t[pos + 1])) || (c == 'i' && t.compare(pos, 3, "inf") == 0)) && (pos == 0 || !isalnum((unsigned char)t[pos - 1]));
        if (!start) { pos++; continue; }
        char* e; double x = strtod(t.c_str() + pos, &e);
        pos = e - t.c_str();
        found = ref::close(x, p.value, 1e-5);
      }
      if (!found) { missing = cat(p.value); return false; }
    }
  }
  return true;
}

struct Shadow { GenexAPI api; bool timer = true; };
struct Line {
  std::string text;
  std::function<void(Shadow&, Needs&)> op;      // throws: the line has to be refused
  bool timed = false, help = false, silent = false, writes = false;
  int set = 2;                                  // 0: in every alphabet, 1: core, 2: full only, 3: larger data
};

std::string fl, fa, fb, fn, bad, bin, sizes, data, shadowBin;

std::vector<Line>& lines() {
  static std::vector<Line>* v = nullptr;
  if (v) return *v;
  v = new std::vector<Line>();
  fa = scratchPath("a.txt"); fb = scratchPath("b.txt"); fn = scratchPath("n.csv"); bad = scratchPath("bad.txt");
  bin = scratchPath("g.bin"); sizes = scratchPath("s.txt"); data = scratchPath("d.txt"); shadowBin = scratchPath("shadow.bin");
  writeFile(fa, "1 2 3 1\n2 2 1\n"); writeFile(fb, "0 4\n2 1\n3 3\n"); writeFile(fn, "x,1.5,2,0\ny,2,2.5,1\nz,7,1,1\n"); writeFile(bad, "1 2\n3 x\n");
  auto add = [&](int set, const std::string& t, std::function<void(Shadow&, Needs&)> f) -> Line& { Line l; l.text = t; l.op = f; l.set = set; v->push_back(l); return v->back(); };
  auto refuse = [&](int set, const std::string& t) -> Line& { return add(set, t, [](Shadow&, Needs&) { throw Refused(); }); };
  typedef Shadow& S; typedef Needs& N;

  auto loaded = [](N n, const genex::dataset_metadata_t& i) { n.s("ame").s(i.name).s("tem count").n(i.itemCount).s("tem length").n(i.itemLength); };
  add(0, "load a " + fa, [=](S s, N n) { loaded(n, s.api.loadDataset("a", fa, " ")); });
  add(1, "load b " + fb, [=](S s, N n) { loaded(n, s.api.loadDataset("b", fb, " ")); });
  add(1, "load a " + fn + " , 0 0 1", [=](S s, N n) { loaded(n, s.api.loadDataset("a", fn, ",", 0, 0, true)); });
  add(2, "load b " + fa + " \\s 1", [=](S s, N n) { loaded(n, s.api.loadDataset("b", fa, " ", 1)); });
  add(2, "load b " + fa + " \\s, 0 1", [=](S s, N n) { loaded(n, s.api.loadDataset("b", fa, " ,", 0, 1)); });
  add(2, "  load   b  " + fb + " ", [=](S s, N n) { loaded(n, s.api.loadDataset("b", fb, " ")); });
  for (auto t : std::vector<std::string>{std::string("load"), std::string("load a"), "load a " + fa + " \\s 0 0 0 0", "load c /nonexistent/file", "load c " + bad, "load c " + fa + " \\s x", "load c " + fa + " \\s 0 x", "load c " + fa + " \\s 0 0 x", "load c " + fa + " \\s 99999999999", "load c " + fa + " \\s 0 -1"}) refuse(t == "load c " + bad ? 1 : 2, t);

  add(0, "unload a", [](S s, N n) { s.api.unloadDataset("a"); n.s("a"); });
  add(2, "unload b", [](S s, N n) { s.api.unloadDataset("b"); n.s("b"); });
  for (auto t : {"unload", "unload a b", "unload zz"}) refuse(2, t);

  add(0, "normalize a", [](S s, N n) { s.api.normalizeDataset("a"); n.s("a").s("ormalized"); });
  for (auto t : {"normalize", "normalize a b", "normalize zz"}) refuse(2, t);

  auto group = [&](int set, const std::string& t, const std::string& name, double th, const std::string& d) {
    add(set, t, [=](S s, N n) { int c = s.api.groupDataset(name, th, d, 2, false); n.s(name).s("roups").n(c); }).timed = true;
  };
  group(0, "group a 0.5", "a", 0.5, "euclidean");
  group(1, "group a 1 manhattan", "a", 1, "manhattan");
  group(2, "group a 4 chebyshev", "a", 4, "chebyshev");
  group(1, "group b 0.3 chebyshev", "b", 0.3, "chebyshev");
  for (auto t : {"group", "group a", "group a x", "group a 0.5 nosuch", "group a 0.5 euclidean_dtw", "group a 0.5 euclidean 3", "group zz 0.5"}) refuse(std::string(t) == "group a 0.5 nosuch" ? 1 : 2, t);

  add(1, "saveGroups a " + bin, [](S s, N n) { s.api.saveGroups("a", shadowBin); n.s("a"); }).writes = true;
  add(2, "saveGroups a " + bin + " 0", [](S s, N n) { s.api.saveGroups("a", shadowBin); n.s("a"); }).writes = true;
  add(2, "saveGroups a " + sizes + " 1", [](S s, N n) { s.api.saveGroupsOld("a", scratchPath("shadow.sizes"), true); n.s("a"); }).writes = true;
  for (auto t : std::vector<std::string>{std::string("saveGroups"), std::string("saveGroups a"), "saveGroups a " + bin + " x", "saveGroups a " + bin + " 0 0", std::string("saveGroups a /nonexistent/dir/g"), "saveGroups zz " + bin}) refuse(2, t);
  add(1, "loadGroups a " + bin, [](S s, N n) { n.n(s.api.loadGroups("a", shadowBin)); });
  add(2, "loadGroups b " + bin, [](S s, N n) { n.n(s.api.loadGroups("b", shadowBin)); });
  for (auto t : std::vector<std::string>{std::string("loadGroups"), std::string("loadGroups a"), "loadGroups a " + bin + " x", std::string("loadGroups a /nonexistent/file"), "loadGroups a " + fa, "loadGroups zz " + bin}) refuse(t == "loadGroups a " + fa ? 1 : 2, t);

  add(1, "save a " + data, [](S s, N n) { s.api.saveDataset("a", scratchPath("shadow.data"), ' '); n.s("a"); }).writes = true;
  add(2, "save a " + data + " ,", [](S s, N n) { s.api.saveDataset("a", scratchPath("shadow.data"), ','); n.s("a"); }).writes = true;
  for (auto t : std::vector<std::string>{std::string("save"), std::string("save a"), "save a " + data + " , x", std::string("save a /nonexistent/dir/d"), "save zz " + data}) refuse(2, t);

  add(1, "list dataset", [](S s, N n) {
    auto all = s.api.getAllDatasetInfo();
    n.n(all.size());
    for (auto& i : all) {
      n.s(i.name);
      if (i.isGrouped) n.s("Grouped").s(i.distance).n(i.threshold); else n.s("Not grouped");
      n.s(i.isNormalized ? "Normalized" : "Not normalized");
    }
  });
  add(2, "list distance", [](S s, N n) { for (auto& i : s.api.getAllDistanceInfo()) n.s(i.name).s(i.description); });
  for (auto t : {"list", "list x", "list dataset x"}) refuse(2, t);

  add(2, "timer", [](S s, N n) { n.s(s.timer ? "ON" : "OFF"); });
  add(2, "timer on", [](S s, N n) { s.timer = true; n.s("ON"); });
  add(1, "timer off", [](S s, N n) { s.timer = false; n.s("OFF"); });
  for (auto t : {"timer x", "timer on on", "timer ON"}) refuse(2, t);

  auto query = [&](int set, const std::string& t, std::function<void(Shadow&, Needs&)> f) { add(set, t, f).timed = true; };
  auto best = [](N n, const genex::candidate_time_series_t& b) { n.s("est match").n(b.data.getIndex()).n(b.data.getStart()).n(b.data.getEnd()).s("istance").n(b.dist); };
  auto list = [](N n, const std::vector<genex::candidate_time_series_t>& v) { for (auto& b : v) n.s("imeseries").n(b.data.getIndex()).n(b.data.getStart()).n(b.data.getEnd()).s("distance").n(b.dist); };
  query(0, "sim a a 0", [=](S s, N n) { best(n, s.api.getBestMatch("a", "a", 0)); });
  query(2, "sim a b 1", [=](S s, N n) { best(n, s.api.getBestMatch("a", "b", 1)); });
  query(1, "sim a b 0 0 2", [=](S s, N n) { best(n, s.api.getBestMatch("a", "b", 0, 0, 2)); });
  for (auto t : {"sim", "sim a a", "sim a a 0 1", "sim a a x", "sim a a 9", "sim a a -1", "sim a a 0 0 99", "sim a a 0 2 1", "sim a a 0 0 x", "sim a a 0 0 2 3", "sim zz a 0", "sim a zz 0"}) refuse(2, t);
  query(1, "ksim 2 a a 0", [=](S s, N n) { auto r = s.api.getKBestMatches(2, 2, "a", "a", 0); n.s("k = ").n(2).s("ke = ").n(2); list(n, r); });
  query(2, "ksim 2 a a 0 4", [=](S s, N n) { auto r = s.api.getKBestMatches(2, 4, "a", "a", 0); n.s("ke = ").n(4); list(n, r); });
  query(2, "ksim 1 a a 0 1 3", [=](S s, N n) { list(n, s.api.getKBestMatches(1, 1, "a", "a", 0, 1, 3)); });
  query(2, "ksim 2 a a 1 0 2 5", [=](S s, N n) { auto r = s.api.getKBestMatches(2, 5, "a", "a", 1, 0, 2); n.s("ke = ").n(5); list(n, r); });
  for (auto t : {"ksim", "ksim 2 a a", "ksim x a a 0", "ksim 2 a a x", "ksim 2 a a 0 x", "ksim 0 a a 0", "ksim 3 a a 0 2", "ksim 1 a a 0 0 99", "ksim 1 a a 0 0 x", "ksim 2 a a 0 0 2 x", "ksim 2 a a 0 0 2 1", "ksim 2 a a 0 0 2 5 6", "ksim 1 zz a 0"}) refuse(2, t);
  query(1, "ksimBF 2 a a 0", [=](S s, N n) { list(n, s.api.getKBestMatchesBruteForce(2, "a", "a", 0)); });
  query(2, "ksimBF 3 b a 1 0 2", [=](S s, N n) { list(n, s.api.getKBestMatchesBruteForce(3, "b", "a", 1, 0, 2)); });
  for (auto t : {"ksimBF", "ksimBF 2 a a", "ksimBF 2 a a 0 1", "ksimBF x a a 0", "ksimBF 2 a a x", "ksimBF 0 a a 0", "ksimBF 2 a a 0 0 99", "ksimBF 2 a a 0 0 x", "ksimBF 2 a a 0 0 2 9", "ksimBF 2 zz a 0"}) refuse(2, t);

  add(1, "distance a 0 0 2 a 1 0 3", [](S s, N n) { n.s("is ").n(s.api.distanceBetween("a", 0, 0, 2, "a", 1, 0, 3, "euclidean_dtw")); });
  add(2, "distance a 0 0 2 a 1 0 2 chebyshev", [](S s, N n) { n.s("is ").n(s.api.distanceBetween("a", 0, 0, 2, "a", 1, 0, 2, "chebyshev")); });
  add(2, "distance a 0 0 3 b 1 0 2 manhattan_dtw", [](S s, N n) { n.s("is ").n(s.api.distanceBetween("a", 0, 0, 3, "b", 1, 0, 2, "manhattan_dtw")); });
  for (auto t : {"distance", "distance a 0 0 2 a 1 0", "distance a 0 0 2 a 1 0 x", "distance a x 0 2 a 1 0 2", "distance a 9 0 2 a 1 0 2", "distance a 0 0 99 a 1 0 2", "distance a 0 0 2 a 1 0 2 nosuch", "distance a 0 0 2 a 1 0 2 euclidean x", "distance zz 0 0 2 a 1 0 2"}) refuse(2, t);

  auto print = [&](int set, const std::string& t, const std::string& name, int i, int b, int e) { add(set, t, [=](S s, N n) { for (double x : values(s.api.getTimeSeries(name, i, b, e))) n.n(x); }); };
  print(1, "print a 0 0 3", "a", 0, 0, 3); print(2, "print b 1 -1 -1", "b", 1, -1, -1); print(2, "print a 1 -1 -1", "a", 1, -1, -1);
  for (auto t : {"print", "print a 0 0", "print a 0 0 x", "print a 0 2 1", "print a 0 0 99", "print a 9 0 1", "print a 0 0 2 2", "print zz 0 0 1"}) refuse(2, t);

  for (auto t : {"help", "help load", "help help", "help quit", "help ksimBF"}) add(2, t, [](S, N) {}).help = true;
  for (auto t : {"help nosuch", "help load save", "nosuch", "LOAD a b", "loadx", "12", "/", "/ load", "/x", "quit2", "x //", "list dataset // all", "#", "; list dataset"}) refuse(std::string(t) == "nosuch" ? 1 : 2, t);
  for (auto t : {"", "   ", "// load a b", "//quit"}) add(2, t, [](S, N) {}).silent = true;
  // more digits, longer series, more results, more datasets, other separators
  fl = scratchPath("l.txt");
  { std::string t; for (int i = 0; i < 12; i++) { t += cat("series", i); for (int j = 0; j < (i == 3 ? 300 : 6 + i % 3); j++) t += cat(";", irregular(i, j) * (i == 4 ? 1000 : i == 5 ? 1e-4 : 1)); t += "\n"; } writeFile(fl, t); }
  auto large = [=](S s, int rows, int col, bool names) { return s.api.loadDataset("l", fl, ";", rows, col, names); };
  add(3, "load l " + fl + " ; 3 0 1", [=](S s, N n) { loaded(n, large(s, 3, 0, true)); });
  add(3, "load l " + fl + " ;# 0 0 1", [=](S s, N n) { loaded(n, large(s, 0, 0, true)); });
  add(3, "load l " + fl + " ; -1 1 0", [=](S s, N n) { loaded(n, large(s, 0, 1, false)); });
  add(3, "load l " + fl + " ; 2 3", [=](S s, N n) { loaded(n, large(s, 2, 3, false)); });
  add(3, "load l " + fl + " ,\\s;: 1 1", [=](S s, N n) { loaded(n, large(s, 1, 1, false)); });
  add(3, "load l " + fl + " \\s;\\s,\\s 4 0 1", [=](S s, N n) { loaded(n, large(s, 4, 0, true)); });
  add(3, "saveGroups l " + bin, [](S s, N n) { s.api.saveGroups("l", shadowBin); n.s("l"); }).writes = true;
  add(3, "save l " + data + " \\s", [](S s, N n) { s.api.saveDataset("l", scratchPath("shadow.data"), ' '); n.s("l"); }).writes = true;
  add(3, "unload l", [](S s, N n) { s.api.unloadDataset("l"); n.s("l"); });
  add(3, "normalize l", [](S s, N n) { s.api.normalizeDataset("l"); n.s("l").s("ormalized"); });
  for (double d : {0.123456, 12.5, 98765.0}) group(3, cat("group l ", d, " manhattan"), "l", d, "manhattan");
  print(3, "print l 3 -1 -1", "l", 3, -1, -1); print(3, "print l 4 -1 -1", "l", 4, -1, -1); print(3, "print l 5 1 6", "l", 5, 1, 6); print(3, "print l 0 2 3", "l", 0, 2, 3);
  for (int k : {7, 40}) query(3, cat("ksim ", k, " l l 0 ", 2 * k), [=](S s, N n) { auto r = s.api.getKBestMatches(k, 2 * k, "l", "l", 0); n.s("k = ").n(k).s("ke = ").n(2 * k); list(n, r); });
  for (int k : {11, 90}) query(3, cat("ksimBF ", k, " l l 2 1 5"), [=](S s, N n) { auto r = s.api.getKBestMatchesBruteForce(k, "l", "l", 2, 1, 5); n.s("k = ").n(k); list(n, r); });
  query(3, "sim l l 1 1 6", [=](S s, N n) { best(n, s.api.getBestMatch("l", "l", 1, 1, 6)); });
  for (auto m : {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen", "euclidean_dtw", "manhattan_dtw", "chebyshev_dtw", "cosine_dtw", "sorensen_dtw"})
    add(3, cat("distance l 0 1 5 l 1 2 6 ", m), [=](S s, N n) { n.s(m).n(0).n(1).n(5).s("l").n(1).n(2).n(6).s("l").s("is ").n(s.api.distanceBetween("l", 0, 1, 5, "l", 1, 2, 6, m)); });
  for (int i = 0; i < 12; i++) add(4, cat("load d", i, " ", fb), [=](S s, N n) { loaded(n, s.api.loadDataset(cat("d", i), fb, " ")); });
  { std::string path = fb; path.insert(path.rfind('/'), "/"); add(4, "load // " + path, [=](S s, N n) { loaded(n, s.api.loadDataset("//", fb, " ")); }); }
  for (int len : {40, 300, 2000}) {
    std::string name(len, 'n'), path = fb; while ((int)path.size() < std::min(len, 1500)) path.insert(path.rfind('/'), "/.");
    name += "z"; add(4, "load " + name + " " + path, [=](S s, N n) { loaded(n, s.api.loadDataset(name, fb, " ")); });
  }
  for (auto t : {"load", "save", "unload", "list", "timer", "distance", "group", "saveGroups", "loadGroups", "normalize", "sim", "ksim", "print", "exit"}) add(4, cat("help ", t), [](S, N) {}).help = true;
  // arguments that do not exist are refused by the library: such lines share the operations above
  return *v;
}

// ---- state shared by the processes of one unit ------------------------------------------------

struct Table {
  volatile long commands, leaves, forks; volatile int failed;
  char message[8192];
  long done[400][2];
  uint64_t states[1 << 18];
};
Table* table = nullptr;

// ---- one process ----------------------------------------------------------------------------

enum Mode { TREE, SCRIPT };
struct Driver {
  Mode mode = TREE;
  std::vector<std::string> path;                // lines entered so far
  std::vector<size_t> prefix;                   // to be entered first, then the branching starts
  size_t at = 0;
  int depth = 0; const std::vector<size_t>* alphabet = nullptr;
  std::vector<size_t> battery; size_t batteryAt = 0; bool inBattery = false;
  long pending = -1;                            // line whose effect has not been judged
  Shadow* shadow = nullptr; Sink* out = nullptr;
  std::vector<std::string> script;              // SCRIPT mode: "\x04" is the end of input
  bool ended = false, mayEnd = false, asked = false;
} D;

std::string history() { std::string s; for (auto& l : D.path) s += "\n  >> " + (l == "\x04" ? std::string("(end of input)") : l); return s; }

[[noreturn]] void complain(const std::string& m) {
  if (!table->failed) { table->failed = 1; snprintf(table->message, sizeof table->message, "%s\n  session:%s\n  last output: %s", m.c_str(), history().c_str(), D.out ? D.out->text.substr(0, 1500).c_str() : ""); }
  _exit(7);
}
#define EXPECT(c, ...) do { if (!(c)) complain(cat(__VA_ARGS__)); } while (0)

std::string slurp(const std::string& p) { return access(p.c_str(), R_OK) ? "(none)" : readFile(p); }

void noteState() {
  std::string k = D.shadow->timer ? "t" : "";
  for (auto& i : D.shadow->api.getAllDatasetInfo()) k += cat(i.name, i.itemCount, i.itemLength, i.isNormalized, i.isGrouped, i.distance, i.threshold, ";");
  k += slurp(shadowBin).substr(0, 200);
  uint64_t h = hash(k) | 1;
  size_t n = sizeof table->states / 8, i = h % n;
  while (table->states[i] && table->states[i] != h) i = (i + 1) % n;
  table->states[i] = h;
}

void judge() {
  if (D.pending < 0) return;
  Line& l = lines()[D.pending];
  D.pending = -1;
  std::string out = D.out->text;
  Needs needs; bool ok = true;
  { Quiet q; try { l.op(*D.shadow, needs); } catch (std::exception&) { ok = false; } }
  bool error = out.find("rror") != std::string::npos, usage = out.find("Usage") != std::string::npos;
  table->commands = table->commands + 1; table->done[&l - &lines()[0]][ok]++;
  tick();
  if (!ok) EXPECT(error || usage, "the line \"", l.text, "\" has to be refused but no error was reported");
  else {
    EXPECT(!error && (!usage || l.help), "the line \"", l.text, "\" was refused");
    std::string missing;
    EXPECT(contains(out, needs, missing), "the answer to \"", l.text, "\" lacks ", missing);
    if (l.silent) EXPECT(out.find_first_not_of(" \n") == std::string::npos, "the line \"", l.text, "\" printed something");
    else EXPECT(out.find_first_not_of(" \n") != std::string::npos, "the line \"", l.text, "\" printed nothing");
    if (l.help) EXPECT(out.size() > 20, "there is no help");
    bool timed = out.find("xecuted in") != std::string::npos;
    EXPECT(timed == (l.timed && D.shadow->timer), "the time of \"", l.text, "\" is ", timed ? "" : "not ", "shown");
  }
  if (l.writes && ok) {
    EXPECT(slurp(bin) == slurp(shadowBin), "the group file differs from what the library saves");
    EXPECT(slurp(sizes) == slurp(scratchPath("shadow.sizes")), "the group sizes differ from what the library saves");
    EXPECT(slurp(data) == slurp(scratchPath("shadow.data")), "the data file differs from what the library saves");
  }
  noteState();
}

std::string enter(size_t i) {
  D.pending = i; D.out->text.clear();
  D.path.push_back(lines()[i].text);
  note(history());
  return lines()[i].text;
}

const char* FILES[] = {"g.bin", "s.txt", "d.txt", "shadow.bin", "shadow.sizes", "shadow.data"};
struct Disk {
  std::string c[6];
  Disk() { for (int i = 0; i < 6; i++) c[i] = slurp(scratchPath(FILES[i])); }
  void restore() { for (int i = 0; i < 6; i++) { std::string p = scratchPath(FILES[i]); if (slurp(p) != c[i]) { if (c[i] == "(none)") unlink(p.c_str()); else writeFile(p, c[i]); } } }
};

// Runs f in a new process.
void inChild(const std::function<void()>& f) {
  pid_t pid = fork();
  if (pid < 0) complain("fork failed");
  if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); f(); return; }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  table->forks = table->forks + 1;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (!table->failed) { table->failed = 1; snprintf(table->message, sizeof table->message, "the shell ended with status %d\n  session:%.6000s", st, ctx().sh->note); }
  _exit(7);
}

} // namespace

std::string atPrompt(const char* prompt, bool& eof) {
  judge();
  if (D.mode == SCRIPT) {
    bool question = strstr(prompt, "exit") != nullptr;
    EXPECT(question == D.asked, "the shell ", question ? "asks" : "does not ask", " whether to exit");
    EXPECT(!D.ended, "the shell goes on after its end");
    EXPECT(D.at < D.script.size(), "the script ended too early");
    std::string s = D.script[D.at++];
    D.path.push_back(s); D.out->text.clear();
    note(history());
    eof = s == "\x04";
    if (D.asked) {
      if (eof || s == "y" || s.empty()) D.ended = true;
      else if (s == "n") D.asked = false;
    } else {
      if (eof) D.asked = true;
      else if (s == "quit" || s == "exit" || s == " quit ") D.ended = true;
      else for (size_t i = 0; i < lines().size(); i++) if (lines()[i].text == s) { D.pending = i; break; }
    }
    return s;
  }
  EXPECT(!strstr(prompt, "really"), "unexpected question ", prompt);
  if (D.at < D.prefix.size()) return enter(D.prefix[D.at++]);
  if (D.depth > 0) {
    D.depth--;
    Disk disk;
    for (size_t i : *D.alphabet) {
      bool child = false;
      inChild([&] { child = true; });
      if (child) return enter(i);
      if (lines()[i].writes || D.depth > 0) disk.restore();
    }
    _exit(0);
  }
  if (D.batteryAt < D.battery.size()) return enter(D.battery[D.batteryAt++]);
  table->leaves = table->leaves + 1;
  _exit(0);
}

namespace {

size_t lineNo(const std::string& t) { for (size_t i = 0; i < lines().size(); i++) if (lines()[i].text == t) return i; abort(); }

void session(const std::function<void()>& setup, bool mustEnd) {
  table->failed = 0; table->commands = table->leaves = table->forks = 0;
  memset((void*)table->done, 0, sizeof table->done);
  pid_t pid = fork();
  if (pid < 0) fail("fork failed");
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (auto f : FILES) unlink(scratchPath(f).c_str());
    D = Driver(); D.shadow = new Shadow; D.out = new Sink(true);
    setup();
    std::cout.rdbuf(D.out);
    int rc = -1;
    char name[] = "genexcli"; char* argv[] = {name, nullptr};
    try { rc = genexcli_main(1, argv); } catch (std::exception& e) { complain(cat("an exception ended the shell: ", e.what())); }
    if (!D.ended) complain("the shell ended by itself");
    if (D.at < D.script.size()) complain("the shell ended before the end of the script");
    EXPECT(rc == 0, "the shell ended with ", rc);
    table->leaves = table->leaves + 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  if (!WIFEXITED(st) || WEXITSTATUS(st)) fail(table->failed ? table->message : cat("the shell ended with status ", st, "\n  session:", ctx().sh->note));
  eval(table->commands); counter("transitions", table->commands); counter("traces", table->leaves);
  for (size_t i = 0; i < lines().size(); i++) for (int k = 0; k < 2; k++) if (table->done[i][k]) {
    std::string w = lines()[i].text.substr(0, lines()[i].text.find(' ', lines()[i].text.find_first_not_of(" ") == std::string::npos ? 0 : lines()[i].text.find_first_not_of(" ")));
    outcome(cat(lines()[i].silent ? "ignored line" : w, k ? ": carried out" : ": refused"), table->done[i][k]);
    if (k) nontrivial(table->done[i][k]);
  }
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  table = (Table*)mmap(nullptr, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  lines();
  std::vector<size_t> full, core, few, big;
  for (size_t i = 0; i < lines().size(); i++) { if (lines()[i].set <= 2) full.push_back(i); if (lines()[i].set == 3) big.push_back(i); if (lines()[i].set <= 1) core.push_back(i); if (lines()[i].set == 0) few.push_back(i); }
  std::vector<size_t> battery;
  for (auto t : {"list dataset", "timer", "print a 1 -1 -1", "print b 1 -1 -1", "sim a a 0", "ksim 2 a a 0 4", "ksimBF 3 b a 1 0 2", "distance a 0 0 2 a 1 0 3"}) battery.push_back(lineNo(t));
  battery.push_back(lineNo("saveGroups a " + bin));
  std::vector<std::vector<std::string>> bases = {
    {}, {"load a " + fa, "group a 0.5"}, {"load a " + fa, "load b " + fb, "group a 1 manhattan", "saveGroups a " + bin, "timer off"},
    {"load a " + fn + " , 0 0 1", "normalize a", "group a 0.5"},
  };
  auto tree = [&](const std::vector<std::string>& base, const std::vector<size_t>& alphabet, int depth) {
    for (size_t first : alphabet)
      unit([&] { return cat("all sessions of ", depth, " lines from ", alphabet.size(), " lines after ", base.size(), " lines, starting with ", lines()[first].text); }, [&] {
        session([&] {
          D.mode = TREE; D.alphabet = &alphabet; D.depth = depth - 1; D.battery = battery;
          for (auto& b : base) D.prefix.push_back(lineNo(b));
          D.prefix.push_back(first);
        }, false);
        for (uint64_t h : table->states) if (h) state(h);
        if (!base.empty()) sample(cat(base.back(), "; ", lines()[first].text));
      });
  };
  for (auto& b : bases) tree(b, full, 2);
  for (size_t i = 0; i < bases.size(); i++) if (th || i < 2) tree(bases[i], core, 3);
  tree(bases[0], few, th ? 7 : 5);
  if (th) tree(bases[0], core, 4);
  battery = {lineNo("list dataset")};
  tree({"load l " + fl + " ; 3 0 1"}, big, 3);
  tree({"load l " + fl + " ; -1 1 0", "normalize l", "timer off"}, big, 2);
  // datasets beyond ten, then everything about each command
  unit([&] { return std::string("many datasets, all help texts"); }, [&] {
    session([&] {
      D.mode = TREE; D.battery = battery;
      for (size_t i = 0; i < lines().size(); i++) if (lines()[i].set == 4) { D.prefix.push_back(i); D.prefix.push_back(lineNo("list dataset")); D.prefix.push_back(lineNo("list distance")); }
    }, false);
  });
  // ends of the session: all sequences of lines, ends of input and answers
  std::vector<std::string> ends = {"\x04", "y", "n", "", "x", "quit", "exit", " quit ", "load a " + fa, "sim a a 0"};
  for (int n = 1; n <= (th ? 5 : 4); n++)
    for (auto& first : ends)
      unit([&] { return cat("all ends of sessions of ", n, " lines starting with ", first == "\x04" ? "end of input" : first); }, [&] {
        std::vector<size_t> i(n - 1, 0);
        while (true) {
          std::vector<std::string> s = {first};
          for (size_t k : i) s.push_back(ends[k]);
          // cut the script where the session has to end
          bool asked = false; size_t end = 0;
          for (size_t k = 0; k < s.size() && !end; k++) {
            if (asked) { if (s[k] == "\x04" || s[k] == "y" || s[k].empty()) end = k + 1; else if (s[k] == "n") asked = false; }
            else if (s[k] == "\x04") asked = true;
            else if (s[k] == "quit" || s[k] == "exit" || s[k] == " quit ") end = k + 1;
          }
          if (end == s.size()) session([&] { D.mode = SCRIPT; D.script = s; }, true);
          int k = n - 2;
          while (k >= 0 && ++i[k] == ends.size()) i[k--] = 0;
          if (k < 0) break;
        }
      });
}
