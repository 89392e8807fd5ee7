// C24: answers after any history of queries and settings equal those of a fresh process.
#include "grouping.hpp"
#include <sys/wait.h>

namespace {

using namespace mc;

const Data FILES[] = {
  {{1, 2, 3, 1, 0, 2}, {2, 2, 1, 4}, {0, 1, 3, 3, 1}, {3, 1, 1}},
  {{0, 4, 1}, {2, 1, 1, 3, 2}},
};
struct Conf { const char* distance; double threshold; int threads; bool whole; };
const Conf CONFS[] = {{"euclidean", 1.2, 1, false}, {"manhattan", 0.9, 2, false}, {"chebyshev", 2.5, 1, false}, {"cosine", 0.2, 1, false}, {"sorensen", 0.3, 1, false}, {"euclidean", 6, 1, true}};

// The situation a query meets.
struct State {
  int norm = 0, conf = -1, confNorm = 0, paa = 0, ratio = 1;      // ratio in tenths
  std::string key() const { return cat(norm, " ", conf, " ", confNorm, " ", paa, " ", ratio); }
};

enum Kind { BEST, KBEST, BRUTE, PAAQ, DIST, MATCH, RATIO, NORM, GROUP, PREPARE, GET, BADQUERY };
struct Op { Kind kind; int a, b; };
std::string show(const Op& o) {
  const char* n[] = {"best match", "k best matches", "brute force", "PAA query", "distance", "matching", "ratio", "normalise", "group", "prepare PAA", "get", "refused query"};
  return cat(n[o.kind], o.kind == NORM ? "" : cat(" ", o.a), o.kind <= MATCH ? cat(" ", o.b) : "");
}
std::string show(const std::vector<Op>& h) { std::string s; for (auto& o : h) s += (s.empty() ? "" : "; ") + show(o); return s; }

const char* DIST5[] = {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"};

void step(State& s, const Op& o) {
  if (o.kind == RATIO) s.ratio = o.a;
  if (o.kind == NORM) s.norm = 1;
  if (o.kind == GROUP) { s.conf = o.a; s.confNorm = s.norm; }
  if (o.kind == PREPARE) s.paa = o.a;
}

std::string text(const genex::candidate_time_series_t& c) { return cat(num(c.dist), "@", c.data.getIndex(), ",", c.data.getStart(), ",", c.data.getLength(), " "); }
std::string text(const std::vector<genex::candidate_time_series_t>& v) { std::string s; for (auto& c : v) s += text(c); return s; }
template <class F> std::string answer(F f) {
  try { return f(); } catch (GenexException&) { return "error "; }
}

// a: which query sequence, b: which variant
std::string query(GenexAPI& g, Kind k, int a, int b) {
  static const struct { const char* set; int i, s, e; } Q[] = {{"a", 0, 0, 3}, {"a", 0, -1, -1}, {"b", 1, 0, 4}, {"b", 0, 0, 2}, {"a", 2, 1, 5}};
  auto& q = Q[a];
  switch (k) {
    case BEST: return answer([&] { return text(g.getBestMatch("a", q.set, q.i, q.s, q.e)); });
    case KBEST: return answer([&] { return text(g.getKBestMatches(b ? 2 : 4, b ? 6 : 4, "a", q.set, q.i, q.s, q.e)); });
    case BRUTE: return answer([&] { return text(g.getKBestMatchesBruteForce(3, "a", q.set, q.i, q.s, q.e, DIST5[b])); });
    case PAAQ: return answer([&] { return text(g.getKBestMatchesPAA(3, "a", q.set, q.i, q.s, q.e, DIST5[b])); });
    case DIST: return answer([&] { return num(g.distanceBetween("a", 1, 0, 4, q.set, q.i, q.s, q.e, std::string(DIST5[b]) + "_dtw")) + " "; });
    case MATCH: return answer([&] { auto m = g.matchingBetween("a", 1, 0, 4, q.set, q.i, q.s, q.e, std::string(DIST5[b]) + "_dtw"); std::string s; for (auto& p : m) s += cat(p.first, "-", p.second, " "); return s; });
    default: return "";
  }
}

void apply(GenexAPI& g, const Op& o) {
  switch (o.kind) {
    case RATIO: g.setWarpingBandRatio(o.a / 10.0); break;
    case NORM: g.normalizeDataset("a"); break;
    case GROUP: { auto& c = CONFS[o.a]; g.groupDataset("a", c.threshold, c.distance, c.threads, c.whole); break; }
    case PREPARE: g.preparePAA("a", o.a); break;
    case GET: g.getTimeSeries("a", o.a, -1, -1); g.getDatasetInfo("a"); g.getAllDatasetInfo(); break;
    case BADQUERY:
      throwsGenex([&] { g.getBestMatch("a", "a", 99, 0, 2); }); throwsGenex([&] { g.getKBestMatches(0, 0, "a", "a", 0, 0, 2); });
      throwsGenex([&] { g.distanceBetween("a", 0, 0, 3, "a", 1, 0, 2, o.a ? "unknown" : "euclidean"); }); throwsGenex([&] { g.groupDataset("a", 1, "unknown", 2, false); });
      break;
    default: query(g, o.kind, o.a, o.b);
  }
}

std::string battery(GenexAPI& g) {
  std::string r;
  auto i = g.getDatasetInfo("a");
  r += cat(i.name, " ", i.itemCount, " ", i.itemLength, " ", i.isNormalized, " ", i.isGrouped, " ", i.distance, " ", i.threshold, "\n");
  for (int k = 0; k < i.itemCount; k++) r += vec(values(g.getTimeSeries("a", k, -1, -1)));
  for (int a = 0; a < 5; a++) {
    r += cat("\nquery ", a, ": best ", query(g, BEST, a, 0), "k ", query(g, KBEST, a, 0), "/ ", query(g, KBEST, a, 1));
    for (int b : {0, 1}) r += "brute " + query(g, BRUTE, a, b) + "paa " + query(g, PAAQ, a, b);
  }
  for (int b = 0; b < 5; b++) r += cat("\n", DIST5[b], ": ", query(g, DIST, 0, b), query(g, DIST, 2, b), query(g, MATCH, 2, b), query(g, BRUTE, 3, b));
  if (i.isGrouped) { std::string p = scratchPath("groups.txt"); g.saveGroupsOld("a", p, false); r += "\n" + readFile(p); }
  return r;
}

void begin(GenexAPI& g) { g.setWarpingBandRatio(0.1); load(g, "a", FILES[0]); load(g, "b", FILES[1]); }

std::string freshAnswer(const State& s) {
  GenexAPI g; begin(g);
  if (s.conf >= 0 && s.norm && !s.confNorm) { apply(g, {GROUP, s.conf, 0}); apply(g, {NORM, 0, 0}); }
  else { if (s.norm) apply(g, {NORM, 0, 0}); if (s.conf >= 0) apply(g, {GROUP, s.conf, 0}); }
  if (s.paa) apply(g, {PREPARE, s.paa, 0});
  g.setWarpingBandRatio(s.ratio / 10.0);
  return battery(g);
}

// ---- a process that has never used the library answers in new processes ---------------------

int request[2], reply[2];
void put(int fd, const std::string& s) { size_t n = s.size(); if (write(fd, &n, sizeof n) != sizeof n) _exit(9); for (size_t i = 0; i < n;) { ssize_t k = write(fd, s.data() + i, n - i); if (k <= 0) _exit(9); i += k; } }
bool take(int fd, std::string& s) {
  size_t n; if (read(fd, &n, sizeof n) != sizeof n) return false;
  s.resize(n); for (size_t i = 0; i < n;) { ssize_t k = read(fd, &s[i], n - i); if (k <= 0) return false; i += k; }
  return true;
}
void startServer() {
  if (pipe(request) || pipe(reply)) abort();
  if (pid_t p = fork()) { if (p < 0) abort(); close(request[0]); close(reply[1]); return; }
  close(request[1]); close(reply[0]);
  ctx().scratch += "/fresh"; mkdir(ctx().scratch.c_str(), 0755);
  std::string key;
  while (take(request[0], key)) {
    pid_t p = fork();
    if (!p) {
      State s; std::istringstream in(key); in >> s.norm >> s.conf >> s.confNorm >> s.paa >> s.ratio;
      std::string a;
      try { Quiet q; a = freshAnswer(s); } catch (std::exception& e) { a = cat("unexpected error: ", e.what()); }
      put(reply[1], a); _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) put(reply[1], "the fresh process crashed");
  }
  _exit(0);
}
const std::string& expected(const State& s) {
  static std::map<std::string, std::string> known;
  auto it = known.find(s.key());
  if (it != known.end()) return it->second;
  put(request[1], s.key());
  std::string a;
  if (!take(reply[0], a)) abort();
  counter("fresh processes");
  return known[s.key()] = a;
}

void run(const std::vector<Op>& base, const std::vector<Op>& h) {
  GenexAPI g; begin(g);
  State s;
  note(show(base) + " | " + show(h));
  auto where = [&] { return cat("\n  history: ", show(base), " | ", show(h)); };
  std::string what;
  for (auto v : {&base, &h}) for (auto& o : *v) {
    bool err = throwsStd([&] { apply(g, o); }, &what);
    MC_REQUIRE(!err, show(o), " failed: ", what, where());
    step(s, o);
  }
  std::string got = battery(g), want = expected(s);
  if (got != want) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t b = got.rfind('\n', i); b = b == std::string::npos ? 0 : b + 1;
    fail(cat("answers differ from those of a fresh process in the same situation\n  here:  ", got.substr(b, 400), "\n  fresh: ", want.substr(b, 400), where()));
  }
  mc::state(hash(s.key()));
  counter("transitions", base.size() + h.size()); counter("traces");
  eval(); if (h.size() > 1) nontrivial();
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  startServer();
  Quiet quiet;
  std::vector<Op> full, core;
  for (int q = 0; q < 5; q++) { full.push_back({BEST, q, 0}); full.push_back({KBEST, q, q % 2}); full.push_back({BRUTE, q, q}); full.push_back({PAAQ, q, q}); }
  for (int b = 0; b < 5; b++) { full.push_back({DIST, 1, b}); full.push_back({MATCH, b % 5, b}); }
  for (int r : {0, 1, 5, 10}) full.push_back({RATIO, r, 0});
  full.push_back({NORM, 0, 0});
  for (int c = 0; c < 6; c++) full.push_back({GROUP, c, 0});
  full.push_back({PREPARE, 1, 0}); full.push_back({PREPARE, 2, 0}); full.push_back({GET, 0, 0}); full.push_back({BADQUERY, 0, 0}); full.push_back({BADQUERY, 1, 0});
  core = {{BEST, 0, 0}, {BEST, 2, 0}, {KBEST, 1, 0}, {BRUTE, 4, 1}, {PAAQ, 0, 0}, {RATIO, 1, 0}, {RATIO, 5, 0}, {RATIO, 10, 0}, {NORM, 0, 0}, {GROUP, 0, 0}, {GROUP, 1, 0}, {PREPARE, 2, 0}};
  const std::vector<std::vector<Op>> bases = {
    {{GROUP, 0, 0}}, {{GROUP, 0, 0}, {PREPARE, 2, 0}, {RATIO, 5, 0}}, {{NORM, 0, 0}, {GROUP, 2, 0}}, {}, {{GROUP, 5, 0}, {RATIO, 10, 0}},
  };
  auto all = [&](const std::vector<Op>& base, const std::vector<Op>& ops, int depth) {
    for (auto& a : ops)
      unit([&] { return cat("all histories of ", depth, " of ", ops.size(), " operations after ", show(base), " starting with ", show(a)); }, [&] {
        std::vector<Op> h = {a};
        std::function<void()> rec = [&] {
          if ((int)h.size() == depth) { run(base, h); return; }
          for (auto& o : ops) { h.push_back(o); rec(); h.pop_back(); }
        };
        rec();
        sample(cat(show(base), " | ", show(h)));
      });
  };
  for (auto& b : bases) all(b, full, 2);
  std::vector<Op> mid;
  for (auto& o : full) {
    bool distance = o.kind == DIST || o.kind == MATCH, search = o.kind == BRUTE || o.kind == PAAQ;
    if (!(distance && o.b > 1) && !(search && o.a > 2)) mid.push_back(o);
  }
  all(bases[0], mid, 3);
  if (th) for (size_t i = 1; i < bases.size(); i++) all(bases[i], full, 3);
  all(bases[1], core, th ? 5 : 4);
}
