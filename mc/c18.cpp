// C18: call histories against a model of independent datasets.
#include "grouping.hpp"

namespace {

using namespace mc;

// ---- the model ----------------------------------------------------------------------------

const std::vector<Data> FILES = {
  {{1, 2, 3, 1}, {2, 2, 1}},
  {{0, 4}, {2, 1}, {3, 3}},
  {{5, 1, 1, 2}, {0, 3, 3}},       // same shape as the first
};
struct GroupConf { const char* distance; double threshold; int threads; bool whole; };
const GroupConf CONFS[] = {{"euclidean", 0.8, 1, false}, {"manhattan", 0.5, 2, false}, {"chebyshev", 3, 1, true}};

// membership of groups: which data was grouped how
struct G { int conf = -1, file = -1, norm = 0; bool any() const { return conf >= 0; } std::string key() const { return any() ? cat("g", conf, file, norm) : "-"; } };
struct DS {
  int file = -1, norm = 0, paa = 0; G groups;
  bool loaded() const { return file >= 0; }
  std::string key() const { return loaded() ? cat("f", file, norm ? "n" : "", groups.key(), paa ? cat("p", paa) : "") : "."; }
};
struct State {
  DS ds[2]; double ratio = 0.1; G bin, txt; int txtFile = -1, txtNorm = 0;   // txtNorm: state of the data when written
  std::string live() const { return cat(ds[0].key(), "|", ds[1].key(), "|", ratio); }
  std::string key() const { return live() + "|" + bin.key() + "|" + txt.key() + cat(txtFile, txtNorm); }
};

const char* NAMES[] = {"a", "b"};

enum Kind { LOAD, LOADBAD, UNLOAD, ALL, NORM, GROUP, GROUPBAD, SAVE, RESTORE, SAVETXT, RESTORETXT, PAA, PAABAD, RATIO, QUERY, SAVEDATA };
struct Op { Kind kind; int name, arg; };
std::string show(const Op& o) {
  const char* n[] = {"load", "load a bad file", "unload", "unload all", "normalise", "group", "group by an unknown distance", "save groups", "load groups", "save groups as text", "load groups from text", "prepare PAA", "prepare PAA with block 0", "set ratio", "query", "save data"};
  return cat(n[o.kind], o.kind == ALL || o.kind == RATIO ? "" : cat(" ", NAMES[o.name]), o.kind == LOAD || o.kind == GROUP || o.kind == PAA || o.kind == RATIO ? cat(" ", o.arg) : "");
}

std::vector<Op> alphabet() {
  std::vector<Op> v;
  for (int n = 0; n < 2; n++) {
    for (int f = 0; f < 3; f++) v.push_back({LOAD, n, f});
    v.push_back({LOADBAD, n, 0});
    v.push_back({UNLOAD, n, 0}); v.push_back({NORM, n, 0});
    for (int c = 0; c < 3; c++) if (n == 0 || c == 0) v.push_back({GROUP, n, c});
    v.push_back({GROUPBAD, n, 0});
    v.push_back({SAVE, n, 0}); v.push_back({RESTORE, n, 0}); v.push_back({SAVETXT, n, 0}); v.push_back({RESTORETXT, n, 0});
    v.push_back({PAA, n, 2}); if (n == 0) v.push_back({PAA, n, 3}); v.push_back({PAABAD, n, 0});
    v.push_back({QUERY, n, 0}); v.push_back({SAVEDATA, n, 0});
  }
  v.push_back({ALL, 0, 0});
  v.push_back({RATIO, 0, 5}); v.push_back({RATIO, 0, 1});
  return v;
}

bool compatible(int f, int g) { return FILES[f].size() == FILES[g].size() && maxLen(FILES[f]) == maxLen(FILES[g]); }

// Text group files keep the values of the representatives, so groups of other data would
// stay groups of other data; such histories are left out.
bool sensible(const State& s, const Op& o) {
  const DS& d = s.ds[o.name];
  return o.kind != RESTORETXT || !d.loaded() || !s.txt.any() || !compatible(s.txt.file, d.file) || (s.txtFile == d.file && s.txtNorm == d.norm);
}

// Applies the operation; false: an error is expected.
bool step(State& s, const Op& o) {
  DS& d = s.ds[o.name];
  switch (o.kind) {
    case LOAD: if (d.loaded()) return false; d = DS(); d.file = o.arg; return true;
    case LOADBAD: return false;
    case ALL: s.ds[0] = s.ds[1] = DS(); return true;
    case RATIO: s.ratio = o.arg / 10.0; return true;
    default: break;
  }
  if (!d.loaded()) return false;
  switch (o.kind) {
    case UNLOAD: d = DS(); return true;
    case NORM: d.norm = 1; return true;
    case GROUP: d.groups.conf = o.arg; d.groups.file = d.file; d.groups.norm = d.norm; return true;
    case GROUPBAD: case PAABAD: return false;
    case SAVE: if (!d.groups.any()) return false; s.bin = d.groups; return true;
    case SAVETXT: if (!d.groups.any()) return false; s.txt = d.groups; s.txtFile = d.file; s.txtNorm = d.norm; return true;
    case RESTORE: if (!s.bin.any() || !compatible(s.bin.file, d.file)) return false; d.groups = s.bin; return true;
    case RESTORETXT: if (!s.txt.any() || !compatible(s.txt.file, d.file)) return false; d.groups = s.txt; return true;
    case PAA: d.paa = o.arg; return true;
    case QUERY: return d.groups.any();
    case SAVEDATA: return true;
    default: return false;
  }
}

Data dataOf(const DS& d) {
  Data x = FILES[d.file];
  if (d.norm) {
    double lo = 1e9, hi = -1e9;
    for (auto& r : x) for (double v : r) { lo = std::min(lo, v); hi = std::max(hi, v); }
    for (auto& r : x) for (double& v : r) v = (v - lo) / (hi - lo);
  }
  return x;
}

// ---- the library ----------------------------------------------------------------------------

std::string filePath(int f) {
  static bool done[3];
  std::string p = scratchPath(cat("file", f, ".txt"));
  if (!done[f]) { writeFile(p, toText(FILES[f])); done[f] = true; }
  return p;
}

void apply(GenexAPI& api, const Op& o, const std::string& bin, const std::string& txt) {
  std::string n = NAMES[o.name];
  switch (o.kind) {
    case LOAD: api.loadDataset(n, filePath(o.arg), " "); break;
    case LOADBAD: { std::string p = scratchPath("bad.txt"); writeFile(p, "1 2\n3 x\n"); api.loadDataset(n, p, " "); break; }
    case UNLOAD: api.unloadDataset(n); break;
    case ALL: api.unloadAllDataset(); break;
    case NORM: api.normalizeDataset(n); break;
    case GROUP: { auto& c = CONFS[o.arg]; api.groupDataset(n, c.threshold, c.distance, c.threads, c.whole); break; }
    case GROUPBAD: api.groupDataset(n, 0.5, "no such distance", 1, false); break;
    case SAVE: api.saveGroups(n, bin); break;
    case RESTORE: api.loadGroups(n, bin); break;
    case SAVETXT: api.saveGroupsOld(n, txt, false); break;
    case RESTORETXT: api.loadGroupsOld(n, txt); break;
    case PAA: api.preparePAA(n, o.arg); break;
    case PAABAD: api.preparePAA(n, 0); break;
    case RATIO: api.setWarpingBandRatio(o.arg / 10.0); break;
    case QUERY: api.getBestMatch(n, n, 0, -1, -1); api.getKBestMatches(2, 3, n, n, 1, -1, -1); break;
    case SAVEDATA: api.saveDataset(n, scratchPath("saved.txt"), ' '); break;
  }
}

std::string show(const std::vector<genex::candidate_time_series_t>& v) {
  std::string s;
  for (auto& c : v) s += cat(num(c.dist), " ");     // ties may be answered differently; C09..C12 judge the choice
  return s;
}
template <class F> std::string answer(F f) {
  try { return f(); } catch (Violation&) { throw; } catch (GenexException& e) { return "error"; }
}

// The answers to queries: only what a user sees.
std::string battery(GenexAPI& api, const State& s) {
  std::string r;
  for (int n = 0; n < 2; n++) {
    if (!s.ds[n].loaded()) continue;
    std::string name = NAMES[n];
    for (int q = 0; q < 2; q++) {
      if (!s.ds[q].loaded()) continue;
      std::string qn = NAMES[q];
      r += cat(name, "<", qn, ": ");
      r += "best " + answer([&] { return num(api.getBestMatch(name, qn, 1, 0, 2).dist); });
      r += " whole " + answer([&] { return num(api.getBestMatch(name, qn, 0, -1, -1).dist); });
      r += " k " + answer([&] { return show(api.getKBestMatches(3, 5, name, qn, 0, 0, 2)); });
      r += " brute " + answer([&] { return show(api.getKBestMatchesBruteForce(3, name, qn, 0, 0, 2, "euclidean")); });
      r += " paa " + answer([&] { return show(api.getKBestMatchesPAA(3, name, qn, 0, 0, 2, "euclidean")); });
      r += " dist " + answer([&] { return num(api.distanceBetween(name, 0, 0, 2, qn, 1, 0, 2, "euclidean_dtw")); });
      r += "\n";
    }
    if (s.ds[n].groups.any()) r += canonical(groupsOf(api, name));
  }
  return r;
}

// Metadata and data according to the model.
template <class W> void checkModel(GenexAPI& api, const State& s, const W& where) {
  int count = s.ds[0].loaded() + s.ds[1].loaded();
  MC_REQUIRE(api.getDatasetCount() == count, "the number of datasets is ", api.getDatasetCount(), " instead of ", count, where());
  auto all = api.getAllDatasetInfo();
  MC_REQUIRE((int)all.size() == count, all.size(), " datasets are listed instead of ", count, where());
  for (int n = 0; n < 2; n++) {
    const DS& d = s.ds[n];
    std::string name = NAMES[n];
    int listed = 0;
    for (auto& i : all) listed += i.name == name;
    MC_REQUIRE(listed == d.loaded(), "dataset ", name, " is listed ", listed, " times", where());
    if (!d.loaded()) {
      MC_REQUIRE(throwsGenex([&] { api.getDatasetInfo(name); }), "information about the absent dataset ", name, where());
      MC_REQUIRE(throwsGenex([&] { api.getTimeSeries(name, 0, 0, 1); }), "data of the absent dataset ", name, where());
      MC_REQUIRE(throwsGenex([&] { api.getBestMatch(name, name, 0, 0, 2); }), "query in the absent dataset ", name, where());
      MC_REQUIRE(throwsGenex([&] { api.getKBestMatchesPAA(1, name, name, 0, 0, 2, "euclidean"); }), "PAA query in the absent dataset ", name, where());
      continue;
    }
    auto i = api.getDatasetInfo(name);
    Data x = dataOf(d);
    MC_REQUIRE(i.name == name && i.itemCount == (int)x.size() && i.itemLength == (int)maxLen(x), "dataset ", name, " has ", i.itemCount, " series of length ", i.itemLength, where());
    MC_REQUIRE(i.isNormalized == (d.norm == 1), "dataset ", name, " is normalised: ", i.isNormalized, where());
    MC_REQUIRE(i.isGrouped == d.groups.any(), "dataset ", name, " is grouped: ", i.isGrouped, where());
    std::string dn = d.groups.any() ? CONFS[d.groups.conf].distance : "";
    double th = d.groups.any() ? CONFS[d.groups.conf].threshold : 0;
    MC_REQUIRE(i.distance == dn && i.threshold == th, "dataset ", name, " reports distance ", i.distance, " threshold ", i.threshold, where());
    for (size_t k = 0; k < x.size(); k++) {
      MC_REQUIRE(api.getTimeSeriesLength(name, k) == (int)x[k].size(), "length of series ", k, " of ", name, where());
      Seq got = values(api.getTimeSeries(name, k, 0, x[k].size()));
      for (size_t j = 0; j < got.size(); j++) MC_REQUIRE(got.size() == x[k].size() && ref::close(got[j], x[k][j], 1e-12), "series ", k, " of ", name, " is ", vec(got), " instead of ", vec(x[k]), where());
    }
    if (!d.paa) MC_REQUIRE(throwsGenex([&] { api.getKBestMatchesPAA(1, name, name, 0, 0, 2, "euclidean"); }), "dataset ", name, " was not prepared for PAA but answers", where());
    if (!d.groups.any()) MC_REQUIRE(throwsGenex([&] { api.getBestMatch(name, name, 0, 0, 2); }), "dataset ", name, " is not grouped but answers", where());
  }
}

// The answers in the simplest history leading to the same situation.
std::map<std::string, std::string> known;
const std::string& expected(const State& s) {
  auto it = known.find(s.live());
  if (it != known.end()) return it->second;
  GenexAPI api;
  std::string gf = scratchPath("fresh.bin");
  api.setWarpingBandRatio(s.ratio);
  for (int n = 0; n < 2; n++) {
    const DS& d = s.ds[n];
    if (!d.loaded()) continue;
    api.loadDataset(NAMES[n], filePath(d.file), " ");
    if (d.norm) api.normalizeDataset(NAMES[n]);
    if (d.groups.any()) {
      auto& c = CONFS[d.groups.conf];
      GenexAPI other;
      other.loadDataset("x", filePath(d.groups.file), " ");
      if (d.groups.norm) other.normalizeDataset("x");
      other.groupDataset("x", c.threshold, c.distance, 1, c.whole);
      other.saveGroups("x", gf);
      api.loadGroups(NAMES[n], gf);
    }
    if (d.paa) api.preparePAA(NAMES[n], d.paa);
  }
  return known[s.live()] = battery(api, s);
}

struct Node { State s; std::vector<Op> path; int depth; };

std::string show(const std::vector<Op>& h) { std::string r; for (auto& o : h) r += (r.empty() ? "" : "; ") + show(o); return r; }

// Executes a history on the library, checking every step's success and the final situation.
void run(const std::vector<Op>& h, bool everyStep) {
  std::string bin = scratchPath("groups.bin"), txt = scratchPath("groups.txt");
  unlink(bin.c_str()); unlink(txt.c_str());
  GenexAPI api;
  api.setWarpingBandRatio(0.1);
  State s;
  note(show(h));
  auto where = [&] { return "\n  history: " + show(h); };
  for (size_t i = 0; i < h.size(); i++) {
    bool ok = step(s, h[i]);
    bool err = throwsStd([&] { apply(api, h[i], bin, txt); });
    if (i + 1 == h.size() || everyStep) {
      MC_REQUIRE(err != ok, show(h[i]), ok ? " failed" : " reported no error", where());
      outcome(show(Op{h[i].kind, 0, 0}) + (err ? " refused" : " done"));
    }
    mc::counter("transitions");
    if (everyStep) { checkModel(api, s, where); }
  }
  checkModel(api, s, where);
  std::string got = battery(api, s);
  const std::string& want = expected(s);
  api.setWarpingBandRatio(s.ratio);
  MC_REQUIRE(got == want, "answers\n", got, "\ninstead of\n", want, where());
  mc::state(hash(s.key()));
  mc::counter("traces");
  eval(); if (h.size() > 1) nontrivial();
  api.setWarpingBandRatio(0.1);
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  Quiet quiet;
  auto ops = alphabet();
  // reachable situations of the model, each with up to two shortest histories
  std::map<std::string, int> seen;
  std::vector<Node> nodes; nodes.push_back(Node{State(), {}, 0});
  seen[State().key()] = 1;
  int depth = th ? 6 : 5;
  for (size_t i = 0; i < nodes.size(); i++) {
    if (nodes[i].depth == depth) continue;
    for (auto& o : ops) {
      if (!sensible(nodes[i].s, o)) continue;
      Node n = nodes[i];
      bool ok = step(n.s, o);
      if (!ok && n.s.key() != nodes[i].s.key()) abort();
      int& c = seen[n.s.key()];
      if (c >= (n.depth < 2 ? 3 : 1)) continue;
      c++;
      n.path.push_back(o); n.depth++;
      nodes.push_back(n);
    }
  }
  for (auto& n : nodes)
    unit([&] { return "all operations after: " + show(n.path); }, [&] {
      for (auto& o : ops) { if (!sensible(n.s, o)) continue; auto h = n.path; h.push_back(o); run(h, n.depth <= 1); }
      if (n.depth) sample(show(n.path));
    });
  // many datasets at the same time
  for (int count : {9, 17, 33, 65, 130, 300})
    for (int order = 0; order < 3; order++)
      unit([&] { return cat(count, " datasets loaded, some unloaded and loaded again, order ", order); }, [&] {
        GenexAPI api;
        std::map<std::string, Seq> have;
        auto at = [&](int i) { return order == 0 ? i : order == 1 ? count - 1 - i : i * 7 % count; };
        auto verify = [&] {
          MC_REQUIRE(api.getDatasetCount() == (int)have.size(), "the number of datasets is ", api.getDatasetCount(), " instead of ", have.size());
          std::set<std::string> listed;
          for (auto& i : api.getAllDatasetInfo()) {
            MC_REQUIRE(have.count(i.name) && listed.insert(i.name).second, "dataset ", i.name, " is listed wrongly");
            MC_REQUIRE(i.itemCount == 1 && i.itemLength == (int)have[i.name].size(), "dataset ", i.name, " has wrong dimensions");
          }
          MC_REQUIRE(listed.size() == have.size(), listed.size(), " datasets are listed instead of ", have.size());
          for (auto& p : have) MC_REQUIRE(values(api.getTimeSeries(p.first, 0, -1, -1)) == p.second, "dataset ", p.first, " has other values");
          eval(); counter("transitions");
        };
        auto add = [&](int i, double v) {
          std::string n = cat("d", i); Seq s = {v, double(i)}; if (i % 3 == 0) s.push_back(v * 2);
          mc::load(api, n, {s}); unlink(scratchPath("ds_" + n + ".txt").c_str()); have[n] = s;
        };
        for (int i = 0; i < count; i++) { add(at(i), 1); if (i % 8 == 0 || i > count - 4) verify(); }
        for (int i = 0; i < count; i++) MC_REQUIRE(throwsGenex([&] { mc::load(api, cat("d", i), {{5}}); }), "a used name is accepted");
        verify();
        for (int i = 0; i < count; i += 2) { api.unloadDataset(cat("d", at(i))); have.erase(cat("d", at(i))); if (i % 8 == 0) verify(); }
        verify();
        for (int i = 0; i < count; i += 2) { add(at(i), 9); if (i % 8 == 0) verify(); }
        verify();
        api.unloadAllDataset(); have.clear(); verify();
        for (int i = 0; i < 5; i++) add(at(i), 4);
        verify(); nontrivial();
        sample(cat(count, " datasets, order ", order));
      });
  // unusual names
  unit([&] { return std::string("names"); }, [&] {
    GenexAPI api; std::map<std::string, Seq> have;
    std::vector<std::string> names = {"", " ", "a", "A", "a ", " a", "a b", "ab", "a/b", "../a", "a.b", "a\nb", "a\tb", std::string("a\0b", 3), std::string("a\0c", 3), "\xc3\xa9", "\xff", "0", "00", "-1", "null", "%s", "*"};
    for (int n : {15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1024, 70000}) { names.push_back(std::string(n, 'x')); names.push_back(std::string(n, 'x') + "y"); names.push_back(std::string(n, 'x') + "z"); }
    auto verify = [&] {
      MC_REQUIRE(api.getDatasetCount() == (int)have.size(), "the number of datasets is wrong");
      for (size_t i = 0; i < names.size(); i++) {
        auto it = have.find(names[i]);
        bool there = !throwsGenex([&] { api.getDatasetInfo(names[i]); });
        MC_REQUIRE(there == (it != have.end()), "dataset ", jesc(names[i].substr(0, 300)), there ? " exists" : " does not exist");
        if (!there) { MC_REQUIRE(throwsGenex([&] { api.unloadDataset(names[i]); }), "an unknown name is unloaded"); continue; }
        MC_REQUIRE(api.getDatasetInfo(names[i]).name == names[i] && values(api.getTimeSeries(names[i], 0, -1, -1)) == it->second, "dataset ", jesc(names[i].substr(0, 300)), " differs");
      }
      eval(names.size()); counter("transitions");
    };
    auto add = [&](size_t i, double v) { Seq s = {v, double(i)}; writeFile(scratchPath("u.txt"), toText({s})); api.loadDataset(names[i], scratchPath("u.txt"), " "); have[names[i]] = s; };
    for (int round = 0; round < 3; round++) {
      for (size_t i = 0; i < names.size(); i++) { add(i, round); if (i % 8 == 0) verify(); }
      verify();
      for (size_t i = round; i < names.size(); i += 2) { api.unloadDataset(names[i]); have.erase(names[i]); verify(); }
      for (size_t i = round; i < names.size(); i += 2) { add(i, 10 + round); verify(); }
      api.unloadAllDataset(); have.clear(); verify();
    }
    nontrivial();
  });
  // all histories over a smaller alphabet, without merging equal situations
  std::vector<Op> few = {{LOAD, 0, 0}, {LOAD, 0, 2}, {UNLOAD, 0, 0}, {NORM, 0, 0}, {GROUP, 0, 0}, {GROUP, 0, 1}, {SAVE, 0, 0}, {RESTORE, 0, 0}, {PAA, 0, 2}, {QUERY, 0, 0}};
  int len = th ? 6 : 5;
  std::vector<Op> h = {{LOAD, 0, 0}};
  std::function<void()> rec = [&] {
    if ((int)h.size() == len) {
      unit([&] { return "all histories starting with " + show(h); }, [&] { for (auto& o : few) { h.push_back(o); run(h, false); h.pop_back(); } });
      return;
    }
    for (auto& o : few) { h.push_back(o); rec(); h.pop_back(); }
  };
  rec();
}
