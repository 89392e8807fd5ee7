// C25: every combination of boundary arguments of every public call.
#include "grouping.hpp"
#include <atomic>
#include <climits>
#include <dlfcn.h>
#include <pthread.h>

// A process may have 64 more threads here, so that an absurd number of threads fails at once.
static std::atomic<int> alive{0};
struct Start { void* (*f)(void*); void* a; };
static void* begin(void* p) { Start s = *(Start*)p; delete (Start*)p; void* r = s.f(s.a); alive--; return r; }
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
  if (alive >= 64) return EAGAIN;
  alive++;
  auto s = new Start{f, x};
  int r = real(t, a, begin, s);
  if (r) { delete s; alive--; }
  return r;
}

namespace {

using namespace mc;

struct Setup { const char* name; Data data; bool grouped, whole, paa, named; };
std::vector<Setup> setups() {
  std::vector<Setup> v;
  struct D { const char* n; Data d; };
  for (auto& d : std::vector<D>{{"equal rows", {{1, 2, 3}, {2, 0, 1}}}, {"unequal rows", {{1, 2, 3, 1}, {2, 2}, {5}}}, {"an empty row", {{1, 2, 3}, {}, {2, 1}}}, {"one value", {{4}}}, {"one short row", {{4, 1}}}})
    for (int k = 0; k < 5; k++) v.push_back({d.n, d.d, k >= 1 && k <= 3, k == 2, k >= 3, k == 4});
  v.push_back({"no rows", {}, false, false, false, false});
  v.push_back({"only empty rows", {{}, {}}, false, false, false, false});
  return v;
}
std::string describe(const Setup& s) { return cat(s.name, s.grouped ? ", grouped" : "", s.whole ? " by whole series" : "", s.paa ? ", prepared for PAA" : "", s.named ? ", named" : ""); }

std::vector<int> ints(std::initializer_list<int> more) {
  std::set<int> s = {INT_MIN, INT_MIN + 1, -2, -1, 0, 1, INT_MAX - 1, INT_MAX};
  for (int i : more) s.insert(i);
  return std::vector<int>(s.begin(), s.end());
}

enum Want { REFUSE, ACCEPT, EITHER };

struct World {
  GenexAPI api; Setup s; std::string print0;
  explicit World(const Setup& s) : s(s) {
    api.setWarpingBandRatio(0.5);
    std::string p = scratchPath("in.txt"), t = toText(s.data);
    if (s.named) { std::istringstream in(t); std::string l, u; int i = 0; while (getline(in, l)) u += cat("n", i++, " ", l, "\n"); t = u; }
    writeFile(p, t);
    api.loadDataset("a", p, " ", 0, 0, s.named);
    load(api, "b", {{1, 3, 2, 2}, {0, 1}});
    api.groupDataset("b", 1, "euclidean", 1, false); api.preparePAA("b", 2);
    if (s.grouped) api.groupDataset("a", 1, "euclidean", 1, s.whole);
    if (s.paa) api.preparePAA("a", 2);
    print0 = print();
  }
  const Data& data(const std::string& n) const { static const Data b = {{1, 3, 2, 2}, {0, 1}}; return n == "a" ? s.data : b; }
  bool known(const std::string& n) const { return n == "a" || n == "b"; }
  std::string print() {
    std::string r = cat(api.getDatasetCount());
    for (auto& i : api.getAllDatasetInfo()) {
      r += cat(i.name, " ", i.itemCount, " ", i.itemLength, " ", i.isNormalized, i.isGrouped, i.distance, i.threshold, ";");
      for (int k = 0; k < i.itemCount; k++) r += vec(values(api.getTimeSeries(i.name, k, -1, -1)));
    }
    return r;
  }
  // -1: the window is outside the data, otherwise its length
  int window(const std::string& n, int i, int b, int e) const {
    if (!known(n) || i < 0 || i >= (int)data(n).size()) return -1;
    int len = data(n)[i].size();
    if (b < 0 && e < 0) return len;
    return b < 0 || e <= b || e > len ? -1 : e - b;
  }
  template <class F, class T> void call(Want want, F f, const T& text) {
    static long n = 0;
    if (++n % 64 == 0) note(text());
    bool refused = false;
    std::string other;
    try { f(); }
    catch (Violation&) { throw; }
    catch (GenexException&) { refused = true; }
    catch (std::exception& e) { other = e.what(); if (other.empty()) other = "?"; }
    catch (...) { other = "something that is no std::exception"; }
    MC_REQUIRE(other.empty(), text(), " on ", describe(s), " failed with an error of another type: ", other);
    if (want == REFUSE) MC_REQUIRE(refused, text(), " on ", describe(s), " has to be refused but was carried out");
    if (want == ACCEPT) MC_REQUIRE(!refused, text(), " on ", describe(s), " was refused");
    if (refused && (n % 16 == 0 || want == EITHER)) MC_REQUIRE(print() == print0, text(), " on ", describe(s), " was refused but changed something: ", print());
    outcome(refused ? "refused" : "carried out");
    eval(); if (!refused) nontrivial();
  }
  void same(const std::string& what) { MC_REQUIRE(print() == print0, what, " on ", describe(s), " changed something: ", print()); }
};

// A match is a window of the target.
void sane(World& w, const std::string& target, const genex::candidate_time_series_t& c) {
  int i = c.data.getIndex(), b = c.data.getStart(), e = c.data.getEnd();
  MC_REQUIRE(w.window(target, i, b, e) == c.data.getLength() && c.data.getLength() > 0, "a match is outside the data: ", i, " [", b, ",", e, ")");
  Seq got = values(c.data), want = sub(w.data(target), i, b, e);
  MC_REQUIRE(got == want, "a match has other values than the data");
}

const std::vector<std::string> NAMES = {"a", "b", "", "zz", "A"};
const std::vector<std::string> DISTANCES = {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen", "euclidean_dtw", "manhattan_dtw", "chebyshev_dtw", "cosine_dtw", "sorensen_dtw", "", "dtw", "_dtw", "x", "euclidean_", "Euclidean", "euclidean_dtw_dtw"};
bool plainName(const std::string& d) { return d == "euclidean" || d == "manhattan" || d == "chebyshev" || d == "cosine" || d == "sorensen"; }
bool dtwName(const std::string& d) { return d.size() > 4 && d.substr(d.size() - 4) == "_dtw" && plainName(d.substr(0, d.size() - 4)); }

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  Quiet quiet;
  for (auto& s : setups()) {
    int rows = s.data.size(), len = maxLen(s.data);
    auto idx = ints({2, rows - 1, rows, rows + 1}), pos = ints({2, 3, len - 1, len, len + 1, 1000});
    auto few = std::vector<int>{INT_MIN, -1, 0, 1, 2, len, len + 1, INT_MAX};
    std::sort(few.begin(), few.end()); few.erase(std::unique(few.begin(), few.end()), few.end());

    unit([&] { return cat("reading on ", describe(s)); }, [&] {
      World w(s);
      for (auto& n : NAMES) {
        w.call(w.known(n) ? ACCEPT : REFUSE, [&] { w.api.getDatasetInfo(n); }, [&] { return cat("information of ", n); });
        for (int i : idx) {
          Want ok = w.known(n) && i >= 0 && i < (int)w.data(n).size() ? ACCEPT : REFUSE;
          w.call(ok, [&] { MC_REQUIRE(w.api.getTimeSeriesLength(n, i) == (int)w.data(n)[i].size(), "wrong length"); }, [&] { return cat("length of ", n, " ", i); });
          w.call(ok == REFUSE ? REFUSE : EITHER, [&] { w.api.getTimeSeriesName(n, i); }, [&] { return cat("name of ", n, " ", i); });
          for (int b : pos) for (int e : pos) {
            int L = w.window(n, i, b, e);
            w.call(L < 0 ? REFUSE : ACCEPT, [&] {
              auto t = w.api.getTimeSeries(n, i, b, e);
              MC_REQUIRE(t.getLength() == L && values(t) == (b < 0 ? w.data(n)[i] : sub(w.data(n), i, b, e)), "wrong values of ", n, " ", i, " [", b, ",", e, ")");
            }, [&] { return cat("series ", n, " ", i, " [", b, ",", e, ")"); });
          }
        }
      }
      w.same("reading");
      sample(describe(s));
    });

    auto queries = [&](World& w, const std::function<void(const std::string&, const std::string&, int, int, int, int)>& f) {
      for (auto& t : NAMES) for (auto& q : NAMES) {
        bool odd = !w.known(t) || !w.known(q);
        for (int i : odd ? std::vector<int>{-1, 0} : idx) for (int b : odd ? std::vector<int>{-1, 0, 1} : pos) for (int e : odd ? std::vector<int>{-1, 2, 9} : pos) {
          int L = w.known(t) ? w.window(q, i, b, e) : -1;
          f(t, q, i, b, e, L);
        }
      }
    };
    unit([&] { return cat("best match on ", describe(s)); }, [&] {
      World w(s);
      queries(w, [&](const std::string& t, const std::string& q, int i, int b, int e, int L) {
        bool grouped = t == "b" || s.grouped;
        Want want = L < 0 || !grouped ? REFUSE : L >= 2 && !(t == "a" && (s.whole || len < 2)) ? ACCEPT : EITHER;
        if (t == "a" && len >= 2 && s.grouped && !s.whole && L > len) want = EITHER;
        if (t == "b" && L > 4) want = EITHER;
        w.call(want, [&] { sane(w, t, w.api.getBestMatch(t, q, i, b, e)); }, [&] { return cat("best match in ", t, " of ", q, " ", i, " [", b, ",", e, ")"); });
      });
      w.same("best match queries");
    });
    unit([&] { return cat("k best matches on ", describe(s)); }, [&] {
      World w(s);
      for (int k : ints({2, 3, 100})) for (int ke : ints({2, 3, 100}))
        for (auto& t : NAMES) for (auto& q : {std::string("a"), std::string("b"), std::string("zz")}) for (int i : {-1, 0, 1, rows}) for (auto& be : std::vector<std::pair<int, int>>{{-1, -1}, {0, 2}, {0, 1}, {1, len}, {0, len + 1}, {2, 1}, {0, INT_MAX}, {INT_MIN, 1}}) {
          int L = w.known(t) ? w.window(q, i, be.first, be.second) : -1;
          bool grouped = t == "b" || s.grouped;
          Want want = L < 0 || !grouped || k <= 0 || ke < k ? REFUSE : L >= 1 ? ACCEPT : EITHER;
          w.call(want, [&] {
            auto r = w.api.getKBestMatches(k, ke, t, q, i, be.first, be.second);
            MC_REQUIRE((long)r.size() <= k, "more than k matches");
            for (auto& c : r) sane(w, t, c);
          }, [&] { return cat(k, "/", ke, " best matches in ", t, " of ", q, " ", i, " [", be.first, ",", be.second, ")"); });
        }
      w.same("k best queries");
    });
    unit([&] { return cat("brute force and PAA on ", describe(s)); }, [&] {
      World w(s);
      for (int paa = 0; paa < 2; paa++)
        for (int k : ints({2, 3, 100})) for (auto& d : DISTANCES)
          for (auto& t : NAMES) for (auto& q : {std::string("a"), std::string("b"), std::string("zz")}) for (int i : {-1, 0, 1, rows}) for (auto& be : std::vector<std::pair<int, int>>{{-1, -1}, {0, 2}, {0, 1}, {0, len + 1}, {2, 1}, {INT_MIN, INT_MAX}}) {
            int L = w.known(t) ? w.window(q, i, be.first, be.second) : -1;
            bool values_ = t == "b" || len > 0;
            Want want = L < 0 || k <= 0 || (paa && t == "a" && !s.paa) || (!plainName(d) && !dtwName(d) && values_ && L > 0) ? REFUSE : L >= 1 && plainName(d) ? ACCEPT : EITHER;
            w.call(want, [&] {
              auto r = paa ? w.api.getKBestMatchesPAA(k, t, q, i, be.first, be.second, d) : w.api.getKBestMatchesBruteForce(k, t, q, i, be.first, be.second, d);
              MC_REQUIRE((long)r.size() <= k, "more than k matches");
              if (!paa) for (auto& c : r) sane(w, t, c);
            }, [&] { return cat(paa ? "PAA " : "brute force ", k, " in ", t, " of ", q, " ", i, " [", be.first, ",", be.second, ") by ", d); });
          }
      w.same("brute force and PAA queries");
    });
    for (int part = 0; part < 4; part++) unit([&] { return cat("distances on ", describe(s), ", part ", part); }, [&] {
      World w(s);
      std::vector<int> ix = {INT_MIN, -1, 0, 1, rows, INT_MAX};
      int n = 0;
      for (int i1 : ix) for (int b1 : few) for (int e1 : few) for (int i2 : ix) for (int b2 : few) for (int e2 : few) {
        if (n++ % 4 != part) continue;
        int L1 = w.window("a", i1, b1, e1), L2 = w.window("b", i2, b2, e2);
        auto text = [&](const char* what) { return cat(what, " of a ", i1, " [", b1, ",", e1, ") and b ", i2, " [", b2, ",", e2, ")"); };
        bool bad = L1 < 0 || L2 < 0;
        w.call(bad ? REFUSE : L1 == 0 || L2 == 0 ? EITHER : L1 == L2 ? ACCEPT : REFUSE, [&] { w.api.distanceBetween("a", i1, b1, e1, "b", i2, b2, e2, "euclidean"); }, [&] { return text("distance"); });
        w.call(bad || L1 == 0 || L2 == 0 ? REFUSE : ACCEPT, [&] { w.api.distanceBetween("a", i1, b1, e1, "b", i2, b2, e2, "manhattan_dtw"); }, [&] { return text("warped distance"); });
        w.call(bad || L1 == 0 || L2 == 0 ? REFUSE : ACCEPT, [&] { w.api.matchingBetween("b", i2, b2, e2, "a", i1, b1, e1, "chebyshev_dtw"); }, [&] { return text("matching"); });
      }
      if (part == 0)
        for (auto& n1 : NAMES) for (auto& n2 : NAMES) for (auto& d : DISTANCES) for (int i : {0, 1, 7}) for (auto& be : std::vector<std::pair<int, int>>{{-1, -1}, {0, 1}, {0, 2}, {0, 9}}) {
          int L1 = w.window(n1, i, be.first, be.second), L2 = w.window(n2, 0, 0, 1);
          bool bad = L1 < 0 || L2 < 0 || (!plainName(d) && !dtwName(d));
          w.call(bad ? REFUSE : L1 == 0 ? EITHER : dtwName(d) || L1 == L2 ? ACCEPT : REFUSE, [&] { w.api.distanceBetween(n1, i, be.first, be.second, n2, 0, 0, 1, d); }, [&] { return cat("distance ", d, " of ", n1, " and ", n2); });
          w.call(bad || !dtwName(d) || L1 == 0 ? REFUSE : ACCEPT, [&] { w.api.matchingBetween(n1, i, be.first, be.second, n2, 0, 0, 1, d); }, [&] { return cat("matching ", d, " of ", n1, " and ", n2); });
        }
      w.same("distances");
    });
    // the ratio is a setting of the process: each one is refused without effect or used by everything that follows
    unit([&] { return cat("band ratios on ", describe(s)); }, [&] {
      World w(s);
      const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
      double now = 0.5;
      auto use = [&](const std::string& text) {
        for (int i = 0; i < rows; i++) for (int j = 0; j < 2; j++) {
          if (s.data[i].empty()) continue;
          for (auto m : {ref::EUC, ref::MAN, ref::CHE}) {
            double got = w.api.distanceBetween("a", i, -1, -1, "b", j, -1, -1, std::string(ref::name(m)) + "_dtw");
            double want = ref::dtw(m, s.data[i], w.data("b")[j], ref::band(s.data[i].size(), w.data("b")[j].size(), now));
            MC_REQUIRE(ref::close(got, want), text, " on ", describe(s), ": distance ", got, " where the ratio ", now, " gives ", want);
          }
        }
        if (s.grouped && !s.whole && len >= 2) sane(w, "a", w.api.getBestMatch("a", "b", 0, 0, 2));
        for (auto& c : w.api.getKBestMatches(2, 3, "b", "b", 1, 0, 2)) sane(w, "b", c);
        for (auto& c : w.api.getKBestMatchesBruteForce(2, "b", "b", 1, 0, 2, "euclidean")) sane(w, "b", c);
      };
      const std::vector<double> ratios = {0, -0.0, 1e-300, 0.1, 0.34, 0.5, 0.999, 1, 1.5, 2, 1e8, 6e8, 1e9, 3e9, 1e18, 1e300, inf, -1e-300, -0.1, -1, -1e9, -1e300, -inf, nan};
      for (double r1 : ratios) for (double r2 : ratios) {
        std::string text = "ratio";
        for (double r : {r1, r2}) {
          text += cat(" ", r);
          bool ok = r >= 0;
          w.call(ok ? ACCEPT : REFUSE, [&] { w.api.setWarpingBandRatio(r); }, [&] { return text; });
          if (ok) now = r;
          use(text);
        }
      }
      w.api.setWarpingBandRatio(0.5);
      w.same("ratios");
    });
    // calls that change something: a new world for each that is carried out
    unit([&] { return cat("changes on ", describe(s)); }, [&] {
      std::unique_ptr<World> w(new World(s));
      auto change = [&](Want want, const std::function<void(GenexAPI&)>& f, const std::string& text) {
        w->call(want, [&] { f(w->api); }, [&] { return text; });
        if (w->print() != w->print0) w.reset(new World(s));
      };
      std::string out = scratchPath("out"), in = scratchPath("data.txt");
      writeFile(in, "n 1 2 3\nm 4 5\n");
      for (auto& n : NAMES) {
        bool known = w->known(n);
        bool vals = n == "b" || len > 0;
        for (auto& d : DISTANCES) for (int t : ints({2, 3, 16, 100000})) for (int whole = 0; whole < 2; whole++) for (double threshold : {0.0, 0.5, -1.0, 1e300})
          if (t == 1 || threshold == 0.5)
            change(!known || t <= 0 || (!plainName(d) && !dtwName(d)) ? REFUSE : plainName(d) && vals && t <= 16 ? ACCEPT : EITHER, [&](GenexAPI& g) { g.groupDataset(n, threshold, d, t, whole); }, cat("group ", n, " by ", d, " threshold ", threshold, " with ", t, " threads"));
        for (int b : ints({2, 3, len, len + 1})) change(!known || b < 1 ? REFUSE : ACCEPT, [&](GenexAPI& g) { g.preparePAA(n, b); g.getKBestMatchesPAA(2, n, "b", 0, 0, 2, "euclidean"); }, cat("prepare PAA of ", n, " with block ", b));
        w.reset(new World(s));
        change(!known ? REFUSE : vals ? ACCEPT : EITHER, [&](GenexAPI& g) { g.normalizeDataset(n); }, "normalise " + n);
        change(known ? ACCEPT : REFUSE, [&](GenexAPI& g) { g.unloadDataset(n); }, "unload " + n);
        change(known ? ACCEPT : REFUSE, [&](GenexAPI& g) { g.saveDataset(n, out, ' '); }, "save " + n);
        bool grouped = n == "b" || (n == "a" && s.grouped);
        change(grouped ? ACCEPT : REFUSE, [&](GenexAPI& g) { g.saveGroups(n, out); }, "save groups of " + n);
        change(grouped ? ACCEPT : REFUSE, [&](GenexAPI& g) { g.saveGroupsOld(n, out, false); }, "save groups as text of " + n);
        change(grouped ? ACCEPT : REFUSE, [&](GenexAPI& g) { g.saveGroupsOld(n, out, true); }, "save group sizes of " + n);
        if (!known) for (auto& p : {out, in, std::string("/nonexistent/file")}) {
          change(REFUSE, [&](GenexAPI& g) { g.loadGroups(n, p); }, "load groups to " + n);
          change(REFUSE, [&](GenexAPI& g) { g.loadGroupsOld(n, p); }, "load text groups to " + n);
        }
        for (int m : ints({2, 3})) for (int c : ints({2, 3, 4, 5})) for (int named = 0; named < 2; named++) for (auto& sep : {std::string(" "), std::string(",; "), std::string()})
          change(known || c < 0 ? REFUSE : EITHER, [&](GenexAPI& g) { g.loadDataset(n, in, sep, m, c, named); g.getTimeSeries(n, 0, -1, -1); g.getDatasetInfo(n); }, cat("load ", n, " rows ", m, " from column ", c, named ? " named" : "", " separators '", sep, "'"));
        for (auto& p : {std::string(), std::string("/nonexistent"), ctx().scratch})
          change(REFUSE, [&](GenexAPI& g) { g.loadDataset(n, p, " "); }, "load " + n + " from " + p);
      }
    });
  }
}
