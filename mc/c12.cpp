// C12: PAA search.
#include "search.hpp"
#include "PAAWrapper.hpp"
using namespace mc;
using namespace ref;

static Seq blockAverages(const Seq& s, int b) {
  Seq o;
  for (size_t i = 0; i < s.size(); i += b) {
    L t = 0; int n = 0;
    for (size_t j = i; j < std::min(s.size(), i + b); j++) { t += s[j]; n++; }
    o.push_back((double)(t / n));
  }
  return o;
}

struct Range { double lo, hi; std::vector<double> all; };
static Range paaDist(Metric m, const Seq& q, const Seq& x, int b, double ratio) {
  Seq a = blockAverages(q, b), c = blockAverages(x, b);
  int r = band(a.size(), c.size(), ratio);
  if (trueMetric(m)) { double d = dtw(m, a, c, r); return Range{d, d, {d}}; }
  bool capped; auto v = dtwRatio(m, a, c, r, capped);
  bool c2; auto w = dtwRatio(m, c, a, r, c2);
  v.insert(v.end(), w.begin(), w.end());
  if (capped || c2) { outcome("tie set too large"); return Range{-INFTY, INFTY, {}}; }
  return Range{*std::min_element(v.begin(), v.end()), *std::max_element(v.begin(), v.end()), v};
}

// An average that should be zero may be a rounding error away from it, which turns an
// infinite sorensen ratio into a huge one.
static bool same(double a, double b) { return close(a, b) || (a > 1e9 && b > 1e9); }

// current is the present content of dataset "g"
static void battery(GenexAPI& api, const Data& current, int b, double ratio, const std::vector<Query>& qs, const std::vector<Metric>& ms, int kStep, const std::string& hist) {
  int eff = std::min<int>(b, std::max<size_t>(1, maxLen(current)));
  auto subs = allSubs(current, 2);
  int N = subs.size();
  api.setWarpingBandRatio(ratio);
  for (Metric m : ms)
    for (auto& q : qs) {
      std::map<Sub, Range> ex;
      for (auto& s : subs) ex[s] = paaDist(m, q.v, sub(current, s.idx, s.start, s.start + s.len), eff, ratio);
      std::vector<int> ks = {0, N + 2};
      for (int k = 1; k <= N + 1; k += (k < 3 ? 1 : kStep)) ks.push_back(k);
      for (int k : ks) {
        auto where = [&] { return cat(" (dataset ", show(current), hist, ", block ", b, ", ", name(m), ", ratio ", ratio, ", ", show(q), ", k ", k, ")"); };
        eval();
        std::vector<genex::candidate_time_series_t> res;
        bool threw = throwsGenex([&] { res = api.getKBestMatchesPAA(k, "g", q.ds, q.idx, q.start, q.end, name(m)); });
        if (k < 1) { MC_REQUIRE(threw, "invalid k is accepted", where()); outcome("refused"); continue; }
        MC_REQUIRE(!threw, "query is refused", where());
        MC_REQUIRE((int)res.size() == std::min(k, N), "got ", res.size(), " results, expected ", std::min(k, N), where());
        std::set<Sub> seen;
        for (size_t i = 0; i < res.size(); i++) {
          checkExists(res[i], current, where);
          Sub s = subOf(res[i].data);
          MC_REQUIRE(s.len >= 2 && seen.insert(s).second, "result ", show(s), " is repeated or too short", where());
          bool ok = ex[s].all.empty();
          for (double v : ex[s].all) ok = ok || same(v, res[i].dist);
          MC_REQUIRE(ok, "reported distance ", res[i].dist, " of ", show(s), ", exact ", ex[s].lo, where());
          if (i) MC_REQUIRE(!below(res[i].dist, res[i-1].dist), "results are not in ascending order", where());
        }
        double worst = res.empty() ? -INFTY : res.back().dist;
        for (auto& s : subs)
          if (!seen.count(s)) MC_REQUIRE(!below(ex[s].hi, worst) || same(ex[s].hi, worst), "left-out ", show(s), " at ", ex[s].hi, " is closer than a result at ", worst, where());
        outcome(k >= N ? "all returned" : "top k");
        if (k < N && eff > 1) nontrivial();
      }
    }
}

static Data normalised(const Data& d) {
  double mn = INFTY, mx = -INFTY;
  for (auto& r : d) for (double v : r) { mn = std::min(mn, v); mx = std::max(mx, v); }
  Data o = d;
  for (auto& r : o) for (double& v : r) v = mx == mn ? 0 : (v - mn) / (mx - mn);
  return o;
}

void mc::explore() {
  bool th = ctx().thorough();
  Data qd = {{2, 0, 1, 3, 1}};
  auto q0 = queriesOf("q", qd);
  std::vector<Metric> all(ALL, ALL + 5);
  // all small datasets, every block size
  forDatasets(th ? 5 : 4, 3, {0, 1, 3}, false, [&](GenexAPI& api, const Data& d) {
    mc::load(api, "q", qd);
    MC_REQUIRE(throwsGenex([&] { api.getKBestMatchesPAA(1, "g", "q", 0); }), "unprepared dataset is searched");
    for (int b = 1; b <= (int)maxLen(d) + 2; b++) {
      api.preparePAA("g", b);
      battery(api, d, b, 0.5, q0, all, 2, "");
      if (b < 3) battery(api, d, b, 1, {q0.front(), q0.back()}, all, 1, "");
    }
    api.preparePAA("g", 2); api.normalizeDataset("g");
    Data now; for (int i = 0; i < (int)d.size(); i++) now.push_back(values(api.getTimeSeries("g", i, -1, -1)));
    battery(api, now, 2, 0.5, {q0.back()}, {EUC, MAN}, 3, ", after normalising");
  });
  // single averages of all subsequences, long rows, every block size
  for (int n = 1; n <= (th ? 40 : 26); n++)
    unit([&] { return cat("block averages of rows of length ", n); }, [&] {
      Data d = {pattern(3, n, 1), pattern(8, std::max(1, n - 3), 2)};
      std::string p = scratchPath("paa.txt"); writeFile(p, toText(d));
      genex::TimeSeriesSet set; set.loadData(p, 0, 0, " ");
      for (int b = 1; b <= n + 1; b++) {
        genex::PAAWrapper w(set); w.generatePAAMatrix(b);
        int eff = std::min(b, n);
        for (auto& s : allSubs(d, 1)) {
          Seq got = values(w.getPAA(s.idx, s.start, s.start + s.len)), want = blockAverages(sub(d, s.idx, s.start, s.start + s.len), eff);
          eval();
          bool ok = got.size() == want.size();
          for (size_t i = 0; ok && i < got.size(); i++) ok = close(got[i], want[i]);
          MC_REQUIRE(ok, "block averages of ", show(s), " of ", show(d), " with block ", b, " are ", vec(got), ", expected ", vec(want));
          outcome("block averages"); if (eff > 1) nontrivial();
        }
      }
    });
  // distances that differ very little
  forDatasets(4, 3, {0, 1e-6, 3e-6}, false, [&](GenexAPI& api, const Data& d) {
    Data tiny = {{2e-6, 0, 1e-6, 3e-6}};
    mc::load(api, "q", tiny);
    for (int b = 1; b <= (int)maxLen(d); b++) { api.preparePAA("g", b); battery(api, d, b, 0.35, queriesOf("q", tiny), {EUC, MAN, CHE}, 2, ""); }
  });
  // every query after every other one
  for (Metric m : {EUC, MAN, CHE})
    unit([&] { return cat("alike queries, ", name(m)); }, [&] {
      Data d = alikeTarget();
      GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", alikeQueries());
      api.preparePAA("g", 2);
      afterEachOther([&](const Query& q) { battery(api, d, 2, 0.5, {q}, {m}, 30, ""); });
    });
  // subsequences of more than a hundred points
  for (Metric m : {EUC, MAN, CHE})
    unit([&] { return cat("long rows, ", name(m)); }, [&] {
      Data d = longRows(); auto qs = longQueries(d);
      GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", {qs.back().v});
      for (int b : {1, 2, 7, 20}) { api.preparePAA("g", b); battery(api, d, b, 0.05, qs, {m}, 3000, ""); }
    });
  // larger datasets through the query interface
  for (auto& d : structured(th)) {
    size_t n = 0; for (auto& r : d) n += r.size();
    if (n > 40) continue;
    unit([&] { return cat("dataset ", show(d)); }, [&] {
      GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", {pattern(3, 7, 2)});
      auto qs = queriesOf("q", {pattern(3, 7, 2)});
      std::vector<Query> some; for (size_t i = 0; i < qs.size(); i += 5) some.push_back(qs[i]);
      for (int b = 1; b <= (int)maxLen(d) + 1; b += (b < 4 ? 1 : 3)) { api.preparePAA("g", b); battery(api, d, b, 0.4, some, all, 13, ""); }
    });
  }
  forLarge([&](GenexAPI& api, const Large& l, Metric m) {
    mc::load(api, "q", largeQueries());
    int N = allSubs(l.d, 2).size();
    for (int b : {2, 5, 13, 64}) { api.preparePAA("g", b); battery(api, l.d, b, 0.2, largeQueriesFor(l), {m}, N / 6 + 1, ""); }
  }, 40);
  // histories: prepare, normalise, unload/reload, failing preparation, regrouping
  const char* ops[] = {"prepare 1", "prepare 2", "prepare 7", "prepare 0 and -3 (fails)", "normalise", "reload", "unload all and reload", "group", "reload other data", "unload both and reload"};
  const int NOPS = 10;
  std::vector<Data> bases = {{{0, 1, 3, 2}, {4, 0, 1}}, {{1, 2}, {5, 1, 0, 2, 2}, {3}}};
  int depth = th ? 5 : 4;
  for (auto& base : bases)
    for (int len = 1; len <= depth; len++) {
      long total = 1; for (int i = 0; i < len; i++) total *= NOPS;
      for (long first = 0; first < total; first += 100)
        unit([&] { return cat("histories ", first, "..", std::min(first + 99, total - 1), " of length ", len, " on ", show(base)); }, [&] {
          for (long code = first; code < std::min(first + 100, total); code++) {
            GenexAPI api; Data cur = base; int prepared = 0; std::string h;
            mc::load(api, "g", base); mc::load(api, "q", qd);
            long c = code;
            for (int i = 0; i < len; i++, c /= NOPS) {
              int op = c % NOPS; h += cat(i ? ", " : "", ops[op]);
              note("history " + h);
              switch (op) {
                case 0: api.preparePAA("g", 1); prepared = 1; break;
                case 1: api.preparePAA("g", 2); prepared = 2; break;
                case 2: api.preparePAA("g", 7); prepared = 7; break;
                case 3: MC_REQUIRE(throwsGenex([&] { api.preparePAA("g", 0); }), "block size 0 is accepted"); MC_REQUIRE(throwsGenex([&] { api.preparePAA("g", -3); }), "negative block size is accepted"); break;
                case 4: api.normalizeDataset("g"); cur = normalised(cur); break;
                case 5: api.unloadDataset("g"); mc::load(api, "g", base); cur = base; prepared = 0; break;
                case 6: api.unloadAllDataset(); mc::load(api, "g", base); mc::load(api, "q", qd); cur = base; prepared = 0; break;
                case 7: { Quiet q; api.groupDataset("g", 0.5, "euclidean", 1, false); } break;
                case 8: api.unloadDataset("g"); cur = {{9, 8, 1}, {0, 2}}; mc::load(api, "g", cur); prepared = 0; break;
                case 9: api.unloadDataset("q"); api.unloadDataset("g"); mc::load(api, "g", base); mc::load(api, "q", qd); cur = base; prepared = 0; break;
              }
              counter("history_steps");
            }
            auto where = " after " + h;
            if (!prepared) {
              eval();
              MC_REQUIRE(throwsGenex([&] { api.getKBestMatchesPAA(1, "g", "q", 0); }), "a dataset that is not prepared is searched", where);
              outcome("refused: not prepared"); nontrivial();
            } else {
              if (std::find_if(cur.begin(), cur.end(), [](const Seq& r) { return r.size() > 1; }) == cur.end()) continue;
              Data now; for (int i = 0; i < (int)cur.size(); i++) now.push_back(values(api.getTimeSeries("g", i, -1, -1)));
              for (size_t i = 0; i < cur.size(); i++) for (size_t j = 0; j < cur[i].size(); j++) MC_REQUIRE(now[i].size() == cur[i].size() && close(now[i][j], cur[i][j]), "data changed", where);
              battery(api, now, prepared, 0.5, {q0.back()}, {EUC, MAN}, 100, where);
            }
          }
          if (len == 3) sample(cat("all histories of length ", len, " from number ", first));
        });
    }
}
