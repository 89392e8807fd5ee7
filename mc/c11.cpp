// C11: brute-force k-best.
#include "search.hpp"
using namespace mc;
using namespace ref;

static void runQueries(const std::vector<Metric>& metrics, const std::vector<double>& ratios, GenexAPI& api, const Data& d, const std::vector<Query>& qs, int kStep) {
  auto subs = allSubs(d, 2);
  int N = subs.size();
  for (Metric m : metrics)
    for (double ratio : ratios) {
      api.setWarpingBandRatio(ratio);
      for (auto& q : qs) {
        std::map<Sub, Exact> ex;
        for (auto& s : subs) ex[s] = exact(m, q.v, sub(d, s.idx, s.start, s.start + s.len), ratio);
        std::vector<int> ks = {0, -1, N + 2};
        for (int k = 1; k <= N + 1; k += (k < 4 ? 1 : kStep)) ks.push_back(k);
        for (int k : ks) {
          auto where = [&] { return cat(" (dataset ", show(d), ", ", name(m), ", ratio ", ratio, ", ", show(q), ", k ", k, ")"); };
          eval();
          std::vector<genex::candidate_time_series_t> res;
          bool threw = throwsGenex([&] { res = api.getKBestMatchesBruteForce(k, "g", q.ds, q.idx, q.start, q.end, name(m)); });
          if (k < 1) { MC_REQUIRE(threw, "invalid k is accepted", where()); outcome("refused"); continue; }
          MC_REQUIRE(!threw, "query is refused", where());
          MC_REQUIRE((int)res.size() == std::min(k, N), "got ", res.size(), " results, expected ", std::min(k, N), where());
          std::set<Sub> seen;
          for (size_t i = 0; i < res.size(); i++) {
            checkExists(res[i], d, where);
            Sub s = subOf(res[i].data);
            MC_REQUIRE(s.len >= 2, "result of length one", where());
            MC_REQUIRE(seen.insert(s).second, "result ", show(s), " is repeated", where());
            MC_REQUIRE(ex[s].matches(res[i].dist), "reported distance ", res[i].dist, " of ", show(s), ", exact ", ex[s].qx, where());
            if (i) MC_REQUIRE(!below(res[i].dist, res[i-1].dist), "results are not in ascending order", where());
          }
          double worst = res.empty() ? -INFTY : res.back().dist;
          for (auto& s : subs)
            if (!seen.count(s)) MC_REQUIRE(!below(ex[s].hi(), worst), "left-out ", show(s), " at ", ex[s].hi(), " is closer than a result at ", worst, where());
          outcome(k >= N ? "all returned" : std::isinf(worst) ? "some infinite" : "top k");
          if (k < N) nontrivial();
        }
      }
    }
}

static void run(const std::vector<double>& ratios, const Data& qd, GenexAPI& api, const Data& d, size_t maxOwn, int kStep) {
  mc::load(api, "q", qd);
  std::vector<Query> qs = queriesOf("q", qd);
  auto own = queriesOf("g", d);
  for (size_t i = 0; i < own.size(); i += std::max<size_t>(1, own.size() / maxOwn)) qs.push_back(own[i]);
  runQueries(std::vector<Metric>(std::begin(ALL), std::end(ALL)), ratios, api, d, qs, kStep);
  for (auto bad : {"", "x", "euclidean_dtw", "Euclidean"})
    { eval(); MC_REQUIRE(throwsGenex([&] { api.getKBestMatchesBruteForce(1, "g", "q", 0, -1, -1, bad); }), "distance name '", bad, "' is accepted"); outcome("unknown distance refused"); }
}

void mc::explore() {
  bool th = ctx().thorough();
  Data qs = {{2, 0, 1, 3, 1}};
  forDatasets(th ? 5 : 4, 3, {0, 1, 3}, false, [&](GenexAPI& api, const Data& d) { run({0, 0.35, 1}, qs, api, d, 4, 1); });
  forDatasets(th ? 7 : 6, 3, {0, 2}, false, [&](GenexAPI& api, const Data& d) {
    size_t n = 0; for (auto& r : d) n += r.size();
    if (n < 5) return;
    run({0.35}, {{1, 0, 2, 0.5}}, api, d, 1, 2); });
  // distances that differ very little
  forDatasets(4, 3, {0, 1e-6, 3e-6}, false, [&](GenexAPI& api, const Data& d) { run({0.35, 1}, {{2e-6, 0, 1e-6, 3e-6}}, api, d, 2, 1); });
  for (auto& d : structured(th)) {
    size_t n = 0; for (auto& r : d) n += r.size();
    if (n > 60) continue;
    for (double ratio : {0.1, 0.4, 1.0})
      unit([&] { return cat("dataset ", show(d), " ratio ", ratio); }, [&] {
        GenexAPI api; mc::load(api, "g", d);
        run({ratio}, {pattern(3, 6, 2)}, api, d, 2, n > 30 ? 37 : n > 12 ? 11 : 3);
      });
  }
  forLarge([&](GenexAPI& api, const Large& l, Metric m) {
    mc::load(api, "q", largeQueries());
    int N = allSubs(l.d, 2).size();
    runQueries({m}, {0.1, 0.5}, api, l.d, largeQueriesFor(l), N / 12 + 1);
  }, 40);
  // every query after every other one
  for (Metric m : {EUC, MAN, CHE})
    unit([&] { return cat("alike queries, ", name(m)); }, [&] {
      Data d = alikeTarget();
      GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", alikeQueries());
      afterEachOther([&](const Query& q) { runQueries({m}, {0.3}, api, d, {q}, 30); });
    });
  // subsequences of more than a hundred points
  for (Metric m : {EUC, MAN, CHE})
    unit([&] { return cat("long rows, ", name(m)); }, [&] {
      Data d = longRows(); auto qs = longQueries(d);
      GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", {qs.back().v});
      runQueries({m}, {0.05}, api, d, qs, 3000);
    });
}
