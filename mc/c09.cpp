// C09: best match.
#include "search.hpp"
using namespace mc;
using namespace ref;

static void checkQuery(GenexAPI& api, const Data& d, const Groups& g, const Opt& o, double ratio, const Query& q) {
  auto where = [&] { return cat(" (dataset ", show(d), ", ", show(o), ", ratio ", ratio, ", ", show(q), ")"); };
  eval();
  genex::candidate_time_series_t best;
  bool threw = throwsGenex([&] { best = api.getBestMatch("g", q.ds, q.idx, q.start, q.end); });
  std::vector<GroupView> gs;
  if (q.v.size() > 1) gs = reachable(g, d, q.v, o.metric, ratio);
  bool any = false, anyHi = false;
  for (auto& x : gs) { any = any || !std::isinf(x.repDist.lo()); anyHi = anyHi || !std::isinf(x.repDist.hi()); }
  if (!any) {
    MC_REQUIRE(threw, "a query that can be compared with no group is answered", where());
    outcome(q.v.size() <= 1 ? "refused: too short" : gs.empty() ? "refused: no group of a reachable length" : "refused: all distances infinite");
    nontrivial();
    return;
  }
  MC_REQUIRE(!threw, "query is refused although there are reachable groups", where());
  checkExists(best, d, where);
  Sub s = subOf(best.data);
  const GroupView* mine = nullptr; size_t pos = 0;
  for (auto& x : gs)
    for (size_t i = 0; i < x.members.size(); i++) if (x.members[i] == s) { mine = &x; pos = i; }
  MC_REQUIRE(mine, "result ", show(s), " is in no group of a reachable length", where());
  MC_REQUIRE(mine->dist[pos].matches(best.dist), "reported distance ", best.dist, " of ", show(s), ", exact ", mine->dist[pos].qx, where());
  // nearest representative, in a consistent argument order
  bool okA = true, okB = true;
  for (auto& x : gs) { okA = okA && !below(x.repDist.qx, mine->repDist.qx); okB = okB && !below(x.repDist.xq, mine->repDist.xq); }
  MC_REQUIRE(okA || okB, "result ", show(s), " is in a group whose representative is ", mine->repDist.xq, " away; a nearer one exists", where());
  for (size_t i = 0; i < mine->members.size(); i++)
    MC_REQUIRE(!below(mine->dist[i].hi(), best.dist), "member ", show(mine->members[i]), " of the chosen group is closer: ", mine->dist[i].hi(), " < ", best.dist, where());
  if (trueMetric(o.metric)) {
    for (auto& x : gs) MC_REQUIRE(!below(x.repDist.lo(), best.dist), "representative ", vec(x.rep), " is closer than the best match", where());
    if (o.threshold == 0)
      for (auto& x : gs) for (auto& e : x.dist)
        MC_REQUIRE(!below(e.lo(), best.dist), "threshold 0, but a subsequence is closer (", e.lo(), ") than the best match (", best.dist, ")", where());
  }
  bool otherLen = s.len != (int)q.v.size();
  outcome(cat(best.dist == 0 ? "exact hit" : "approximate", otherLen ? ", other length" : ", same length"));
  if (best.dist != 0 && gs.size() > 1) nontrivial();
}

static void run(const std::vector<double>& ths, const std::vector<double>& ratios, const Data& qd, GenexAPI& api, const Data& d, size_t maxOwn) {
  mc::load(api, "q", qd);
  std::vector<Query> qs = queriesOf("q", qd);
  auto own = queriesOf("g", d);
  for (size_t i = 0; i < own.size(); i += std::max<size_t>(1, own.size() / maxOwn)) qs.push_back(own[i]);
  int shortOnes = 0;      // queries of one point are always refused: two of them suffice
  qs.erase(std::remove_if(qs.begin(), qs.end(), [&](const Query& q) { return q.v.size() < 2 && ++shortOnes > 2; }), qs.end());
  for (Metric m : ALL)
    for (double t : ths)
      for (int w = 0; w < 2; w++) {
        if (w && t != ths.back() && t != ths.front()) continue;
        if (w && maxLen(d) < 2) continue;      // one-point series are never searched for
        Opt o{m, t, w == 1, 1};
        { Quiet q; api.groupDataset("g", t, name(m), 1, w == 1); }
        Groups g = groupsOf(api, "g");
        for (double ratio : ratios) {
          api.setWarpingBandRatio(ratio);
          for (auto& q : qs) checkQuery(api, d, g, o, ratio, q);
        }
      }
}

void mc::explore() {
  bool th = ctx().thorough();
  Data qs = {{2, 0, 1, 3, 1, 0}, {0.5, 5, -1}}, ql = {pattern(3, 9, 2), pattern(8, 5, 1)};
  forDatasets(th ? 5 : 4, 3, {0, 1, 3}, false, [&](GenexAPI& api, const Data& d) { run({0, 2}, {0, 0.35, 1}, qs, api, d, 100); });
  // normalised between two queries
  forDatasets(th ? 5 : 4, 3, {0, 1, 3}, false, [&](GenexAPI& api, const Data& d) {
    if (maxLen(d) < 2) return;
    mc::load(api, "q", qs);
    for (Metric m : {EUC, MAN}) {
      Opt o{m, 1, false, 1};
      { Quiet q; api.groupDataset("g", 1, name(m), 1, false); }
      api.setWarpingBandRatio(0.35);
      for (auto& q : queriesOf("q", qs)) if (q.v.size() > 1) checkQuery(api, d, groupsOf(api, "g"), o, 0.35, q);
      api.normalizeDataset("g");
      Data now; for (int i = 0; i < (int)d.size(); i++) now.push_back(values(api.getTimeSeries("g", i, -1, -1)));
      Groups g = groupsOf(api, "g");
      for (auto& q : queriesOf("q", qs)) if (q.v.size() > 1) checkQuery(api, now, g, o, 0.35, q);
      api.unloadDataset("g"); mc::load(api, "g", d);
    }
  });
  forDatasets(th ? 7 : 6, 2, {0, 2}, false, [&](GenexAPI& api, const Data& d) {
    size_t n = 0; for (auto& r : d) n += r.size();
    if (n < 5) return;
    run({0, 2}, {0.1, 0.4, 1}, ql, api, d, 6); });
  // distances that differ very little
  forDatasets(4, 3, {0, 1e-6, 3e-6}, false, [&](GenexAPI& api, const Data& d) { run({0, 2e-6}, {0.35, 1}, {{2e-6, 0, 1e-6, 3e-6}}, api, d, 4); });
  for (auto& d : structured(th)) {
    if (d.size() > 60) continue;
    for (double ratio : {0.1, 0.3, 1.0})
      unit([&] { return cat("dataset ", show(d), " ratio ", ratio); }, [&] {
        GenexAPI api; mc::load(api, "g", d);
        run({0, 0.5}, {ratio}, ql, api, d, 8);
      });
  }
  forLarge([&](GenexAPI& api, const Large& l, Metric m) {
    mc::load(api, "q", largeQueries());
    for (double t : {0.0, 0.3, 5.0, 40.0}) {
      Opt o{m, t, false, 1};
      { Quiet q; api.groupDataset("g", t, name(m), 1, false); }
      Groups g = groupsOf(api, "g");
      for (double ratio : {0.1, 0.5}) {
        api.setWarpingBandRatio(ratio);
        for (auto& q : largeQueriesFor(l)) checkQuery(api, l.d, g, o, ratio, q);
      }
    }
  }, 40);
  // every query after every other one
  for (Metric m : {EUC, MAN, CHE})
    unit([&] { return cat("alike queries, ", name(m)); }, [&] {
      Data d = alikeTarget();
      GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", alikeQueries());
      Opt o{m, 0.6, false, 1};
      { Quiet q; api.groupDataset("g", 0.6, name(m), 1, false); }
      Groups g = groupsOf(api, "g");
      api.setWarpingBandRatio(0.3);
      afterEachOther([&](const Query& q) { checkQuery(api, d, g, o, 0.3, q); });
    });
  // subsequences of more than a hundred points
  for (Metric m : {EUC, MAN, CHE})
    unit([&] { return cat("long rows, ", name(m)); }, [&] {
      Data d = longRows(); auto qs = longQueries(d);
      GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", {qs.back().v});
      for (double t : {0.0, 1.0}) {
        Opt o{m, t, false, 1};
        { Quiet q; api.groupDataset("g", t, name(m), 1, false); }
        Groups g = groupsOf(api, "g");
        for (double ratio : {0.02, 0.05}) {
          api.setWarpingBandRatio(ratio);
          for (auto& q : qs) checkQuery(api, d, g, o, ratio, q);
        }
      }
    });
}
