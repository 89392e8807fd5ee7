// C10: k-best search.
#include "search.hpp"
using namespace mc;
using namespace ref;

static void checkQuery(GenexAPI& api, const Data& d, const Opt& o, double ratio, const Query& q, const std::vector<GroupView>& gs, int k, int ke) {
  auto where = [&] { return cat(" (dataset ", show(d), ", ", show(o), ", ratio ", ratio, ", ", show(q), ", k ", k, ", ke ", ke, ")"); };
  eval();
  std::vector<genex::candidate_time_series_t> res;
  bool threw = throwsGenex([&] { res = api.getKBestMatches(k, ke, "g", q.ds, q.idx, q.start, q.end); });
  if (k < 1 || ke < k) {
    MC_REQUIRE(threw, "invalid k or ke is accepted", where());
    outcome("refused"); nontrivial();
    return;
  }
  MC_REQUIRE(!threw, "query is refused", where());
  long avail = 0; for (auto& x : gs) avail += x.members.size();
  MC_REQUIRE((long)res.size() == std::min<long>(k, avail), "got ", res.size(), " results, expected ", std::min<long>(k, avail), where());
  std::set<Sub> seen;
  std::vector<int> inGroup(res.size(), -1);
  for (size_t i = 0; i < res.size(); i++) {
    checkExists(res[i], d, where);
    Sub s = subOf(res[i].data);
    MC_REQUIRE(seen.insert(s).second, "result ", show(s), " is repeated", where());
    for (size_t a = 0; a < gs.size() && inGroup[i] < 0; a++)
      for (size_t b = 0; b < gs[a].members.size(); b++)
        if (gs[a].members[b] == s) {
          inGroup[i] = a;
          MC_REQUIRE(gs[a].dist[b].matches(res[i].dist), "reported distance ", res[i].dist, " of ", show(s), ", exact ", gs[a].dist[b].qx, where());
          break;
        }
    MC_REQUIRE(inGroup[i] >= 0, "result ", show(s), " is not of a reachable length", where());
    if (i) MC_REQUIRE(!below(res[i].dist, res[i-1].dist), "results are not in ascending order", where());
  }
  if (res.empty()) { outcome("nothing reachable"); return; }
  // The examined set. Groups are ranked by the distance of their representative; groups
  // tied at the boundary may be taken in any order.
  auto attempt = [&](bool order, bool& tooMany) {
    auto rd = [&](const GroupView& x) { return order ? x.repDist.qx : x.repDist.xq; };
    auto md = [&](const GroupView& x, size_t i) { return x.dist[i].qx; };
    double bound = INFTY;
    if (avail > ke) {
      std::vector<std::pair<double, long>> v;
      for (auto& x : gs) v.push_back({rd(x), (long)x.members.size()});
      std::sort(v.begin(), v.end());
      long c = 0;
      for (auto& p : v) { c += p.second; if (c >= ke) { bound = p.first; break; } }
    }
    std::vector<int> sure, tied;
    long have = 0;
    for (size_t a = 0; a < gs.size(); a++) {
      if (avail <= ke || below(rd(gs[a]), bound)) { sure.push_back(a); have += gs[a].members.size(); }
      else if (close(rd(gs[a]), bound)) tied.push_back(a);
    }
    auto verdict = [&](const std::vector<int>& full, int last, long take) {
      std::vector<double> e;
      for (int a : full) for (size_t i = 0; i < gs[a].members.size(); i++) e.push_back(md(gs[a], i));
      if (last >= 0) {
        std::vector<double> l;
        for (size_t i = 0; i < gs[last].members.size(); i++) l.push_back(md(gs[last], i));
        std::sort(l.begin(), l.end());
        for (long i = 0; i < take; i++) e.push_back(l[i]);
      }
      std::sort(e.begin(), e.end());
      if (e.size() < res.size()) return false;
      for (size_t i = 0; i < res.size(); i++) if (!close(e[i], res[i].dist)) return false;
      for (int gi : inGroup) {
        bool ok = gi == last;
        for (int a : full) ok = ok || a == gi;
        if (!ok) return false;
      }
      return true;
    };
    if (avail <= ke) return verdict(sure, -1, 0);
    if (tied.size() > 10) { tooMany = true; return true; }
    for (unsigned mask = 0; mask < (1u << tied.size()); mask++) {
      std::vector<int> full = sure; long n = have;
      for (size_t i = 0; i < tied.size(); i++) if (mask >> i & 1) { full.push_back(tied[i]); n += gs[tied[i]].members.size(); }
      if (n >= ke && !(n == ke && mask)) { if (mask) continue; }
      for (size_t i = 0; i < tied.size(); i++) {
        if (mask >> i & 1) continue;
        long sz = gs[tied[i]].members.size();
        if (n < ke && n + sz >= ke && verdict(full, tied[i], ke - n)) return true;
      }
    }
    return false;
  };
  bool tooMany = false;
  bool ok = attempt(false, tooMany) || attempt(true, tooMany);
  MC_REQUIRE(ok, "the results are not the k closest of the examined candidates", where());
  outcome(tooMany ? "too many tied groups, examined set not compared" : avail <= ke ? "everything examined" : "partly examined");
  if (avail > ke && gs.size() > 1 && !tooMany) nontrivial();
}

static void run(const std::vector<double>& ths, const std::vector<double>& ratios, const Data& qd, GenexAPI& api, const Data& d, size_t maxOwn, int keStep) {
  mc::load(api, "q", qd);
  std::vector<Query> qs = queriesOf("q", qd);
  auto own = queriesOf("g", d);
  for (size_t i = 0; i < own.size(); i += std::max<size_t>(1, own.size() / maxOwn)) qs.push_back(own[i]);
  for (Metric m : ALL)
    for (double t : ths)
      for (int w = 0; w < 2; w++) {
        if (w && t != ths.back()) continue;
        if (w && maxLen(d) < 2) continue;      // one-point series are never searched for
        Opt o{m, t, w == 1, 1};
        { Quiet q; api.groupDataset("g", t, name(m), 1, w == 1); }
        Groups g = groupsOf(api, "g");
        for (double ratio : ratios) {
          api.setWarpingBandRatio(ratio);
          for (auto& q : qs) {
            auto gs = reachable(g, d, q.v, m, ratio);
            int N = 0; for (auto& x : gs) N += x.members.size();
            for (int ke = 1; ke <= N + 2; ke += keStep) {
              std::set<int> ks = {1, 2, (ke + 1) / 2, ke - 1, ke};
              for (int k : ks) if (k >= 1 && k <= ke) checkQuery(api, d, o, ratio, q, gs, k, ke);
            }
            checkQuery(api, d, o, ratio, q, gs, N + 5, N + 50);
            if (&q - &qs[0] < 3) for (auto& p : std::vector<std::pair<int, int>>{{0, 1}, {-1, 3}, {2, 1}, {1, 0}, {N + 1, N}, {0, 0}}) checkQuery(api, d, o, ratio, q, gs, p.first, p.second);
          }
        }
      }
}

void mc::explore() {
  bool th = ctx().thorough();
  Data qs = {{2, 0, 1, 3}}, ql = {{0.3, 0.8, 0.1, 0.9, 0.6, 0.2, 0.4}};
  forDatasets(th ? 5 : 4, 3, {0, 1, 3}, false, [&](GenexAPI& api, const Data& d) { run({0, 2}, {0.35, 1}, qs, api, d, 2, 1); });
  forDatasets(th ? 7 : 6, 2, {0, 2}, false, [&](GenexAPI& api, const Data& d) {
    size_t n = 0; for (auto& r : d) n += r.size();
    if (n < 5) return;
    run({0, 2}, {0.5}, {{1, 0, 2, 0.5}}, api, d, 1, 2); });
  // distances that differ very little
  forDatasets(4, 3, {0, 1e-6, 3e-6}, false, [&](GenexAPI& api, const Data& d) { run({0, 2e-6}, {0.35, 1}, {{2e-6, 0, 1e-6, 3e-6}}, api, d, 2, 1); });
  for (auto& d : structured(th)) {
    size_t n = 0; for (auto& r : d) n += r.size();
    if (n > 30) continue;
    for (double ratio : {0.1, 0.4})
      unit([&] { return cat("dataset ", show(d), " ratio ", ratio); }, [&] {
        GenexAPI api; mc::load(api, "g", d);
        run({0.1, 0.5, 2}, {ratio}, ql, api, d, 3, n > 20 ? 7 : 3);
      });
  }
  // short matches of long queries and the reverse, with wide bands
  for (auto& d : std::vector<Data>{{{0.3, 0.8}, {0.1, 0.9, 0.5}, {0.7, 0.2, 0.4, 0.4, 0.1, 0.9, 0.35}}, {pattern(3, 12, 1), pattern(8, 3, 1)}, {{0, 1}, {1, 0}, {2, 2}}})
    for (double ratio : {0.7, 0.85, 0.95, 1.0})
      unit([&] { return cat("wide bands, dataset ", show(d), " ratio ", ratio); }, [&] {
        GenexAPI api; mc::load(api, "g", d);
        run({0, 0.6}, {ratio}, {pattern(5, 13, 1), {0.2, 0.6}}, api, d, 3, 9);
      });
  forLarge([&](GenexAPI& api, const Large& l, Metric m) {
    mc::load(api, "q", largeQueries());
    for (double t : {0.0, 0.3, 5.0, 40.0}) {
      Opt o{m, t, false, 1};
      { Quiet q; api.groupDataset("g", t, name(m), 1, false); }
      Groups g = groupsOf(api, "g");
      for (double ratio : {0.1, 0.5}) {
        api.setWarpingBandRatio(ratio);
        for (auto& q : largeQueriesFor(l)) {
          auto gs = reachable(g, l.d, q.v, m, ratio);
          int N = 0; for (auto& x : gs) N += x.members.size();
          for (auto& p : std::vector<std::pair<int, int>>{{1, 1}, {3, 10}, {17, 65}, {64, 64}, {1, 129}, {128, 130}, {129, 257}, {257, 300}, {100, N}, {N - 1, N}, {N, N}, {N + 5, N + 1000}})
            if (p.first >= 1 && p.first <= p.second) checkQuery(api, l.d, o, ratio, q, gs, p.first, p.second);
        }
      }
    }
  }, 40);
  // every query after every other one
  for (Metric m : {EUC, MAN, CHE})
    unit([&] { return cat("alike queries, ", name(m)); }, [&] {
      Data d = alikeTarget();
      GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", alikeQueries());
      Opt o{m, 0.6, false, 1};
      { Quiet q; api.groupDataset("g", 0.6, name(m), 1, false); }
      Groups g = groupsOf(api, "g");
      api.setWarpingBandRatio(0.3);
      afterEachOther([&](const Query& q) { checkQuery(api, d, o, 0.3, q, reachable(g, d, q.v, m, 0.3), 3, 5); });
    });
  // subsequences of more than a hundred points
  for (Metric m : {EUC, MAN, CHE})
    unit([&] { return cat("long rows, ", name(m)); }, [&] {
      Data d = longRows(); auto qs = longQueries(d);
      GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", {qs.back().v});
      for (double t : {0.0, 1.0}) {
        Opt o{m, t, false, 1};
        { Quiet q; api.groupDataset("g", t, name(m), 1, false); }
        Groups g = groupsOf(api, "g");
        double ratio = 0.05;
        api.setWarpingBandRatio(ratio);
        for (auto& q : qs) {
          auto gs = reachable(g, d, q.v, m, ratio);
          int N = 0; for (auto& x : gs) N += x.members.size();
          for (auto& p : std::vector<std::pair<int, int>>{{1, 1}, {3, 10}, {17, 65}, {N, N}, {N + 5, N + 1000}})
            if (p.first >= 1 && p.first <= p.second) checkQuery(api, d, o, ratio, q, gs, p.first, p.second);
        }
      }
    });
}
