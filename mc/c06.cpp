// C06: tightness of groups.
#include "grouping.hpp"
using namespace mc;
using namespace ref;

static void check(GenexAPI& api, const Data& d, const Opt& o, bool integers) {
  auto where = [&] { return cat(" (dataset ", show(d), ", ", show(o), ")"); };
  { Quiet q; api.groupDataset("g", o.threshold, name(o.metric), o.threads, o.whole); }
  Groups g = groupsOf(api, "g");
  eval();
  double half = o.threshold / 2;
  bool several = false, shared = false;
  for (auto& p : g.byLen) {
    int L = p.first;
    // exact comparison where the arithmetic is exact, else up to rounding
    bool exact = integers && (o.metric == CHE || (o.metric == MAN && (L & (L - 1)) == 0));
    auto le = [&](double a, double b) { return exact ? a <= b : !below(b, a); };
    struct R { int idx, start; Seq v; };
    std::vector<R> reps;
    for (auto& r : p.second) {
      // the representative must be one of the members; the first one added is the earliest
      // in processing order (start, then series)
      MC_REQUIRE(!r.members.empty(), "empty group", where());
      auto first = r.members[0];
      for (auto& m : r.members) if (std::tie(m.second, m.first) < std::tie(first.second, first.first)) first = m;
      bool isMember = false;
      for (auto& m : r.members) {
        if (m.first < 0 || m.first >= (int)d.size() || m.second < 0 || m.second + L > (int)d[m.first].size()) fail("member outside the data" + where());
        Seq v = sub(d, m.first, m.second, m.second + L);
        bool same = true;
        for (int i = 0; i < L; i++) same = same && close(v[i], r.rep[i], 1e-12);
        isMember = isMember || same;
        if (m == first) MC_REQUIRE(same, "representative ", vec(r.rep), " of a group of length ", L, " is not its first member ", vec(v), where());
      }
      MC_REQUIRE(isMember, "representative ", vec(r.rep), " is not a member", where());
      reps.push_back(R{first.first, first.second, sub(d, first.first, first.second, first.second + L)});
    }
    if (reps.size() > 1) several = true;
    for (size_t a = 0; a < reps.size(); a++)
      for (size_t b = a + 1; b < reps.size(); b++) {
        double x = pairwise(o.metric, reps[a].v, reps[b].v);
        MC_REQUIRE(!(exact ? x <= half : below(x, half)), "representatives ", vec(reps[a].v), " and ", vec(reps[b].v), " are only ", x, " apart", where());
      }
    for (size_t k = 0; k < p.second.size(); k++) {
      std::vector<Seq> vals;
      for (auto& m : p.second[k].members) {
        Seq v = sub(d, m.first, m.second, m.second + L);
        vals.push_back(v);
        if (m.first == reps[k].idx && m.second == reps[k].start) continue;
        shared = true;
        double own = pairwise(o.metric, v, reps[k].v);
        MC_REQUIRE(le(own, half), "member ", vec(v), " is ", own, " from its representative ", vec(reps[k].v), where());
        for (auto& r : reps)
          if (std::tie(r.start, r.idx) < std::tie(m.second, m.first)) {
            double other = pairwise(o.metric, v, r.v);
            MC_REQUIRE(le(own, other), "member ", vec(v), " is ", own, " from its representative ", vec(reps[k].v), " but ", other, " from ", vec(r.v), where());
          }
      }
      if (o.metric == EUC || o.metric == MAN || o.metric == CHE)
        if (vals.size() <= 40)
          for (auto& x : vals) for (auto& y : vals)
            MC_REQUIRE(!below(o.threshold, pairwise(o.metric, x, y)), "members ", vec(x), " and ", vec(y), " of one group are too far apart", where());
    }
  }
  outcome(several ? (shared ? "several groups, some shared" : "only single-member groups") : "at most one group per length");
  if (several && shared) nontrivial();
}

void mc::explore() {
  bool th = ctx().thorough();
  forDatasets(th ? 7 : 6, 3, {0, 1, 3}, true, [&](GenexAPI& api, const Data& d) {
    bool big = d.size() > 3 || maxLen(d) > 6;
    bool integers = true;
    for (auto& r : d) for (double v : r) integers = integers && v == std::floor(v);
    for (Metric m : ALL)
      for (double t : big ? std::vector<double>{0, 0.1, 0.2, 0.5, 1, 2, 3, 6, 50} : std::vector<double>{0, 0.5, 1, 2, 3, 4, 6})
        check(api, d, Opt{m, t, false, 1}, integers);
    for (Metric m : ALL) check(api, d, Opt{m, 2, true, 1}, integers);
    if (big) check(api, d, Opt{MAN, 1, false, 3}, integers);
  });
  // distances exactly at, just below and just above half the threshold
  for (int block = 0; block < 20; block++)
    unit([&] { return cat("thresholds at the edge, block ", block); }, [&] {
      std::vector<double> ts;
      for (int k = 1; k <= 10; k++) { int n = block * 10 + k; for (double t : {n / 10.0, n / 7.0, n / 1000.0, std::sqrt(n), n * 1e-9, n * 123456.789}) ts.push_back(t); }
      for (double t : ts) {
        double h = t / 2, up = std::nextafter(h, INFTY), down = std::nextafter(h, 0.0);
        Data rows = {{0, 0}, {h, 0}, {0, -up}, {-down, h}};
        std::vector<int> o = {0, 1, 2, 3};
        do {
          Data d; for (int i : o) d.push_back(rows[i]);
          GenexAPI api; mc::load(api, "g", d);
          check(api, d, Opt{CHE, t, false, 1}, true);
        } while (std::next_permutation(o.begin(), o.end()));
        sample(cat("rows at half of threshold ", num(t)));
      }
    });
  forLarge([&](GenexAPI& api, const Large& l, Metric m) {
    for (double t : {0.0, 0.3, 3.0, 40.0}) check(api, l.d, Opt{m, t, false, 1}, false);
    check(api, l.d, Opt{m, 0.3, true, 1}, false);
    check(api, l.d, Opt{m, 0.3, false, 4}, false);
  });
}
