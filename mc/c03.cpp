// C03: reported matchings are valid, in-band and achieve the distance.
#include "pairs.hpp"
using namespace mc;
using namespace ref;

static void check(Rows& R, int i, int j, double q, int r) {
  const Seq &x = R.rows[i], &y = R.rows[j];
  R.api.setWarpingBandRatio(q);
  for (Metric m : ALL) {
    std::string dn = std::string(name(m)) + "_dtw";
    double d = R.api.distanceBetween("p", i, -1, -1, "p", j, -1, -1, dn);
    if (std::isinf(d)) { outcome("infinite distance, nothing to match"); continue; }
    auto p = R.api.matchingBetween("p", i, -1, -1, "p", j, -1, -1, dn);
    eval();
    auto show = [&] {
      std::string s;
      for (auto& c : p) s += cat("(", c.first, ",", c.second, ")");
      return cat("matching of ", vec(x), " and ", vec(y), " under ", dn, ", ratio ", q, " (band ", r, "): ", s);
    };
    std::string why;
    std::vector<std::pair<int, int>> path(p.begin(), p.end());
    if (!validPath(path, x.size(), y.size(), r, why)) fail(show() + " " + why);
    if (m == EUC || m == MAN || m == CHE) {
      L total = 0;
      for (auto& c : path) {
        L pc = pointCost(m, x[c.first], y[c.second]);
        total = m == CHE ? std::max(total, pc) : total + pc;
      }
      double cost = norm(m, total, std::max(x.size(), y.size()));
      if (!close(cost, d)) fail(cat(show(), " costs ", cost, " but the distance is ", d));
    }
    auto p2 = R.api.matchingBetween("p", i, -1, -1, "p", j, -1, -1, dn);
    if (p2 != p) fail(show() + " differs when asked again");
    bool diagonal = x.size() == y.size() && path.size() == x.size();
    if (!diagonal) nontrivial();
    outcome(diagonal ? "plain diagonal" : path.size() == x.size() + y.size() - 1 ? "no diagonal step" : "mixed");
  }
}

void mc::explore() {
  bool th = ctx().thorough();
  std::vector<std::pair<Seq, int>> alph = {{{0, 1, 3}, th ? 6 : 5}, {{-2, 1}, th ? 8 : 6}, {{-1, 0, 0.5, 2}, th ? 5 : 4}};
  forPairs(alph, th ? 32 : 22, th ? 2 : 4, true, check);
  // names that are not warped distances
  for (auto& bad : {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen", "", "dtw", "_dtw", "x_dtw", "euclidean_dt", "euclidean_dtw ",
                    "Euclidean_dtw", "euclideandtw", "euclidean_dtw_dtw", "w", "tw", "d"})
    for (int m = 1; m <= 3; m++)
      for (int n = 1; n <= 3; n++)
        unit([&] { return cat("matching with name '", bad, "' lengths ", m, " ", n); }, [&] {
          Rows R({pattern(0, m), pattern(3, n)});
          R.api.setWarpingBandRatio(1);
          eval(); nontrivial();
          MC_REQUIRE(throwsGenex([&] { R.api.matchingBetween("p", 0, -1, -1, "p", 1, -1, -1, bad); }), "name '", bad, "' is not rejected");
          outcome("not a warped distance: rejected");
        });
}
