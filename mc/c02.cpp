// C02: warped distances against the definition.
#include "pairs.hpp"
using namespace mc;
using namespace ref;

static void check(Rows& R, int i, int j, double q, int r) {
  const Seq &x = R.rows[i], &y = R.rows[j];
  R.api.setWarpingBandRatio(q);
  for (Metric m : ALL) {
    double got = R.api.distanceBetween("p", i, -1, -1, "p", j, -1, -1, std::string(name(m)) + "_dtw");
    eval();
    auto bad = [&](const std::string& want) {
      fail(cat(name(m), "_dtw of ", vec(x), " and ", vec(y), " with ratio ", q, " (band ", r, ") is ", got, ", expected ", want));
    };
    if (m == COS || m == SOR) {
      bool capped;
      auto want = dtwRatio(m, x, y, r, capped);
      bool ok = false;
      for (double w : want) ok = ok || close(got, w);
      if (!ok && !capped) { std::string s; for (double w : want) s += num(w) + " "; bad("one of " + s); }
      outcome(cat(name(m), ok ? (std::isinf(got) ? ":infinite" : ":exact") : ":tie set too large, not compared"));
      if (ok && !std::isinf(got)) nontrivial();
      continue;
    }
    double want = dtw(m, x, y, r);
    if (x.size() <= 3 && y.size() <= 3) {
      long paths;
      double byPaths = dtwByPaths(m, x, y, r, paths);
      if (!close(byPaths, want, 1e-12)) { fprintf(stderr, "reference definitions disagree\n"); _exit(96); }
      counter("reference_cross_checks");
    }
    if (!close(got, want)) bad(num(want));
    outcome(cat(name(m), std::isinf(want) ? ":infinite" : want == 0 ? ":zero" : ":positive"));
    if (want > 0 && !std::isinf(want)) nontrivial();
  }
}

void mc::explore() {
  bool th = ctx().thorough();
  std::vector<std::pair<Seq, int>> alph = {{{0, 1, 3}, th ? 6 : 5}, {{-2, 1}, th ? 8 : 6}, {{-1, 0, 0.5, 2}, th ? 5 : 4}};
  forPairs(alph, th ? 32 : 22, th ? 2 : 4, true, check);
  // all fractions and their neighbours: the widest difference of lengths that each allows
  std::set<double> qs;
  for (int j = 1; j <= 40; j++) for (int i = 0; i <= j; i++) for (int side = -1; side <= 1; side++) { double v = (double)i / j; v = side ? std::nextafter(v, side * 2.0) : v; if (v >= 0) qs.insert(v); }
  Data zeros; for (int n = 1; n <= 45; n++) zeros.push_back(Seq(n, 0));
  int part = 0;
  std::unique_ptr<Rows> R;
  for (double q : qs) {
    part++;
    unit([&] { return cat("lengths allowed by ratio ", num(q)); }, [&] {
      if (!R) R.reset(new Rows(zeros));
      R->api.setWarpingBandRatio(q);
      for (int n = 1; n <= 45; n++) {
        int b = band(n, n, q);
        for (int m = std::max(1, n - b - 1); m <= std::min(n, n - b + 1); m++) {
          double got = R->api.distanceBetween("p", n - 1, -1, -1, "p", m - 1, -1, -1, "manhattan_dtw"), back = R->api.distanceBetween("p", m - 1, -1, -1, "p", n - 1, -1, -1, "chebyshev_dtw");
          eval();
          MC_REQUIRE(std::isinf(got) == (n - m > b) && std::isinf(back) == (n - m > b) && (std::isinf(got) || (got == 0 && back == 0)), "zeros of lengths ", n, " and ", m, " with ratio ", num(q), " (band ", b, ") have distances ", got, " and ", back);
        }
      }
      counter("ratios");
    });
  }
}
