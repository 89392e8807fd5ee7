// C04: cut-offs, lower bounds and envelopes never hide a true answer.
#include "grouping.hpp"
using namespace mc;
using namespace ref;
using genex::TimeSeries;
using genex::data_t;

// Optional entry points: exercised when the library has them under these names.
namespace genex {
data_t kimLowerBound(const TimeSeries&, const TimeSeries&, data_t) __attribute__((weak));
data_t crossKeoghLowerBound(const TimeSeries&, const TimeSeries&, data_t) __attribute__((weak));
data_t cascadeDistance(const TimeSeries&, const TimeSeries&, data_t, matching_t&) __attribute__((weak));
}

static genex::dist_t fn(const std::string& n) { return genex::getDistanceFromName(n); }

// The cut-off equals the distance: only judged when the arithmetic involved is exact.
static bool exactlyRepresentable(Metric m, bool warped, double d, int n, bool integers) {
  if (!integers) return false;
  if (m == CHE) return true;
  double k = warped ? 2.0 * n : n;
  double t = d * k;
  if (m == MAN) return t == std::floor(t) && t / k == d;
  double sq = warped ? t * t : d * d * n;
  return sq == std::floor(sq) && (warped ? std::sqrt(sq) / k == d && std::sqrt(sq) == std::floor(std::sqrt(sq))
                                         : std::sqrt(sq / n) == d && sq / n == std::floor(sq / n) && d == std::floor(d));
}

static void cutoffs(const std::function<double(double)>& f, double exact, double scale, bool exactArith, const std::function<std::string()>& what) {
  std::vector<double> cs = {0, exact * 0.25, exact * 0.5, exact * 0.999999, exact * 1.000001, exact * 2, exact + 1e-3 * scale, INFTY};
  if (std::isinf(exact)) cs = {0, 0.1 * scale, scale, 1e6 * scale, INFTY};
  cs.push_back(exact);
  for (double c : cs) {
    double got = f(c);
    eval();
    bool near = close(c, exact, 1e-9, scale * 1e-3);
    if (near && !(c == exact && exactArith) && !std::isinf(c)) {      // rounding decides: exact or infinite
      MC_REQUIRE(close(got, exact) || std::isinf(got), what(), " with cut-off ", c, " is ", got, ", exact ", exact);
      outcome("cut-off at the distance (rounding)");
    } else if (exact <= c) {
      MC_REQUIRE(close(got, exact), what(), " with cut-off ", c, " is ", got, ", but the exact distance is ", exact);
      outcome(c == exact ? "cut-off equal to the distance" : "cut-off above the distance");
    } else {
      MC_REQUIRE(close(got, exact) || (std::isinf(got) && got > 0), what(), " with cut-off ", c, " is ", got, ", neither exact (", exact, ") nor infinite");
      outcome(std::isinf(got) && !std::isinf(exact) ? "cut off" : "beyond the cut-off, exact anyway");
      if (std::isinf(got)) nontrivial();
    }
  }
}

static void checkPair(const Seq& x, const Seq& y, const std::set<int>* some = nullptr) {
  std::vector<double> bx = x, by = y;
  TimeSeries a(bx.data(), 0, 0, x.size()), b(by.data(), 0, 0, y.size());
  int mx = std::max(x.size(), y.size());
  bool ints = true;
  for (double v : x) ints = ints && v == std::floor(v);
  for (double v : y) ints = ints && v == std::floor(v);
  if (x.size() == y.size())
    for (Metric m : ALL) {
      auto f = fn(name(m));
      double exact = (m == COS || m == SOR) ? f(a, b, INFTY, genex::gNoMatching) : pairwise(m, x, y);
      bool ex = m != COS && m != SOR && exactlyRepresentable(m, false, exact, x.size(), ints);
      cutoffs([&](double c) { return f(a, b, c, genex::gNoMatching); }, exact, 1, ex, [&] { return cat(name(m), " of ", vec(x), " and ", vec(y)); });
    }
  for (int r = 0; r < mx; r++) {
    if (some && !some->count(r)) continue;
    double q = (r + 0.5) / mx;
    genex::setWarpingBandRatio(q);
    for (Metric m : ALL) {
      auto f = fn(std::string(name(m)) + "_dtw");
      double exact = (m == COS || m == SOR) ? f(a, b, INFTY, genex::gNoMatching) : dtw(m, x, y, r);
      bool ex = m != COS && m != SOR && exactlyRepresentable(m, true, exact, mx, ints);
      auto what = [&] { return cat(name(m), "_dtw of ", vec(x), " and ", vec(y), " band ", r); };
      cutoffs([&](double c) { return f(a, b, c, genex::gNoMatching); }, exact, 1, ex, what);
      if (m == EUC) {
        if (genex::cascadeDistance)
          cutoffs([&](double c) { return genex::cascadeDistance(a, b, c, genex::gNoMatching); }, exact, 1, ex,
                  [&] { return "cascaded " + what(); });
        double kx = exact * (1 + 1e-9) + 1e-12;
        for (double c : {0.0, exact * 0.5, exact, exact * 2, 1.0, INFTY}) {
          auto lb = [&](const char* n, double v) {
            eval();
            MC_REQUIRE(v >= 0 && v <= kx, n, " lower bound of ", vec(x), " and ", vec(y), " band ", r, " cut-off ", c, " is ", v, " but the distance is ", exact);
            outcome(v == 0 ? "lower bound zero" : close(v, exact) ? "lower bound tight" : "lower bound between");
            if (v > 0) nontrivial();
          };
          lb("keogh", genex::keoghLowerBound(a, b, c));
          if (genex::kimLowerBound) lb("kim", genex::kimLowerBound(a, b, c));
          if (genex::crossKeoghLowerBound) {
            double v = genex::crossKeoghLowerBound(a, b, c);
            if (std::isinf(v)) {     // "larger than the cut-off"
              eval();
              MC_REQUIRE(exact * (1 + 1e-9) >= c, "two-sided keogh bound of ", vec(x), " and ", vec(y), " band ", r, " exceeds cut-off ", c, " but the distance is ", exact);
              outcome("two-sided bound above cut-off");
            } else lb("two-sided keogh", v);
          }
        }
      }
    }
  }
}

// Pairs whose warped distance is far below any pointwise difference: bounds that look at
// the wrong points exceed it.
static void tight(const Seq& x, const Seq& y, int r) {
  std::vector<double> bx = x, by = y;
  TimeSeries a(bx.data(), 0, 0, x.size()), b(by.data(), 0, 0, y.size());
  genex::setWarpingBandRatio((r + 0.5) / std::max(x.size(), y.size()));
  double exact = dtw(EUC, x, y, r);
  if (std::isinf(exact)) return;
  double kx = exact * (1 + 1e-9) + 1e-12;
  auto where = [&] { return cat(" of ", vec(x), " and ", vec(y), " band ", r); };
  for (double c : {exact * 1.5 + 1e-3, INFTY}) {
    for (int o = 0; o < 2; o++) {
      TimeSeries &p = o ? b : a, &q = o ? a : b;
      auto lb = [&](const char* n, double v) { eval(); MC_REQUIRE(v >= 0 && v <= kx, n, " lower bound", where(), " cut-off ", c, " is ", v, " but the distance is ", exact); if (v > 0) nontrivial(); };
      lb("keogh", genex::keoghLowerBound(p, q, c));
      if (genex::kimLowerBound) lb("kim", genex::kimLowerBound(p, q, c));
      if (genex::crossKeoghLowerBound) lb("two-sided keogh", genex::crossKeoghLowerBound(p, q, c));
      double v = genex::cascadeDistance ? genex::cascadeDistance(p, q, c, genex::gNoMatching) : fn("euclidean_dtw")(p, q, c, genex::gNoMatching);
      eval();
      MC_REQUIRE(close(v, exact), "distance", where(), " with cut-off ", c, " is ", v, ", exact ", exact);
    }
  }
  outcome(exact == 0 ? "distance zero" : "small distance");
}

static void envelope(const Seq& s, int start, int end, const std::vector<int>& bands) {
  std::vector<double> buf = s;
  TimeSeries t(buf.data(), 0, start, end);
  int n = end - start;
  for (int r : bands) {
    Seq up(n), lo(n);
    for (int i = 0; i < n; i++) {
      up[i] = -INFTY; lo[i] = INFTY;
      for (int j = std::max(0, i - r); j <= std::min(n - 1, i + r); j++) { up[i] = std::max(up[i], s[start + j]); lo[i] = std::min(lo[i], s[start + j]); }
    }
    const double* l = t.getKeoghLower(r); Seq gl(l, l + n);
    const double* u = t.getKeoghUpper(r); Seq gu(u, u + n);
    eval();
    MC_REQUIRE(gl == lo && gu == up, "envelope of ", vec(Seq(s.begin() + start, s.begin() + end)), " (offset ", start, ") for band ", r, " is ", vec(gl), "..", vec(gu),
               ", expected ", vec(lo), "..", vec(up));
    if (r > 0 && n > 1) nontrivial();
    outcome("envelope exact");
  }
}

void mc::explore() {
  bool th = ctx().thorough();
  std::vector<std::pair<Seq, int>> alph = {{{0, 1, 3}, th ? 5 : 4}, {{-2, 1}, th ? 7 : 5}};
  for (auto& a : alph) {
    Data rows;
    for (int n = 1; n <= a.second; n++) sequences(n, a.first, [&](const Seq& s) { rows.push_back(s); });
    for (auto& x : rows)
      unit([&] { return cat("x=", vec(x), " against all over ", vec(a.first), " up to length ", a.second); }, [&] {
        for (auto& y : rows) checkPair(x, y);
        if (x.size() == 3) sample(cat("cut-offs and bounds for x=", vec(x), " against ", rows.size(), " sequences"));
      });
  }
  int P = th ? 24 : 16;
  for (int m = 1; m <= P; m++)
    for (int n = 1; n <= P; n++)
      unit([&] { return cat("patterns, lengths ", m, " ", n); }, [&] {
        for (int k = 0; k < PATTERNS; k++) checkPair(pattern(k, m, m / 3), pattern((k * 3 + 1) % PATTERNS, n, n / 2));
      });
  // long sequences, a few bands each
  for (int m : {31, 32, 33, 63, 64, 65, 100, 129, 257})
    for (int n : {m - 6, m - 1, m, m + 1})
      unit([&] { return cat("patterns, lengths ", m, " ", n, ", some bands"); }, [&] {
        int mx = std::max(m, n), df = std::abs(m - n);
        std::set<int> bands{0, df, df + 1, mx / 10, mx / 2, 32, 63, mx - 1};
        for (int k : {0, 3, 7, 8}) checkPair(pattern(k, m, m / 3), pattern((k * 3 + 1) % PATTERNS, n, n / 2), &bands);
      });
  // a spike, a step or the whole shape moved by up to two places, or a point repeated
  for (int n : {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 23, 24, 25, 31, 33, 40, 64, 65, 70, 101, 130})
    unit([&] { return cat("moved shapes of length ", n); }, [&] {
      for (int p = 0; p < n; p++)
        for (int move : {0, 1, 2}) {
          auto shape = [&](int kind, int at, int len) {
            Seq s(len);
            for (int i = 0; i < len; i++) s[i] = kind == 0 ? (i == at ? 3 : 0) : kind == 1 ? (i >= at ? 3 : 0) : kind == 2 ? irregular(1, i - at + 5) / 9 : (i <= at ? irregular(2, i) : irregular(2, i - 1)) / 9;
            return s;
          };
          for (int r : {move, move + 1, n / 3}) {
            for (int kind : {0, 1}) tight(shape(kind, p, n), shape(kind, p + move, n), r);
            if (p < 3) tight(shape(2, 0, n), shape(2, move, n), r);
          }
          if (move == 1) for (int r : {1, 2, n / 2}) tight(shape(3, n, n), shape(3, p, n + 1), r);
        }
    });
  for (int n : {63, 64, 65, 100, 128, 129, 256, 257, 600})
    unit([&] { return cat("envelopes of patterns of length ", n); }, [&] {
      std::vector<int> bands;
      for (int r : {n, n / 2, 0, 1, 2, 3, 15, 31, 32, 33, 63, 64, 65, n - 2, n - 1, n, n + 1}) bands.push_back(r);
      for (int k = 0; k < PATTERNS; k++)
        for (int start : {0, 5}) envelope(pattern(k, n + 7, n / 2), start, n + start, bands);
    });
  // envelopes: all sequences, all bands (also wider than the sequence), in ascending and descending order
  std::vector<std::pair<Seq, int>> ea = {{{0, 1, 2}, th ? 9 : 8}, {{0, 1}, th ? 13 : 11}, {{3, -1, 2, 0}, th ? 7 : 6}};
  for (auto& a : ea)
    for (int n = 1; n <= a.second; n++) {
      std::vector<Seq> block;
      auto flush = [&] {
        if (block.empty()) return;
        unit([&] { return cat("envelopes of ", block.size(), " sequences from ", vec(block[0])); }, [&] {
          std::vector<int> bands;
          for (int r = 0; r <= n + 2; r++) bands.push_back(r);
          for (int r = n; r >= 0; r -= 2) bands.push_back(r);
          for (auto& s : block) envelope(s, 0, n, bands);
        });
        block.clear();
      };
      sequences(n, a.first, [&](const Seq& s) { block.push_back(s); if (block.size() == 64) flush(); });
      flush();
    }
  for (int n = 1; n <= 40; n++)
    unit([&] { return cat("envelopes of patterns of length ", n); }, [&] {
      for (int k = 0; k < PATTERNS; k++)
        for (int start = 0; start <= std::min(n - 1, 4); start++) {
          std::vector<int> bands;
          for (int r = 0; r <= n + 1; r++) bands.push_back(r);
          envelope(pattern(k, n + 2, n / 2), start, n, bands);
        }
    });
}
