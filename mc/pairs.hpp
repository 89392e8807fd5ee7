// The space of (sequence, sequence, band) triples shared by several checks.
#pragma once
#include "api.hpp"

namespace mc {

// The rows of dataset "p" of an API object, addressed by their index.
struct Rows {
  GenexAPI api; Data rows;
  explicit Rows(const Data& d) : rows(d) { mc::load(api, "p", rows); }
};

// A ratio that gives exactly band r for sequences whose longer length is mx.
inline double ratioFor(int r, int mx) { return (r + 0.5) / mx; }

// f(api rows, index of x, index of y, ratio, r)
template <class F> void forPairs(const std::vector<std::pair<Seq, int>>& alphabets, int patternLen, int patternStep, bool ratios, F f) {
  using namespace ref;
  for (auto& a : alphabets) {
    std::unique_ptr<Rows> all;
    Data rows;
    for (int n = 1; n <= a.second; n++) sequences(n, a.first, [&](const Seq& s) { rows.push_back(s); });
    for (int i = 0; i < (int)rows.size(); i++)
      unit([&] { return cat("x=", vec(rows[i]), " against all sequences up to length ", a.second, " over ", vec(a.first), ", all bands"); }, [&] {
        if (!all) all.reset(new Rows(rows));
        for (int j = 0; j < (int)rows.size(); j++) {
          int mx = std::max(rows[i].size(), rows[j].size());
          for (int r = 0; r < mx; r++) f(*all, i, j, ratioFor(r, mx), r);
        }
        if (i % 50 == 7) sample(cat("x=", vec(rows[i]), " against ", rows.size(), " sequences over ", vec(a.first), ", all bands"));
      });
  }
  // every pair of lengths with structured values, every band
  for (int m = 1; m <= patternLen; m++)
    for (int n = 1; n <= patternLen; n++)
      unit([&] { return cat("patterns of lengths ", m, " and ", n, ", all bands"); }, [&] {
        Data d;
        for (int k = 0; k < PATTERNS; k++) { d.push_back(pattern(k, m, m / 3)); d.push_back(pattern(k, n, n / 2)); }
        Rows rows(d);
        int mx = std::max(m, n);
        for (int k = 0; k < PATTERNS; k++)
          for (int l = k % patternStep; l < PATTERNS; l += patternStep)
            for (int r = 0; r < mx; r++) f(rows, 2 * k, 2 * l + 1, ratioFor(r, mx), r);
      });
  // long sequences, a few bands each
  for (int m : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257})
    for (int n : {1, 2, m - 17, m - 1, m, m + 1, m + 9})
      unit([&] { return cat("patterns of lengths ", m, " and ", n, ", some bands"); }, [&] {
        Data d;
        for (int k : {3, 4, 7, 8}) { d.push_back(pattern(k, m, m / 3)); d.push_back(pattern(k, n, n / 2)); }
        Rows rows(d);
        int mx = std::max(m, n), df = std::abs(m - n);
        for (int k = 0; k < 4; k++)
          for (int l = 0; l < 4; l++)
            for (int r : std::set<int>{0, df, df + 1, df + 5, mx / 10, mx / 2, 31, 32, 64, mx - 1})
              if (r < mx && (k + l + r) % 3 != 1) f(rows, 2 * k, 2 * l + 1, ratioFor(r, mx), r);
      });
  // arbitrary ratios
  if (ratios)
    for (int m = 1; m <= 25; m++)
      for (int n = std::max(1, m - 3); n <= std::min(25, m + 3); n++)
        unit([&] { return cat("ratio list, lengths ", m, " and ", n); }, [&] {
          Data d = {pattern(3, m, 1), pattern(8, n, 2), pattern(7, m, 3), pattern(4, n)};
          Rows rows(d);
          for (double q : {0.0, 0.01, 0.05, 0.1, 0.2, 0.25, 1 / 3.0, 0.5, 0.7, 0.9, 0.99, 1.0, 1.5, 7.0}) {
            f(rows, 0, 1, q, band(m, n, q));
            f(rows, 3, 2, q, band(m, n, q));
          }
        });
}

} // namespace mc
