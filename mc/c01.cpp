// C01: pairwise distances against their definitions.
#include "api.hpp"
using namespace mc;
using namespace ref;

// One dataset per (alphabet, n) whose rows are all sequences of length n.
struct All {
  GenexAPI api; Data rows;
  All(const Seq& alpha, int n) {
    sequences(n, alpha, [&](const Seq& s) { rows.push_back(s); });
    mc::load(api, "all", rows);
  }
};

static void checkOne(GenexAPI& api, const std::string& na, int ia, int sa, int ea, const std::string& nb, int ib, int sb, int eb,
                     const Seq& x, const Seq& y, double scale) {
  for (Metric m : ALL) {
    double got = api.distanceBetween(na, ia, sa, ea, nb, ib, sb, eb, name(m));
    double want = pairwise(m, x, y);
    eval();
    double sc = (m == COS || m == SOR) ? 1 : scale;
    MC_REQUIRE(close(got, want, 1e-9, sc), name(m), " of ", vec(x), " and ", vec(y), " (", na, " ", ia, " ", sa, "-", ea,
               ", ", nb, " ", ib, " ", sb, "-", eb, ") is ", got, ", expected ", want);
    if (want != 0 && x != y) nontrivial();
    outcome(cat(name(m), std::isinf(want) ? ":infinite" : want == 0 ? ":zero" : ":positive or negative"));
  }
}

void mc::explore() {
  bool th = ctx().thorough();
  struct A { Seq v; int n; double scale; };
  std::vector<A> alph = {
    {{-1, 0, 0.5, 2}, th ? 6 : 5, 1},
    {{0, 1}, th ? 10 : 8, 1},
    {{-3, 1, 7}, th ? 7 : 6, 1},
    {{0, 1e6, -1e6}, 3, 1e6},
    {{0, 1e-6, 3e-6}, 3, 1e-6},
  };
  // every pair of sequences of equal length
  for (auto& a : alph)
    for (int n = 1; n <= a.n; n++) {
      std::unique_ptr<All> all;
      long total = 1; for (int i = 0; i < n; i++) total *= a.v.size();
      for (long i = 0; i < total; i++)
        unit([&] { return cat("all pairs over ", vec(a.v), " n=", n, " first=", i); }, [&] {
          if (!all) all.reset(new All(a.v, n));
          for (int j = 0; j < total; j++)
            checkOne(all->api, "all", i, 0, n, "all", j, j % 2 ? 0 : -1, j % 2 ? n : -1, all->rows[i], all->rows[j], a.scale);
          if (i == 1) sample(cat("d(", vec(all->rows[i]), ", each of ", total, " sequences over ", vec(a.v), ")"));
        });
    }
  // every pair of subsequences (dataset, series, offset, length), unequal lengths rejected
  std::vector<Data> sets = {
    {{1, 2, 3}, {0, 0, 0, 1, 2}, {5}, {-1, 4}},
    {pattern(3, 12), pattern(8, 7, 1), pattern(7, 11, 2)},
    {pattern(3, 9, 4), pattern(0, 13), pattern(4, 6)},
  };
  for (size_t da = 0; da < sets.size(); da++)
    for (size_t db = 0; db < sets.size(); db++)
      for (auto& a : allSubs(sets[da], 1))
        unit([&] { return cat("datasets ", show(sets[da]), " and ", show(sets[db]), " first ", show(a)); }, [&] {
          static std::map<size_t, std::unique_ptr<GenexAPI>> cache;
          auto& api = cache[0];
          if (!api) {
            api.reset(new GenexAPI());
            for (size_t i = 0; i < sets.size(); i++) mc::load(*api, cat("d", i), sets[i]);
          }
          Seq x = sub(sets[da], a.idx, a.start, a.start + a.len);
          for (auto& b : allSubs(sets[db], 1)) {
            Seq y = sub(sets[db], b.idx, b.start, b.start + b.len);
            std::string na = cat("d", da), nb = cat("d", db);
            if (a.len == b.len)
              checkOne(*api, na, a.idx, a.start, a.start + a.len, nb, b.idx, b.start, b.start + b.len, x, y, 1);
            else
              for (Metric m : ALL) {
                eval(); nontrivial();
                MC_REQUIRE(throwsGenex([&] { api->distanceBetween(na, a.idx, a.start, a.start + a.len, nb, b.idx, b.start, b.start + b.len, name(m)); }),
                           name(m), " of different lengths ", a.len, " and ", b.len, " is not rejected");
                outcome("different lengths rejected");
              }
          }
        });
  // long structured sequences: every length, every pair of patterns
  for (int n = 1; n <= (th ? 520 : 260); n++)
    unit([&] { return cat("patterns of length ", n); }, [&] {
      GenexAPI api; Data d;
      for (int k = 0; k < PATTERNS; k++) d.push_back(pattern(k, n, n / 2));
      mc::load(api, "p", d);
      for (int i = 0; i < PATTERNS; i++)
        for (int j = 0; j < PATTERNS; j++)
          checkOne(api, "p", i, -1, -1, "p", j, 0, n, d[i], d[j], 1);
    });
}
