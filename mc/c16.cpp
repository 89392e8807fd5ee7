// C16: normalisation is the min-max map of the whole dataset.
#include "grouping.hpp"
using namespace mc;
using namespace ref;

static std::string textOf(const Data& d, const std::vector<std::string>& names) {
  std::string s;
  for (size_t i = 0; i < d.size(); i++) { if (!names.empty()) s += names[i] + " "; for (double v : d[i]) s += num(v) + " "; s += "\n"; }
  return s;
}
static Data dataOf(GenexAPI& api, const std::string& n) {
  Data d; int c = api.getDatasetInfo(n).itemCount;
  for (int i = 0; i < c; i++) d.push_back(values(api.getTimeSeries(n, i, -1, -1)));
  return d;
}

// mode: 0 plain, 1 named rows, 2 grouped before, 3 only some rows loaded, 4 PAA prepared before
static void check(const Data& full, int mode) {
  Data d = full;
  size_t cnt = 0;
  if (mode == 3) { if (d.size() < 2) return; d.pop_back(); }
  for (auto& r : d) cnt += r.size();
  if (!cnt) return;   // a dataset without any value has no minimum
  auto where = [&] { return cat(" (dataset ", show(d), ", mode ", mode, ")"); };
  std::vector<std::string> names;
  if (mode == 1) for (size_t i = 0; i < d.size(); i++) names.push_back(cat("row", i));
  GenexAPI api;
  mc::load(api, "a", full); mc::load(api, "z", full);
  writeFile(scratchPath("n.txt"), textOf(full, names));
  api.loadDataset("m", scratchPath("n.txt"), " ", mode == 3 ? (int)d.size() : 0, 0, mode == 1);
  if (mode == 2) { Quiet q; api.groupDataset("m", 1, "euclidean", 1, false); }
  if (mode == 4) api.preparePAA("m", 2);
  std::string oldGroups = mode == 2 ? canonical(groupsOf(api, "m"), false) : "";
  double lo = INFTY, hi = -INFTY;
  for (auto& r : d) for (double v : r) { lo = std::min(lo, v); hi = std::max(hi, v); }
  Data want = d;
  for (auto& r : want) for (double& v : r) v = hi == lo ? 0 : (v - lo) / (hi - lo);
  auto verify = [&](const char* when) {
    Data got = dataOf(api, "m");
    MC_REQUIRE(got.size() == want.size(), when, ": number of series changed", where());
    for (size_t i = 0; i < got.size(); i++) {
      bool ok = got[i].size() == want[i].size();
      for (size_t k = 0; ok && k < got[i].size(); k++) ok = std::abs(got[i][k] - want[i][k]) <= 1e-12;
      MC_REQUIRE(ok, when, ": series ", i, " is ", vec(got[i]), ", expected ", vec(want[i]), where());
      MC_REQUIRE(api.getTimeSeriesLength("m", i) == (int)d[i].size(), when, ": length changed", where());
      MC_REQUIRE(api.getTimeSeriesName("m", i) == (mode == 1 ? names[i] : cat(i)), when, ": name changed", where());
    }
    auto info = api.getDatasetInfo("m");
    MC_REQUIRE(info.isNormalized, when, ": not marked as normalised", where());
    MC_REQUIRE(info.itemCount == (int)d.size() && info.itemLength == (int)maxLen(d), when, ": dimensions changed", where());
    MC_REQUIRE(info.isGrouped == (mode == 2), when, ": grouped state changed", where());
    if (mode == 2) MC_REQUIRE(canonical(groupsOf(api, "m"), false) == oldGroups, when, ": groups changed", where());
    for (auto o : {"a", "z"}) MC_REQUIRE(dataOf(api, o) == full && !api.getDatasetInfo(o).isNormalized, when, ": dataset ", o, " changed", where());
  };
  MC_REQUIRE(!api.getDatasetInfo("m").isNormalized, "marked as normalised before", where());
  eval();
  auto r = api.normalizeDataset("m");
  MC_REQUIRE(r.first == lo && r.second == hi, "returned ", r.first, " and ", r.second, ", expected ", lo, " and ", hi, where());
  verify("after normalising");
  for (int again = 0; again < 2; again++) {
    Data before = dataOf(api, "m");
    auto s = api.normalizeDataset("m");
    double wantHi = hi == lo ? 0 : 1;
    MC_REQUIRE(s.first == 0 && s.second == wantHi, "normalising again returned ", s.first, " and ", num(s.second), where());
    MC_REQUIRE(dataOf(api, "m") == before, "normalising again changed values", where());
    verify("after normalising again");
  }
  if (hi != lo && (lo != 0 || hi != 1)) { nontrivial(); outcome("values changed"); } else outcome(hi == lo ? "constant" : "already normal");
  // the same name reloaded is fresh
  api.unloadDataset("m"); mc::load(api, "m", full);
  MC_REQUIRE(dataOf(api, "m") == full && !api.getDatasetInfo("m").isNormalized, "a reloaded dataset is still normalised", where());
}

void mc::explore() {
  bool th = ctx().thorough();
  for (auto& alphabet : std::vector<Seq>{{0, 1, 3}, {-2, 0.5}, {-7, -4, -1}, {5, 6}, {1e-9, 2e-9}})
    for (int t = 1; t <= (alphabet.size() == 3 ? (th ? 7 : 6) : (th ? 9 : 7)); t++)
      for (auto& sh : shapesOf(t, 4))
        unit([&] { std::string s; for (int l : sh) s += cat(l, " "); return cat("all datasets of shape ", s, "over ", vec(alphabet)); }, [&] {
          long n = 0;
          sequences(t, alphabet, [&](const Seq& s) { Data d = fill(sh, s); if (!n) sample(show(d)); check(d, n++ % 5); if (t <= 4) for (int m = 0; m < 5; m++) check(d, m); });
        });
  // the extreme value at every position of rows of unequal length, rows without values included
  for (auto& sh : std::vector<std::vector<int>>{{9}, {3, 5, 2}, {0, 4, 6}, {5, 0, 3, 0}, {1, 1, 1, 1, 1, 7}, {12, 11, 13}, {40, 33}, {64, 64, 65}})
    unit([&] { std::string s; for (int l : sh) s += cat(l, " "); return cat("extremes in shape ", s); }, [&] {
      int total = 0; for (int l : sh) total += l;
      for (int p = 0; p < total; p++) for (int q = 0; q < total; q += total > 30 ? 29 : 1) for (int base = 0; base < 3; base++) {
        Seq s(total, base == 0 ? 0.25 : base == 1 ? -3 : 100); s[p] += 10; s[q] -= 7;
        check(fill(sh, s), total > 30 ? (p % 2) : (p + q) % 5);
      }
    });
  for (auto& d : structured(th)) unit([&] { return "dataset " + show(d); }, [&] { for (int m = 0; m < 5; m++) check(d, m); });
  for (auto& l : large(th)) unit([&] { return l.name; }, [&] { for (int m = 0; m < 5; m++) check(l.d, m); });
  for (auto& l : huge()) unit([&] { return l.name; }, [&] { check(l.d, 0); check(l.d, 1); check(l.d, 3); });
  unit([&] { return std::string("magnitudes"); }, [&] {
    std::vector<double> mags = {1e-300, 1e-12, 1, 1e6, 1e15, 1e300, -1e-300, -1, -1e15, 0, 1e307};
    for (double a : mags) for (double b : mags) for (double c : mags) for (int m = 0; m < 5; m++) check({{a, b}, {c}}, m);
  });
  unit([&] { return std::string("empty datasets"); }, [&] {
    GenexAPI api; writeFile(scratchPath("e.txt"), "");
    for (int n = 0; n < 2; n++) {
      eval();
      api.loadDataset("e", scratchPath("e.txt"), " ", 0, 0, n == 1);
      MC_REQUIRE(throwsGenex([&] { api.normalizeDataset("e"); }), "an empty dataset is normalised");
      MC_REQUIRE(!api.getDatasetInfo("e").isNormalized, "a refused normalisation marks the dataset");
      MC_REQUIRE(throwsGenex([&] { api.normalizeDataset("missing"); }), "an unknown dataset is normalised");
      api.unloadDataset("e");
      outcome("refused");
    }
  });
}
