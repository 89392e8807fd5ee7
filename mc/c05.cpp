// C05: groups partition exactly the subsequences.
#include "grouping.hpp"
using namespace mc;
using namespace ref;

static void check(GenexAPI& api, const Data& d, const Opt& o) {
  auto where = [&] { return cat(" (dataset ", show(d), ", ", show(o), ")"); };
  int returned;
  { Quiet q; returned = api.groupDataset("g", o.threshold, name(o.metric), o.threads, o.whole); }
  Groups g = groupsOf(api, "g");
  eval();
  int mx = maxLen(d);
  auto info = api.getDatasetInfo("g");
  MC_REQUIRE(info.isGrouped && info.distance == name(o.metric) && info.threshold == o.threshold, "metadata after grouping is wrong", where());
  int from = o.whole ? mx : 2;
  MC_REQUIRE(g.from == from && g.to == mx + 1, "groups cover lengths ", g.from, "..", g.to - 1, ", expected ", from, "..", mx, where());
  MC_REQUIRE(g.items == (int)d.size() && g.length == mx && g.distance == name(o.metric), "header of the listing is wrong", where());
  MC_REQUIRE(returned == g.total(), "grouping returned ", returned, " groups but there are ", g.total(), where());
  for (int L = from; L <= mx; L++) {
    std::set<std::pair<int, int>> want, got;
    for (auto& s : allSubs(d, L, L)) want.insert({s.idx, s.start});
    for (auto& r : g.byLen[L]) {
      MC_REQUIRE(!r.members.empty(), "empty group of length ", L, where());
      for (auto& m : r.members) {
        MC_REQUIRE(want.count(m), "group of length ", L, " contains (", m.first, ",", m.second, ") which does not exist", where());
        MC_REQUIRE(got.insert(m).second, "(", m.first, ",", m.second, ") of length ", L, " is in two groups", where());
      }
    }
    MC_REQUIRE(got == want, "of ", want.size(), " subsequences of length ", L, " only ", got.size(), " are grouped", where());
  }
  // sizes-only listing agrees
  api.saveGroupsOld("g", scratchPath("sizes.txt"), true);
  std::istringstream in(readFile(scratchPath("sizes.txt")));
  double v; int it, ln, a, b; std::string dn;
  in >> v >> v >> it >> ln >> a >> b >> dn;
  for (int L = from; L <= mx; L++) {
    size_t n = 0; in >> n;
    MC_REQUIRE(in && n == g.byLen[L].size(), "sizes listing of length ", L, " has ", n, " groups, expected ", g.byLen[L].size(), where());
    for (size_t i = 0; i < n; i++) { size_t c = 0; in >> c; MC_REQUIRE(in && c == g.byLen[L][i].members.size(), "sizes listing differs", where()); }
  }
  long n = g.total();
  outcome(n == 0 ? "no groups" : n == 1 ? "one group" : "several groups");
  if (n > 1) nontrivial();
}

void mc::explore() {
  bool th = ctx().thorough();
  forDatasets(th ? 7 : 6, 3, {0, 1, 3}, true, [&](GenexAPI& api, const Data& d) {
    bool big = d.size() > 3 || maxLen(d) > 6;
    for (Metric m : ALL)
      for (double t : big ? std::vector<double>{0, 0.2, 0.5, 1, 3, 50} : std::vector<double>{0, 0.5, 2, 10})
        for (int w = 0; w < 2; w++) check(api, d, Opt{m, t, w == 1, 1});
    check(api, d, Opt{EUC, 1, false, 2});
    if (big) { check(api, d, Opt{MAN, 1, false, 3}); check(api, d, Opt{SOR, 0.5, true, 5}); check(api, d, Opt{COS, 0.5, false, 16}); }
  });
  forLarge([&](GenexAPI& api, const Large& l, Metric m) {
    for (double t : {0.0, 0.3, 3.0, 40.0})
      for (int w = 0; w < 2; w++) check(api, l.d, Opt{m, t, w == 1, 1});
    for (int n : {2, 3, 4, 7, 8, 9, 16, 33}) check(api, l.d, Opt{m, 0.3, false, n});
  });
  for (auto& l : huge())
    for (double t : {0.9, 1000.0})
      unit([&] { return cat(l.name, ", threshold ", t); }, [&] {
        GenexAPI api; mc::load(api, "g", l.d);
        if (t < 1 && maxLen(l.d) > 2) return;     // thousands of groups
        check(api, l.d, Opt{EUC, t, false, 1}); check(api, l.d, Opt{CHE, t, true, 1}); check(api, l.d, Opt{MAN, t, false, 3});
        sample(cat(l.name, ", threshold ", t));
      });
}
