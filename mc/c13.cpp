// C13: saved groups load back as the same groups.
#include "search.hpp"
using namespace mc;
using namespace ref;

static std::string meta(GenexAPI& api, const std::string& n) {
  auto i = api.getDatasetInfo(n);
  return cat(i.name, " ", i.itemCount, " ", i.itemLength, " ", i.isNormalized, " ", i.isGrouped, " ", i.distance, " ", i.threshold);
}

// distances of all answers
static std::vector<double> answers(GenexAPI& api, const Data& qd) {
  std::vector<double> out;
  for (double ratio : {0.3, 1.0}) {
    api.setWarpingBandRatio(ratio);
    for (auto& q : queriesOf("q", qd)) {
      double best = -1;
      if (!throwsGenex([&] { best = api.getBestMatch("g", "q", q.idx, q.start, q.end).dist; })) out.push_back(best); else out.push_back(-7);
      for (auto& p : std::vector<std::pair<int, int>>{{1, 1}, {2, 3}, {4, 9}}) {
        auto r = api.getKBestMatches(p.first, p.second, "g", "q", q.idx, q.start, q.end);
        out.push_back(1000 + r.size());
        for (auto& c : r) out.push_back(c.dist);
      }
    }
  }
  return out;
}

static const Data QD = {{1, 0, 2, 0.5}};

static void chains(GenexAPI& api, const Data& d, const Opt& o, bool norm, int depth, bool withAnswers) {
  { Quiet q; api.groupDataset("g", o.threshold, name(o.metric), o.threads, o.whole); }
  std::string want = canonical(groupsOf(api, "g")), wantMeta = meta(api, "g");
  long count = groupsOf(api, "g").total();
  std::vector<double> wantAns;
  if (withAnswers) wantAns = answers(api, QD);
  for (int len = 1; len <= depth; len++)
    for (int code = 0; code < (1 << len); code++) {
      std::string h;
      std::unique_ptr<GenexAPI> cur;
      for (int i = 0; i < len; i++) {
        bool text = code >> i & 1;
        h += text ? " text" : " binary";
        auto where = [&] { return cat(" (dataset ", show(d), norm ? " normalised" : "", ", ", show(o), ", chain", h, ")"); };
        std::string p = scratchPath(cat("grp", i));
        GenexAPI& from = cur ? *cur : api;
        if (text) from.saveGroupsOld("g", p, false); else from.saveGroups("g", p);
        std::unique_ptr<GenexAPI> next(new GenexAPI());
        mc::load(*next, "g", d); mc::load(*next, "q", QD);
        if (norm) next->normalizeDataset("g");
        // sometimes the receiving dataset already has other groups
        if ((code + i) % 2) { Quiet q; next->groupDataset("g", 0, "chebyshev", 1, !o.whole); }
        int n;
        { Quiet q; n = text ? next->loadGroupsOld("g", p) : next->loadGroups("g", p); }
        eval(); counter("saves_and_loads");
        MC_REQUIRE(n == count, "loading returned ", n, " groups, saved were ", count, where());
        MC_REQUIRE(meta(*next, "g") == wantMeta, "metadata is ", meta(*next, "g"), ", was ", wantMeta, where());
        std::string got = canonical(groupsOf(*next, "g"));
        MC_REQUIRE(got == want, "loaded groups differ:\n", got, "saved:\n", want, where());
        if (withAnswers) {
          auto a = answers(*next, QD);
          bool ok = a.size() == wantAns.size();
          for (size_t k = 0; ok && k < a.size(); k++) ok = close(a[k], wantAns[k]);
          MC_REQUIRE(ok, "answers to queries differ: ", vec(a), " instead of ", vec(wantAns), where());
        }
        // the source is unchanged by saving
        if (!cur) MC_REQUIRE(canonical(groupsOf(api, "g")) == want && meta(api, "g") == wantMeta, "saving changed the dataset", where());
        cur = std::move(next);
      }
      outcome(count > 1 ? "several groups restored" : "one or no group restored");
      if (count > 1 || len > 1) nontrivial();
    }
}

void mc::explore() {
  bool th = ctx().thorough();
  forDatasets(th ? 5 : 4, 3, {0, 1, 3}, false, [&](GenexAPI& api, const Data& d) {
    mc::load(api, "q", QD);
    for (Metric m : ALL)
      for (double t : {0.0, 1.0, 4.5})
        for (int w = 0; w < 2; w++) {
          if (maxLen(d) < 2) continue;
          chains(api, d, Opt{m, t, w == 1, 1}, false, t == 1.0 && !w && m == EUC ? 3 : 1, (m == EUC || m == SOR) && t == 1.0);
        }
  });
  // values with many significant digits, of very different sizes, and close together
  std::vector<Data> digits = {
    {{1000000.1234567, 1000000.1234568, 1000000.1234569}, {999999.87654321, 1000000.1234567, 0.1}},
    {{1 / 3.0, 2 / 3.0, 1e-7 / 3}, {1 / 3.0 + 1e-12, 2 / 3.0, 1e-7 / 3}, {-1 / 7.0, 22 / 7.0}},
    {{1e15 / 7, 1e-15 / 7, 1e15 / 7 + 0.5}, {123456789.123456789, -98765432.1098765, 0.000123456789012345}},
    {{0.1, 0.2, 0.1 + 0.2, 0.3}, {0.30000000000000004, 0.3, 0.29999999999999999, 0.1}},
    {{4.9406564584124654e-324, 2.2250738585072014e-308, 1e300}, {1e-300, -1e300, 3}},
    {{-0.0, 0.0, -0.0, 5}, {100000, 1000000, 10000000, 99999.95}}};
  for (auto& d : digits)
    for (double t : {0.0, 1 / 3.0, 1e-13, 123456.789012345678, 1e-300, 1e300})
      unit([&] { return cat("digits: dataset ", show(d), " threshold ", t); }, [&] {
        GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", QD);
        for (Metric m : ALL) for (int w = 0; w < 2; w++) chains(api, d, Opt{m, t, w == 1, 1}, false, 2, false);
        sample(cat("many digits: ", show(d), " threshold ", t));
      });
  forLarge([&](GenexAPI& api, const Large& l, Metric m) {
    mc::load(api, "q", QD);
    for (double t : {0.0, 0.3, 40.0}) chains(api, l.d, Opt{m, t, false, 2}, false, 1, false);
    chains(api, l.d, Opt{m, 0.3, true, 1}, false, 1, false);
    GenexAPI norm; mc::load(norm, "g", l.d); mc::load(norm, "q", QD); norm.normalizeDataset("g");
    chains(norm, l.d, Opt{m, 0.1, false, 1}, true, 1, false);
  });
  for (auto& l : huge())
    for (double t : {0.9, 1000.0})
      for (int w = 0; w < 2; w++)
        unit([&] { return cat(l.name, ", threshold ", t, w ? ", whole series" : ""); }, [&] {
          if (t < 1 && maxLen(l.d) > 2) return;     // thousands of groups
          GenexAPI api; mc::load(api, "g", l.d); mc::load(api, "q", QD);
          chains(api, l.d, Opt{EUC, t, w == 1, 1}, false, 1, false);
          sample(cat(l.name, ", threshold ", t));
        });
  for (auto& d : structured(th)) {
    if (d.size() > 60 || maxLen(d) < 2) continue;
    unit([&] { return "dataset " + show(d); }, [&] {
      size_t n = 0; for (auto& r : d) n += r.size();
      for (int norm = 0; norm < 2; norm++) {
        GenexAPI api; mc::load(api, "g", d); mc::load(api, "q", QD);
        if (norm) api.normalizeDataset("g");
        for (Metric m : ALL)
          for (double t : {0.0, 0.1, 0.7})
            for (int w = 0; w < 2; w++)
              chains(api, d, Opt{m, t, w == 1, 1}, norm, t == 0.1 || th ? (n < 40 ? 3 : 2) : 1, n < 14 || (m == EUC && t == 0.1));
      }
      sample("chains of saves and loads on " + show(d).substr(0, 120));
    });
  }
}
