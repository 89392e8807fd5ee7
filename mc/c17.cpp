// C17: a saved dataset loads back identical.
#include "grouping.hpp"
using namespace mc;
using namespace ref;

static bool sameBits(const Seq& a, const Seq& b) { return a.size() == b.size() && (a.empty() || memcmp(&a[0], &b[0], a.size() * sizeof(double)) == 0); }
static Data dataOf(GenexAPI& api, const std::string& n) {
  Data d; int c = api.getDatasetInfo(n).itemCount;
  for (int i = 0; i < c; i++) d.push_back(values(api.getTimeSeries(n, i, -1, -1)));
  return d;
}
static std::vector<std::string> namesOf(GenexAPI& api, const std::string& n) {
  std::vector<std::string> v; int c = api.getDatasetInfo(n).itemCount;
  for (int i = 0; i < c; i++) v.push_back(api.getTimeSeriesName(n, i));
  return v;
}
static bool same(const Data& a, const Data& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!sameBits(a[i], b[i])) return false;
  return true;
}
static std::string meta(GenexAPI& api, const std::string& n) {
  auto i = api.getDatasetInfo(n);
  return cat(i.name, " ", i.itemCount, " ", i.itemLength, " ", i.isNormalized, " ", i.isGrouped, " ", i.distance, " ", i.threshold);
}

static void check(const Data& d, const std::vector<std::string>& names, char sep, bool norm, int steps = 2) {
  GenexAPI api;
  bool named = !names.empty();
  std::string text;
  for (size_t i = 0; i < d.size(); i++) { if (named) text += names[i] + "\x01"; for (double v : d[i]) text += num(v) + "\x01"; text += "\n"; }
  writeFile(scratchPath("o.txt"), text);
  api.loadDataset("o", scratchPath("o.txt"), "\x01", 0, 0, named);
  auto where = [&] { return cat(" (dataset ", show(d), norm ? " normalised" : "", ", separator '", sep, "'", named ? ", named" : "", ")"); };
  if (!norm) MC_REQUIRE(same(dataOf(api, "o"), d), "loading gives ", show(dataOf(api, "o")), where());
  if (norm) api.normalizeDataset("o");
  Data want = dataOf(api, "o");
  auto wantNames = namesOf(api, "o");
  auto wantMeta = meta(api, "o");
  std::string src = "o";
  for (int k = 0; k < steps; k++) {
    std::string p = scratchPath(cat("s", k)), n = cat("c", k);
    eval();
    api.saveDataset(src, p, sep);
    MC_REQUIRE(same(dataOf(api, "o"), want) && namesOf(api, "o") == wantNames && meta(api, "o") == wantMeta, "saving changed the dataset", where());
    api.loadDataset(n, p, std::string(1, sep), 0, 0, named);
    Data got = dataOf(api, n);
    MC_REQUIRE(got.size() == want.size(), got.size(), " series instead of ", want.size(), where());
    for (size_t i = 0; i < got.size(); i++) {
      MC_REQUIRE(api.getTimeSeriesLength(n, i) == (int)want[i].size(), "series ", i, " has length ", got[i].size(), where());
      MC_REQUIRE(sameBits(got[i], want[i]), "series ", i, " is ", vec(got[i]), " instead of ", vec(want[i]), where());
    }
    MC_REQUIRE(namesOf(api, n) == wantNames, "names differ", where());
    MC_REQUIRE(api.getDatasetInfo(n).itemLength == api.getDatasetInfo("o").itemLength, "item length differs", where());
    src = n;
  }
  if (maxLen(want)) { nontrivial(); outcome("round trip with values"); } else outcome("round trip without values");
}

void mc::explore() {
  bool th = ctx().thorough();
  std::vector<double> tricky = {0.0, -0.0, 0.1, 1.0 / 3, -2.0 / 3, 1e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, 2.2250738585072009e-308, 1e-310, 1e300, 1e-300,
    123456789.123456789, 9007199254740993.0, 0.30000000000000004, 1 - 1e-16, 1 + 2.220446049250313e-16, 1e22, 1e23, 5e-7, 1e15 + 0.3, 1e16, 123456, 1234567, 0.000123456789012345678, 100, 3.141592653589793, 2.718281828459045, 65536.0001, -1e-5, 1e5, 1e6, 1e17};
  // neighbours of powers of ten and of two
  for (int e = -30; e <= 30; e++) { double v = std::pow(10, e); tricky.push_back(v); tricky.push_back(std::nextafter(v, 2 * v)); tricky.push_back(std::nextafter(v, 0)); }
  for (int e = -60; e <= 60; e += th ? 1 : 3) { double v = std::ldexp(1, e); tricky.push_back(v); tricky.push_back(std::nextafter(v, 2 * v)); tricky.push_back(std::nextafter(v, 0)); }
  std::string seps = " ,;\t|:#/";
  for (char sep : seps)
    unit([&] { return cat("special values with separator '", sep, "'"); }, [&] {
      for (double v : tricky) for (int named = 0; named < 2; named++) {
        check({{v}}, named ? std::vector<std::string>{"n"} : std::vector<std::string>{}, sep, false);
        check({{1, v, 2}, {v}}, named ? std::vector<std::string>{"first", "2"} : std::vector<std::string>{}, sep, false);
      }
      Data all; for (size_t i = 0; i < tricky.size(); i += 5) all.push_back(Seq(tricky.begin() + i, tricky.begin() + std::min(tricky.size(), i + 5)));
      check(all, {}, sep, false);
      sample("special values");
    });
  for (auto& alphabet : std::vector<Seq>{{0, 0.1}, {-1.5, 1e10, 1e-10}})
    for (int t = 1; t <= (th ? 8 : 6); t++)
      for (auto& sh : shapesOf(t, 4))
        unit([&] { std::string s; for (int l : sh) s += cat(l, " "); return cat("all datasets of shape ", s, "over ", vec(alphabet)); }, [&] {
          std::vector<std::string> names; for (size_t i = 0; i < sh.size(); i++) names.push_back(i % 2 ? cat("n", i) : cat(i * 7));
          long n = 0;
          sequences(t, alphabet, [&](const Seq& s) {
            Data d = fill(sh, s);
            for (int norm = 0; norm < 2; norm++) { check(d, {}, seps[n % seps.size()], norm); check(d, names, seps[(n + 3) % seps.size()], norm); }
            n++;
          });
        });
  // shapes with rows that have no values
  for (int rows = 1; rows <= 4; rows++)
    unit([&] { return cat(rows, " rows of 0..3 values"); }, [&] {
      int total = 1; for (int i = 0; i < rows; i++) total *= 4;
      for (int code = 0; code < total; code++) {
        Data d; int c = code; std::vector<std::string> names;
        for (int i = 0; i < rows; i++) { d.push_back(pattern(3, c % 4, i)); names.push_back(i == 1 ? "1.5" : cat("name", i)); c /= 4; }
        for (char sep : seps) { check(d, {}, sep, false); check(d, names, sep, false); if (maxLen(d)) { check(d, {}, sep, true); check(d, names, sep, true); } }
      }
    });
  for (auto& d : structured(th))
    unit([&] { return "dataset " + show(d); }, [&] {
      std::vector<std::string> names; for (size_t i = 0; i < d.size(); i++) names.push_back(cat("s", i));
      for (char sep : seps) for (int norm = 0; norm < 2; norm++) { check(d, {}, sep, norm, 3); check(d, names, sep, norm, 3); }
    });
  unit([&] { return std::string("larger datasets and saving onto the loaded file"); }, [&] {
    for (int rows : {1, 50, 300}) for (int cols : {1, 90, 1500}) {
      if (rows * cols > 30000) continue;
      Data d; for (int r = 0; r < rows; r++) { Seq s; for (int c = 0; c < cols - (r % 2 && cols > 1); c++) s.push_back((r * 31 + c * 17) % 1000 / 7.0 - 50); d.push_back(s); }
      for (int norm = 0; norm < 2; norm++) check(d, {}, ' ', norm, 3);
    }
    for (auto& l : huge()) check(l.d, {}, ',', false, 1);
    for (int len : {15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 5000, 70000})
      for (int norm = 0; norm < 2; norm++)
        check({{1, 2.5}, {0.1}, {0.1, 0.2, 0.3}}, {std::string(len, 'n') + "1", std::string(len, 'n') + "2", "short"}, ',', norm, 2);
    for (int norm = 0; norm < 2; norm++) {
      GenexAPI api; Data d = {{1, 2.5}, {0.1, 0.2, 0.3}};
      mc::load(api, "o", d);
      if (norm) api.normalizeDataset("o");
      Data want = dataOf(api, "o");
      eval();
      api.saveDataset("o", scratchPath("ds_o.txt"), ' ');
      api.loadDataset("c", scratchPath("ds_o.txt"), " ");
      MC_REQUIRE(same(dataOf(api, "c"), want) && same(dataOf(api, "o"), want), "saving onto the loaded file loses data");
      MC_REQUIRE(throwsGenex([&] { api.saveDataset("missing", scratchPath("x"), ' '); }), "an unknown dataset is saved");
    }
  });
}
