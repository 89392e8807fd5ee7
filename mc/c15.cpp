// C15: text datasets load exactly as the file says.
#include "api.hpp"
#include <cfloat>
using namespace mc;

struct Options { std::string seps; int maxRow, startCol; bool name; };
static std::string show(const Options& o) { return cat("separators '", o.seps, "', rows ", o.maxRow, ", from column ", o.startCol, o.name ? ", names" : ""); }

struct Want { bool error = false, judged = true; std::vector<std::string> names; Data d; };

// 1 number, 0 not a number, -1 out of range, 2 starts with a number but is not one (not judged)
static int numeric(const std::string& s, double& v) {
  char* end; errno = 0;
  v = strtod(s.c_str(), &end);
  if (end == s.c_str()) return 0;
  if (*end) return 2;
  if (std::isnan(v)) return 2;
  if (errno == ERANGE && std::isinf(v)) return -1;
  if (errno == ERANGE) return std::fpclassify(v) == FP_SUBNORMAL ? 1 : 2;
  if (std::isinf(v)) return 2;
  return 1;
}

static Want expected(const std::string& text, const Options& o) {
  Want w;
  if (o.startCol < 0) { w.error = true; return w; }
  std::vector<std::string> lines;
  std::string cur; bool any = false;
  for (char c : text) { any = true; if (c == '\n') { lines.push_back(cur); cur.clear(); any = false; } else cur += c; }
  if (any) lines.push_back(cur);
  int row = 0;
  for (auto& l : lines) {
    if (o.maxRow > 0 && row >= o.maxRow) break;
    std::vector<std::string> f; std::string t;
    for (char c : l) { if (o.seps.find(c) != std::string::npos) { if (!t.empty()) f.push_back(t); t.clear(); } else t += c; }
    if (!t.empty()) f.push_back(t);
    std::string nm = std::to_string(row);
    Seq vals;
    for (size_t i = 0; i < f.size(); i++) {
      if ((long)i < o.startCol) continue;
      if (o.name && (long)i == o.startCol) { nm = f[i]; continue; }
      double v; int k = numeric(f[i], v);
      if (k == 2) { w.judged = false; if (w.error) return w; }
      if (k <= 0) { w.error = true; if (!w.judged) return w; }
      vals.push_back(v);
    }
    w.names.push_back(nm); w.d.push_back(vals);
    row++;
  }
  return w;
}

static bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

static void check(GenexAPI& api, const std::string& text, const Options& o, bool writeIt = true) {
  std::string p = scratchPath("in.txt");
  if (writeIt) writeFile(p, text);
  Want w = expected(text, o);
  auto where = [&] { return cat(" (file \"", jesc(text.substr(0, 300)), "\", ", show(o), ")"); };
  eval();
  int before = api.getDatasetCount();
  std::string err;
  genex::dataset_metadata_t info("", 0, 0, false, false, "", 0);
  bool threw = throwsGenex([&] { info = api.loadDataset("d", p, o.seps, o.maxRow, o.startCol, o.name); }, &err);
  if (threw) {
    MC_REQUIRE(!w.judged || w.error, "refused: ", err, where());
    MC_REQUIRE(api.getDatasetCount() == before, "a refused file changed the number of datasets", where());
    MC_REQUIRE(throwsGenex([&] { api.getDatasetInfo("d"); }), "a refused file left a dataset", where());
    for (auto& i : api.getAllDatasetInfo()) MC_REQUIRE(i.name != "d", "a refused file is listed", where());
    outcome("refused"); nontrivial();
    return;
  }
  MC_REQUIRE(!(w.judged && w.error), "accepted although it is not valid", where());
  if (w.judged) {
    MC_REQUIRE(api.getDatasetCount() == before + 1, "number of datasets is ", api.getDatasetCount(), where());
    for (auto& i : {info, api.getDatasetInfo("d")}) {
      MC_REQUIRE(i.name == "d" && !i.isNormalized && !i.isGrouped && i.distance.empty() && i.threshold == 0, "wrong metadata of a new dataset", where());
      MC_REQUIRE(i.itemCount == (int)w.d.size(), "has ", i.itemCount, " series, expected ", w.d.size(), where());
      MC_REQUIRE(i.itemLength == (int)maxLen(w.d), "item length ", i.itemLength, ", expected ", maxLen(w.d), where());
    }
    for (size_t r = 0; r < w.d.size(); r++) {
      MC_REQUIRE(api.getTimeSeriesLength("d", r) == (int)w.d[r].size(), "series ", r, " has length ", api.getTimeSeriesLength("d", r), ", expected ", w.d[r].size(), where());
      MC_REQUIRE(api.getTimeSeriesName("d", r) == w.names[r], "series ", r, " is named '", api.getTimeSeriesName("d", r), "', expected '", w.names[r], "'", where());
      Seq got = values(api.getTimeSeries("d", r, -1, -1));
      bool same = got.size() == w.d[r].size();
      for (size_t i = 0; same && i < got.size(); i++) same = sameBits(got[i], w.d[r][i]);
      MC_REQUIRE(same, "series ", r, " is ", vec(got), ", expected ", vec(w.d[r]), where());
    }
    if (maxLen(w.d)) { outcome("loaded with values"); nontrivial(); } else outcome("loaded without values");
  } else outcome("loaded, partly numeric field (not judged)");
  api.unloadDataset("d");
  MC_REQUIRE(api.getDatasetCount() == before, "unloading leaves a dataset", where());
}

static void strings(const std::string& alphabet, int maxLenS, const std::vector<Options>& opts, const char* what) {
  // a unit is all continuations of a prefix
  int pre = std::min(maxLenS, 3);
  std::vector<std::string> prefixes{""};
  std::vector<std::string> level{""};
  for (int i = 0; i < pre; i++) {
    std::vector<std::string> next;
    for (auto& s : level) for (char c : alphabet) next.push_back(s + c);
    prefixes.insert(prefixes.end(), next.begin(), next.end());
    level = next;
  }
  std::set<std::string> deep(level.begin(), level.end());
  for (auto& px : prefixes)
    unit([&] { return cat(what, ": files starting with ", jesc(px)); }, [&] {
      GenexAPI api; mc::load(api, "other", {{1, 2}});
      std::function<void(std::string)> rec = [&](std::string s) {
        writeFile(scratchPath("in.txt"), s);
        for (auto& o : opts) check(api, s, o, false);
        if ((int)s.size() < maxLenS && deep.count(px)) for (char c : alphabet) rec(s + c);
      };
      rec(px);
      MC_REQUIRE(values(api.getTimeSeries("other", 0, -1, -1)) == Seq({1, 2}), "another dataset changed");
    });
}

void mc::explore() {
  bool th = ctx().thorough();
  std::vector<Options> all, few;
  for (auto s : {" ", ",", " ,"}) for (int mr : {0, 1, 2}) for (int sc : {0, 1, 2}) for (int n = 0; n < 2; n++) all.push_back({s, mr, sc, n == 1});
  for (auto s : {" ", ", "}) for (int mr : {-1, 3}) for (int sc : {0, 1, 3, -1}) for (int n = 0; n < 2; n++) few.push_back({s, mr, sc, n == 1});
  strings("1 ,\nx", th ? 7 : 6, all, "characters");
  strings("2 \n", th ? 11 : 9, few, "rows and columns");
  strings("1 \r\n\t", th ? 7 : 6, {{" ", 0, 0, false}, {" ", 0, 0, true}, {" \t", 0, 1, false}, {"\r ", 0, 0, false}}, "carriage returns and tabs");
  strings("1-.e+ \n", th ? 6 : 5, {{" ", 0, 0, false}, {" ", 0, 0, true}}, "number syntax");
  // fields of many kinds
  std::vector<std::string> fields = {"0", "-0", "1", "+1", "1.", ".5", "-.5e-3", "1E3", "1e+3", "0.1", "0.30000000000000004", "123456789.123456789",
    "1.7976931348623157e308", "2.2250738585072014e-308", "1e308", "-1e308", "1e309", "-1e309", "1e999", "007", "x", "-", "+", ".", "e5", "--1", "abc", "_", "1e22", "9007199254740993",
    "3.14159265358979323846264338327950288", "100000000000000000000000000000", "4.35", "0.000001", "1e-300", "1e-310", "-5e-324"};
  for (size_t i = 0; i < fields.size(); i++)
    unit([&] { return "field " + fields[i]; }, [&] {
      GenexAPI api;
      for (auto& b : fields)
        for (char sep : std::string(" ,;\t|"))
          for (auto& o : std::vector<Options>{{std::string(1, sep), 0, 0, false}, {std::string(1, sep), 0, 1, false}, {std::string(1, sep), 1, 0, true}, {std::string(1, sep) + "#", 0, 0, true}}) {
            std::string S(1, sep);
            check(api, fields[i] + S + b + "\n", o);
            check(api, "5" + S + "6" + S + fields[i] + "\n" + b + S + S + "7\n8", o);
            check(api, fields[i] + "\n" + b, o);
          }
      sample("field " + fields[i] + " with every other one");
    });
  // every shape of up to 4 rows of up to 4 fields, with different ways to write separators and ends
  std::vector<std::vector<int>> shp{{}};
  for (size_t i = 0; i < shp.size(); i++) {
    if (shp[i].size() < (th ? 5 : 4)) for (int l = 0; l <= 4; l++) { auto s = shp[i]; s.push_back(l); shp.push_back(s); }
    if (shp.size() > 4000) break;
  }
  size_t per = 40;
  for (size_t b = 0; b < shp.size(); b += per)
    unit([&] { return cat("shapes from ", b); }, [&] {
      GenexAPI api;
      for (size_t i = b; i < std::min(shp.size(), b + per); i++)
        for (int style = 0; style < 6; style++) {
          std::string text; int v = 1;
          for (size_t r = 0; r < shp[i].size(); r++) {
            if (style == 1) text += ",";
            for (int c = 0; c < shp[i][r]; c++) { if (c) text += style == 2 ? ",,;" : style == 4 ? ";" : ","; text += cat(v++ * 0.5); }
            if (style == 3) text += ",";
            if (r + 1 < shp[i].size() || style != 5) text += "\n";
          }
          for (int mr : {-5, 0, 1, 2, 3, 4, 5, 2147483647})
            for (int sc : {0, 1, 2, 4, 5, 2147483647})
              for (int n = 0; n < 2; n++) check(api, text, {",;", mr, sc, n == 1});
        }
    });
  // long lines, many lines, all separators between 1 and 126
  unit([&] { return std::string("large files"); }, [&] {
    GenexAPI api;
    for (int rows : {1, 7, 500}) for (int cols : {1, 40, 3000}) {
      if (rows * cols > 100000) continue;
      std::string text;
      for (int r = 0; r < rows; r++) { for (int c = 0; c < cols - r % 3; c++) text += cat(c ? " " : "", r * 1000 + c); text += "\n"; }
      for (int mr : {0, 1, rows - 1, rows, rows + 1}) for (int n = 0; n < 2; n++) { check(api, text, {" ", mr, 0, n == 1}); check(api, text, {" ", mr, 3, n == 1}); }
    }
    // the longest, the shortest, the only named, the only faulty line in any place of a long file
    for (int rows : {33, 130, 300, 700}) for (int at : {0, 1, rows / 2, rows - 2, rows - 1}) for (int kind = 0; kind < 5; kind++) {
      std::string text;
      for (int r = 0; r < rows; r++) {
        if (r == at && kind == 0) text += "1 2 3 4 5 6 7 8 9";
        else if (r == at && kind == 1) text += "";
        else if (r == at && kind == 2) text += "5";
        else if (r == at && kind == 3) text += "1 x 2";
        else if (r == at && kind == 4) text += "1 2 3.25 1e999";
        else text += cat(r, " ", r * 0.5, " -1.25 ", r % 7);
        text += "\n";
      }
      for (int mr : {0, at, at + 1, at + 2, rows}) for (int n = 0; n < 2; n++) check(api, text, {" ", mr, 0, n == 1});
    }
    { std::string text;
      for (int r = 0; r < 66000; r++) text += r == 65800 ? "1 2 3\n" : r == 65000 ? "\n" : cat(r, " ", r % 7, "\n");
      for (int mr : {0, 65700, 65900}) for (int n = 0; n < 2; n++) check(api, text, {" ", mr, 0, n == 1}); }
    // long fields and names, runs of separators
    for (int len : {63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 5000, 70000}) {
      std::string z(len, '0'), nm(len, 'n'), sp(len, ' ');
      for (int n = 0; n < 2; n++) {
        check(api, "1." + z + "5 2\n3 4\n", {" ", 0, 0, n == 1});
        check(api, nm + " 1 2\n3 4 " + "7" + "\n", {" ", 0, 0, n == 1});
        check(api, sp + "1" + sp + "2" + sp + "\n3 4\n" + sp + "\n5", {" ", 0, 0, n == 1});
        check(api, z + "1 " + z + "2\n\n" + z + "3 4", {" ", 0, 0, n == 1});
      }
    }
    for (int c = 1; c < 127; c++) {
      if (c == '\n' || c == '.' || c == '-' || c == '+' || isalnum(c)) continue;
      std::string S(1, char(c));
      for (int n = 0; n < 2; n++) check(api, "1" + S + "2.5" + S + S + "-3\n4" + S + "5" + S + "\n", {S, 0, 0, n == 1});
    }
  });
  // many separators, each of them used in every place
  unit([&] { return std::string("many separators"); }, [&] {
    GenexAPI api;
    const std::string pool = " ,;:|\t#/!@$%&*()=~^?";
    for (size_t n = 1; n <= pool.size(); n++)
      for (size_t from = 0; from < pool.size(); from += 3) {
        std::string set; for (size_t i = 0; i < n; i++) set += pool[(from + i) % pool.size()];
        for (size_t rot = 0; rot < n; rot++) {
          std::string text; int v = 1;
          for (int r = 0; r < 2; r++) { for (size_t c = 0; c < n + 1; c++) { if (c) text += set[(c + rot) % n]; text += cat(v++ * 0.5); } text += "\n"; }
          for (int k = 0; k < 2; k++) check(api, text, {set, 0, 0, k == 1});
        }
      }
  });
  // what is not a file
  unit([&] { return std::string("missing files"); }, [&] {
    GenexAPI api; mc::load(api, "other", {{1, 2}});
    for (auto p : {scratchPath("nothing-here"), scratchPath("no/such/dir"), ctx().scratch, std::string("")})
      for (int mr : {0, 2}) for (int sc : {0, 1, -1}) for (int n = 0; n < 2; n++) {
        eval();
        MC_REQUIRE(throwsGenex([&] { api.loadDataset("d", p, " ", mr, sc, n == 1); }), "loading '", p, "' is not refused");
        MC_REQUIRE(api.getDatasetCount() == 1 && throwsGenex([&] { api.getDatasetInfo("d"); }), "a dataset is left behind by '", p, "'");
        outcome("refused"); nontrivial();
      }
    // a name in use is refused and keeps its data
    writeFile(scratchPath("in.txt"), "5 6 7\n");
    for (int i = 0; i < 3; i++) {
      eval();
      MC_REQUIRE(throwsGenex([&] { api.loadDataset("other", scratchPath("in.txt"), " "); }), "a name in use is not refused");
      MC_REQUIRE(values(api.getTimeSeries("other", 0, -1, -1)) == Seq({1, 2}) && api.getDatasetCount() == 1, "a refused load changed the dataset");
    }
  });
}
