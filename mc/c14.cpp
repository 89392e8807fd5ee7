// C14: damaged and foreign group files.
#include "search.hpp"
using namespace mc;
using namespace ref;

static const Data QD = {{1, 0, 2, 0.5}};

static std::string meta(GenexAPI& api) {
  auto i = api.getDatasetInfo("g");
  return cat(i.name, " ", i.itemCount, " ", i.itemLength, " ", i.isNormalized, " ", i.isGrouped, " ", i.distance, " ", i.threshold);
}
static std::string answers(GenexAPI& api) {
  std::ostringstream os; os.precision(10);
  for (auto& q : queriesOf("q", QD)) {
    try { os << api.getBestMatch("g", "q", q.idx, q.start, q.end).dist << " "; } catch (std::exception& e) { os << "refused "; }
    try { for (auto& c : api.getKBestMatches(2, 5, "g", "q", q.idx, q.start, q.end)) os << c.dist << ","; } catch (std::exception& e) { os << "refused "; }
  }
  return os.str();
}
struct Snapshot {
  std::string groups, meta, ans; Data data;
  static Snapshot of(GenexAPI& api, bool ans) {
    Snapshot s;
    auto i = api.getDatasetInfo("g");
    if (i.isGrouped) s.groups = canonical(groupsOf(api, "g"));
    s.meta = ::meta(api);
    if (ans) s.ans = answers(api);
    for (int k = 0; k < i.itemCount; k++) s.data.push_back(values(api.getTimeSeries("g", k, -1, -1)));
    return s;
  }
  bool operator==(const Snapshot& o) const { return groups == o.groups && meta == o.meta && ans == o.ans && data == o.data; }
};

struct Config { Data d; Opt o; };
static const char* prevName[] = {"no previous groups", "previous groups", "previous whole-series groups"};

static void previous(GenexAPI& api, int prev) {
  Quiet q;
  if (prev == 1) api.groupDataset("g", 0.25, "manhattan", 1, false);
  if (prev == 2) api.groupDataset("g", 3, "chebyshev", 1, true);
}

// One attempt to load a bad file. exactOk: the only acceptable successful result.
static void attempt(GenexAPI& api, const Snapshot& before, int prev, bool text, const std::string& file, const std::string& exactGroups, bool exactness, const std::function<std::string()>& what) {
  std::string p = scratchPath("bad");
  writeFile(p, file);
  eval();
  std::string err;
  bool threw;
  { Quiet q; threw = throwsStd([&] { if (text) api.loadGroupsOld("g", p); else api.loadGroups("g", p); }, &err); }
  if (threw) {
    Snapshot now = Snapshot::of(api, !before.ans.empty());
    MC_REQUIRE(now == before, what(), ": load failed (", err, ") but changed the dataset: ", now.meta, "\n", now.groups, "was: ", before.meta, "\n", before.groups);
    outcome("rejected, nothing changed"); nontrivial();
    return;
  }
  if (exactness) {
    std::string got = canonical(groupsOf(api, "g"));
    MC_REQUIRE(got == exactGroups, what(), ": accepted with other groups:\n", got, "saved:\n", exactGroups);
    outcome("accepted, exactly the saved groups");
  } else {
    outcome("accepted");
  }
  // must neither crash nor hang
  answers(api);
  throwsStd([&] { api.saveGroupsOld("g", scratchPath("again"), false); }, &err);
  throwsStd([&] { api.saveGroups("g", scratchPath("again")); }, &err);
}

static void damage(const Config& c, bool text, int prev, bool deep, int part, int parts) {
  GenexAPI src; mc::load(src, "g", c.d); mc::load(src, "q", QD);
  src.setWarpingBandRatio(0.5);
  { Quiet q; src.groupDataset("g", c.o.threshold, name(c.o.metric), 1, c.o.whole); }
  std::string good = canonical(groupsOf(src, "g"));
  std::string p = scratchPath("good");
  if (text) src.saveGroupsOld("g", p, false); else src.saveGroups("g", p);
  std::string bytes = readFile(p);
  std::unique_ptr<GenexAPI> api;
  Snapshot before;
  auto fresh = [&] {
    api.reset(new GenexAPI()); mc::load(*api, "g", c.d); mc::load(*api, "q", QD);
    previous(*api, prev);
    before = Snapshot::of(*api, prev != 0);
  };
  fresh();
  auto run = [&](const std::string& f, bool exactness, const std::function<std::string()>& what) {
    long acceptedBefore = ctx().outcomes["accepted"] + ctx().outcomes["accepted, exactly the saved groups"];
    attempt(*api, before, prev, text, f, good, exactness, what);
    if (ctx().outcomes["accepted"] + ctx().outcomes["accepted, exactly the saved groups"] != acceptedBefore) fresh();
  };
  size_t lo = bytes.size() * part / parts, hi = bytes.size() * (part + 1) / parts;
  for (size_t n = lo; n < hi; n++)
    run(bytes.substr(0, n), true, [&] { return cat("file cut to ", n, " of ", bytes.size(), " bytes"); });
  for (size_t n = lo; n < hi; n++) {
    std::vector<unsigned char> vals;
    unsigned char b = bytes[n];
    if (text) for (unsigned char v : {'0', '1', '9', '-', ' ', '.', 'x', '\n', 'e', '\0'}) { if (v != b) vals.push_back(v); }
    else if (deep) for (int k = 0; k < 8; k++) vals.push_back(b ^ (1 << k));
    else vals = {(unsigned char)(b ^ 1), (unsigned char)(b ^ 0x80), (unsigned char)(b + 1), (unsigned char)(255 - b)};
    if (deep && !text) { vals.push_back(0); vals.push_back(255); }
    for (unsigned char v : vals) {
      if (v == b) continue;
      std::string f = bytes; f[n] = v;
      run(f, !text, [&] { return cat("byte ", n, " of ", bytes.size(), " changed from ", int(b), " to ", int(v)); });
    }
    if (text) {    // a removed and a doubled byte
      std::string f = bytes; f.erase(n, 1); run(f, false, [&] { return cat("byte ", n, " removed"); });
      f = bytes; f.insert(n, 1, bytes[n]); run(f, false, [&] { return cat("byte ", n, " doubled"); });
    }
  }
}

void mc::explore() {
  bool th = ctx().thorough();
  std::vector<Config> cs = {
    {{{0, 1, 3}, {2, 2}}, {EUC, 1, false, 1}},
    {{{0, 1, 3, 1}, {5, 0, 1, 1}, {0, 1, 3, 2}}, {MAN, 0.5, false, 1}},
    {{{0, 1, 3, 1}, {5, 0, 1, 1}}, {SOR, 0.5, true, 1}},
    {{{0, 1}, {4, 3, 1}, {1}}, {COS, 0.5, false, 1}},
  };
  Data wide; for (int i = 0; i < 6; i++) wide.push_back(pattern(3, 12 - i % 2, i));
  Data big; for (int i = 0; i < 8; i++) big.push_back(pattern(i % 2 ? 3 : 8, 20, i));
  for (size_t k = 0; k < cs.size(); k++)
    for (int text = 0; text < 2; text++)
      for (int prev = 0; prev < 3; prev++)
        for (int part = 0; part < 4; part++)
          unit([&] { return cat("damage to the ", text ? "text" : "binary", " groups of ", show(cs[k].d), ", ", show(cs[k].o), ", ", prevName[prev], ", part ", part); },
               [&] { damage(cs[k], text, prev, th || prev == 0, part, 4); if (!part) sample(cat("every cut and byte change of a ", text ? "text" : "binary", " file of ", show(cs[k].d))); });
  for (int text = 0; text < 2; text++)
    for (int part = 0; part < 24; part++) {
      unit([&] { return cat("damage to larger ", text ? "text" : "binary", " groups, part ", part); },
           [&] { damage(Config{wide, {EUC, 0.3, false, 1}}, text, 1, false, part, 24); });
    }
  // compressed content beyond one internal buffer: cuts and changes
  for (int part = 0; part < 48; part++)
    unit([&] { return cat("damage to a binary file of several buffers, part ", part); },
         [&] { damage(Config{big, {EUC, 0.2, false, 1}}, false, 0, false, part, 48); });
  // files for other shapes
  std::vector<std::vector<int>> shp;
  for (int t = 2; t <= (th ? 8 : 7); t++) for (auto& s : shapesOf(t, 3)) shp.push_back(s);
  for (auto& sa : shp)
    unit([&] { std::string s; for (int l : sa) s += cat(l, " "); return "group file of shape " + s + "loaded into every other shape"; }, [&] {
      for (int w = 0; w < 2; w++) {
        Data a; for (size_t i = 0; i < sa.size(); i++) a.push_back(pattern(3, sa[i], i));
        if (maxLen(a) < 2) continue;
        GenexAPI src; mc::load(src, "g", a);
        { Quiet q; src.groupDataset("g", 0.5, "euclidean", 1, w == 1); }
        std::string good = canonical(groupsOf(src, "g"), false);
        src.saveGroups("g", scratchPath("fb")); src.saveGroupsOld("g", scratchPath("ft"), false);
        std::string fb = readFile(scratchPath("fb")), ft = readFile(scratchPath("ft"));
        for (auto& sb : shp) {
          if (sb == sa) continue;
          Data b; for (size_t i = 0; i < sb.size(); i++) b.push_back(pattern(3, sb[i], i));
          for (int text = 0; text < 2; text++)
            for (int prev = 0; prev < 2; prev++) {
              GenexAPI api; mc::load(api, "g", b); mc::load(api, "q", QD);
              api.setWarpingBandRatio(0.5);
              previous(api, prev);
              Snapshot before = Snapshot::of(api, prev != 0);
              writeFile(scratchPath("bad"), text ? ft : fb);
              eval();
              std::string err; bool threw;
              { Quiet q; threw = throwsStd([&] { if (text) api.loadGroupsOld("g", scratchPath("bad")); else api.loadGroups("g", scratchPath("bad")); }, &err); }
              auto where = [&] { return cat(" (", text ? "text" : "binary", " groups of ", show(a), " into ", show(b), ", ", prevName[prev], ")"); };
              if (threw) {
                Snapshot now = Snapshot::of(api, prev != 0);
                MC_REQUIRE(now == before, "failed load changed the dataset", where());
                outcome("foreign file rejected"); nontrivial();
              } else {
                // only acceptable if the very same groups result and stay usable
                MC_REQUIRE(maxLen(a) == maxLen(b) && a.size() == b.size(), "a file for other dimensions is accepted", where());
                std::string got = canonical(groupsOf(api, "g"), false);
                MC_REQUIRE(got == good, "foreign file accepted with other groups", where());
                answers(api);
                outcome("foreign file accepted, same groups");
              }
            }
        }
      }
    });
  // missing files, directories, empty files, other file types, the other format
  unit([&] { return std::string("files that are not group files"); }, [&] {
    for (int prev = 0; prev < 3; prev++)
      for (int text = 0; text < 2; text++)
        for (int kind = 0; kind < 8; kind++) {
          GenexAPI api; mc::load(api, "g", cs[0].d); mc::load(api, "q", QD);
          api.setWarpingBandRatio(0.5);
          { Quiet q; api.groupDataset("g", 1, "euclidean", 1, false); }
          api.saveGroups("g", scratchPath("ob")); api.saveGroupsOld("g", scratchPath("ot"), false);
          api.unloadDataset("g"); mc::load(api, "g", cs[0].d);
          previous(api, prev);
          Snapshot before = Snapshot::of(api, true);
          std::string p = scratchPath("other");
          switch (kind) {
            case 0: p = scratchPath("missing"); break;
            case 1: p = ctx().scratch; break;
            case 2: writeFile(p, ""); break;
            case 3: writeFile(p, toText(cs[0].d)); break;
            case 4: p = text ? scratchPath("ob") : scratchPath("ot"); break;
            case 5: writeFile(p, std::string(5000, '\0')); break;
            case 6: p = scratchPath("nodir/x"); break;
            case 7: api.groupDataset("g", 0.25, "manhattan", 1, false); api.saveGroupsOld("g", p, true);
                    api.unloadDataset("g"); mc::load(api, "g", cs[0].d); previous(api, prev); before = Snapshot::of(api, true); break;
          }
          eval();
          std::string err; bool threw;
          { Quiet q; threw = throwsStd([&] { if (text) api.loadGroupsOld("g", p); else api.loadGroups("g", p); }, &err); }
          if (kind == 7 && !threw) { answers(api); continue; }
          MC_REQUIRE(threw, "loading file kind ", kind, " as ", text ? "text" : "binary", " groups succeeds");
          MC_REQUIRE(Snapshot::of(api, true) == before, "failed load of file kind ", kind, " changed the dataset");
          outcome("not a group file: rejected"); nontrivial();
        }
  });
}
