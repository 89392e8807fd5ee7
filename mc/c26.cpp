// C26: the Python functions.
#include <Python.h>
#include "grouping.hpp"
using namespace mc;

extern "C" PyObject* PyInit_pygenex();

namespace {

// ---- values passed to and from Python, in one textual form --------------------------------
struct V { char kind; std::string s; long long i; double d; };      // s i d b n(one)
V S(const std::string& s) { return V{'s', s, 0, 0}; }
V I(long long i) { return V{'i', "", i, 0}; }
V D(double d) { return V{'d', "", 0, d}; }
V B(bool b) { return V{'b', "", b, 0}; }
V None() { return V{'n', "", 0, 0}; }

std::string real(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); std::string s = b; return s.find_first_of(".en") == std::string::npos ? s + ".0" : s; }
std::string text(const std::string& s) { return "'" + s + "'"; }
std::string text(const V& v) {
  switch (v.kind) {
    case 's': return text(v.s);
    case 'i': return std::to_string(v.i);
    case 'd': return real(v.d);
    case 'b': return v.i ? "True" : "False";
  }
  return "None";
}

struct Call { std::string f; std::vector<V> args; std::vector<std::pair<std::string, V>> kw; };
std::string show(const Call& c) {
  std::string s = c.f + "(";
  bool first = true;
  for (auto& a : c.args) { s += (first ? "" : ", ") + text(a); first = false; }
  for (auto& k : c.kw) { s += (first ? "" : ", ") + k.first + "=" + text(k.second); first = false; }
  return s + ")";
}

// '@' at the start of a path stands for a directory of its own for each side
std::string place(const std::string& s, const char* side) { return !s.empty() && s[0] == '@' ? scratchPath(side + s.substr(1)) : s; }
std::string unplace(std::string s, const char* side) {
  std::string d = scratchPath(side);
  for (size_t p; (p = s.find(d)) != std::string::npos;) s.replace(p, d.size(), "@");
  return s;
}

// ---- Python ------------------------------------------------------------------------------
PyObject* module;
void startPython() {
  if (module) return;
  PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre);
  pre.allocator = PYMEM_ALLOCATOR_MALLOC;      // so that wrong uses of objects are seen
  PyStatus st = Py_PreInitialize(&pre);
  PyImport_AppendInittab("pygenex", PyInit_pygenex);
  PyConfig conf; PyConfig_InitIsolatedConfig(&conf);
  conf.site_import = 0; conf.install_signal_handlers = 0; conf.write_bytecode = 0;
  if (!PyStatus_Exception(st)) st = Py_InitializeFromConfig(&conf);
  PyConfig_Clear(&conf);
  if (PyStatus_Exception(st)) { fprintf(stderr, "Python does not start: %s\n", st.err_msg ? st.err_msg : "?"); _exit(97); }
  module = PyImport_ImportModule("pygenex");
  if (!module) { PyErr_Print(); fprintf(stderr, "the module is not imported\n"); _exit(97); }
}

std::string fromPython(PyObject* o) {
  if (o == Py_None) return "None";
  if (PyBool_Check(o)) return o == Py_True ? "True" : "False";
  if (PyLong_Check(o)) return std::to_string(PyLong_AsLongLong(o));
  if (PyFloat_Check(o)) return real(PyFloat_AsDouble(o));
  if (PyUnicode_Check(o)) return text(std::string(PyUnicode_AsUTF8(o)));
  std::string s;
  if (PyList_Check(o)) { for (Py_ssize_t i = 0; i < PyList_Size(o); i++) s += (i ? ", " : "") + fromPython(PyList_GetItem(o, i)); return "[" + s + "]"; }
  if (PyTuple_Check(o)) { for (Py_ssize_t i = 0; i < PyTuple_Size(o); i++) s += (i ? ", " : "") + fromPython(PyTuple_GetItem(o, i)); return "(" + s + ")"; }
  if (PyDict_Check(o)) {
    std::vector<std::string> items; PyObject *k, *v; Py_ssize_t pos = 0;
    while (PyDict_Next(o, &pos, &k, &v)) items.push_back(fromPython(k) + ": " + fromPython(v));
    std::sort(items.begin(), items.end());
    for (size_t i = 0; i < items.size(); i++) s += (i ? ", " : "") + items[i];
    return "{" + s + "}";
  }
  return std::string("object of type ") + Py_TYPE(o)->tp_name;
}

PyObject* toPython(const V& v) {
  switch (v.kind) {
    case 's': { std::string p = place(v.s, "py"); return PyUnicode_FromStringAndSize(p.data(), p.size()); }
    case 'i': return PyLong_FromLongLong(v.i);
    case 'd': return PyFloat_FromDouble(v.d);
    case 'b': return PyBool_FromLong(v.i);
  }
  Py_INCREF(Py_None); return Py_None;
}

struct Null : std::streambuf { int overflow(int c) { return c; } } null;
struct Hush { std::streambuf* old; Hush() : old(std::cout.rdbuf(&null)) {} ~Hush() { std::cout.rdbuf(old); } };

std::string python(const Call& c) {
  PyObject* f = PyObject_GetAttrString(module, c.f.c_str());
  if (!f) { PyErr_Clear(); return "there is no such function"; }
  PyObject* args = PyTuple_New(c.args.size());
  for (size_t i = 0; i < c.args.size(); i++) PyTuple_SetItem(args, i, toPython(c.args[i]));
  PyObject* kw = nullptr;
  if (!c.kw.empty()) { kw = PyDict_New(); for (auto& k : c.kw) { PyObject* v = toPython(k.second); PyDict_SetItemString(kw, k.first.c_str(), v); Py_DECREF(v); } }
  PyObject* r;
  { Hush h; r = PyObject_Call(f, args, kw); }
  Py_DECREF(f); Py_DECREF(args); Py_XDECREF(kw);
  if (r) {
    if (PyErr_Occurred()) { PyErr_Clear(); Py_DECREF(r); return "a result and an error"; }
    std::string s = fromPython(r); Py_DECREF(r); return s;
  }
  PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
  std::string s;
  if (!t) s = "no result and no error";
  else {
    std::string kind = PyErr_GivenExceptionMatches(t, PyExc_RuntimeError) ? "RuntimeError" : PyErr_GivenExceptionMatches(t, PyExc_TypeError) ? "TypeError" : PyErr_GivenExceptionMatches(t, PyExc_Exception) ? "Exception" : "no exception";
    PyObject* m = v ? PyObject_Str(v) : nullptr;
    s = "!" + kind + (kind == "RuntimeError" && m ? ": " + unplace(PyUnicode_AsUTF8(m), "py") : "");
    Py_XDECREF(m);
  }
  Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
  return s;
}

// ---- the library itself --------------------------------------------------------------------
struct Param { const char* keyword; char type; const char* name; bool optional; V dflt; };    // type: s i d b
Param P(char t, const char* name) { return Param{nullptr, t, name, false, None()}; }
Param K(char t, const char* name, V d) { return Param{name, t, name, true, d}; }
Param Q(char t, const char* name) { return Param{name, t, name, false, None()}; }               // may be given by name

const std::map<std::string, std::vector<Param>>& functions() {
  static const std::map<std::string, std::vector<Param>> m = {
    {"loadDataset", {P('s', "name"), P('s', "path"), K('s', "separators", S(" ")), K('i', "maxNumRow", I(0)), K('i', "startCol", I(0)), K('b', "hasNameCol", B(false))}},
    {"unloadDataset", {P('s', "name")}},
    {"saveDataset", {P('s', "name"), P('s', "path"), P('s', "separator")}},
    {"normalize", {P('s', "name")}},
    {"getTimeSeriesName", {P('s', "name"), P('i', "index")}},
    {"getTimeSeriesLength", {P('s', "name"), P('i', "index")}},
    {"group", {P('s', "name"), P('d', "threshold"), K('s', "distanceName", S("euclidean")), K('i', "numThreads", I(1)), K('b', "wholeSeriesOnly", B(false))}},
    {"preparePAA", {P('s', "name"), P('i', "block")}},
    {"saveGroups", {P('s', "name"), P('s', "path")}},
    {"saveGroupsSize", {P('s', "name"), P('s', "path")}},
    {"loadGroups", {P('s', "name"), P('s', "path")}},
    {"distance", {P('s', "name1"), P('i', "idx1"), P('i', "start1"), P('i', "end1"), P('s', "name2"), P('i', "idx2"), P('i', "start2"), P('i', "end2"), P('s', "dist")}},
    {"getMatching", {P('s', "name1"), P('i', "idx1"), P('i', "start1"), P('i', "end1"), P('s', "name2"), P('i', "idx2"), K('i', "start2", I(-1)), K('i', "end2", I(-1)), Q('s', "distanceName")}},
    {"sim", {P('s', "target"), P('s', "query"), P('i', "index"), K('i', "start", I(-1)), K('i', "end", I(-1))}},
    {"ksim", {P('i', "k"), P('i', "ke"), P('s', "target"), P('s', "query"), P('i', "index"), K('i', "start", I(-1)), K('i', "end", I(-1))}},
    {"ksimbf", {P('i', "k"), P('s', "target"), P('s', "query"), P('i', "index"), K('i', "start", I(-1)), K('i', "end", I(-1)), K('s', "distance", S("euclidean"))}},
    {"ksimpaa", {P('i', "k"), P('s', "target"), P('s', "query"), P('i', "index"), K('i', "start", I(-1)), K('i', "end", I(-1)), K('s', "distance", S("euclidean"))}},
    {"getTimeSeries", {P('s', "name"), P('i', "idx"), K('i', "start", I(-1)), K('i', "end", I(-1))}},
    {"getAllDistances", {}},
    {"setWarpingBandRatio", {P('d', "ratio")}},
  };
  return m;
}

// The arguments in order, or an error. 0: fits, 1: TypeError, 2: some error, 3: not judged
int bind(const Call& c, std::vector<V>& out) {
  auto& ps = functions().at(c.f);
  if (c.args.size() > ps.size()) return 1;
  out.assign(ps.size(), None());
  std::vector<int> have(ps.size(), 0);
  for (size_t i = 0; i < c.args.size(); i++) { out[i] = c.args[i]; have[i] = 1; }
  for (auto& k : c.kw) {
    bool found = false;
    for (size_t i = 0; i < ps.size(); i++)
      if (ps[i].keyword && k.first == ps[i].keyword) { if (have[i]) return 1; have[i] = 1; out[i] = k.second; found = true; }
    if (!found) return 1;
  }
  int r = 0;
  for (size_t i = 0; i < ps.size(); i++) {
    if (!have[i]) { if (!ps[i].optional) return 1; out[i] = ps[i].dflt; continue; }
    char t = ps[i].type, g = out[i].kind;
    if (t == 'd' && (g == 'i' || g == 'b')) { out[i] = D((double)out[i].i); continue; }
    if (t == 'i' && g == 'b') { out[i] = I(out[i].i); continue; }
    if (t == 'b' && g != 'b') { if (g == 's') return 1; r = 3; continue; }
    if (t == 'i' && g == 'i' && (out[i].i > INT_MAX || out[i].i < INT_MIN)) { if (!r) r = 2; continue; }
    if (t != g) return 1;
  }
  return r;
}

std::string candidate(const genex::candidate_time_series_t& c) {
  return cat("{'data': {'end': ", c.data.getEnd(), ", 'index': ", c.data.getIndex(), ", 'start': ", c.data.getStart(), "}, 'dist': ", real(c.dist), "}");
}
std::string candidates(const std::vector<genex::candidate_time_series_t>& v) {
  std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + candidate(v[i]); return "[" + s + "]";
}

std::string direct(GenexAPI& api, const std::string& f, const std::vector<V>& a) {
  auto s = [&](int i) { return place(a[i].s, "md"); };
  auto n = [&](int i) { return (int)a[i].i; };
  Hush h;
  if (f == "loadDataset") { auto i = api.loadDataset(s(0), s(1), s(2), n(3), n(4), n(5)); return cat("{'count': ", i.itemCount, ", 'length': ", i.itemLength, ", 'name': ", text(i.name), "}"); }
  if (f == "unloadDataset") { api.unloadDataset(s(0)); return "None"; }
  if (f == "saveDataset") { api.saveDataset(s(0), s(1), s(2)[0]); return "None"; }
  if (f == "normalize") { auto p = api.normalizeDataset(s(0)); return cat("(", real(p.first), ", ", real(p.second), ")"); }
  if (f == "getTimeSeriesName") return text(api.getTimeSeriesName(s(0), n(1)));
  if (f == "getTimeSeriesLength") return cat(api.getTimeSeriesLength(s(0), n(1)));
  if (f == "group") return cat(api.groupDataset(s(0), a[1].d, s(2), n(3), n(4)));
  if (f == "preparePAA") { api.preparePAA(s(0), n(1)); return "None"; }
  if (f == "saveGroups") { api.saveGroups(s(0), s(1)); return "None"; }
  if (f == "saveGroupsSize") { api.saveGroupsOld(s(0), s(1), true); return "None"; }
  if (f == "loadGroups") return cat(api.loadGroups(s(0), s(1)));
  if (f == "distance") return real(api.distanceBetween(s(0), n(1), n(2), n(3), s(4), n(5), n(6), n(7), s(8)));
  if (f == "getMatching") { std::string r; for (auto& p : api.matchingBetween(s(0), n(1), n(2), n(3), s(4), n(5), n(6), n(7), s(8))) r += cat(r.empty() ? "" : ", ", "(", p.first, ", ", p.second, ")"); return "[" + r + "]"; }
  if (f == "sim") return candidate(api.getBestMatch(s(0), s(1), n(2), n(3), n(4)));
  if (f == "ksim") return candidates(api.getKBestMatches(n(0), n(1), s(2), s(3), n(4), n(5), n(6)));
  if (f == "ksimbf") return candidates(api.getKBestMatchesBruteForce(n(0), s(1), s(2), n(3), n(4), n(5), s(6)));
  if (f == "ksimpaa") return candidates(api.getKBestMatchesPAA(n(0), s(1), s(2), n(3), n(4), n(5), s(6)));
  if (f == "getTimeSeries") { std::string r; for (double v : values(api.getTimeSeries(s(0), n(1), n(2), n(3)))) r += (r.empty() ? "" : ", ") + real(v); return "[" + r + "]"; }
  if (f == "getAllDistances") { std::string r; for (auto& d : api.getAllDistanceInfo()) r += (r.empty() ? "" : ", ") + text(d.name); return "[" + r + "]"; }
  if (f == "setWarpingBandRatio") { api.setWarpingBandRatio(a[0].d); return "None"; }
  fprintf(stderr, "unknown function\n"); _exit(97);
}

struct Model {
  GenexAPI api; double ratio = 0.1;
  std::string key() {          // what is loaded, how it is grouped and which files exist
    std::string r = cat(ratio);
    for (auto& i : api.getAllDatasetInfo()) {
      r += cat(i.name, i.itemCount, i.isNormalized, i.isGrouped, i.distance, i.threshold);
      for (int k = 0; k < i.itemCount; k++) r += vec(values(api.getTimeSeries(i.name, k, -1, -1)));
    }
    for (auto f : {"md/g", "md/s", "md/d"}) r += readFile(scratchPath(f));
    return r;
  }
};

// a distance that depends on the band
double probe() {
  static double x[] = {0, 0, 0, 5, 1, 2, 0, 1, 0, 0}, y[] = {5, 1, 2, 0, 1, 0, 0, 3, 3, 3};
  genex::TimeSeries a(x, 0, 0, 10), b(y, 0, 0, 10);
  return genex::getDistanceFromName("manhattan_dtw")(a, b, ref::INFTY, genex::gNoMatching);
}

// Calls both; returns whether the call was carried out.
bool both(Model& m, const Call& c, const std::function<std::string()>& where) {
  std::vector<V> a;
  int kind = bind(c, a);
  eval();
  if (c.f == "setWarpingBandRatio") genex::setWarpingBandRatio(m.ratio == 0.31 ? 0.62 : 0.31);     // the call itself has to set it
  else genex::setWarpingBandRatio(m.ratio);
  std::string got = python(c);
  if (kind == 3) { outcome("not judged"); return false; }
  if (kind == 1) { MC_REQUIRE(got == "!TypeError", show(c), " gave ", got, ", expected a TypeError", where()); outcome("wrong arguments refused"); }
  else if (kind == 2) { MC_REQUIRE(got[0] == '!' && got != "!no exception", show(c), " gave ", got, ", expected an error", where()); outcome("number out of range refused"); }
  else {
    std::string want; bool plain = true;
    double now = c.f == "setWarpingBandRatio" ? probe() : 0;
    try { want = direct(m.api, c.f, a); }
    catch (genex::GenexException& e) { want = "!RuntimeError: " + unplace(e.what(), "md"); }
    catch (std::exception& e) { want = "an error"; plain = false; }
    if (plain) MC_REQUIRE(got == want, show(c), " gave ", got, ", the library gives ", want, where());
    else MC_REQUIRE(got[0] == '!' && got != "!no exception", show(c), " gave ", got, ", the library reports an error", where());
    bool ok = want[0] != '!' && plain;
    if (c.f == "setWarpingBandRatio" && ok) { MC_REQUIRE(now == probe(), show(c), " does not set the ratio", where()); m.ratio = a[0].d; }
    outcome(ok ? "carried out" : "refused by the library");
    if (c.f.compare(0, 4, "save") == 0) {
      std::string p = scratchPath("py" + a[1].s.substr(a[1].s.size() > 0 ? 1 : 0)), q = scratchPath("md" + a[1].s.substr(a[1].s.size() > 0 ? 1 : 0));
      if (ok) { MC_REQUIRE(readFile(p) == readFile(q), show(c), " wrote another file than the library", where()); }
    }
    if (ok) nontrivial();
    genex::setWarpingBandRatio(m.ratio);
    return ok;
  }
  return false;
}

void fresh() {
  mkdir(scratchPath("py").c_str(), 0700); mkdir(scratchPath("md").c_str(), 0700);
  for (auto d : {"py/", "md/"}) {
    writeFile(scratchPath(d) + "f", "0 1 3 2\n4 0 1 5\n");
    writeFile(scratchPath(d) + "n", "one,2.5,0,1\ntwo,1,4,1,3\n");
    writeFile(scratchPath(d) + "x", "1 2 x\n");
    for (auto o : {"g", "s", "d"}) unlink((scratchPath(d) + o).c_str());
  }
  for (auto n : {"a", "b", "c", ""}) python(Call{"unloadDataset", {S(n)}, {}});
}

// everything that can be asked about the two datasets
void battery(Model& m, const std::function<std::string()>& where) {
  for (auto n : {"a", "b"}) {
    both(m, Call{"getTimeSeriesName", {S(n), I(1)}, {}}, where);
    both(m, Call{"getTimeSeries", {S(n), I(1)}, {}}, where);
    both(m, Call{"sim", {S(n), S(n), I(1)}, {}}, where);
    both(m, Call{"ksim", {I(2), I(4), S(n), S("a"), I(0), I(1), I(4)}, {}}, where);
    both(m, Call{"ksimpaa", {I(2), S(n), S(n), I(0)}, {}}, where);
    both(m, Call{"ksimbf", {I(3), S(n), S("b"), I(1), I(0), I(3)}, {{"distance", S("manhattan")}}}, where);
    both(m, Call{"saveGroupsSize", {S(n), S("@/z")}, {}}, where);
  }
  both(m, Call{"distance", {S("a"), I(0), I(0), I(4), S("b"), I(1), I(0), I(3), S("euclidean_dtw")}, {}}, where);
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  std::vector<Call> ops = {
    {"loadDataset", {S("a"), S("@/f")}, {}},
    {"loadDataset", {S("b"), S("@/n"), S(","), I(0), I(0), B(true)}, {}},
    {"loadDataset", {S("a"), S("@/n")}, {{"separators", S(",")}, {"startCol", I(1)}, {"maxNumRow", I(1)}}},
    {"loadDataset", {S("b"), S("@/x")}, {}},
    {"loadDataset", {S("b"), S("@/f")}, {{"startCol", I(1)}}},
    {"unloadDataset", {S("a")}, {}},
    {"unloadDataset", {S("b")}, {}},
    {"normalize", {S("a")}, {}},
    {"normalize", {S("b")}, {}},
    {"group", {S("a"), D(0.5)}, {}},
    {"group", {S("a"), I(1), S("manhattan"), I(2)}, {}},
    {"group", {S("b"), D(0.2)}, {{"wholeSeriesOnly", B(true)}}},
    {"group", {S("a"), D(0.5), S("nothing")}, {}},
    {"saveGroups", {S("a"), S("@/g")}, {}},
    {"loadGroups", {S("a"), S("@/g")}, {}},
    {"loadGroups", {S("b"), S("@/g")}, {}},
    {"saveGroupsSize", {S("a"), S("@/s")}, {}},
    {"saveDataset", {S("a"), S("@/d"), S(",")}, {}},
    {"loadDataset", {S("b"), S("@/d"), S(",")}, {}},
    {"preparePAA", {S("a"), I(2)}, {}},
    {"preparePAA", {S("b"), I(0)}, {}},
    {"setWarpingBandRatio", {D(0.5)}, {}},
    {"setWarpingBandRatio", {I(1)}, {}},
    {"ksim", {I(2), I(3), S("a"), S("a"), I(0)}, {{"end", I(3)}, {"start", I(0)}}},
    {"sim", {S("a"), S("b"), I(0), I(0), I(3)}, {}},
    {"group", {S("a"), S("x")}, {}},
    {"normalize", {}, {}},
  };
  std::vector<int> few = {0, 1, 5, 7, 9, 10, 11, 13, 14, 19, 21};
  auto histories = [&](const std::vector<Call>& alphabet, int len) {
    long total = 1; for (int i = 0; i < len; i++) total *= alphabet.size();
    for (long first = 0; first < total; first += 100)
      unit([&] { return cat("histories ", first, "..", std::min(first + 99, total - 1), " of ", len, " of ", alphabet.size(), " calls"); }, [&] {
        startPython();
        for (long code = first; code < std::min(first + 100, total); code++) {
          fresh();
          Model m; std::string h; long c = code; int done = 0;
          auto where = [&] { return " (after" + h + ")"; };
          for (int i = 0; i < len; i++, c /= alphabet.size()) {
            auto& op = alphabet[c % alphabet.size()];
            note(show(op) + h);
            done += both(m, op, where);
            h += " " + show(op);
            counter("transitions"); state(mc::hash(m.key()));
          }
          battery(m, where);
          counter("traces"); counter("queries after a history", 15);
          if (code % 1000 == 77) sample("history" + h);
        }
      });
  };
  histories(ops, 1); histories(ops, 2); histories(ops, 3);
  { std::vector<Call> sm; for (int i : few) sm.push_back(ops[i]); histories(sm, th ? 5 : 4); }

  // many ratios, each with the widest difference of lengths that it allows
  for (int part = 0; part < 8; part++)
    unit([&] { return cat("ratios, part ", part); }, [&] {
      startPython(); fresh();
      std::set<double> ratios;
      for (int j = 1; j <= 30; j++) for (int i = 0; i <= j; i++) for (int side = -1; side <= 1; side++) { double v = (double)i / j; v = side ? std::nextafter(v, side * 2.0) : v; if (v >= 0) ratios.insert(v); }
      std::string rows; for (int i = 1; i <= 31; i++) { for (int k = 0; k < i; k++) rows += " 0"; rows += "\n"; }
      writeFile(scratchPath("py/") + "r", rows);
      MC_REQUIRE(python(Call{"loadDataset", {S("c"), S("@/r")}, {}})[0] == '{', "the rows are not loaded");
      int n = 0;
      for (double r : ratios) {
        if (n++ % 8 != part) continue;
        note(cat("ratio ", real(r)));
        python(Call{"setWarpingBandRatio", {D(r)}, {}});
        for (int len = 1; len <= 31; len++) {
          int b = ref::band(len, len, r);
          auto d = [&](int shorter) { return python(Call{"distance", {S("c"), I(len - 1), I(0), I(len), S("c"), I(shorter - 1), I(0), I(shorter), S("manhattan_dtw")}, {}}); };
          MC_REQUIRE(d(len - b) == "0.0", "ratio ", real(r), " does not allow lengths ", len, " and ", len - b, ": ", d(len - b));
          if (len - b - 1 >= 1) MC_REQUIRE(d(len - b - 1) != "0.0", "ratio ", real(r), " allows lengths ", len, " and ", len - b - 1);
          eval(); nontrivial();
        }
        counter("ratios");
      }
      python(Call{"unloadDataset", {S("c")}, {}});
    });

  // larger data: many results, long series and names
  for (int whole = 0; whole < 2; whole++)
    unit([&] { return cat("larger data, ", whole ? "whole series" : "all lengths"); }, [&] {
      startPython(); fresh();
      std::string text;
      for (int i = 0; i < 12; i++) { text += cat("series", std::string(i * 9, 'x'), i); for (int j = 0; j < (i == 3 ? 60 : 6 + i % 3); j++) text += cat(",", irregular(i, j) * (i == 4 ? 1000 : i == 5 ? 1e-4 : 1)); text += "\n"; }
      for (auto d : {"py/", "md/"}) writeFile(scratchPath(d) + "l", text);
      Model m; std::string h; auto where = [&] { return " (after" + h + ")"; };
      auto run = [&](const Call& c) { note(show(c)); both(m, c, where); counter("transitions"); nontrivial(); if (h.size() < 3000) h += " " + show(c); };
      run({"loadDataset", {S("a"), S("@/l"), S(","), I(0), I(0), B(true)}, {}});
      for (int round = 0; round < 3; round++) {
        for (int i = 0; i < 12; i++) { run({"getTimeSeriesName", {S("a"), I(i)}, {}}); run({"getTimeSeriesLength", {S("a"), I(i)}, {}}); run({"getTimeSeries", {S("a"), I(i)}, {}}); }
        for (double t : {0.0, 0.7, 7.0, 500.0}) {
          run({"group", {S("a"), D(t), S(round == 1 ? "manhattan" : "euclidean"), I(1 + round), B(whole == 1)}, {}});
          for (int k : {1, 9, 33, 65, 129, 257, 100000}) { run({"ksim", {I(k), I(2 * k), S("a"), S("a"), I(0)}, {}}); run({"ksim", {I(k), I(k), S("a"), S("a"), I(3)}, {}}); }
          for (int i = 0; i < 12; i++) run({"sim", {S("a"), S("a"), I(i)}, {}});
          run({"saveGroups", {S("a"), S("@/g")}, {}}); run({"saveGroupsSize", {S("a"), S("@/s")}, {}}); run({"loadGroups", {S("a"), S("@/g")}, {}});
        }
        run({"preparePAA", {S("a"), I(2 + round)}, {}});
        for (int k : {1, 9, 33, 65, 129, 257, 100000}) { run({"ksimbf", {I(k), S("a"), S("a"), I(1)}, {}}); run({"ksimpaa", {I(k), S("a"), S("a"), I(2)}, {}}); }
        for (auto d : {"euclidean_dtw", "cosine_dtw"}) { run({"getMatching", {S("a"), I(3), I(0), I(60), S("a"), I(3), I(2), I(58), S(d)}, {}}); run({"distance", {S("a"), I(3), I(0), I(60), S("a"), I(3), I(2), I(58), S(d)}, {}}); }
        run({"saveDataset", {S("a"), S("@/d"), S(";")}, {}});
        if (round == 0) run({"setWarpingBandRatio", {D(0.3)}, {}});
        run({"normalize", {S("a")}, {}});
      }
      for (auto d : {"py/", "md/"}) unlink((scratchPath(d) + "l").c_str());
    });

  // every function with the product of a few values per argument, and every way to pass them
  for (int sit = 0; sit < 4; sit++)
    for (auto& f : functions())
      unit([&] { return cat("arguments of ", f.first, " in situation ", sit); }, [&] {
        startPython(); fresh();
        auto& ps = f.second;
        Model m; std::string h;
        auto where = [&] { return h; };
        auto setup = [&] {
          h = "";
          auto run = [&](const Call& c) { h += (h.empty() ? " (after " : ", ") + show(c); both(m, c, where); };
          if (sit >= 1) { run(ops[0]); run(ops[1]); }
          if (sit == 2) { run({"group", {S("a"), D(0.5)}, {}}); run({"preparePAA", {S("a"), I(2)}, {}}); run({"group", {S("b"), D(0.3), S("manhattan")}, {}}); run({"saveGroups", {S("a"), S("@/g")}, {}}); }
          if (sit == 3) { run({"normalize", {S("a")}, {}}); run({"group", {S("a"), D(0.2), S("chebyshev"), I(2), B(true)}, {}}); run({"saveGroups", {S("a"), S("@/g")}, {}}); run({"preparePAA", {S("b"), I(1)}, {}}); run({"setWarpingBandRatio", {D(0.6)}, {}}); }
          if (!h.empty()) h += ")";
        };
        setup();
        // values per parameter
        std::vector<std::vector<V>> vals;
        bool wide = ps.size() >= 7;
        for (auto& p : ps) {
          std::string n = p.name;
          if (n == "path") vals.push_back({S("@/f"), S("@/g"), S("@/n"), S("@/none/x"), I(1)});
          else if (n == "separators" || n == "separator") vals.push_back({S(" "), S(","), S(";,"), None()});
          else if (n == "dist" || n == "distanceName" || n == "distance") {
            if (wide && (f.first == "distance" || f.first == "getMatching")) vals.push_back({S("euclidean_dtw"), S("manhattan"), S("cosine_dtw"), S("no"), I(1)});
            else vals.push_back({S("euclidean"), S("manhattan"), S("cosine"), S("no"), I(1)});
          } else if (p.type == 's') vals.push_back(wide ? std::vector<V>{S("a"), S("b"), S("c")} : std::vector<V>{S("a"), S("b"), S("c"), S(""), I(0), None()});
          else if (p.type == 'b') vals.push_back({B(true), B(false), S("x")});
          else if (p.type == 'd') vals.push_back({D(0), D(0.5), I(1), D(-1), D(1e300), S("0.5"), None()});
          else if (n == "threads" || n == "numThreads") vals.push_back({I(1), I(2), I(0), D(1.0), I(-1)});
          else vals.push_back(wide ? std::vector<V>{I(-1), I(0), I(2), I(4)} : std::vector<V>{I(-1), I(0), I(1), I(2), I(4), D(1.0), S("1"), I(4294967296LL), I(-2147483649LL), None(), B(true)});
        }
        long n = 0, total = 1;
        for (auto& v : vals) total *= v.size();
        for (long code = 0; code < total; code++) {
          std::vector<V> a; long c = code;
          for (auto& v : vals) { a.push_back(v[c % v.size()]); c /= v.size(); }
          // all by position; the keyword ones by name; the last ones left out
          std::vector<Call> calls; size_t named = ps.size();
          while (named > 0 && ps[named - 1].keyword) named--;
          calls.push_back(Call{f.first, a, {}});
          if (named < ps.size()) {
            Call k{f.first, std::vector<V>(a.begin(), a.begin() + named), {}};
            for (size_t i = ps.size(); i-- > named;) k.kw.push_back({ps[i].keyword, a[i]});
            calls.push_back(k);
          }
          // left out from the end or singly, for one value of what is left out
          for (size_t cut = 0; cut < ps.size(); cut++) {
            bool firstOnes = true; long cc = code;
            for (size_t i = 0; i < vals.size(); i++) { if (i >= cut && cc % vals[i].size()) firstOnes = false; cc /= vals[i].size(); }
            if (firstOnes && (cut >= named || code < 400)) calls.push_back(Call{f.first, std::vector<V>(a.begin(), a.begin() + cut), {}});
          }
          for (size_t out = named; out < ps.size(); out++) {
            long cc = code; for (size_t i = 0; i < out; i++) cc /= vals[i].size();
            if (cc % vals[out].size()) continue;
            Call k{f.first, std::vector<V>(a.begin(), a.begin() + named), {}};
            for (size_t i = named; i < ps.size(); i++) if (i != out) k.kw.push_back({ps[i].keyword, a[i]});
            calls.push_back(k);
          }
          if (code == 0) {
            auto more = a; more.push_back(I(1)); calls.push_back(Call{f.first, more, {}});
            Call k{f.first, a, {{"nosuchname", I(1)}}}; calls.push_back(k);
          }
          for (auto& k : calls) {
            note(show(k));
            bool changed = both(m, k, where) && (f.first == "loadDataset" || f.first == "unloadDataset" || f.first == "normalize" || f.first == "group" || f.first == "preparePAA" || f.first == "loadGroups" || f.first == "setWarpingBandRatio" || f.first.compare(0, 4, "save") == 0);
            counter("argument_combinations");
            if (changed && (f.first.size() > 4 || ++n % 8 == 0)) { battery(m, [&] { return cat(" (after ", show(k), ")", where()); }); fresh(); m.~Model(); new (&m) Model(); setup(); }
          }
        }
        battery(m, where);
        sample(cat("all argument combinations of ", f.first, " in situation ", sit));
      });
}
