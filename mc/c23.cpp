// C23: sequences of operations on sequences, compared with a model.
#include "api.hpp"
#include <climits>
#include <memory>

namespace {

using namespace mc;
using genex::TimeSeries;

// ---- model -------------------------------------------------------------------------------------

// A sequence is a window of a buffer. Copies of owned data get a buffer of their own.
struct M {
  std::shared_ptr<Seq> buf; bool owned = true, gone = false;
  int index = 0, start = 0, end = 0;
  bool cached = false, unsure = false;       // an envelope was computed; values changed behind its back
  int len() const { return end - start; }
  double& at(int i) { return (*buf)[start + i]; }
  Seq vals() const { return Seq(buf->begin() + start, buf->begin() + end); }
};

struct World {
  std::vector<double> x;                                  // memory of borrowed sequences
  std::vector<std::unique_ptr<TimeSeries>> real;
  std::vector<M> model;
  std::shared_ptr<Seq> xm;
};

enum Kind { ASSIGN, MOVE, COPY, ADD, WRITE, ENVELOPE, COMPARE, KINDS };
struct Op { Kind kind; int i, j; };
std::string show(const Op& o) {
  const char* n[] = {"assign", "move", "copy", "add", "write", "envelope", "compare"};
  return o.kind == WRITE ? cat("s", o.i, "[", o.j, "] = ..") : o.kind == ENVELOPE ? cat("envelope of s", o.i, " for band ", o.j) : cat(n[o.kind], " s", o.j, o.kind == ADD || o.kind == COMPARE ? " and s" : " to s", o.i);
}
std::string show(const std::vector<Op>& h) { std::string s; for (auto& o : h) s += (s.empty() ? "" : "; ") + show(o); return s; }

struct Slot { bool owned; int index, start, end; };
typedef std::vector<Slot> Config;
std::string show(const Config& c) { std::string s; for (auto& x : c) s += cat(x.owned ? " owned(" : " borrowed(", x.start, ",", x.end, ")"); return s; }

void create(World& w, const Config& c) {
  w.x = {4, 1, 3, -2, 6, 0.5, 2};
  w.xm = std::make_shared<Seq>(w.x);
  int n = 0;
  for (auto& s : c) {
    M m; m.owned = s.owned;
    if (s.owned) {
      int len = s.end - s.start;
      w.real.emplace_back(new TimeSeries(len));
      m.buf = std::make_shared<Seq>(len); m.end = len;
      for (int i = 0; i < len; i++) { (*w.real.back())[i] = m.at(i) = n * 3 + i * i - 1.5 * i; }
    } else {
      w.real.emplace_back(new TimeSeries(w.x.data(), s.index, s.start, s.end));
      m.buf = w.xm; m.index = s.index; m.start = s.start; m.end = s.end;
    }
    w.model.push_back(m);
    n++;
  }
}

void touched(World& w, const std::shared_ptr<Seq>& b, int except) {
  for (size_t k = 0; k < w.model.size(); k++) if ((int)k != except && w.model[k].buf == b && w.model[k].cached) w.model[k].unsure = true;
}

template <class W> void checkEnvelope(World& w, int i, int band, const W& where) {
  M& m = w.model[i];
  const double *lo = w.real[i]->getKeoghLower(band), *up = w.real[i]->getKeoghUpper(band);
  m.cached = true;
  if (m.unsure) return;
  for (int k = 0; k < m.len(); k++) {
    double a = m.at(k), b = m.at(k);
    for (int t = std::max(0, k - band); t <= std::min(m.len() - 1, k + band); t++) { a = std::min(a, m.at(t)); b = std::max(b, m.at(t)); }
    MC_REQUIRE(lo[k] == a && up[k] == b, "the envelope of s", i, " for band ", band, " at ", k, " is ", lo[k], "..", up[k], " instead of ", a, "..", b, where());
  }
}

bool eq(const M& a, const M& b) {
  if (a.len() != b.len()) return false;
  for (int i = 0; i < a.len(); i++) if (std::fabs(a.vals()[i] - b.vals()[i]) > 1e-9) return false;
  return true;
}

// Whether the operation makes sense here.
bool allowed(World& w, const Op& o) {
  M &a = w.model[o.i];
  switch (o.kind) {
    case ASSIGN: case MOVE: case COPY: return !w.model[o.j].gone;
    case ADD: {
      if (a.gone || w.model[o.j].gone) return false;
      M& b = w.model[o.j];
      bool overlap = a.buf == b.buf && a.start != b.start && a.start < b.end && b.start < a.end;
      return !overlap;
    }
    case COMPARE: return !a.gone && !w.model[o.j].gone;
    default: return !a.gone;
  }
}

template <class W> void apply(World& w, const Op& o, const W& where) {
  M& a = w.model[o.i];
  TimeSeries& r = *w.real[o.i];
  switch (o.kind) {
    case ASSIGN: case COPY: {
      M b = w.model[o.j];
      if (o.kind == ASSIGN) { TimeSeries& back = (r = *w.real[o.j]); MC_REQUIRE(&back == &r, "assignment returns another object", where()); }
      else { std::unique_ptr<TimeSeries> c(new TimeSeries(*w.real[o.j])); w.real[o.i] = std::move(c); }
      if (o.i == o.j && o.kind == ASSIGN) break;
      if (b.owned) b.buf = std::make_shared<Seq>(*b.buf);
      b.cached = b.unsure = false;
      a = b;
      break;
    }
    case MOVE: {
      M b = w.model[o.j];
      r = std::move(*w.real[o.j]);
      if (o.i == o.j) break;
      b.cached = b.unsure = false;
      a = b;
      w.model[o.j].gone = true; w.model[o.j].buf = nullptr;
      break;
    }
    case ADD: {
      M& b = w.model[o.j];
      bool refused = throwsGenex([&] { r += *w.real[o.j]; });
      MC_REQUIRE(refused == (a.len() != b.len()), refused ? "addition of equal lengths was refused" : "addition of different lengths was accepted", where());
      if (refused) break;
      Seq v = b.vals();
      for (int k = 0; k < a.len(); k++) a.at(k) += v[k];
      a.unsure = false; a.cached = false;
      touched(w, a.buf, o.i);
      break;
    }
    case WRITE: {
      int k = o.j < 0 ? a.len() - 1 : std::min(o.j, a.len() - 1);
      r[k] = a.at(k) = a.at(k) * 0.5 + 7;
      touched(w, a.buf, -1);
      break;
    }
    case ENVELOPE: checkEnvelope(w, o.i, o.j, where); break;
    case COMPARE: MC_REQUIRE((r == *w.real[o.j]) == eq(a, w.model[o.j]), "s", o.i, " == s", o.j, " is wrong", where()); break;
    default: break;
  }
}

template <class W> void checkAll(World& w, const W& where) {
  for (size_t i = 0; i < w.model.size(); i++) {
    M& m = w.model[i];
    if (m.gone) continue;
    TimeSeries& r = *w.real[i];
    MC_REQUIRE(r.getLength() == m.len() && r.getIndex() == m.index && r.getStart() == m.start && r.getEnd() == m.end, "s", i, " is ", r.getIndex(), " [", r.getStart(), ",", r.getEnd(), ") of length ", r.getLength(), where());
    double sum = 0;
    for (int k = 0; k < m.len(); k++) { MC_REQUIRE(r[k] == m.at(k), "s", i, " is ", vec(values(r)), " instead of ", vec(m.vals()), where()); sum += m.at(k); }
    MC_REQUIRE(ref::close(r.average(), sum / m.len(), 1e-12), "the average of s", i, " is ", r.average(), " instead of ", sum / m.len(), where());
    for (size_t j = 0; j < w.model.size(); j++) if (!w.model[j].gone) MC_REQUIRE((r == *w.real[j]) == eq(m, w.model[j]), "s", i, " == s", j, " is wrong", where());
  }
  for (size_t i = 0; i < w.model.size(); i++) if (!w.model[i].gone) for (int band : {1, 0, 2}) checkEnvelope(w, i, band, where);
  MC_REQUIRE(w.x == *w.xm, "the memory of borrowed sequences is ", vec(w.x), " instead of ", vec(*w.xm), where());
}

long skipped = 0;
bool run(const Config& c, const std::vector<Op>& h) {
  World w; create(w, c);
  auto where = [&] { return cat("\n  s0.. =", show(c), "; ", show(h)); };
  bool interesting = false;
  for (auto& o : h) {
    if (!allowed(w, o)) return false;
    apply(w, o, where);
    interesting |= o.kind != ENVELOPE && o.kind != COMPARE;
  }
  checkAll(w, where);
  eval(); if (interesting) nontrivial();
  return true;
}

std::vector<Op> alphabet(int slots, bool rich) {
  std::vector<Op> v;
  for (int i = 0; i < slots; i++) {
    for (int j = 0; j < slots; j++) { v.push_back({ASSIGN, i, j}); if (i != j) { v.push_back({MOVE, i, j}); v.push_back({COPY, i, j}); } v.push_back({ADD, i, j}); if (rich && i < j) v.push_back({COMPARE, i, j}); }
    if (rich) { v.push_back({COPY, i, i}); v.push_back({MOVE, i, i}); }
    v.push_back({WRITE, i, 0}); if (rich) v.push_back({WRITE, i, -1});
    v.push_back({ENVELOPE, i, 1}); if (rich || slots < 3) v.push_back({ENVELOPE, i, 0});
  }
  return v;
}

const Slot O3 = {true, 0, 0, 3}, O2 = {true, 0, 0, 2}, O1 = {true, 0, 0, 1}, B14 = {false, 2, 1, 4}, B25 = {false, 2, 2, 5}, B47 = {false, 5, 4, 7}, B03 = {false, 1, 0, 3};

void all(const Config& c, const std::vector<Op>& ops, int depth) {
  for (auto& a : ops) for (auto& b : ops)
    unit([&] { return cat("all sequences of ", depth, " operations from ", ops.size(), " on", show(c), " starting with ", show(std::vector<Op>{a, b})); }, [&] {
      std::vector<Op> h = {a, b};
      std::function<void()> rec = [&] {
        note(show(h));
        if (!run(c, h)) return;
        if ((int)h.size() == depth) return;
        for (auto& o : ops) { h.push_back(o); rec(); h.pop_back(); }
      };
      rec();
      sample(cat(show(c), ": ", show(h)));
    });
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  std::vector<Config> triples = {{O3, O3, B14}, {O2, O3, B25}, {B14, B25, O3}, {O1, B47, B03}, {B14, B14, O2}};
  for (size_t i = 0; i < triples.size(); i++) {
    all(triples[i], alphabet(3, true), 3);
    if (th || i < 3) all(triples[i], alphabet(3, false), 4);
  }
  for (auto& c : std::vector<Config>{{O3, O2}, {O3, O3}, {O3, B14}, {B14, B47}, {O1, B25}}) all(c, alphabet(2, false), th ? 6 : 5);
  // equality of every pair of short sequences with every kind of small difference
  const double diff[] = {0, 5e-10, -5e-10, 9.9e-10, 1.01e-9, -1.01e-9, 2e-9, 1, -1};
  for (int la = 0; la <= 3; la++) for (int lb = 0; lb <= 3; lb++) for (int kinds = 0; kinds < 9; kinds++)
    unit([&] { return cat("equality of lengths ", la, " and ", lb, " of kinds ", kinds); }, [&] {
      std::vector<int> d(lb, 0);
      while (true) {
        Seq base = {9, 1, -2, 3, 9}, xa(base), xb(base);
        Seq a(la), b(lb);
        for (int i = 0; i < la; i++) a[i] = i == 0 ? 0.5 : i;
        for (int i = 0; i < lb; i++) b[i] = (i == 0 ? 0.5 : i) + diff[d[i]];
        auto make = [&](const Seq& v, int kind, Seq& x) {
          if (kind == 0) { TimeSeries* t = new TimeSeries((int)v.size()); for (size_t i = 0; i < v.size(); i++) (*t)[i] = v[i]; return t; }
          int off = kind == 1 ? 0 : 2;
          for (size_t i = 0; i < v.size(); i++) x[off + i] = v[i];
          return new TimeSeries(x.data(), 0, off, off + v.size());
        };
        std::unique_ptr<TimeSeries> p(make(a, kinds / 3, xa)), q(make(b, kinds % 3, xb));
        bool want = la == lb;
        for (int i = 0; i < std::min(la, lb); i++) want &= std::fabs(a[i] - b[i]) <= 1e-9;
        MC_REQUIRE((*p == *q) == want && (*q == *p) == want, vec(a), " and ", vec(b), " compare ", *p == *q, " and ", *q == *p);
        eval(); if (la == lb) nontrivial();
        int k = lb - 1;
        while (k >= 0 && ++d[k] == 9) d[k--] = 0;
        if (k < 0) break;
      }
    });
  // long sequences: a difference in any single place, copies, assignments and sums
  for (int n : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600})
    unit([&] { return cat("sequences of length ", n); }, [&] {
      Seq v(n); for (int i = 0; i < n; i++) v[i] = i * 1.25 - i % 7;
      for (int owned = 0; owned < 2; owned++) for (int at = 0; at < n; at++) {
        Seq base = v, other = v; other[at] += 0.5;
        TimeSeries t(n); if (owned) for (int i = 0; i < n; i++) t[i] = v[i]; else t = TimeSeries(base.data(), 0, 0, n);
        TimeSeries u(other.data(), 0, 0, n), c(u), e(v.data(), 0, 0, n);
        MC_REQUIRE(!(t == u) && !(u == t) && !(t == c), "sequences of length ", n, " that differ in place ", at, " are equal");
        MC_REQUIRE(t == e && e == t && u == c, "equal sequences of length ", n, " are different");
        t = u;
        MC_REQUIRE(values(t) == other && values(c) == other && t == u, "a copied sequence of length ", n, " differs");
        eval(3); nontrivial();
      }
      TimeSeries s(n), e(v.data(), 0, 0, n); for (int i = 0; i < n; i++) s[i] = 1000 + i;
      s += e;
      for (int i = 0; i < n; i++) MC_REQUIRE(s[i] == 1000 + i + v[i], "element ", i, " of a sum of length ", n, " is ", s[i]);
      TimeSeries w(s), m(std::move(w));
      MC_REQUIRE(m == s && values(m) == values(s), "a moved sequence of length ", n, " differs");
      eval(2); nontrivial();
    });
  // elements outside the sequence, sums of different lengths
  unit([] { return std::string("elements outside the sequence"); }, [&] {
    Seq x = {1, 2, 3, 4, 5};
    for (int len = 0; len <= 3; len++) for (int start = 0; start <= 1; start++) for (int owned = 0; owned < 2; owned++) {
      TimeSeries t = owned ? TimeSeries(len) : TimeSeries(x.data(), 0, start, start + len);
      for (long k : {(long)INT_MIN, -2l, -1l, 0l, 1l, 2l, 3l, 4l, 5l, 1000l, (long)INT_MAX}) {
        bool refused = throwsGenex([&] { volatile double v = t[(int)k]; (void)v; });
        MC_REQUIRE(refused == (k < 0 || k >= len), "element ", k, " of a sequence of length ", len, refused ? " is refused" : " is accepted");
        eval(); nontrivial();
      }
      for (int other = 0; other <= 4; other++) {
        Seq before = values(t);
        TimeSeries u(other); for (int i = 0; i < other; i++) u[i] = 10 + i;
        bool refused = throwsGenex([&] { t += u; });
        MC_REQUIRE(refused == (other != len), "adding lengths ", len, " and ", other);
        for (int i = 0; i < len; i++) { MC_REQUIRE(t[i] == before[i] + (refused ? 0 : 10 + i), "sum of lengths ", len, " and ", other, " is wrong"); t[i] = before[i]; }
        eval(); nontrivial();
      }
    }
  });
}
