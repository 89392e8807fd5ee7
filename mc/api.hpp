// Helpers to drive the public interface of the library.
#pragma once
#include "mc.hpp"
#include "ref.hpp"
#include <mutex>

#include "Exception.hpp"
#include "GenexAPI.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "TimeSeries.hpp"
#include "distance/Distance.hpp"

namespace mc {

using ref::Seq;
typedef std::vector<Seq> Data;
using genex::GenexAPI;
using genex::GenexException;

inline std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }

inline std::string toText(const Data& d, char sep = ' ') {
  std::string s;
  for (auto& row : d) {
    for (size_t i = 0; i < row.size(); i++) { if (i) s += sep; s += num(row[i]); }
    s += '\n';
  }
  return s;
}
inline std::string show(const Data& d) {
  std::string s;
  for (size_t i = 0; i < d.size(); i++) s += (i ? ";" : "") + vec(d[i]);
  return "{" + s + "}";
}
inline size_t maxLen(const Data& d) { size_t m = 0; for (auto& r : d) m = std::max(m, r.size()); return m; }

inline void load(GenexAPI& api, const std::string& name, const Data& d) {
  std::string p = scratchPath("ds_" + name + ".txt");
  writeFile(p, toText(d));
  api.loadDataset(name, p, " ");
}

inline Seq values(const genex::TimeSeries& t) {
  Seq s; for (int i = 0; i < t.getLength(); i++) s.push_back(t[i]); return s;
}
inline Seq sub(const Data& d, int i, int s, int e) { return Seq(d[i].begin() + s, d[i].begin() + e); }

struct Sub { int idx, start, len; };
inline bool operator<(const Sub& a, const Sub& b) {
  return std::tie(a.len, a.idx, a.start) < std::tie(b.len, b.idx, b.start);
}
inline bool operator==(const Sub& a, const Sub& b) { return a.len == b.len && a.idx == b.idx && a.start == b.start; }
inline std::string show(const Sub& s) { return cat("(", s.idx, ",", s.start, ",", s.start + s.len, ")"); }

inline std::vector<Sub> allSubs(const Data& d, int minLen, int onlyLen = -1) {
  std::vector<Sub> v;
  for (int i = 0; i < (int)d.size(); i++)
    for (int L = minLen; L <= (int)d[i].size(); L++)
      if (onlyLen < 0 || L == onlyLen)
        for (int s = 0; s + L <= (int)d[i].size(); s++) v.push_back(Sub{i, s, L});
  return v;
}

struct GroupRec { Seq rep; std::vector<std::pair<int, int>> members; };
struct Groups {
  int version = 0, items = 0, length = 0, from = 0, to = 0;
  double threshold = 0;
  std::string distance;
  std::map<int, std::vector<GroupRec>> byLen;
  long total() const { long n = 0; for (auto& p : byLen) n += p.second.size(); return n; }
};

// Reads the documented text form of the groups.
inline Groups parseGroups(const std::string& text) {
  std::istringstream in(text);
  Groups g;
  auto need = [&](bool ok, const char* what) { if (!ok) fail(cat("group listing is malformed: ", what, "\n", text.substr(0, 400))); };
  need(bool(in >> g.version >> g.threshold >> g.items >> g.length), "header");
  need(bool(in >> g.from >> g.to >> g.distance), "range");
  for (int L = g.from; L < g.to; L++) {
    long n; need(bool(in >> n) && n >= 0, "number of groups");
    auto& v = g.byLen[L];
    for (long i = 0; i < n; i++) {
      GroupRec r;
      r.rep.resize(L);
      for (auto& x : r.rep) need(bool(in >> x), "representative");
      long cnt; need(bool(in >> cnt) && cnt >= 0, "member count");
      for (long k = 0; k < cnt; k++) { int a, b; need(bool(in >> a >> b), "member"); r.members.push_back({a, b}); }
      v.push_back(r);
    }
  }
  std::string rest; need(!(in >> rest), "trailing text");
  return g;
}

inline Groups groupsOf(GenexAPI& api, const std::string& name) {
  std::string p = scratchPath("listing.txt");
  api.saveGroupsOld(name, p, false);
  return parseGroups(readFile(p));
}

// Equality of groupings regardless of the order of groups and members.
inline std::string canonical(const Groups& g, bool withRep = true) {
  std::vector<std::string> all;
  for (auto& p : g.byLen)
    for (auto& r : p.second) {
      auto m = r.members; std::sort(m.begin(), m.end());
      std::ostringstream os; os.precision(12);
      os << p.first << ":";
      for (auto& x : m) os << " " << x.first << "," << x.second;
      if (withRep) { os << " |"; for (double v : r.rep) os << " " << v + 0.0; }   // -0 is 0
      all.push_back(os.str());
    }
  std::sort(all.begin(), all.end());
  std::string s = cat(g.items, " ", g.length, " ", g.distance, " ", g.from, "-", g.to, " th=", g.threshold, "\n");
  for (auto& x : all) s += x + "\n";
  return s;
}

template <class F> bool throwsGenex(F f, std::string* what = nullptr) {
  try { f(); } catch (GenexException& e) { if (what) *what = e.what(); return true; }
  return false;
}
template <class F> bool throwsStd(F f, std::string* what = nullptr) {
  try { f(); } catch (Violation&) { throw; } catch (std::exception& e) { if (what) *what = e.what(); return true; }
  return false;
}

// Collects or drops what is printed, also by several threads at once.
struct Sink : std::streambuf {
  std::mutex lock; std::string text; bool keep;
  explicit Sink(bool keep) : keep(keep) {}
  int overflow(int c) override { if (keep && c != EOF) { std::lock_guard<std::mutex> l(lock); text += (char)c; } return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { if (keep) { std::lock_guard<std::mutex> l(lock); text.append(s, n); } return n; }
};

// Swallows what the library prints.
struct Quiet {
  Sink sink; std::streambuf* old;
  Quiet() : sink(false), old(std::cout.rdbuf(&sink)) {}
  ~Quiet() { std::cout.rdbuf(old); }
};

} // namespace mc
