// Oracles for similarity queries, computed from the data and the listed groups.
#pragma once
#include "grouping.hpp"

namespace mc {

// The possible exact warped distances between two sequences: one value for the three
// true distances; for cosine and sorensen the library's own value in either argument
// order (their value depends on tie-breaking and is decided by C02).
struct Exact {
  double qx, xq;    // distance(query, x) and distance(x, query)
  bool matches(double v) const { return ref::close(v, qx) || ref::close(v, xq); }
  double lo() const { return std::min(qx, xq); }
  double hi() const { return std::max(qx, xq); }
};

inline bool trueMetric(ref::Metric m) { return m == ref::EUC || m == ref::MAN || m == ref::CHE; }

inline Exact exact(ref::Metric m, const Seq& q, const Seq& x, double ratio) {
  if (trueMetric(m)) {
    double d = ref::dtw(m, q, x, ref::band(q.size(), x.size(), ratio));
    return Exact{d, d};
  }
  Seq bq = q, bx = x;
  genex::TimeSeries a(bq.data(), 0, 0, bq.size()), b(bx.data(), 0, 0, bx.size());
  auto f = genex::getDistanceFromName(std::string(ref::name(m)) + "_dtw");
  return Exact{f(a, b, ref::INFTY, genex::gNoMatching), f(b, a, ref::INFTY, genex::gNoMatching)};
}

struct GroupView {
  int len; Seq rep; std::vector<Sub> members;
  Exact repDist; std::vector<Exact> dist;
};

// All groups of lengths that the query can reach within the band.
inline std::vector<GroupView> reachable(const Groups& g, const Data& d, const Seq& q, ref::Metric m, double ratio, bool memberDist = true) {
  std::vector<GroupView> v;
  int n = q.size();
  for (auto& p : g.byLen) {
    int L = p.first;
    if (std::abs(L - n) > ref::band(L, n, ratio)) continue;
    for (auto& r : p.second) {
      GroupView x; x.len = L;
      for (auto& mm : r.members) x.members.push_back(Sub{mm.first, mm.second, L});
      if (x.members.empty()) continue;
      auto first = x.members[0];
      for (auto& s : x.members) if (std::tie(s.start, s.idx) < std::tie(first.start, first.idx)) first = s;
      x.rep = sub(d, first.idx, first.start, first.start + L);
      x.repDist = exact(m, q, x.rep, ratio);
      if (memberDist) for (auto& s : x.members) x.dist.push_back(exact(m, q, sub(d, s.idx, s.start, s.start + L), ratio));
      v.push_back(x);
    }
  }
  return v;
}

inline Sub subOf(const genex::TimeSeries& t) { return Sub{t.getIndex(), t.getStart(), t.getLength()}; }

// A returned candidate refers to an existing subsequence of d with the right values.
template <class W> void checkExists(const genex::candidate_time_series_t& c, const Data& d, const W& where) {
  Sub s = subOf(c.data);
  MC_REQUIRE(s.idx >= 0 && s.idx < (int)d.size() && s.start >= 0 && s.len >= 1 && s.start + s.len <= (int)d[s.idx].size(),
             "result ", show(s), " does not exist", where());
  MC_REQUIRE(c.data.getEnd() == s.start + s.len, "result ", show(s), " reports end ", c.data.getEnd(), where());
  Seq want = sub(d, s.idx, s.start, s.start + s.len);
  MC_REQUIRE(values(c.data) == want, "result ", show(s), " has values ", vec(values(c.data)), ", expected ", vec(want), where());
}

struct Query { std::string ds; int idx, start, end; Seq v; };
inline std::string show(const Query& q) { return cat("query ", q.ds, "[", q.idx, "] ", q.start, "-", q.end, " ", vec(q.v)); }

inline std::vector<Query> queriesOf(const std::string& ds, const Data& d) {
  std::vector<Query> v;
  for (auto& s : allSubs(d, 1)) v.push_back(Query{ds, s.idx, s.start, s.start + s.len, sub(d, s.idx, s.start, s.start + s.len)});
  return v;
}

// Queries for the large datasets: long and short, from the data and from elsewhere.
inline Data largeQueries() {
  Seq s; for (int j = 0; j < 45; j++) s.push_back(irregular(29, 3 * j) / 7);
  return {s};
}
// All series of five points over two values: every query is asked after every other one.
inline Data alikeQueries() { Data q; ref::sequences(5, {0, 2}, [&](const Seq& s) { q.push_back(s); }); return q; }
inline Data alikeTarget() { return {{0, 2, 0, 1, 2, 2, 0}, {1, 0, 2, 2}}; }
template <class F> void afterEachOther(F f) {
  Data q = alikeQueries();
  auto query = [&](int i) { return Query{"q", i, 0, 5, q[i]}; };
  for (int a = 0; a < (int)q.size(); a++) for (int b = 0; b < (int)q.size(); b++) { f(query(a)); f(query(b)); }
}

// One long series and a short one, with queries that only reach long subsequences.
inline Data longRows() {
  Data d(2);
  for (int j = 0; j < 136; j++) d[0].push_back(irregular(3, j) / 20 + (j % 17) * 0.5);
  for (int j = 0; j < 5; j++) d[1].push_back(irregular(4, j) / 20);
  return d;
}
inline std::vector<Query> longQueries(const Data& d) {
  std::vector<Query> v;
  for (auto& p : std::vector<std::pair<int, int>>{{0, 118}, {3, 131}, {0, 136}, {30, 134}}) v.push_back(Query{"g", 0, p.first, p.second, sub(d, 0, p.first, p.second)});
  Seq q = sub(d, 0, 2, 126); for (size_t i = 0; i < q.size(); i++) q[i] += (i % 5) * 0.03;
  v.push_back(Query{"q", 0, 0, (int)q.size(), q});
  return v;
}

inline std::vector<Query> largeQueriesFor(const Large& l) {
  std::vector<Query> v;
  Data q = largeQueries();
  for (int n : {2, 3, 11, 19, 36}) v.push_back(Query{"q", 0, n % 5, n % 5 + n, sub(q, 0, n % 5, n % 5 + n)});
  int r = l.d.size() - 1, len = l.d[r].size();
  v.push_back(Query{"g", r, 0, len, sub(l.d, r, 0, len)});
  r = l.d.size() / 2; len = l.d[r].size();
  if (len > 6) v.push_back(Query{"g", r, len / 3, len - 1, sub(l.d, r, len / 3, len - 1)});
  return v;
}

} // namespace mc
