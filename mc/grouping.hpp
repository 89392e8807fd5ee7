// The space of small datasets and grouping options shared by several checks.
#pragma once
#include "api.hpp"

namespace mc {

struct Opt { ref::Metric metric; double threshold; bool whole; int threads; };
inline std::string show(const Opt& o) {
  return cat(ref::name(o.metric), " threshold ", o.threshold, o.whole ? " whole-series" : "", " threads ", o.threads);
}

// All row-length vectors with 1..maxRows rows, each minLen.., and given total number of values.
inline void shapes(int total, int maxRows, int minLen, std::vector<int>& cur, std::vector<std::vector<int>>& out) {
  if (!cur.empty() && total == 0) out.push_back(cur);
  if ((int)cur.size() == maxRows) return;
  for (int l = minLen; l <= total; l++) { cur.push_back(l); shapes(total - l, maxRows, minLen, cur, out); cur.pop_back(); }
}
inline std::vector<std::vector<int>> shapesOf(int total, int maxRows, int minLen = 1) {
  std::vector<std::vector<int>> out; std::vector<int> cur;
  shapes(total, maxRows, minLen, cur, out);
  return out;
}
inline Data fill(const std::vector<int>& shape, const Seq& flat) {
  Data d; size_t k = 0;
  for (int l : shape) { d.push_back(Seq(flat.begin() + k, flat.begin() + k + l)); k += l; }
  return d;
}

// Larger datasets with structured values.
inline std::vector<Data> structured(bool th) {
  using ref::pattern;
  std::vector<Data> v;
  // every shape of two rows up to 7 points
  for (int a = 1; a <= 7; a++) for (int b = 1; b <= 7; b++) v.push_back({pattern(3, a, b), pattern(8, b, a)});
  // rows without values
  v.push_back({{}, {1, 2, 3}}); v.push_back({{1, 2, 0}, {}}); v.push_back({{1}, {}, {2, 1}});
  for (int n : {9, 12, 17}) for (int len : {3, 5, 10}) {
    Data d; for (int i = 0; i < n; i++) d.push_back(pattern(i % ref::PATTERNS, i % 3 == 2 ? len : std::max(1, len - i % 3), i));
    v.push_back(d);
  }
  for (int n = 3; n <= 5; n++) for (int len = 6; len <= (th ? 16 : 12); len += 3) {
    Data d; for (int i = 0; i < n; i++) d.push_back(pattern((i * 3 + len) % ref::PATTERNS, len - (i == 1) * 2, i + len));
    v.push_back(d);
  }
  { Data d; for (int i = 0; i < 3; i++) d.push_back(pattern(7, 24 - i, i)); v.push_back(d); }     // many starts with two digits
  { Data d; for (int i = 0; i < 4; i++) d.push_back(pattern(5, 5)); v.push_back(d); }              // all equal
  { Data d; for (int i = 0; i < 120; i++) d.push_back({double(i % 7), double(i % 5), double(i % 3)}); v.push_back(d); }  // three-digit indices
  return v;
}

// Datasets far larger than those enumerated, for what only starts with many series, many
// groups, many members or long subsequences. The values have no accidental ties.
inline double irregular(int i, int j) { return ((i * 7919 + j * 104729 + i * j * 31 + j * j * 17) % 9973) / 97.0; }
struct Large { std::string name; Data d; };
inline std::vector<Large> large(bool th, int longest = 80) {
  std::vector<Large> v;
  { Data d;                                                        // hundreds of groups; later rows are near an early one
    for (int i = 0; i < 300; i++) { int k = i % 150; Seq s; for (int j = 0; j < 2 + k % 2 + (k == 149); j++) s.push_back(irregular(k, j) + (i >= 150) * 0.01); d.push_back(s); }
    v.push_back({"300 short rows, later ones near earlier ones", d}); }
  { Data d; for (int i = 0; i < 2; i++) { Seq s; for (int j = 0; j < longest + th * 20 - 7 * i; j++) s.push_back(irregular(i, j)); d.push_back(s); }
    v.push_back({"two long rows", d}); }
  { Data d; for (int i = 0; i < 18; i++) { Seq s; for (int j = 0; j < 3 + i; j++) s.push_back(irregular(i, j) / 20); d.push_back(s); }
    v.push_back({"18 rows, each longer than the one before", d}); }
  { Data d; for (int i = 0; i < 18; i++) { Seq s; for (int j = 0; j < 20 - i; j++) s.push_back(irregular(i % 5, j) / 20 + i * 0.003); d.push_back(s); }
    v.push_back({"18 rows, each shorter than the one before", d}); }
  return v;
}
// Positions and numbers of series, members and groups that do not fit in one or two bytes.
inline std::vector<Large> huge() {
  std::vector<Large> v;
  { Data d; for (int i = 0; i < 2; i++) { Seq s; for (int j = 0; j < 290 - 20 * i; j++) s.push_back(irregular(i, j) / 50); d.push_back(s); }
    v.push_back({"rows with more than 256 points", d}); }
  { Data d; for (int i = 0; i < 66000; i++) d.push_back(i % 1000 == 7 ? Seq{double(i % 3)} : Seq{double(i % 4), double(i / 3 % 3)});
    v.push_back({"more than 65536 rows", d}); }
  { Data d; for (int i = 0; i < 700; i++) d.push_back({double(i), double(i % 2)});
    v.push_back({"more than 256 groups of one length", d}); }
  return v;
}
inline size_t points(const Data& d) { size_t n = 0; for (auto& r : d) n += r.size(); return n; }

// f(api with the dataset loaded as "g", large dataset, metric), one unit each
template <class F> void forLarge(F f, int longest = 80) {
  for (auto& l : large(ctx().thorough(), longest))
    for (ref::Metric m : ref::ALL)
      unit([&] { return cat(l.name, ", ", ref::name(m)); }, [&] {
        GenexAPI api; mc::load(api, "g", l.d);
        f(api, l, m);
        sample(cat(l.name, " (", l.d.size(), " rows, ", points(l.d), " values), ", ref::name(m)));
      });
}

// f(api with the dataset loaded as "g", dataset) once per dataset
template <class F> void forDatasets(int total, int maxRows, const Seq& alphabet, bool patterns, F f) {
  for (int t = 1; t <= total; t++)
    for (auto& sh : shapesOf(t, maxRows)) {
      // units are blocks of datasets of one shape
      std::vector<Seq> block;
      auto flush = [&] {
        if (block.empty()) return;
        unit([&] { return cat(block.size(), " datasets from ", show(fill(sh, block[0]))); }, [&] {
          for (auto& flat : block) {
            Data d = fill(sh, flat);
            GenexAPI api; mc::load(api, "g", d);
            note(show(d));
            f(api, d);
          }
          sample(show(fill(sh, block[block.size() / 2])));
        });
        block.clear();
      };
      ref::sequences(t, alphabet, [&](const Seq& s) { block.push_back(s); if (block.size() == 9) flush(); });
      flush();
    }
  if (patterns)
    for (auto& d : structured(ctx().thorough()))
      unit([&] { return "dataset " + show(d); }, [&] {
        GenexAPI api; mc::load(api, "g", d);
        f(api, d);
      });
}

} // namespace mc
