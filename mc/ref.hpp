// Reference definitions, written for clarity and independent of the library.
#pragma once
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <utility>
#include <vector>

// reference code needs no instrumentation
#define MC_PLAIN __attribute__((no_sanitize("address", "undefined")))

namespace ref {

typedef std::vector<double> Seq;
typedef long double L;
const double INFTY = std::numeric_limits<double>::infinity();

enum Metric { EUC, MAN, CHE, COS, SOR };
inline const char* name(Metric m) {
  static const char* n[] = {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"};
  return n[m];
}
const Metric ALL[] = {EUC, MAN, CHE, COS, SOR};

inline bool close(double a, double b, double tol = 1e-9, double scale = 1) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * (scale + std::max(std::fabs(a), std::fabs(b)));
}
// a is less than b by more than rounding
inline bool below(double a, double b, double tol = 1e-9) { return a < b && !close(a, b, tol); }

inline double pairwise(Metric m, const Seq& x, const Seq& y) {
  size_t n = x.size();
  L s = 0, s1 = 0, s2 = 0, s3 = 0, mx = -INFTY;
  for (size_t i = 0; i < n; i++) {
    L d = (L)x[i] - (L)y[i];
    switch (m) {
      case EUC: s += d * d; break;
      case MAN: s += fabsl(d); break;
      case CHE: mx = std::max(mx, fabsl(d)); break;
      case COS: s1 += (L)x[i] * x[i]; s2 += (L)y[i] * y[i]; s3 += (L)x[i] * y[i]; break;
      case SOR: s1 += fabsl(d); s2 += fabsl((L)x[i] + (L)y[i]); break;
    }
  }
  switch (m) {
    case EUC: return (double)sqrtl(s / n);
    case MAN: return (double)(s / n);
    case CHE: return (double)mx;
    case COS: return s1 * s2 == 0 ? 0 : (double)(s3 / sqrtl(s1 * s2));
    default:  return s1 == 0 ? 0 : (double)(s1 / s2);
  }
}

inline int band(int m, int n, double ratio) {
  int mx = std::max(m, n);
  return mx * ratio >= mx ? mx - 1 : (int)std::floor(mx * ratio);
}

inline double norm(Metric m, L total, int mx) {
  if (m == EUC) return (double)(sqrtl(total) / (2 * mx));
  if (m == MAN) return (double)(total / (2 * mx));
  return (double)total;
}
inline L pointCost(Metric m, double a, double b) {
  L d = (L)a - (L)b;
  return m == EUC ? d * d : fabsl(d);
}

// Minimum over all in-band alignments by the textbook recurrence.
MC_PLAIN inline double dtw(Metric me, const Seq& x, const Seq& y, int r) {
  int m = x.size(), n = y.size(), w = n + 1;
  const L inf = std::numeric_limits<L>::infinity();
  static std::vector<L> buf;
  if ((int)buf.size() < (m + 1) * w) buf.resize((m + 1) * w);
  L* c = buf.data();
  const double *px = x.data(), *py = y.data();
  for (int k = 0; k < (m + 1) * w; k++) c[k] = inf;
  for (int i = 1; i <= m; i++)
    for (int j = 1; j <= n; j++) {
      if (i - j > r || j - i > r) continue;
      L best = (i == 1 && j == 1) ? (me == CHE ? -inf : 0) : c[(i-1)*w+j-1];
      if (i != 1 || j != 1) {
        if (c[(i-1)*w+j] < best) best = c[(i-1)*w+j];
        if (c[i*w+j-1] < best) best = c[i*w+j-1];
      }
      if (best == inf) continue;
      L d = (L)px[i-1] - (L)py[j-1];
      L p = me == EUC ? d * d : d < 0 ? -d : d;
      c[i*w+j] = me == CHE ? (best < p ? p : best) : best + p;
    }
  if (c[m*w+n] == inf) return INFTY;
  return norm(me, c[m*w+n], m > n ? m : n);
}

// The same minimum by explicit enumeration of every alignment (tiny sizes only).
inline void allPaths(Metric me, const Seq& x, const Seq& y, int r, int i, int j, L acc, L& best, long& count) {
  if (std::abs(i - j) > r) return;
  L p = pointCost(me, x[i], y[j]);
  acc = me == CHE ? std::max(acc, p) : acc + p;
  if (i + 1 == (int)x.size() && j + 1 == (int)y.size()) { count++; best = std::min(best, acc); return; }
  if (i + 1 < (int)x.size()) allPaths(me, x, y, r, i + 1, j, acc, best, count);
  if (j + 1 < (int)y.size()) allPaths(me, x, y, r, i, j + 1, acc, best, count);
  if (i + 1 < (int)x.size() && j + 1 < (int)y.size()) allPaths(me, x, y, r, i + 1, j + 1, acc, best, count);
}
inline double dtwByPaths(Metric me, const Seq& x, const Seq& y, int r, long& count) {
  L best = std::numeric_limits<L>::infinity();
  count = 0;
  allPaths(me, x, y, r, 0, 0, me == CHE ? -std::numeric_limits<L>::infinity() : 0, best, count);
  if (count == 0) return INFTY;
  return norm(me, best, std::max(x.size(), y.size()));
}

// Cosine and sorensen: every value the documented recurrence can produce when
// ties between neighbours may be broken in any way.
struct Tot { double a, b, c; double v; };
inline double ratioOf(Metric me, const Tot& t) {
  if (me == COS) { double d = std::sqrt(t.a * t.b); return d == 0 ? 0 : t.c / d; }
  return t.a == 0 ? 0 : t.a / t.b;
}
inline std::vector<double> dtwRatio(Metric me, const Seq& x, const Seq& y, int r, bool& capped) {
  int m = x.size(), n = y.size();
  const size_t CAP = m * n > 3000 ? 6 : 64;
  capped = false;
  static std::vector<std::vector<std::vector<Tot>>> c;
  if ((int)c.size() < m) c.resize(m);
  for (int i = 0; i < m; i++) {
    if ((int)c[i].size() < n) c[i].resize(n);
    for (auto& v : c[i]) v.clear();
  }
  auto ext = [&](const Tot& t, double p, double q) {
    Tot o;
    if (me == COS) o = Tot{t.a + p * p, t.b + q * q, t.c + p * q, 0};
    else o = Tot{t.a + std::fabs(p - q), t.b + std::fabs(p + q), 0, 0};
    o.v = ratioOf(me, o);
    return o;
  };
  auto same = [](const Tot& s, const Tot& t) { return close(s.a, t.a, 1e-12) && close(s.b, t.b, 1e-12) && close(s.c, t.c, 1e-12); };
  auto add = [&](std::vector<Tot>& v, const Tot& t) {
    for (auto& o : v) if (same(o, t)) return;
    if (v.size() >= CAP) { capped = true; return; }
    v.push_back(t);
  };
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      if (std::abs(i - j) > r) continue;
      if (!i && !j) { add(c[0][0], ext(Tot{0, 0, 0, 0}, x[0], y[0])); continue; }
      if (!i || !j) {
        for (auto& t : (i ? c[i-1][0] : c[0][j-1])) add(c[i][j], ext(t, x[i], y[j]));
        continue;
      }
      // The totals of the neighbours are chosen independently; the extension is from a
      // smallest one, so a total qualifies if each other neighbour can be as large.
      const std::vector<Tot>* nb[3] = {&c[i-1][j-1], &c[i-1][j], &c[i][j-1]};
      double mx[3];
      for (int k = 0; k < 3; k++) {
        mx[k] = nb[k]->empty() ? INFTY : -INFTY;
        for (auto& t : *nb[k]) mx[k] = std::max(mx[k], t.v);
      }
      for (int k = 0; k < 3; k++)
        for (auto& t : *nb[k])
          if (!below(mx[(k+1)%3], t.v, 1e-12) && !below(mx[(k+2)%3], t.v, 1e-12)) add(c[i][j], ext(t, x[i], y[j]));
    }
  std::vector<double> out;
  for (auto& t : c[m-1][n-1]) out.push_back(t.v);
  if (out.empty()) out.push_back(INFTY);
  return out;
}

inline bool validPath(const std::vector<std::pair<int, int>>& p, int m, int n, int r, std::string& why) {
  if (p.empty()) { why = "empty matching"; return false; }
  if (p.front() != std::make_pair(0, 0)) { why = "does not start at the first points"; return false; }
  if (p.back() != std::make_pair(m - 1, n - 1)) { why = "does not end at the last points"; return false; }
  for (size_t k = 0; k < p.size(); k++) {
    if (std::abs(p[k].first - p[k].second) > r) { why = "leaves the warping band"; return false; }
    if (k) {
      int di = p[k].first - p[k-1].first, dj = p[k].second - p[k-1].second;
      if (di < 0 || dj < 0 || di > 1 || dj > 1 || di + dj == 0) { why = "is not a step-by-one monotone path"; return false; }
    }
  }
  return true;
}

// Enumerates all sequences of length n over an alphabet.
template <class F> void sequences(int n, const Seq& alphabet, F f) {
  std::vector<int> d(n, 0);
  Seq s(n, n ? alphabet[0] : 0);
  for (;;) {
    f(const_cast<const Seq&>(s));
    int i = n - 1;
    while (i >= 0 && ++d[i] == (int)alphabet.size()) { d[i] = 0; s[i] = alphabet[0]; i--; }
    if (i < 0) return;
    s[i] = alphabet[d[i]];
  }
}

// Deterministic structured patterns for long sequences.
inline Seq pattern(int kind, int n, int salt = 0) {
  Seq s(n);
  for (int i = 0; i < n; i++) {
    switch (kind) {
      case 0: s[i] = i; break;                                   // ramp
      case 1: s[i] = (i % 2) ? 1 : 0; break;                     // alternating
      case 2: s[i] = i == (salt % std::max(n, 1)) ? 1 : 0; break;// spike
      case 3: s[i] = ((i * 7 + salt * 13) % 11) / 10.0; break;   // scrambled
      case 4: s[i] = -i * 0.5 + (i % 3); break;                  // falling saw
      case 5: s[i] = 0.25; break;                                // constant
      case 6: s[i] = i * 2 >= n ? 1 : 0; break;                  // step
      case 7: s[i] = std::sin(i * 0.7 + salt); break;            // wave
      case 8: s[i] = ((i * i + salt * 5) % 17) - 8; break;       // signed scrambled
      default: s[i] = i == n - 1 ? 5 : 0;                        // late spike
    }
  }
  return s;
}
const int PATTERNS = 10;

} // namespace ref
