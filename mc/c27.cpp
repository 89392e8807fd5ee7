// C27: the search for the nearest window in a stream of values.
#include "api.hpp"
#include "lib/trillionDTW.h"
#include <fcntl.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <unistd.h>

namespace {

using mc::Seq; using mc::cat; using mc::vec;

// What the function prints, by whatever means.
struct Printed {
  int saved, file;
  Printed() {
    fflush(stdout); std::cout.flush();
    std::string p = mc::scratchPath("printed");
    file = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    saved = dup(1); dup2(file, 1);
  }
  void end() { fflush(stdout); std::cout.flush(); if (saved >= 0) { dup2(saved, 1); close(saved); saved = -1; close(file); } }
  ~Printed() { end(); }
};

bool field(const std::string& out, const std::string& name, double& v) {
  size_t p = out.find(name);
  if (p == std::string::npos || (p = out.find(':', p)) == std::string::npos) return false;
  return sscanf(out.c_str() + p + 1, "%lf", &v) == 1;
}

std::string lines(const Seq& s) { std::string t; for (double v : s) { char b[40]; snprintf(b, sizeof b, "%.17g\n", v); t += b; } return t; }

// (x - mean) / deviation; empty when all values are equal
MC_PLAIN bool znorm(const double* x, int m, double* z) {
  bool same = true; long double s = 0, s2 = 0;
  for (int i = 0; i < m; i++) { s += x[i]; if (x[i] != x[0]) same = false; }
  if (same) return false;
  long double mean = s / m;
  for (int i = 0; i < m; i++) s2 += (x[i] - mean) * (x[i] - mean);
  long double dev = sqrtl(s2 / m);
  for (int i = 0; i < m; i++) z[i] = (x[i] - mean) / dev;
  return true;
}
// sum of squares along the cheapest alignment within the band; gives up above the limit
MC_PLAIN double banded(const double* a, const double* b, int m, int r, double limit) {
  static thread_local std::vector<double> rows[2];
  rows[0].assign(m, 1e300); rows[1].assign(m, 1e300);
  double *prev = rows[0].data(), *cur = rows[1].data();
  for (int i = 0; i < m; i++) {
    double best = 1e300;
    for (int j = 0; j < m; j++) {
      double c = 1e300;
      if (std::abs(i - j) <= r) {
        double d = (a[i] - b[j]) * (a[i] - b[j]);
        if (!i && !j) c = d;
        else {
          if (i) c = prev[j];
          if (j && cur[j - 1] < c) c = cur[j - 1];
          if (i && j && prev[j - 1] < c) c = prev[j - 1];
          c += d;
        }
      }
      cur[j] = c; if (c < best) best = c;
    }
    if (best > limit) return 1e300;
    std::swap(prev, cur);
  }
  return prev[m - 1];
}
struct Best { bool any = false; double dist = 0; std::vector<long> at; };
Best nearest(const Seq& data, const Seq& query, int r) {
  int m = query.size(); Best b; std::vector<double> q(m), z(m);
  if (!znorm(query.data(), m, q.data())) return b;
  double best = 1e300;
  for (long i = 0; i + m <= (long)data.size(); i++) {
    if (!znorm(&data[i], m, z.data())) continue;
    double d = banded(z.data(), q.data(), m, r, best + 1e-7);
    if (d > best + 1e-7) continue;
    if (d < best - 1e-7) { b.at.clear(); }
    best = std::min(best, d); b.at.push_back(i); b.any = true;
  }
  b.dist = std::sqrt(best);
  return b;
}

// the values around the place that matter when the data are long
std::string shortly(const Seq& s) { return s.size() <= 40 ? vec(s) : cat(s.size(), " values"); }

void check(const Seq& data, const Seq& query, int m, int r, const std::string& dataText, const std::string& queryText, const std::string& what = "") {
  std::string d = mc::scratchPath("data"), q = mc::scratchPath("query");
  mc::writeFile(d, dataText); mc::writeFile(q, queryText);
  Seq used(query.begin(), query.begin() + m);
  auto text = [&] { return cat("nearest window of ", shortly(used), " in ", shortly(data), what, " with band ", r); };
  std::string out;
  { Printed p;
    size_t before = __sanitizer_get_current_allocated_bytes();
    calculate(d.c_str(), q.c_str(), m, r);
    size_t after = __sanitizer_get_current_allocated_bytes();
    static bool first = true;          // the first one may leave buffers of the standard streams
    MC_REQUIRE(first || after == before, text(), ": ", (long)(after - before), " bytes are still allocated");
    first = false;
    p.end(); out = mc::readFile(mc::scratchPath("printed")); }
  mc::eval();
  Best b = nearest(data, used, r);
  if (!b.any) { mc::outcome("no window that varies: not judged"); return; }
  double loc = -1, dist = -1, n = -1;
  MC_REQUIRE(field(out, "Location", loc) && field(out, "Distance", dist), text(), ": no result in the output: ", out);
  MC_REQUIRE(std::fabs(dist - b.dist) <= 1e-5 * std::max(1.0, b.dist), text(), ": distance ", dist, " at ", loc, ", but the nearest is ", b.dist, " at ", b.at[0]);
  bool found = false; for (long a : b.at) found |= a == (long)loc;
  MC_REQUIRE(found, text(), ": location ", loc, " with distance ", dist, ", but the nearest is at ", b.at[0]);
  MC_REQUIRE(field(out, "Data Scanned", n) && (n == data.size() || data.size() > 999999), text(), ": ", n, " values scanned of ", data.size());
  mc::outcome(b.at.size() > 1 ? "several nearest windows" : b.dist < 1e-6 ? "exact match" : "one nearest window");
  mc::nontrivial();
}
void check(const Seq& data, const Seq& query, int r, const std::string& what = "") { check(data, query, query.size(), r, lines(data), lines(query), what); }

Seq digits(long code, int base, int len, const std::vector<double>& alphabet) { Seq s; for (int i = 0; i < len; i++, code /= base) s.push_back(alphabet[code % base]); return s; }
long power(int b, int e) { long r = 1; while (e--) r *= b; return r; }

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  const std::vector<double> T = {0, 1, 3}, Z = {0, 2};
  // all short queries in all short streams
  for (int m = 2; m <= 4; m++)
    for (long q = 0; q < power(3, m); q++)
      unit([&] { return cat("query ", vec(digits(q, 3, m, T)), " in all short streams"); }, [&] {
        Seq query = digits(q, 3, m, T);
        for (int n = m; n <= (th ? 7 : 6); n++)
          for (long d = 0; d < power(3, n); d++)
            for (int r = 0; r <= m + 1; r++) {
              if (!th && n == 6 && r != 0 && r != (int)(d % m) + 1) continue;
              check(digits(d, 3, n, T), query, r);
            }
        sample(cat("query ", vec(query)));
      });
  // longer queries, for which the bounds apply in full, in all streams of two values
  std::vector<Seq> queries;
  for (int m : {5, 6, 7, 8})
    for (auto& s : std::vector<Seq>{{0, 1, 2, 3, 4, 5, 6, 7}, {5, 0, 0, 0, 0, 0, 0, 1}, {0, 3, 0, 3, 0, 3, 1, 3}, {1, 1, 4, 4, 1, 1, 0, 0}, {0, 0, 0, 9, 0, 1, 0, 0}, {4, 3, 3, 1, 0, 0, 2, 6}, {0, 0, 1, 1, 1, 0, 1, 0}, {0, 1, 0, 0, 0, 0, 0, 0}})
      queries.push_back(Seq(s.begin(), s.begin() + m));
  for (auto& query : queries) {
    int m = query.size(), n = th ? m + 5 : m + 3;
    unit([&] { return cat("query ", vec(query), " in all streams of ", n, " values"); }, [&] {
      for (long d = 0; d < power(2, n); d++)
        for (int r : {0, 1, 2, 3, m - 1, m + 3}) check(digits(d, 2, n, Z), query, r);
      sample(cat("query ", vec(query)));
    });
    unit([&] { return cat("query ", vec(query), " in streams of three values"); }, [&] {
      int n = th ? 9 : m <= 6 ? 7 : 8;
      if (n < m) n = m;
      for (long d = 0; d < power(3, n); d++) check(digits(d, 3, n, T), query, (int)(d % 4));
    });
  }
  // long queries, negative and fractional values
  for (int m : {9, 16, 33, 64, 150})
    for (int k = 0; k < ref::PATTERNS; k++)
      unit([&] { return cat("query of ", m, " values, pattern ", k); }, [&] {
        Seq query = ref::pattern(k, m, 0);
        for (int p = 0; p < ref::PATTERNS; p++) {
          Seq data = ref::pattern(p, 3 * m, 1), other = ref::pattern(k, m + 3, 2);
          data.insert(data.begin() + m, other.begin(), other.end());
          for (double scale : {1.0, -0.125, 1000.0}) {
            Seq x = data; for (auto& v : x) v = std::round(v * 8) / 8 * scale - 7;      // sums of these are exact
            for (int r : {0, 1, m / 10, m / 2, m, 2 * m}) check(x, query, r, cat(" (pattern ", p, " times ", scale, ")"));
          }
        }
      });
  // streams around the size in which they are read, with the best place everywhere around the border
  for (int m : {3, 6, 17})
    for (long extra : std::vector<long>{-1, 0, 1, 2, m - 2, m - 1, m, 3 * m, 100000 - m + 1, 100000 - m + 2, 100000})
      unit([&] { return cat("query of ", m, " values in a stream of 100000", extra < 0 ? "" : "+", extra, " values"); }, [&] {
        Seq query; for (int i = 0; i < m; i++) query.push_back((i * i * 7) % 11);
        long n = 100000 + extra;
        Seq plain; for (long i = 0; i < n; i++) plain.push_back((i * i % 97 * 5 + i / 3) % 23);
        std::set<long> places = {0, 1, n / 2, n - m - 1, n - m};
        for (long c : {100000L, 200000L - m + 1})
          for (long p = c - 2 * m; p <= c + m; p += m > 6 ? 3 : 1) places.insert(p);
        int count = 0;
        for (long p : places) {
          if (p < 0 || p + m > n || (!th && p > 2 && p < 100000 - 2 * m)) continue;
          if (!th && extra > 50000 && count++ % 3) continue;
          Seq data = plain; for (int i = 0; i < m; i++) data[p + i] = query[i] * 3 + (i == 1 ? 0.25 : 0);
          check(data, query, 1, cat(" with a near copy at ", p));
        }
      });
  // a stream ends where no number follows; more values in the query file than asked for
  unit([&] { return cat("ends of files"); }, [&] {
    Seq data = {0, 3, 1, 4, 1, 5, 9, 2}, query = {1, 5, 9, 2, 6};
    for (int n = 3; n <= 8; n++)
      for (auto end : {"", "\n", " \n\n", " x", "\nx 1 2 3", "e", " -", " nope 1 5 9 2\n"})
        for (int m = 2; m <= 4 && m <= n; m++) for (int r = 0; r < 3; r++) {
          Seq d(data.begin(), data.begin() + n);
          std::string t; for (auto v : d) t += cat(t.empty() ? "" : " ", v);
          if (end[0] == 'e') continue;
          check(d, query, m, r, t + end, "1 5\t9\n2 6 7 8", cat(" followed by '", end, "'"));
        }
  });
}
