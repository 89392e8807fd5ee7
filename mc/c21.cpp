// C21: grouping under every behaviour of the clock.
#include "grouping.hpp"

// ---- the clock the library sees ------------------------------------------------------------

namespace {
std::mutex clockLock;
long shown = 0, steadyShown = 0, reads = 0;
std::vector<long> jumps;                // change of the clock before each reading, the last one repeats
long high = 0;                          // the latest time ever shown
void nextReading() {
  std::lock_guard<std::mutex> l(clockLock);
  if (!jumps.empty()) { long d = jumps[std::min<size_t>(reads, jumps.size() - 1)]; shown += d; if (d > 0) steadyShown += d; high = std::max(high, shown); }
  reads++;
}
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { nextReading(); return time_point(std::chrono::seconds(1500000000 + shown)); }
steady_clock::time_point steady_clock::now() noexcept { nextReading(); return time_point(std::chrono::seconds(100000 + steadyShown)); }
} } }

namespace {

using namespace mc;

struct Out { std::string listing, text; int groups; };

Out group(GenexAPI& api, const Opt& o) {
  Out r;
  Sink os(true);
  std::streambuf* old = std::cout.rdbuf(&os);
  try { r.groups = api.groupDataset("a", o.threshold, ref::name(o.metric), o.threads, o.whole); }
  catch (...) { std::cout.rdbuf(old); throw; }
  std::cout.rdbuf(old);
  r.text = os.text;
  std::string p = scratchPath("listing.txt");
  api.saveGroupsOld("a", p, false);
  r.listing = readFile(p);
  return r;
}

// Every "count/total" that was printed: 0 <= count <= total, and percentages up to 100.
int judgeText(const std::string& t, const std::function<std::string()>& where) {
  int n = 0;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] != '/' || !i || !isdigit((unsigned char)t[i - 1]) || i + 1 >= t.size() || !isdigit((unsigned char)t[i + 1])) continue;
    size_t b = i; while (b && isdigit((unsigned char)t[b - 1])) b--;
    long count = atol(t.c_str() + b), total = atol(t.c_str() + i + 1);
    MC_REQUIRE(!(b && t[b - 1] == '-') && count <= total, "progress of ", count, " out of ", total, " is printed", where(), "\n", t);
    n++;
  }
  for (size_t i = t.find('%'); i != std::string::npos; i = t.find('%', i + 1)) {
    size_t b = i; while (b && isdigit((unsigned char)t[b - 1])) b--;
    MC_REQUIRE(b < i && atol(t.c_str() + b) <= 100 && !(b && t[b - 1] == '-'), "a progress of ", t.substr(b, i - b), "% is printed", where(), "\n", t);
  }
  return n;
}

std::string showJumps(const std::vector<long>& v) { std::string s; for (long x : v) s += cat(s.empty() ? "" : ",", x > 0 ? "+" : "", x); return s; }

void run(GenexAPI& api, const Data& d, const Opt& o, const Out& want, const std::vector<long>& seq) {
  auto where = [&] { return cat("\n  dataset ", show(d), ", ", show(o), ", clock changes before each reading (s): ", showJumps(seq)); };
  note(where());
  // whatever was printed before, the last progress has been printed right now
  { std::lock_guard<std::mutex> l(clockLock); shown = high += 10000; steadyShown += 10000; jumps.clear(); }
  static GenexAPI* tiny = nullptr;
  if (!tiny) { tiny = new GenexAPI; load(*tiny, "a", {{1, 2}}); }
  { Quiet q; tiny->groupDataset("a", 1, "euclidean", 1, false); }
  { std::lock_guard<std::mutex> l(clockLock); jumps = seq; reads = 0; }
  Out got;
  std::string what;
  bool err = throwsStd([&] { got = group(api, o); }, &what);
  long used = reads;
  { std::lock_guard<std::mutex> l(clockLock); jumps.clear(); }
  MC_REQUIRE(!err, "grouping failed: ", what, where());
  MC_REQUIRE(got.groups == want.groups && got.listing == want.listing, "the groups depend on the clock", where(), "\n", got.listing, "\ninstead of\n", want.listing);
  int lines = o.threads == 1 ? judgeText(got.text, where) : 0;
  bool progress = got.text.find("rogress") != std::string::npos || got.text.find("rocessing") != std::string::npos;
  outcome(progress ? "progress was printed" : "nothing printed");
  counter("clock readings", used); counter("progress counts judged", lines);
  eval(); if (progress) nontrivial();
}

Data shaped(int rows, int cols, bool ragged) {
  Data d;
  for (int r = 0; r < rows; r++) { Seq s; int n = ragged ? std::max(2, cols - r % 3) : cols; for (int c = 0; c < n; c++) s.push_back((r * 7 + c * c * 3) % 5); d.push_back(s); }
  return d;
}

// All sequences of changes of the given length.
void sequences(int n, const std::vector<long>& alphabet, const std::function<void(const std::vector<long>&)>& f) {
  std::vector<size_t> i(n, 0);
  while (true) {
    std::vector<long> s; for (size_t k : i) s.push_back(alphabet[k]);
    f(s);
    int k = n - 1;
    while (k >= 0 && ++i[k] == alphabet.size()) i[k--] = 0;
    if (k < 0) break;
  }
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  const std::vector<long> changes = {0, 1, 9, 10, 11, 3600, -1, -3600, -1000000};
  auto each = [&](const Data& d, const Opt& o, int n, const std::vector<long>& alphabet) {
    unit([&] { return cat("all clocks of ", n, " changes, dataset ", show(d), ", ", show(o)); }, [&] {
      GenexAPI api; load(api, "a", d);
      Opt one = o; one.threads = 1;
      Out want = group(api, one);
      sequences(n, alphabet, [&](const std::vector<long>& s) { run(api, d, o, want, s); });
      sample(cat(show(d), ", ", show(o)));
    });
  };
  // every small size, so that every relation between the size and the steps of the progress occurs
  for (int rows = 1; rows <= (th ? 24 : 16); rows++)
    for (int cols = 2; cols <= (th ? 24 : 14); cols++)
      for (int ragged = 0; ragged < 2; ragged++)
        each(shaped(rows, cols, ragged), Opt{ref::EUC, 1.5, false, 1}, 1, changes);
  // every sequence of readings
  for (int rows : {1, 2, 3, 5})
    for (int cols : {2, 3, 4, 5}) {
      Data d = shaped(rows, cols, cols > 3);
      each(d, Opt{ref::EUC, 1.5, false, 1}, th ? 6 : 5, changes);
      for (auto m : {ref::MAN, ref::CHE}) each(d, Opt{m, 0.8, false, 1}, 3, {0, 10, 11, -3600});
      each(d, Opt{ref::EUC, 1, true, 1}, 3, {0, 10, -1});
      for (int t : {2, 3}) each(d, Opt{ref::EUC, 1.5, false, t}, 3, {0, 10, -1});
    }
  // a larger dataset
  for (int t : {1, 2}) each(shaped(60, 12, true), Opt{ref::EUC, 1.5, false, t}, 2, changes);
}
