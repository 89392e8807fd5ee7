// C20: saving with every write, open and close failing.
#include "grouping.hpp"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/uio.h>

// ---- fault injection on files below the target directory -----------------------------------

namespace fault {

enum Kind { NONE, NOSPACE, IOERROR, INTERRUPTED, SHORT, SHORTFAIL, OPENFAIL, CLOSEFAIL, KINDS };
const char* name[] = {"none", "no space", "I/O error", "interrupted", "short write", "short write then no space", "cannot be opened", "error while closing"};

bool on = false;
std::string dir;                        // only files below this directory are concerned
long call = 0;                          // operations on such files so far
long at[2] = {-1, -1}; Kind kind[2];    // the faults to inject: number of the call, kind
bool sticky = false;                    // once failed, all later writes fail too
long pendingFail = 0, hits = 0;
std::set<int>* fds = nullptr;
bool target(const char* p) { return on && p && !strncmp(p, dir.c_str(), dir.size()); }
bool target(int fd) { return on && fds && fds->count(fd); }
void opened(int fd) { if (fd >= 0) { if (!fds) fds = new std::set<int>(); fds->insert(fd); } }
Kind next() {
  long n = call++;
  if (pendingFail) { pendingFail--; hits++; return NOSPACE; }
  for (int i = 0; i < 2; i++) if (at[i] == n) { hits++; if (sticky) pendingFail = 1000000; return kind[i]; }
  return NONE;
}
void reset() { at[0] = at[1] = -1; call = pendingFail = hits = 0; sticky = false; }

} // namespace fault

#define REAL_FN(f) static auto real = (decltype(&f))dlsym(RTLD_NEXT, #f)

static ssize_t faulty(int fd, size_t n, const std::function<ssize_t(size_t)>& real) {
  if (!fault::target(fd)) return real(n);
  switch (fault::next()) {
    case fault::NOSPACE: errno = ENOSPC; return -1;
    case fault::IOERROR: errno = EIO; return -1;
    case fault::INTERRUPTED: errno = EINTR; return -1;
    case fault::SHORT: return real(n > 1 ? n / 2 : n);
    case fault::SHORTFAIL: fault::pendingFail = 1; return real(n > 1 ? n / 2 : n);
    default: return real(n);
  }
}

extern "C" {
ssize_t write(int fd, const void* b, size_t n) { REAL_FN(write); return faulty(fd, n, [&](size_t k) { return real(fd, b, k); }); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { REAL_FN(pwrite); return faulty(fd, n, [&](size_t k) { return real(fd, b, k, o); }); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL_FN(writev);
  size_t n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  return faulty(fd, n, [&](size_t k) -> ssize_t {
    if (k == n) return real(fd, v, c);
    std::vector<iovec> w;
    for (int i = 0; i < c && k; i++) { iovec x = v[i]; x.iov_len = std::min(k, x.iov_len); k -= x.iov_len; w.push_back(x); }
    return real(fd, w.data(), w.size());
  });
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
  REAL_FN(fwrite);
  if (!fault::on || !fault::target(fileno(f))) return real(b, s, n, f);
  fault::Kind k = fault::next();
  if (k == fault::NOSPACE || k == fault::IOERROR) { errno = ENOSPC; return 0; }
  if (k == fault::SHORTFAIL) { errno = ENOSPC; return real(b, s, n / 2, f); }
  return real(b, s, n, f);
}
#define OPENER(f, decl, args, path) \
  int f decl { \
    REAL_FN(f); mode_t m = 0; \
    if (flags & O_CREAT) { va_list l; va_start(l, flags); m = va_arg(l, int); va_end(l); } \
    if (!fault::target(path)) return real args; \
    fault::Kind k = fault::next(); \
    if (k == fault::OPENFAIL) { errno = EACCES; return -1; } \
    if (k == fault::NOSPACE) { errno = ENOSPC; return -1; } \
    int fd = real args; fault::opened(fd); return fd; \
  }
OPENER(open, (const char* p, int flags, ...), (p, flags, m), p)
OPENER(open64, (const char* p, int flags, ...), (p, flags, m), p)
#define FOPENER(f) \
  FILE* f(const char* p, const char* mode) { \
    REAL_FN(f); \
    if (!fault::target(p)) return real(p, mode); \
    fault::Kind k = fault::next(); \
    if (k == fault::OPENFAIL || k == fault::NOSPACE) { errno = k == fault::NOSPACE ? ENOSPC : EACCES; return nullptr; } \
    FILE* r = real(p, mode); if (r) fault::opened(fileno(r)); return r; \
  }
FOPENER(fopen)
FOPENER(fopen64)
int close(int fd) {
  REAL_FN(close);
  if (!fault::target(fd)) return real(fd);
  fault::Kind k = fault::next();
  fault::fds->erase(fd);
  int r = real(fd);
  if (k == fault::CLOSEFAIL || k == fault::IOERROR) { errno = EIO; return -1; }
  return r;
}
int fclose(FILE* f) {
  REAL_FN(fclose);
  int fd = fault::on ? fileno(f) : -1;
  if (!fault::target(fd)) return real(f);
  fault::Kind k = fault::next();
  fault::fds->erase(fd);
  int r = real(f);
  if (k == fault::CLOSEFAIL || k == fault::IOERROR) { errno = EIO; return EOF; }
  return r;
}
}

namespace {

using namespace mc;

// ---- what is saved ---------------------------------------------------------------------------

Data wave(int rows, int cols) {
  Data d;
  for (int r = 0; r < rows; r++) { Seq s; for (int c = 0; c < cols; c++) s.push_back(std::sin(0.37 * (r * cols + c)) * (r + 1)); d.push_back(s); }
  return d;
}

struct Subject {
  const char* name; Data data; double threshold; bool whole, normalised, named;
};
std::vector<Subject> subjects() {
  return {
    {"one value", {{1}}, 0.5, true, false, false},
    {"two short rows", {{1, 2, 3}, {0.1, 4}}, 0.5, false, false, false},
    {"rows of very different lengths", {{1, 2}, {0.25, 4, 4, 4, 1, 1, 7}, {3, 1, 1}}, 1, false, true, false},
    {"named rows", {{1, 2, 3, 4}, {4, 3, 2, 1}}, 0.5, false, false, true},
    {"larger than one buffer", wave(5, 20), 2, false, false, false},
    {"larger than many buffers", wave(6, 40), 0.7, false, true, false},
    {"many buffers, whole series", wave(40, 40), 5, true, false, false},
  };
}

enum Save { DATASET, GROUPS, TEXT, SIZES, SAVES };
const char* SAVE[] = {"saving the dataset", "saving groups", "saving groups as text", "saving group sizes"};

struct Fixture {
  GenexAPI api; Subject s;
  std::string dir, good[SAVES], listing;
  Data values_;
  explicit Fixture(const Subject& s) : s(s) {
    std::string p = scratchPath("in.txt");
    std::string text = toText(s.data);
    if (s.named) { std::istringstream in(text); std::string l, t; int i = 0; while (getline(in, l)) t += cat("row", i++, " ", l, "\n"); text = t; }
    writeFile(p, text);
    api.loadDataset("a", p, " ", 0, 0, s.named);
    if (s.normalised) api.normalizeDataset("a");
    api.groupDataset("a", s.threshold, "euclidean", 1, s.whole);
    dir = scratchPath("target/"); mkdir(dir.c_str(), 0755);
    fault::dir = dir;
    for (int k = 0; k < SAVES; k++) { save(k, scratchPath("good")); good[k] = readFile(scratchPath("good")); MC_REQUIRE(!good[k].empty() || s.data.empty(), SAVE[k], " wrote nothing"); }
    values_ = now();
  }
  void save(int k, const std::string& p) {
    if (k == DATASET) api.saveDataset("a", p, ' ');
    else if (k == GROUPS) api.saveGroups("a", p);
    else api.saveGroupsOld("a", p, k == SIZES);
  }
  Data now() { Data d; for (size_t i = 0; i < s.data.size(); i++) d.push_back(values(api.getTimeSeries("a", i, -1, -1))); return d; }
  // After an attempt to save: success means a complete file, and nothing else has changed.
  void judge(int k, const std::string& p, bool error, const std::string& how) {
    if (!error) MC_REQUIRE(readFile(p) == good[k], SAVE[k], " of ", s.name, " reported success but the file is not complete (", how, "): ", readFile(p).size(), " of ", good[k].size(), " bytes");
    auto i = api.getDatasetInfo("a");
    MC_REQUIRE(api.getDatasetCount() == 1 && i.isGrouped && i.isNormalized == s.normalised && i.threshold == s.threshold, SAVE[k], " changed the state of the dataset (", how, ")");
    MC_REQUIRE(now() == values_, SAVE[k], " changed the data (", how, ")");
    std::string q = scratchPath("again");
    MC_REQUIRE(!throwsStd([&] { save(k, q); }), SAVE[k], " does not work any more after a failure (", how, ")");
    MC_REQUIRE(readFile(q) == good[k], SAVE[k], " gives something else after a failure (", how, ")");
  }
};

struct rlimit limitBefore;
void fileLimit(long n) { struct rlimit r = limitBefore; if (n >= 0) r.rlim_cur = n; if (setrlimit(RLIMIT_FSIZE, &r)) abort(); }

void limited(Fixture& f, int k, long n) {
  std::string p = f.dir + "out", how = cat("no space after ", n, " bytes");
  note(cat(SAVE[k], " of ", f.s.name, ", ", how));
  unlink(p.c_str());
  fileLimit(n);
  bool error = throwsStd([&] { f.save(k, p); });
  fileLimit(-1);
  bool fits = n >= (long)f.good[k].size();
  MC_REQUIRE(error || fits, SAVE[k], " of ", f.s.name, " reported success although only ", n, " of ", f.good[k].size(), " bytes could be written");
  MC_REQUIRE(!error || !fits, SAVE[k], " of ", f.s.name, " reported an error although everything could be written (", how, ")");
  f.judge(k, p, error, how);
  outcome(error ? "full disk reported" : "just enough space");
  eval(); if (!fits) nontrivial();
}

// Number of operations on the target file in a save without faults.
long countCalls(Fixture& f, int k) {
  fault::reset(); fault::on = true; f.save(k, f.dir + "out"); fault::on = false;
  return fault::call;
}

void injected(Fixture& f, int k, long n1, fault::Kind k1, long n2, fault::Kind k2, bool sticky) {
  std::string p = f.dir + "out";
  auto how = cat("operation ", n1, " on the file: ", fault::name[k1], sticky ? " and all later writes" : "", n2 >= 0 ? cat(", operation ", n2, ": ", fault::name[k2]) : "");
  note(cat(SAVE[k], " of ", f.s.name, ", ", how));
  unlink(p.c_str());
  fault::reset(); fault::at[0] = n1; fault::kind[0] = k1; fault::at[1] = n2; fault::kind[1] = k2; fault::sticky = sticky;
  fault::on = true;
  bool error = throwsStd([&] { f.save(k, p); });
  fault::on = false;
  long hits = fault::hits;
  fault::reset();
  f.judge(k, p, error, how);
  // An error of the operating system that loses data or leaves its fate open must be reported.
  if (hits && (k1 == fault::CLOSEFAIL || k1 == fault::OPENFAIL) && n2 < 0 && readFile(p) != f.good[k]) MC_REQUIRE(error, SAVE[k], " of ", f.s.name, " reported success (", how, ")");
  outcome(cat(fault::name[k1], hits ? (error ? ": reported" : ": overcome, file complete") : ": no such operation"));
  eval(); if (hits) nontrivial();
}

} // namespace

void mc::explore() {
  bool th = ctx().thorough();
  Quiet quiet;
  signal(SIGXFSZ, SIG_IGN);
  getrlimit(RLIMIT_FSIZE, &limitBefore);
  auto subs = subjects();
  for (auto& s : subs)
    for (int k = 0; k < SAVES; k++) {
      // the disk is full after n bytes, for every n (large files: around every page)
      int parts = 8;
      for (int part = 0; part < parts; part++)
        unit([&] { return cat(SAVE[k], " of ", s.name, ": disk full after every number of bytes, part ", part); }, [&] {
          Fixture f(s);
          long size = f.good[k].size(), i = 0;
          for (long n = 0; n <= size + 1; n++) {
            bool fine = size <= (th ? 40000 : 3000);
            if (!fine && n > 300 && size - n > 300 && n % 4096 > 1 && n % 4096 < 4095) continue;
            if (i++ % parts == part) limited(f, k, n);
          }
          sample(cat(SAVE[k], " of ", s.name, ", ", size, " bytes"));
        });
      // every operation on the file fails in every way, alone, with all later ones, in pairs
      unit([&] { return cat(SAVE[k], " of ", s.name, ": every operation on the file fails"); }, [&] {
        Fixture f(s);
        long n = countCalls(f, k);
        MC_REQUIRE(readFile(f.dir + "out") == f.good[k], SAVE[k], " of ", s.name, " is not repeatable");
        counter("file operations", n);
        for (long i = 0; i <= n; i++)
          for (int a = 1; a < fault::KINDS; a++) {
            injected(f, k, i, (fault::Kind)a, -1, fault::NONE, false);
            injected(f, k, i, (fault::Kind)a, -1, fault::NONE, true);
          }
        if (n <= (th ? 40 : 14))
          for (long i = 0; i < n; i++) for (long j = i + 1; j <= n + 1; j++)
            for (int a = 1; a < fault::KINDS; a++) for (int b = 1; b < fault::KINDS; b++) injected(f, k, i, (fault::Kind)a, j, (fault::Kind)b, false);
      });
      // targets that cannot be created
      unit([&] { return cat(SAVE[k], " of ", s.name, ": impossible targets"); }, [&] {
        Fixture f(s);
        std::string file = f.dir + "file"; writeFile(file, "x");
        std::string loop = f.dir + "loop"; if (symlink(loop.c_str(), loop.c_str()) && errno != EEXIST) abort();
        for (auto& p : std::vector<std::string>{f.dir + "missing/out", f.dir, f.dir + ".", "", file + "/out", loop, f.dir + std::string(300, 'x'), f.dir + "missing/"}) {
          bool error = throwsStd([&] { f.save(k, p); });
          MC_REQUIRE(error, SAVE[k], " of ", s.name, " to ", p.empty() ? "an empty path" : p, " reported success");
          f.judge(k, p, true, "impossible target");
          outcome("impossible target reported");
          eval(); nontrivial();
        }
        // an existing longer file is replaced completely
        std::string p = f.dir + "old"; writeFile(p, std::string(f.good[k].size() + 5000, 'z'));
        bool error = throwsStd([&] { f.save(k, p); });
        MC_REQUIRE(!error, SAVE[k], " over an existing file failed");
        f.judge(k, p, false, "existing file");
        outcome("existing file replaced"); eval(); nontrivial();
      });
    }
}
