// Driver of the engine: workers, journal, coverage feedback, shrinking, replay.
#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#include <NTL/ZZ.h>

namespace pbt {

// ---------------------------------------------------------------------------
// randomness of the engine
uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *) p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

// ---------------------------------------------------------------------------
// coverage feedback and constants of comparisons
struct CovRegion { uint8_t *first, *second; };
struct CovRegions {
  CovRegion r[128];
  size_t n;
  CovRegion *begin() { return r; }
  CovRegion *end() { return r + n; }
};
static CovRegions covRegions;  // zero-initialised: modules register before constructors run
static uint64_t dict[256 + 64];  // some room for threads that add at once
static size_t dictN = 0;
static bool dictOn = false;

static void dictAdd(uint64_t v) {
  if (!dictOn || v < 2) return;
  for (size_t i = 0; i < dictN; i++) if (dict[i] == v) return;
  if (dictN < 256) dict[dictN++] = v;
}

}  // namespace pbt

extern "C" {
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e) {
  if (b != e && pbt::covRegions.n < 128) pbt::covRegions.r[pbt::covRegions.n++] = {b, e};
}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { pbt::dictAdd(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { pbt::dictAdd(a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { pbt::dictAdd(a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { pbt::dictAdd(a); }
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_switch(uint64_t, void *) {}
void __sanitizer_cov_trace_div4(uint32_t) {}
void __sanitizer_cov_trace_div8(uint64_t) {}
void __sanitizer_cov_trace_gep(uintptr_t) {}
}

namespace pbt {

// ---------------------------------------------------------------------------
// ambient randomness and clock
std::function<int()> randHook;
std::function<int64_t()> clockHook;
static uint64_t ambientRand = 1;
static int64_t ambientClock = 1000000000;

static std::string scratchPath = "/tmp";
const std::string &scratchFolder() { return scratchPath; }

void reseedAmbient(uint64_t seed) {
  ambientRand = seed;
  ambientClock = 1000000000;
  randHook = nullptr;
  clockHook = nullptr;
  NTL::ZZ s;
  uint64_t x = seed;
  unsigned char b[16];
  for (int i = 0; i < 2; i++) { uint64_t v = splitmix(x); memcpy(b + 8 * i, &v, 8); }
  NTL::ZZFromBytes(s, b, 16);
  NTL::SetSeed(s);
}

static int ambientNextRand() {
  if (randHook) return randHook();
  return (int) (splitmix(ambientRand) & 0x7fffffff);
}
static thread_local int64_t *givenTimes = nullptr;
GivenTimes::GivenTimes(int64_t &at) : before(givenTimes) { givenTimes = &at; }
GivenTimes::~GivenTimes() { givenTimes = before; }
static int64_t ambientNow() {
  if (givenTimes) {  // arbitrary whole microseconds on
    uint64_t s = (uint64_t) *givenTimes;
    return *givenTimes += 1000 * (int64_t) (1 + splitmix(s) % 5000000);
  }
  if (clockHook) return clockHook();
  return ambientClock += 1000;
}

}  // namespace pbt

// The code under test must not see the wall clock or the C library's generator.
extern "C" int rand(void) noexcept { return pbt::ambientNextRand(); }
extern "C" void srand(unsigned) noexcept {}
extern "C" time_t time(time_t *t) noexcept {
  time_t v = (time_t) (1500000000 + pbt::ambientNow() / 1000000000);
  if (t) *t = v;
  return v;
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(pbt::ambientNow())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(pbt::ambientNow())); }
} } }

static double wall() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

namespace pbt {

// ---------------------------------------------------------------------------
// Ctx
static const size_t MAXC = 1 << 17;

Ctx::Ctx(Mode m, uint64_t seed, const std::vector<uint64_t> *g, std::vector<uint64_t> *r, bool n)
    : notes(n), mode(m), state(seed), given(g), rec(r) {}

static void journalPut(uint64_t v);
uint64_t Ctx::put(uint64_t v) {
  journalPut(v);
  if (rec->size() >= MAXC) { overflow = true; throw Discard(); }
  rec->push_back(v);
  return v;
}

uint64_t Ctx::draw(uint64_t n) {
  uint64_t v;
  if (n == 1) return 0;
  if (mode != GENERATE && pos < given->size()) {
    v = (*given)[pos++];
    if (n != 0 && v >= n) v %= n;
  } else if (mode == REPLAY) {
    v = 0;
  } else {
    v = splitmix(state);
    if (n != 0) v = (uint64_t) (((unsigned __int128) v * n) >> 64);
  }
  return put(v);
}

uint64_t Ctx::drawHotOff(uint64_t n, uint64_t off) {
  if (n == 1) return 0;
  if (mode == REPLAY || (mode == MUTATE && pos < given->size())) return draw(n);
  uint64_t r = splitmix(state);
  if (r % 8 == 0 && dictN > 0) {
    uint64_t v = dict[(r >> 8) % dictN];
    switch ((r >> 32) % 4) {
      case 1: v--; break;
      case 2: v++; break;
      default: break;
    }
    if (v >= off && (n == 0 || v - off < n)) return put(v - off);
  }
  return draw(n);
}

uint64_t Ctx::drawHot(uint64_t n) { return drawHotOff(n, 0); }

uint64_t Ctx::skewed(uint64_t lo, uint64_t hi) {
  uint64_t span = hi - lo;
  switch (draw(4)) {
    case 0: return lo + draw(std::min<uint64_t>(span, 3) + 1);
    case 1: return lo + draw(std::min<uint64_t>(span, span / 8 + 4) + 1);
    case 2: return lo + draw(std::min<uint64_t>(span, span / 2 + 4) + 1);
    default: return lo + drawHotOff(span + 1, lo);
  }
}

size_t Ctx::weighted(std::initializer_list<unsigned> w) {
  uint64_t sum = 0;
  for (unsigned x : w) sum += x;
  uint64_t v = draw(sum);
  size_t i = 0;
  for (unsigned x : w) {
    if (v < x) return i;
    v -= x;
    i++;
  }
  return i - 1;
}

std::string Ctx::bytes(size_t n) {
  std::string s;
  s.reserve(n);
  while (s.size() < n) {
    uint64_t v = draw(0);
    for (int i = 0; i < 8 && s.size() < n; i++) s.push_back((char) (v >> (8 * i)));
  }
  return s;
}

void Ctx::label(const std::string &l) {
  for (auto &x : labels) if (x == l) return;
  labels.push_back(l);
}
void Ctx::count(const std::string &l, uint64_t n) {
  for (auto &x : counts) if (x.first == l) { x.second += n; return; }
  counts.emplace_back(l, n);
}

std::string hex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) { s += d[((const uint8_t *) p)[i] >> 4]; s += d[((const uint8_t *) p)[i] & 15]; }
  return s;
}
std::string hex(const std::string &s) { return hex(s.data(), s.size()); }

// ---------------------------------------------------------------------------
// stream control
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
static char *tailBuf = nullptr;  // last bytes of std::cerr (shared memory)
static const size_t TAIL = 1024;
static size_t tailPos = 0;
struct TailBuf : std::streambuf {
  int overflow(int c) override {
    if (c != EOF && tailBuf) { tailBuf[tailPos++ % TAIL] = (char) c; }
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; i++) overflow((unsigned char) s[i]);
    return n;
  }
};
static NullBuf nullBuf;
static TailBuf theTail;
static std::streambuf *realCout, *realCerr, *realClog;
static void silence() {
  std::cout.rdbuf(&nullBuf);
  std::cerr.rdbuf(&theTail);
  std::clog.rdbuf(&theTail);
}

std::string captureCout(const std::function<void()> &f) {
  std::ostringstream o;
  o.copyfmt(std::ostringstream());
  struct Guard {
    std::streambuf *old;
    ~Guard() { std::cout.rdbuf(old); }
  } g{std::cout.rdbuf(o.rdbuf())};
  f();
  std::cout.flush();
  return o.str();
}

static void writeAll(int fd, const std::string &s) {
  size_t i = 0;
  while (i < s.size()) {
    ssize_t r = write(fd, s.data() + i, s.size() - i);
    if (r <= 0) return;
    i += r;
  }
}

static int notesFd = -1;
void noteFlush(Ctx &c) {
  if (notesFd < 0) return;
  std::string t = c.text.str();
  if (c.flushed < t.size()) writeAll(notesFd, t.substr(c.flushed));
  c.flushed = t.size();
}

ForkResult forked(const std::function<void(std::string &)> &f) {
  int po[2], pe[2], pr[2];
  if (pipe(po) || pipe(pe) || pipe(pr)) throw std::runtime_error("pipe");
  pid_t pid = fork();
  if (pid < 0) throw std::runtime_error("fork");
  if (pid == 0) {
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &off, nullptr);
    dup2(po[1], 1);
    dup2(pe[1], 2);
    close(po[0]); close(po[1]); close(pe[0]); close(pe[1]); close(pr[0]);
    std::cout.rdbuf(realCout);
    std::cerr.rdbuf(realCerr);
    std::clog.rdbuf(realClog);
    struct itimerval lim = {{0, 0}, {60, 0}};
    setitimer(ITIMER_PROF, &lim, nullptr);
    std::string report;
    char kind = 'R';
    try {
      f(report);
    } catch (std::exception &e) {
      kind = 'T';
      report = e.what();
    } catch (...) {
      kind = 'T';
      report = "unknown exception";
    }
    std::cout.flush();
    fflush(stdout);
    writeAll(pr[1], std::string(1, kind) + report);
    _exit(0);
  }
  close(po[1]); close(pe[1]); close(pr[1]);
  ForkResult r;
  std::string rep;
  struct pollfd fds[3] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}, {pr[0], POLLIN, 0}};
  std::string *dst[3] = {&r.out, &r.err, &rep};
  int open = 3;
  while (open > 0) {
    if (poll(fds, 3, -1) < 0) { if (errno == EINTR) continue; break; }
    for (int i = 0; i < 3; i++) {
      if (fds[i].fd >= 0 && fds[i].revents) {
        char buf[65536];
        ssize_t n = read(fds[i].fd, buf, sizeof buf);
        if (n <= 0) { close(fds[i].fd); fds[i].fd = -1; open--; } else dst[i]->append(buf, n);
      }
    }
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
  if (WIFSIGNALED(st)) r.sig = WTERMSIG(st);
  if (!rep.empty()) {
    r.returned = rep[0] == 'R';
    r.threw = rep[0] == 'T';
    r.report = rep.substr(1);
  }
  return r;
}

// ---------------------------------------------------------------------------
// shared journal of a worker
struct LabelCount { char name[56]; uint64_t n; };
struct Slot {
  volatile uint64_t caseIdx;      // running case of this worker (ordinal in its own list)
  volatile uint32_t sub;
  volatile uint32_t state;        // 0 starting, 1 running a case, 2 finished, 3 check failed, 4 idle (between cases)
  volatile uint32_t nch;
  uint64_t ch[MAXC];
  char msg[16384];
  char tail[TAIL];
  uint64_t evals, discards, nontriv, mutated, corpus, edges;
  uint32_t nlabels;
  LabelCount labels[400];
  uint32_t nsamples;
  char samples[4][3000];
  uint64_t nhash;
  uint64_t hashes[1 << 18];
};
struct Shared {
  volatile uint32_t stop;
  double deadline;
};

// The choices of the running case are copied to shared memory as they are
// made, so that they survive a crash of the worker.
static Slot *jSlot = nullptr;
static void journalBegin(Slot *s) { jSlot = s; s->nch = 0; }
static void journalPut(uint64_t v) {
  if (jSlot && jSlot->nch < MAXC) { jSlot->ch[jSlot->nch] = v; jSlot->nch = jSlot->nch + 1; }
}

static void bump(Slot *s, const std::string &name, uint64_t n) {
  for (uint32_t i = 0; i < s->nlabels; i++)
    if (strncmp(s->labels[i].name, name.c_str(), 55) == 0) { s->labels[i].n += n; return; }
  if (s->nlabels < 400) {
    strncpy(s->labels[s->nlabels].name, name.c_str(), 55);
    s->labels[s->nlabels++].n = n;
  }
}

// Ambient randomness (rand, NTL, clock) starts equal for every case.
static const uint64_t AMBIENT = 0x5eed;

struct Outcome {
  int kind = 0;  // 0 pass, 1 fail, 2 discard
  std::string msg;
};

static void armCpu(double sec) {
  struct itimerval t;
  t.it_interval.tv_sec = t.it_interval.tv_usec = 0;
  t.it_value.tv_sec = (long) sec;
  t.it_value.tv_usec = (long) ((sec - (long) sec) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

static Outcome runCase(const Sub &sub, Ctx &c) {
  Outcome o;
  reseedAmbient(AMBIENT);
  silence();
  armCpu(sub.cpuLimit);
  try {
    sub.fn(c);
  } catch (CheckFailed &e) {
    o.kind = 1;
    o.msg = e.msg;
  } catch (Discard &) {
    o.kind = 2;
  } catch (std::exception &e) {
    o.kind = 1;
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.kind = 1;
    o.msg = "unexpected exception of unknown type";
  }
  armCpu(0);
  return o;
}

// ---------------------------------------------------------------------------
// running one recorded sequence of cases in a child process
struct Replayed {
  bool failed = false;
  std::string msg;
  size_t at = 0;
};
typedef std::pair<uint32_t, std::vector<uint64_t>> RecCase;

static Slot *scratchSlot = nullptr;
static std::string logPath;

static std::string slurp(const std::string &p, size_t max = 400000) {
  std::ifstream f(p, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > max) s.resize(max);
  return s;
}

static std::string cerrTail(const Slot *s) {
  std::string t;
  for (size_t i = 0; i < TAIL; i++) if (s->tail[i]) t += s->tail[i];
  return t;
}

static std::string describeDeath(int st, const std::string &log, const Slot *s) {
  std::ostringstream o;
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF) o << "no result within the CPU limit of a case (hang)";
    else o << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
  } else {
    o << "the code under test ended the process with status " << WEXITSTATUS(st);
  }
  size_t i = log.find("SUMMARY:");
  size_t j = log.find("runtime error:");
  if (i != std::string::npos) o << "; " << log.substr(i, log.find('\n', i) - i);
  else if (j != std::string::npos) {
    size_t b = log.rfind('\n', j);
    b = b == std::string::npos ? 0 : b + 1;
    o << "; " << log.substr(b, log.find('\n', j) - b);
  }
  std::string t = cerrTail(s);
  if (!t.empty()) o << "; last output: " << t.substr(t.size() > 300 ? t.size() - 300 : 0);
  return o.str();
}

// A driver-side resource problem, not a verdict about the code.
static bool resourceDeath(int st) { return WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL; }

static Replayed replayCases(const std::vector<RecCase> &cases, std::string *noteOut = nullptr,
                            std::vector<uint64_t> *recOut = nullptr) {
  Replayed r;
  memset(scratchSlot->msg, 0, sizeof scratchSlot->msg);
  memset(scratchSlot->tail, 0, sizeof scratchSlot->tail);
  scratchSlot->state = 0;
  scratchSlot->nch = 0;
  scratchSlot->caseIdx = 0;
  int lfd = open(logPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  int pn[2];
  if (pipe(pn)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(lfd, 2);
    close(pn[0]);
    tailBuf = scratchSlot->tail;
    tailPos = 0;
    for (size_t i = 0; i < cases.size(); i++) {
      const Sub &sub = property.subs[cases[i].first];
      std::vector<uint64_t> rec;
      bool notes = noteOut != nullptr && i + 1 == cases.size();
      Ctx c(Ctx::REPLAY, 0, &cases[i].second, &rec, notes);
      scratchSlot->caseIdx = i;
      scratchSlot->state = 1;
      if (notes) notesFd = pn[1];
      Outcome o = runCase(sub, c);
      if (i + 1 == cases.size() || o.kind == 1) {
        scratchSlot->nch = (uint32_t) std::min(rec.size(), MAXC);
        memcpy(scratchSlot->ch, rec.data(), scratchSlot->nch * 8);
      }
      if (notes) noteFlush(c);
      notesFd = -1;
      if (o.kind == 1) {
        strncpy(scratchSlot->msg, o.msg.c_str(), sizeof(scratchSlot->msg) - 1);
        scratchSlot->state = 3;
        _exit(0);
      }
    }
    scratchSlot->state = 2;
    _exit(0);
  }
  close(lfd);
  close(pn[1]);
  std::string notes;
  char buf[65536];
  ssize_t n;
  while ((n = read(pn[0], buf, sizeof buf)) > 0) notes.append(buf, n);
  close(pn[0]);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (noteOut) *noteOut = notes;
  if (scratchSlot->state == 2) return r;
  if (scratchSlot->state == 3) {
    r.failed = true;
    r.msg = scratchSlot->msg;
  } else if (!resourceDeath(st)) {
    r.failed = true;
    r.msg = describeDeath(st, slurp(logPath), scratchSlot);
  }
  r.at = scratchSlot->caseIdx;
  if (recOut && scratchSlot->state == 3) recOut->assign(scratchSlot->ch, scratchSlot->ch + scratchSlot->nch);
  return r;
}

// ---------------------------------------------------------------------------
// shrinking
struct Shrinker {
  uint32_t sub;
  std::vector<RecCase> prefix;  // earlier cases that are needed (usually none)
  std::vector<uint64_t> best;
  double deadline;
  size_t tries = 0;
  bool attempt(std::vector<uint64_t> cand) {
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (cand.size() > best.size() || cand == best) return false;
    if (wall() > deadline) return false;
    tries++;
    std::vector<RecCase> cs = prefix;
    cs.emplace_back(sub, cand);
    std::vector<uint64_t> rec;
    Replayed r = replayCases(cs, nullptr, &rec);
    if (r.failed && r.at + 1 == cs.size()) {
      best = cand;
      if (!rec.empty() && rec.size() < best.size()) best = rec;
      while (!best.empty() && best.back() == 0) best.pop_back();
      return true;
    }
    return false;
  }
  void run() {
    bool progress = true;
    while (progress && wall() < deadline) {
      progress = false;
      // cut the tail
      for (size_t len = best.size() / 2; len > 0 && wall() < deadline; len /= 2)
        while (best.size() > len && attempt(std::vector<uint64_t>(best.begin(), best.end() - len))) progress = true;
      // delete blocks
      for (size_t len : {64, 16, 8, 4, 3, 2, 1}) {
        for (size_t i = best.size() >= len ? best.size() - len + 1 : 0; i-- > 0 && wall() < deadline;) {
          if (i + len > best.size()) continue;
          std::vector<uint64_t> c = best;
          c.erase(c.begin() + i, c.begin() + i + len);
          if (attempt(c)) progress = true;
        }
        if (best.size() > 400 && len <= 4) break;  // long sequences: coarse deletion only
      }
      // delete a block and decrement an earlier count
      if (best.size() <= 120) {
        for (size_t i = 0; i < best.size() && wall() < deadline; i++) {
          if (best[i] == 0 || best[i] > 64) continue;
          for (size_t len : {1, 2, 3, 4}) {
            bool ok = false;
            for (size_t k = i + 1; k + len <= best.size() && k < i + 24 && wall() < deadline; k++) {
              std::vector<uint64_t> c = best;
              c[i]--;
              c.erase(c.begin() + k, c.begin() + k + len);
              if (attempt(c)) { progress = ok = true; break; }
            }
            if (ok) break;
          }
        }
      }
      // zero blocks
      for (size_t len : {16, 4, 1})
        for (size_t i = 0; i + len <= best.size() && wall() < deadline; i += len) {
          std::vector<uint64_t> c = best;
          bool any = false;
          for (size_t k = i; k < i + len; k++) { any |= c[k] != 0; c[k] = 0; }
          if (any && attempt(c)) progress = true;
        }
      // minimise values
      for (size_t i = 0; i < best.size() && wall() < deadline; i++) {
        if (i >= best.size() || best[i] == 0) continue;
        uint64_t lo = 0, hi = best[i];
        for (uint64_t cand : {hi / 2, hi - 1}) {
          std::vector<uint64_t> c = best;
          if (i < c.size()) { c[i] = cand; if (attempt(c)) { progress = true; hi = cand; } }
        }
        while (lo + 1 < hi && wall() < deadline && i < best.size()) {
          uint64_t mid = lo + (hi - lo) / 2;
          std::vector<uint64_t> c = best;
          c[i] = mid;
          if (attempt(c)) { progress = true; hi = mid; } else lo = mid;
        }
      }
    }
  }
};

// ---------------------------------------------------------------------------
// the worker
struct Plan { uint32_t sub; uint64_t idx; };

static uint64_t caseSeed(uint64_t seed, uint32_t sub, uint64_t idx) {
  uint64_t h = fnv(property.id, strlen(property.id));
  h = fnv(property.subs[sub].name, strlen(property.subs[sub].name), h);
  uint64_t s = h ^ (seed * 0x9e3779b97f4a7c15ull);
  splitmix(s);
  s ^= idx * 0xd1342543de82ef95ull + 0x2545F4914F6CDD1Dull;
  return splitmix(s);
}

static std::vector<uint64_t> mutateSeq(uint64_t &st, const std::vector<std::vector<uint64_t>> &corpus) {
  std::vector<uint64_t> v = corpus[splitmix(st) % corpus.size()];
  int ops = 1 + (int) (splitmix(st) % 4);
  for (int k = 0; k < ops; k++) {
    if (v.empty()) break;
    size_t i = splitmix(st) % v.size();
    uint64_t r = splitmix(st);
    switch (r % 9) {
      case 0: v[i] = splitmix(st); break;
      case 1: v[i] = splitmix(st) % 8; break;
      case 2: v[i] += 1; break;
      case 3: if (v[i]) v[i] -= 1; break;
      case 4: {  // delete
        size_t n = 1 + splitmix(st) % 8;
        v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + n));
        break;
      }
      case 5: {  // duplicate
        size_t n = std::min<size_t>(1 + splitmix(st) % 16, v.size() - i);
        std::vector<uint64_t> b(v.begin() + i, v.begin() + i + n);
        v.insert(v.begin() + i, b.begin(), b.end());
        break;
      }
      case 6: {  // splice
        const auto &o = corpus[splitmix(st) % corpus.size()];
        if (!o.empty()) {
          size_t j = splitmix(st) % o.size();
          v.resize(i);
          v.insert(v.end(), o.begin() + j, o.end());
        }
        break;
      }
      case 7: v.resize(i); break;
      default: if (dictN) v[i] = dict[splitmix(st) % dictN]; break;
    }
  }
  if (v.size() > MAXC / 2) v.resize(MAXC / 2);
  return v;
}

struct Cov {
  std::vector<uint8_t> seen;
  size_t total = 0;
  Cov() { for (auto &r : covRegions) total += r.second - r.first; seen.assign(total, 0); }
  void clear() { for (auto &r : covRegions) memset(r.first, 0, r.second - r.first); }
  bool update() {
    bool fresh = false;
    size_t k = 0;
    for (auto &r : covRegions)
      for (uint8_t *p = r.first; p < r.second; p++, k++) {
        if (!*p) continue;
        uint8_t b = *p >= 128 ? 128 : *p >= 32 ? 64 : *p >= 16 ? 32 : *p >= 8 ? 16 : *p >= 4 ? 8 : *p == 3 ? 4 : *p == 2 ? 2 : 1;
        if (!(seen[k] & b)) { seen[k] |= b; fresh = true; }
        *p = 0;
      }
    return fresh;
  }
  uint64_t edges() const { uint64_t n = 0; for (uint8_t b : seen) n += b != 0; return n; }
};

static void worker(Slot *s, Shared *sh, const std::vector<Plan> &plan, uint64_t seed) {
  tailBuf = s->tail;
  tailPos = 0;
  dictOn = true;
  Cov cov;
  std::vector<std::vector<std::vector<uint64_t>>> corpus(property.subs.size());
  std::vector<size_t> sampled(property.subs.size(), 0);
  for (size_t k = 0; k < plan.size(); k++) {
    if (sh->stop || wall() > sh->deadline) { if (wall() > sh->deadline) bump(s, "engine: time cap reached", 1); break; }
    const Sub &sub = property.subs[plan[k].sub];
    uint64_t st = caseSeed(seed, plan[k].sub, plan[k].idx);
    std::vector<uint64_t> given, rec;
    rec.reserve(256);
    auto &cp = corpus[plan[k].sub];
    bool mut = !cp.empty() && plan[k].idx % 5 >= 3;
    if (mut) { given = mutateSeq(st, cp); s->mutated++; }
    bool notes = sampled[plan[k].sub] < 2 && s->nsamples < 4;
    Ctx c(mut ? Ctx::MUTATE : Ctx::GENERATE, st, &given, &rec, notes);
    s->caseIdx = k;
    s->sub = plan[k].sub;
    s->nch = 0;
    s->state = 1;
    if (cov.total) cov.clear();
    journalBegin(s);
    Outcome o = runCase(sub, c);
    s->evals++;
    if (o.kind == 2) {
      s->discards++;
      s->state = 4;
      continue;
    }
    if (o.kind == 1) {
      s->nch = (uint32_t) rec.size();
      memcpy(s->ch, rec.data(), rec.size() * 8);
      memset(s->msg, 0, sizeof s->msg);
      strncpy(s->msg, o.msg.c_str(), sizeof(s->msg) - 1);
      s->state = 3;
      sh->stop = 1;
      _exit(0);
    }
    s->state = 4;
    bump(s, std::string("sub ") + sub.name, 1);
    for (auto &l : c.labels) bump(s, l, 1);
    for (auto &l : c.counts) bump(s, "total " + l.first, l.second);
    if (c.nontriv) {
      s->nontriv++;
      uint64_t h = fnv(rec.data(), rec.size() * 8, fnv(sub.name, strlen(sub.name)));
      if (s->nhash < (1 << 18)) s->hashes[s->nhash++] = h;
      if (notes) {
        std::string t = std::string("[") + sub.name + "] " + c.text.str();
        strncpy(s->samples[s->nsamples], t.c_str(), sizeof(s->samples[0]) - 1);
        s->nsamples++;
        sampled[plan[k].sub]++;
      }
    }
    if (cov.total && cov.update() && rec.size() < 20000) {
      cp.push_back(rec);
      if (cp.size() > 400) cp.erase(cp.begin());
      s->corpus++;
    }
  }
  s->edges = cov.edges();
  s->state = 2;
  _exit(0);
}

// ---------------------------------------------------------------------------
static std::string jsonStr(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += (char) ch;
  }
  return o + "\"";
}

static void writeReplay(const std::string &path, const std::vector<RecCase> &cases, const std::string &msg, const std::string &notes,
                        uint64_t seed) {
  std::ofstream f(path);
  f << "{\n \"property\": " << jsonStr(property.id) << ",\n \"seed\": " << seed << ",\n \"failure\": " << jsonStr(msg)
    << ",\n \"case\": " << jsonStr(notes) << ",\n \"cases\": [\n";
  for (size_t i = 0; i < cases.size(); i++) {
    f << "  [" << jsonStr(property.subs[cases[i].first].name);
    for (uint64_t v : cases[i].second) f << "," << v;
    f << "]" << (i + 1 < cases.size() ? "," : "") << "\n";
  }
  f << " ]\n}\n";
}

static bool readReplay(const std::string &path, std::vector<RecCase> &cases) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  bool in = false;
  while (std::getline(f, line)) {
    if (line.find("\"cases\": [") != std::string::npos) { in = true; continue; }
    if (!in) continue;
    size_t a = line.find("[\"");
    if (a == std::string::npos) continue;
    size_t b = line.find('"', a + 2);
    std::string name = line.substr(a + 2, b - a - 2);
    RecCase rc;
    bool found = false;
    for (size_t i = 0; i < property.subs.size(); i++)
      if (name == property.subs[i].name) { rc.first = (uint32_t) i; found = true; }
    if (!found) return false;
    size_t p = b + 1;
    while (p < line.size() && line[p] == ',') {
      p++;
      if (line[p] == '\0' || !isdigit((unsigned char) line[p])) break;
      char *end;
      rc.second.push_back(strtoull(line.c_str() + p, &end, 10));
      p = end - line.c_str();
    }
    cases.push_back(rc);
  }
  return !cases.empty();
}

}  // namespace pbt

using namespace pbt;

int main(int argc, char **argv) {
  // Same addresses in every run, where the system allows it.
  if (!getenv("PBT_NOASLR_DONE")) {
    setenv("PBT_NOASLR_DONE", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string out, replay, scratch = "/tmp", replayDir = ".", only, regress;
  uint64_t seed = 1, workers = 8;
  double cap = 120, shrinkTime = 40, scale = 1;
  bool thorough = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--out") out = next();
    else if (a == "--replay") replay = next();
    else if (a == "--regress") regress = next();
    else if (a == "--replay-dir") replayDir = next();
    else if (a == "--scratch") pbt::scratchPath = scratch = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--workers") workers = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--cap") cap = atof(next().c_str());
    else if (a == "--shrink") shrinkTime = atof(next().c_str());
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--sub") only = next();
    else if (a == "--thorough") thorough = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  realCout = std::cout.rdbuf();
  realCerr = std::cerr.rdbuf();
  realClog = std::clog.rdbuf();
  signal(SIGPIPE, SIG_IGN);
  double t0 = wall();
  auto shm = [](size_t n) -> void * {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
  };
  scratchSlot = (Slot *) shm(sizeof(Slot));
  logPath = scratch + "/replay.log";

  if (!replay.empty()) {
    std::vector<RecCase> cases;
    if (!readReplay(replay, cases)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    std::string notes;
    Replayed r = replayCases(cases, &notes);
    printf("%s\n%s\n", notes.c_str(), r.failed ? ("FAILED: " + r.msg).c_str() : "passed");
    return r.failed ? 1 : 0;
  }

  // The list of cases, dealt to the workers round-robin (a pure function of the seed and the tier)
  std::vector<std::vector<Plan>> plans(workers);
  uint64_t total = 0;
  {
    std::vector<std::pair<double, Plan>> all;
    for (uint32_t k = 0; k < property.subs.size(); k++) {
      const Sub &s = property.subs[k];
      if (!only.empty() && only != s.name) continue;
      uint64_t n = (uint64_t) ((thorough ? s.thorough : s.quick) * scale + 0.5);
      for (uint64_t i = 0; i < n; i++) all.push_back({(i + 0.5) / n, {k, i}});
    }
    std::stable_sort(all.begin(), all.end(), [](auto &a, auto &b) { return a.first < b.first; });
    std::vector<uint64_t> rr(property.subs.size(), 0);
    for (auto &x : all) plans[(rr[x.second.sub]++ + x.second.sub) % workers].push_back(x.second);
    total = all.size();
  }
  Shared *sh = (Shared *) shm(sizeof(Shared));
  sh->stop = 0;
  sh->deadline = t0 + cap;
  std::vector<Slot *> slots(workers);
  std::vector<pid_t> pids(workers);
  std::vector<std::string> logs(workers);
  for (uint64_t w = 0; w < workers; w++) {
    slots[w] = (Slot *) shm(sizeof(Slot));
    logs[w] = scratch + "/worker" + std::to_string(w) + ".log";
    fflush(nullptr);
    pids[w] = fork();
    if (pids[w] == 0) {
      int lfd = open(logs[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(lfd, 2);
      int nfd = open("/dev/null", O_WRONLY);
      dup2(nfd, 1);
      worker(slots[w], sh, plans[w], seed);
    }
  }
  // collect
  struct Fail { uint64_t w; std::string msg; };
  std::vector<Fail> fails;
  std::vector<std::string> inconclusive;
  std::vector<int> status(workers, 0);
  std::vector<bool> live(workers, true);
  std::vector<std::pair<uint64_t, double>> progress(workers, {~0ull, wall()});
  size_t nlive = workers;
  while (nlive > 0) {
    bool any = false;
    for (uint64_t w = 0; w < workers; w++) {
      if (!live[w]) continue;
      int st;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        live[w] = false;
        nlive--;
        any = true;
        status[w] = st;
        Slot *s = slots[w];
        if (s->state == 2) continue;
        if (s->state == 3) fails.push_back({w, s->msg});
        else if (resourceDeath(st)) inconclusive.push_back("worker " + std::to_string(w) + " was killed (memory or watchdog) at case " + std::to_string(s->caseIdx));
        else if (s->state == 4 || s->state == 0) inconclusive.push_back("worker " + std::to_string(w) + " died between cases: " + describeDeath(st, slurp(logs[w]), s));
        else fails.push_back({w, describeDeath(st, slurp(logs[w]), s)});
        if (!fails.empty()) sh->stop = 1;
      } else {
        // a case that blocks without using CPU
        if (progress[w].first != slots[w]->caseIdx) progress[w] = {slots[w]->caseIdx, wall()};
        else if (wall() - progress[w].second > 400) kill(pids[w], SIGPROF);
      }
    }
    if (!any) usleep(5000);
  }

  // failures: reproduce, shrink, confirm
  int verdict = 0;
  std::string replayPath, failMsg;
  for (auto &f : fails) {
    if (verdict) break;
    Slot *s = slots[f.w];
    RecCase rc(s->sub, std::vector<uint64_t>(s->ch, s->ch + s->nch));
    std::vector<RecCase> prefix;
    std::vector<RecCase> one{rc};
    Replayed r = replayCases(one);
    if (!r.failed) {
      // The failure may need what earlier cases of this worker left behind: run
      // the worker's own cases again up to the failing one.
      Slot *s2 = (Slot *) shm(sizeof(Slot));
      Shared *sh2 = (Shared *) shm(sizeof(Shared));
      sh2->stop = 0;
      sh2->deadline = wall() + 200;
      std::vector<Plan> p(plans[f.w].begin(), plans[f.w].begin() + std::min<size_t>(plans[f.w].size(), s->caseIdx + 1));
      int same = 0;
      std::string m2;
      for (int k = 0; k < 2; k++) {
        memset((void *) &s2->evals, 0, sizeof(uint64_t) * 6);
        s2->nlabels = s2->nsamples = 0;
        s2->nhash = 0;
        s2->state = 0;
        sh2->stop = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
          int lfd = open(logPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
          dup2(lfd, 2);
          worker(s2, sh2, p, seed);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        bool bad = s2->state == 3 || (s2->state == 1 && !resourceDeath(st));
        if (bad) { same++; m2 = s2->state == 3 ? s2->msg : describeDeath(st, slurp(logPath), s2); }
      }
      if (same == 2) {
        verdict = 1;
        failMsg = "(after the worker's earlier cases) " + m2;
        replayPath = replayDir + "/" + property.id + "-" + std::to_string(seed) + ".json";
        writeReplay(replayPath, one, failMsg + " -- needs the earlier cases: run the check again with this seed", "", seed);
      } else {
        inconclusive.push_back("a failure did not reproduce from its recorded choices: " + f.msg);
      }
      continue;
    }
    Shrinker shr;
    shr.sub = rc.first;
    shr.best = rc.second;
    shr.deadline = wall() + shrinkTime;
    shr.run();
    std::vector<RecCase> cases{RecCase(shr.sub, shr.best)};
    int same = 0;
    std::string notes;
    for (int k = 0; k < 3; k++) {
      r = replayCases(cases, &notes);
      same += r.failed;
    }
    if (same < 3) {  // fall back to the unshrunk case
      cases = one;
      same = 0;
      for (int k = 0; k < 3; k++) { r = replayCases(cases, &notes); same += r.failed; }
    }
    if (same == 3) {
      verdict = 1;
      failMsg = r.msg;
      replayPath = replayDir + "/" + property.id + "-" + std::to_string(seed) + ".json";
      writeReplay(replayPath, cases, r.msg, notes, seed);
      fprintf(stderr, "failing case (after %zu shrinking runs):\n%s\nfailure: %s\n", shr.tries, notes.substr(0, 4000).c_str(), r.msg.c_str());
    } else {
      inconclusive.push_back("a failure reproduced only " + std::to_string(same) + " of 3 times: " + f.msg);
    }
  }

  // summary
  uint64_t evals = 0, disc = 0, nontriv = 0, mutated = 0, corpus = 0, edges = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hs;
  std::vector<std::string> samples;
  for (auto *s : slots) {
    evals += s->evals; disc += s->discards; nontriv += s->nontriv; mutated += s->mutated; corpus += s->corpus;
    edges = std::max(edges, (uint64_t) s->edges);
    for (uint32_t i = 0; i < s->nlabels; i++) labels[s->labels[i].name] += s->labels[i].n;
    for (uint64_t i = 0; i < s->nhash; i++) hs.insert(s->hashes[i]);
    for (uint32_t i = 0; i < s->nsamples; i++) if (samples.size() < 8) samples.push_back(s->samples[i]);
  }
  std::ofstream f(out.empty() ? "/dev/null" : out.c_str());
  f << "{\"property\":" << jsonStr(property.id) << ",\"planned\":" << total << ",\"evaluations\":" << evals << ",\"discarded\":" << disc
    << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << hs.size() << ",\"mutated\":" << mutated
    << ",\"corpus\":" << corpus << ",\"edges\":" << edges << ",\"rule\":" << jsonStr(property.rule) << ",\"labels\":{";
  bool first = true;
  for (auto &l : labels) { f << (first ? "" : ",") << jsonStr(l.first) << ":" << l.second; first = false; }
  f << "},\"samples\":[";
  first = true;
  for (auto &x : samples) { f << (first ? "" : ",") << jsonStr(x); first = false; }
  f << "],\"inconclusive\":[";
  first = true;
  for (auto &x : inconclusive) { f << (first ? "" : ",") << jsonStr(x); first = false; }
  f << "],\"verdict\":" << verdict << ",\"failure\":" << jsonStr(failMsg) << ",\"replay\":" << jsonStr(replayPath)
    << ",\"seconds\":" << (wall() - t0) << "}\n";
  f.close();
  return verdict;
}
