// A small property-based testing engine with choice-sequence shrinking and
// coverage feedback.  One binary per property; see pbt.cpp for the driver.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct CheckFailed : std::exception {
  std::string msg;
  explicit CheckFailed(std::string m) : msg(std::move(m)) {}
  const char *what() const noexcept override { return msg.c_str(); }
};
struct Discard : std::exception {};

uint64_t splitmix(uint64_t &s);

class Ctx {
 public:
  enum Mode { GENERATE, REPLAY, MUTATE };
  // GENERATE: every choice from the case's own generator.  REPLAY: choices are
  // given, zeros after the end.  MUTATE: choices are given, generated after.
  Ctx(Mode mode, uint64_t seed, const std::vector<uint64_t> *given, std::vector<uint64_t> *rec, bool notes);

  // A number in [0, n); n == 0 stands for 2^64.  Smaller is simpler.
  uint64_t draw(uint64_t n);
  // As draw, but constants the code under test compares with are tried too.
  uint64_t drawHot(uint64_t n);
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
  uint64_t rangeHot(uint64_t lo, uint64_t hi) { return lo + drawHotOff(hi - lo + 1, lo); }
  // hi is exceptional: mostly small numbers in [lo, hi], with a long tail
  uint64_t skewed(uint64_t lo, uint64_t hi);
  bool coin() { return draw(2) == 1; }
  // true with probability num/den; false is the simple case
  bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
  // index by weights (index 0 is the simplest)
  size_t weighted(std::initializer_list<unsigned> w);
  template <typename T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  uint64_t u64() { return drawHot(0); }
  std::string bytes(size_t n);

  void label(const std::string &l);          // counted once per case
  void count(const std::string &l, uint64_t n = 1);  // free counter
  void nontrivial() { nontriv = true; }
  bool notes;
  std::ostringstream text;
  size_t flushed = 0;
  bool nontriv = false;
  std::vector<std::string> labels;
  std::vector<std::pair<std::string, uint64_t>> counts;
  bool overflow = false;

 private:
  uint64_t drawHotOff(uint64_t n, uint64_t off);
  uint64_t put(uint64_t v);
  Mode mode;
  uint64_t state;
  const std::vector<uint64_t> *given;
  size_t pos = 0;
  std::vector<uint64_t> *rec;
};

// notes are passed on at once, so that they survive a crash
void noteFlush(Ctx &c);
#define PBT_NOTE(c, expr) do { if ((c).notes) { (c).text << expr << "\n"; pbt::noteFlush(c); } } while (0)
#define PBT_FAIL(expr) do { std::ostringstream o_; o_ << expr; throw pbt::CheckFailed(o_.str()); } while (0)
#define PBT_CHECK(cond, expr) do { if (!(cond)) { std::ostringstream o_; o_ << expr; throw pbt::CheckFailed(o_.str()); } } while (0)

struct Sub {
  const char *name;
  void (*fn)(Ctx &);
  uint64_t quick, thorough;  // number of cases
  double cpuLimit;           // seconds of CPU one case may use
};

struct Property {
  const char *id;
  const char *rule;
  std::vector<Sub> subs;
};
// Every property binary defines this one.
extern const Property property;

// Run f in a child process with stdout and stderr captured.
struct ForkResult {
  bool exited = false;
  int code = -1, sig = 0;
  bool returned = false;  // f came back (the child then ends with code 0)
  bool threw = false;     // f left by an exception (described in report)
  std::string out, err, report;
};
// f may write a report for the parent through the string.
ForkResult forked(const std::function<void(std::string &)> &f);

// Capture what the code under test writes to std::cout while f runs.
std::string captureCout(const std::function<void()> &f);

// rand()/time()/clock control -------------------------------------------------
extern std::function<int()> randHook;     // null: deterministic generator
extern std::function<int64_t()> clockHook; // nanoseconds; null: increasing
const std::string &scratchFolder();        // removed after the run
struct GivenTimes {                        // the clock of this thread, while it lives, goes on from the given time
  explicit GivenTimes(int64_t &at);
  ~GivenTimes();
  int64_t *before;
};
void reseedAmbient(uint64_t seed);         // rand, NTL, clock
std::string hex(const void *p, size_t n);
std::string hex(const std::string &s);

}  // namespace pbt
