// C15: the stopwatch reports exactly the times between its marks.
#include "gen.hpp"
#include "pbt.hpp"
#include "simplebm.h"
#include <cmath>
#include <map>
#include <set>
#include <memory>

using namespace pbt;

namespace {

typedef long double real;

struct Model {
  std::vector<int64_t> t;     // mark times in microseconds
  std::vector<bool> paused;   // interval i (t[i-1]..t[i]) follows a pause
  std::map<std::string, size_t> names;
  std::set<std::string> forgotten;
  bool stopped = true, pausing = false, started = false, afterReset = false;

  void mark(int64_t now, bool pause, const std::string &name) {
    t.push_back(now);
    paused.push_back(t.size() > 1 ? pausing : false);
    pausing = pause;
    if (!name.empty()) names[name] = t.size() - 1;
  }
  void start(int64_t now) {
    clear();
    stopped = false;
    started = true;
    mark(now, false, "");
  }
  void clear() {
    std::set<std::string> f = forgotten;
    for (auto &x : names) f.insert(x.first);
    *this = Model();
    forgotten = f;
  }
  int64_t interval(size_t i) const { return t[i] - t[i - 1]; }
  int64_t bench(size_t i) const {
    if (i == 0) i = t.size() - 1;
    return t.size() < 2 || i >= t.size() ? 0 : interval(i);
  }
  int64_t cumulative(size_t i, bool noPauses) const {
    if (t.empty() || i >= t.size()) return 0;
    if (i == 0) i = t.size() - 1;
    int64_t s = 0;
    for (size_t k = 1; k <= i; k++)
      if (!noPauses || !paused[k]) s += interval(k);
    return s;
  }
  std::vector<int64_t> all(bool noPauses) const {
    std::vector<int64_t> v;
    for (size_t k = 1; k < t.size(); k++)
      if (!noPauses || !paused[k]) v.push_back(interval(k));
    return v;
  }
};

const size_t NAMES = 8;
const std::string kNames[NAMES] = {"a", "b", "interval", "a b", "0", std::string("a\0b", 3), std::string("a\0", 2), std::string(40, 'n')};

std::string shown(const std::string &s) {
  std::string r;
  for (char ch : s) r += ch ? std::string(1, ch) : "\\0";
  return r;
}

void judge(const SimpleBenchmark &s, const Model &m, const std::string &after, bool every) {
  auto same = [&](int64_t got, int64_t want, const std::string &what) {
    PBT_CHECK(got == want, "after " << after << ": " << what << " is " << got << " us, the marks give " << want);
  };
  auto close = [&](double got, real want, real scale, const char *what, bool np) {
    PBT_CHECK(std::isfinite(got) && fabsl((real) got - want) <= 1e-9L * fabsl(want) + 1e-9L * scale + 1e-9L,
              "after " << after << ": " << what << "(" << np << ") is " << got << ", the intervals give " << (double) want);
  };
  size_t n = m.t.size();
  for (size_t i = 0; i < n + 3; i++) {
    if (!every && i > 2 && i + 2 < n && (n < 300 || (i * 2654435761u) % n > 15)) continue;
    same(s.benchmark(i).count(), m.bench(i), "benchmark(" + std::to_string(i) + ")");
    for (int np = 0; np < 2; np++)
      same(s.cumulativeBenchmark(i, np).count(), m.cumulative(i, np), "cumulativeBenchmark(" + std::to_string(i) + ", " + std::to_string(np) + ")");
  }
  same(s.benchmark().count(), m.bench(0), "benchmark()");
  same(s.cumulativeBenchmark().count(), m.cumulative(0, true), "cumulativeBenchmark()");
  same(s.benchmark(std::string()).count(), m.bench(0), "benchmark(\"\")");
  for (auto &x : m.names) {
    same(s.benchmark(x.first).count(), m.bench(x.second), "benchmark(\"" + shown(x.first) + "\")");
    same(s.cumulativeBenchmark(x.first).count(), m.cumulative(x.second, true), "cumulativeBenchmark(\"" + shown(x.first) + "\")");
    same(s.cumulativeBenchmark(x.first, false).count(), m.cumulative(x.second, false), "cumulativeBenchmark(\"" + shown(x.first) + "\", false)");
  }
  // a name from before the last start is as unknown as one never given
  for (const std::string &x : kNames)
    if (m.forgotten.count(x) && !m.names.count(x)) {
      same(s.benchmark(x).count(), s.benchmark(std::string("never given")).count(), std::string("benchmark(\"") + shown(x) + "\"), forgotten,");
      for (int np = 0; np < 2; np++)
        same(s.cumulativeBenchmark(x, np).count(), s.cumulativeBenchmark(std::string("never given"), np).count(),
             std::string("cumulativeBenchmark(\"") + shown(x) + "\"), forgotten,");
    }
  for (int np = 0; np < 2; np++) {
    std::vector<int64_t> v = m.all(np);
    real sum = 0, var = 0, top = 0;
    int64_t mn = v.empty() ? 0 : v[0], mx = mn;
    for (int64_t x : v) {
      sum += x;
      mn = std::min(mn, x);
      mx = std::max(mx, x);
    }
    top = mx;
    real avg = v.empty() ? 0 : sum / (real) v.size();
    for (int64_t x : v) var += ((real) x - avg) * ((real) x - avg);
    if (!v.empty()) var /= (real) v.size();
    close(s.average(np), avg, 0, "average", np);
    close(s.variance(np), var, top * top * 1e-3L, "variance", np);
    // the root loses half of the digits near zero
    real sd = s.standardDeviation(np);
    PBT_CHECK(std::isfinite((double) sd) && (fabsl(sd - sqrtl(var)) <= 1e-7L * sqrtl(var) + 1e-9L || fabsl(sd - sqrtl(var)) <= 2e-6L * top),
              "after " << after << ": standardDeviation(" << np << ") is " << (double) sd << ", the intervals give " << (double) sqrtl(var));
    same(s.min(np).count(), mn, std::string("min(") + (np ? "true" : "false") + ")");
    same(s.max(np).count(), mx, std::string("max(") + (np ? "true" : "false") + ")");
  }
  // pauses are left out unless asked for
  PBT_CHECK(s.variance() == s.variance(true) && s.standardDeviation() == s.standardDeviation(true) && s.min() == s.min(true) && s.max() == s.max(true) && s.average() == s.average(true),
            "after " << after << ": statistics count pauses unasked");
  close(s.average(), m.all(true).empty() ? 0 : (real) m.cumulative(0, true) / (real) m.all(true).size(), 0, "average", true);
  PBT_CHECK(s.isStopped() == m.stopped, "after " << after << ": isStopped() is " << s.isStopped());
  PBT_CHECK(s.isPaused() == (!m.stopped && m.pausing), "after " << after << ": isPaused() is " << s.isPaused());
}

void history(Ctx &c) {
  int64_t now = (int64_t) c.draw(1ull << 40);
  clockHook = [&] { return now * 1000; };
  struct Unhook { ~Unhook() { clockHook = nullptr; } } unhook;
  std::unique_ptr<SimpleBenchmark> s(c.coin() ? new SimpleBenchmark : new SimpleBenchmark(c.draw(20)));
  Model m;
  std::ostringstream trail;
  bool lengthy = c.chance(1, 1500);
  size_t nops = lengthy ? c.range(600, 2500) : c.skewed(1, 40), restarts = 0, pauses = 0;
  bool ignored = false;
  for (size_t k = 0; k < nops; k++) {
    switch (c.weighted({1, 3, 3, 1})) {
      case 0: break;
      case 1: now += (int64_t) c.draw(20); break;
      case 2: now += (int64_t) c.draw(100000); break;
      default: now += (int64_t) c.draw(1ull << 36); break;
    }
    std::string name;
    if (c.chance(1, 2)) name = kNames[c.draw(NAMES)];
    std::string what;
    size_t before = m.t.size();
    size_t kind = c.weighted({5, 3, 3, 2, 2, 1, 1});
    if (lengthy && kind >= 3 && m.t.size() > 4 && c.draw(1500)) kind = c.draw(3);
    switch (kind) {
      case 0:
        if (m.pausing && !m.stopped) name.clear();  // a name right after a pause has no agreed meaning
        what = "step(" + shown(name) + ")";
        s->step(name);
        if (m.t.empty()) m.start(now); else if (!m.stopped) m.mark(now, false, name);
        break;
      case 1:
        what = "pause(" + shown(name) + ")";
        s->pause(name);
        if (!m.t.empty() && !m.stopped && !m.pausing) m.mark(now, true, name), pauses++;
        break;
      case 2:
        what = "cont()";
        s->cont();
        if (m.t.empty()) m.start(now); else if (!m.stopped) m.mark(now, false, "");
        break;
      case 3:
        if (m.afterReset) continue;
        what = "stop(" + shown(name) + ")";
        s->stop(name);
        if (!m.stopped) {
          if (!m.pausing) m.mark(now, false, name);
          m.stopped = true;
        }
        break;
      case 4:
        what = "start()";
        s->start();
        if (!m.t.empty()) restarts++;
        m.start(now);
        break;
      case 5:
        what = "reset()";
        s->reset();
        m.clear();
        m.stopped = false;
        m.afterReset = true;
        break;
      default:  // a copy goes on like the original
        what = "copy";
        s.reset(new SimpleBenchmark(*s));
        break;
    }
    if (!m.t.empty()) m.afterReset = false;
    if (before == m.t.size()) ignored = true;
    what += " at " + std::to_string(now);
    PBT_NOTE(c, what << ": " << m.t.size() << " marks" << (m.stopped ? ", stopped" : "") << (m.pausing ? ", paused" : ""));
    if (!lengthy || k + 1 == nops || c.chance(1, 200)) judge(*s, m, what, !lengthy && (nops < 15 || k + 1 == nops));
    c.count("marks");
  }
  size_t np = m.all(true).size(), al = m.all(false).size();
  if (np < al) c.label("paused intervals at the end");
  if (!m.names.empty()) c.label("named marks");
  if (restarts) c.label("restarted");
  if (!m.forgotten.empty()) c.label("forgotten names");
  if (m.stopped && al) c.label("stopped at the end");
  if (al > 1024) c.label("more than 1024 intervals");
  if (ignored) c.label("ignored marks");
  if (al >= 2 && (pauses || !m.names.empty() || restarts)) c.nontrivial();
}

// More marks than a 16-bit count can hold
void marathon(Ctx &c) {
  int64_t now = (int64_t) c.draw(1ull << 40);
  uint64_t r = c.u64();
  clockHook = [&] { return now * 1000; };
  struct Unhook { ~Unhook() { clockHook = nullptr; } } unhook;
  SimpleBenchmark s;
  Model m;
  size_t n = 65600 + c.draw(5000), k;
  auto check = [&](const char *when) { judge(s, m, when + std::string(" ") + std::to_string(m.t.size()) + " marks", false); };
  for (k = 0; m.t.size() < n; k++) {
    now += (int64_t) (splitmix(r) % 5000);
    uint64_t kind = splitmix(r) % 8;
    std::string name;
    if (splitmix(r) % 4 == 0) name = kNames[splitmix(r) % NAMES];
    if (m.t.empty() || kind == 0) {
      s.cont();
      if (m.t.empty()) m.start(now); else m.mark(now, false, "");
    } else if (kind == 1) {
      s.pause(name);
      if (!m.pausing) m.mark(now, true, name);
    } else {
      if (m.pausing) name.clear();
      s.step(name);
      m.mark(now, false, name);
    }
    if (k % 20000 == 19999) check("at");
  }
  now += (int64_t) (splitmix(r) % 5000);
  s.stop("");
  if (!m.pausing) m.mark(now, false, "");
  m.stopped = true;
  check("stopped at");
  PBT_NOTE(c, m.t.size() << " marks");
  c.label("more than 65536 intervals");
  c.count("marks", m.t.size());
  c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C15",
    "Histories of 1-40 (1 in 1500: up to 2500) operations (start, step, pause, continue, stop, reset, copy; five names, reused) under a controlled clock whose readings "
    "advance by 0 to 2^36 us; after every operation all numbered and named intervals, cumulative times, averages, variances, standard "
    "deviations, minima, maxima and state flags, with and without pauses, are compared with a model holding the marks, and names from before the last start with a name never given. marathon: more than 65536 marks in one measurement. Excluded: names given "
    "to a step right after a pause, stop right after reset. Non-trivial: at least two intervals at the end, with pauses, names or restarts.",
    {{"history", history, 100000, 2000000, 20}, {"marathon", marathon, 1, 10, 200}}};
