// C21: threads with objects of their own do not influence one another.
#include "work.hpp"
#include "sched.hpp"

#include <atomic>
#include <thread>

using namespace proto;

namespace {

struct Job {
  std::vector<Work> works;
  std::vector<std::string> names;
  uint64_t seed = 0;
};

std::string perform(const Job &j, const ZZ &p) {
  ZZ_p::init(p);
  ZZ s = ref::fromLE(std::to_string(j.seed));
  NTL::SetSeed(s);
  std::ostringstream o;
  try {
    for (size_t k = 0; k < j.works.size(); k++) {
      o << "\n" << j.names[k] << ": ";
      j.works[k](o);
    }
  } catch (std::exception &e) {
    o << "exception " << e.what();
  }
  return o.str();
}

std::string firstDifference(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t line = a.rfind('\n', i);
  std::string what = line == std::string::npos ? "" : a.substr(line + 1, a.find(':', line + 1) - line - 1);
  size_t from = i < 20 ? 0 : i - 20;
  return what + ": alone ..." + a.substr(from, 80) + ", with other threads ..." + b.substr(from, 80);
}

void threads(Ctx &c) {
  reseedAmbient(c.u64());
  size_t n = c.range(2, 4);
  std::vector<Job> jobs(n);
  std::vector<ZZ> ps;
  ZZ same = gen::prime(c, c.range(64, 160));
  bool alike = c.coin();  // most work of all threads is of one kind
  size_t favourite = c.draw(KINDS);
  std::set<std::string> kinds;
  for (size_t t = 0; t < n; t++) {
    ZZ p = c.coin() ? same : gen::prime(c, c.range(64, 160));
    ps.push_back(p);
    ZZ_p::init(p);
    jobs[t].seed = c.u64();
    for (size_t k = c.range(1, 4); k > 0; k--) {
      std::string name;
      size_t kind = alike && c.draw(4) ? favourite : c.draw(KINDS);
      jobs[t].works.push_back(work(c, p, kind, name));
      jobs[t].names.push_back(name);
    }
    std::string all;
    for (auto &s : jobs[t].names) { all += (all.empty() ? "" : ", ") + s; kinds.insert(s); }
    PBT_NOTE(c, "thread " << t << " modulo " << ps[t] << ": " << all);
  }
  uint64_t plan = c.u64();
  size_t density = c.draw(4);
  Ears ears;
  // each alone
  std::vector<std::string> want(n), got(n);
  std::vector<uint64_t> points(n);
  uint64_t total = 0;
  for (size_t t = 0; t < n; t++) {
    sched::begin(1, 1, 1, 0);
    std::thread th([&] {
      sched::enter(0);
      want[t] = perform(jobs[t], ps[t]);
      points[t] = sched::leave();
    });
    th.join();
    total += points[t];
  }
  auto compare = [&](const char *how) {
    for (size_t t = 0; t < n; t++)
      PBT_CHECK(got[t] == want[t], "the results of thread " << t << " depend on the other threads (" << how << "): " << firstDifference(want[t], got[t]));
  };
  // in turns, as planned
  static const uint64_t SWITCHES[] = {6, 40, 200, 600};
  uint64_t turns = 0;
  size_t planned = 6;
  for (size_t r = 0; r < planned; r++) {
    sched::begin(n, splitmix(plan), total, std::min(total, SWITCHES[(density + r) % 4]));
    std::vector<std::thread> ths;
    for (size_t t = 0; t < n; t++)
      ths.emplace_back([&, t] {
        sched::enter(t);
        got[t] = perform(jobs[t], ps[t]);
        sched::leave();
      });
    for (auto &th : ths) th.join();
    turns += sched::handovers();
    if (sched::gaveUp()) c.label("plan given up");
    compare("taking turns");
  }
  // all at once, with their starts shifted against each other
  size_t rounds = c.notes ? 30 : 3;
  std::vector<uint64_t> delays;
  for (size_t t = 0; t < n; t++) delays.push_back(c.draw(20));
  for (size_t r = 0; r < rounds; r++) {
    std::atomic<size_t> ready(0);
    std::vector<std::thread> ths;
    for (size_t t = 0; t < n; t++)
      ths.emplace_back([&, t] {
        ready++;
        while (ready < n) std::this_thread::yield();
        for (uint64_t i = 0; i < delays[t] * (1 + r % 5); i++) std::this_thread::yield();
        got[t] = perform(jobs[t], ps[t]);
      });
    for (auto &th : ths) th.join();
    compare("all at once");
  }
  c.count("concurrent executions", n * (planned + rounds));
  c.count("hand-overs", turns);
  for (auto &k : kinds) c.label(k);
  if (turns) c.label("interleaved in turns");
  if (alike) c.label("work of one kind");
  c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C21",
    "2-4 threads, each with 1-4 pieces of work on objects of its own, over the same or different moduli: Murmur and SHA hashing, both generators, hash tables, polynomial "
    "batches, numbers from bytes, helpers, exceptions, stopwatches, and whole protocol histories of three clients and a cloud.  Every thread's results are first computed "
    "alone, then with all threads taking turns at loads and stores chosen by a generated plan (6 plans of 6-600 hand-overs), then 3 times truly at once, and must be the "
    "same text.  Every case is non-trivial: at least two threads.",
    {{"threads", threads, 800, 30000, 300}}};
