#include "sched.hpp"

#include <atomic>
#include <pthread.h>
#include <time.h>
#include <vector>

namespace sched {

namespace {
struct Slot {
  pthread_cond_t turn = PTHREAD_COND_INITIALIZER;
  bool here = false, done = false;
  std::atomic<uint64_t> left{0};  // points until the next hand-over
  uint64_t passed = 0;
};
const size_t MAX = 16;
Slot slots[MAX];
pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
size_t n = 0, arrived = 0, current = MAX;
uint64_t state = 1, points = 0, switches = 0, done = 0, limit = 0;
std::atomic<bool> freeRun{false};
thread_local Slot *me = nullptr;
thread_local uint64_t given = 0;

uint64_t next() {
  uint64_t z = (state += 0x9e3779b97f4a7c15ULL);
  z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ z >> 27) * 0x94d049bb133111ebULL;
  return z ^ z >> 31;
}

uint64_t gap() {
  if (switches == 0 || done >= limit) return UINT64_MAX;
  // now and then a few hand-overs directly after each other
  if (next() % 3 == 0) return 1 + next() % 8;
  return 1 + next() % (2 * points / switches + 1);
}

size_t choose() {  // another thread that is not done
  std::vector<size_t> c;
  for (size_t i = 0; i < n; i++)
    if (i != current && slots[i].here && !slots[i].done) c.push_back(i);
  return c.empty() ? MAX : c[next() % c.size()];
}

void run(size_t t) {
  current = t;
  pthread_cond_signal(&slots[t].turn);
}

void await(size_t t) {  // with the lock held
  uint64_t seen = 0;
  size_t who = MAX;
  while (current != t && !freeRun) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_nsec += 250000000;
    if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
    pthread_cond_timedwait(&slots[t].turn, &lock, &ts);
    if (current == t || freeRun) break;
    // a running thread that makes no progress may be waiting for one of us
    uint64_t now = current < MAX ? slots[current].left.load() : 0;
    if (arrived == n && who == current && now == seen) {
      freeRun = true;
      for (size_t i = 0; i < n; i++) pthread_cond_signal(&slots[i].turn);
    }
    who = current;
    seen = now;
  }
  given = gap();
  slots[t].left = given;
}
}  // namespace

void begin(size_t count, uint64_t seed, uint64_t p, uint64_t s) {
  n = count;
  arrived = 0;
  current = MAX;
  state = seed;
  points = p;
  switches = s;
  limit = 4 * s;
  done = 0;
  freeRun = false;
  for (size_t i = 0; i < n; i++) {
    slots[i].here = slots[i].done = false;
    slots[i].passed = 0;
    slots[i].left = UINT64_MAX;
  }
}

void enter(size_t t) {
  pthread_mutex_lock(&lock);
  slots[t].here = true;
  if (++arrived == n) run(next() % n);
  await(t);
  pthread_mutex_unlock(&lock);
  me = &slots[t];
}

uint64_t leave() {
  Slot *s = me;
  me = nullptr;
  s->passed += given - s->left;
  pthread_mutex_lock(&lock);
  s->done = true;
  size_t o = choose();
  if (o < MAX) run(o);
  pthread_mutex_unlock(&lock);
  return s->passed;
}

uint64_t handovers() { return done; }
bool gaveUp() { return freeRun; }

static void handOver() {
  Slot *s = me;
  me = nullptr;
  s->passed += given;
  pthread_mutex_lock(&lock);
  size_t mine = (size_t) (s - slots), o = choose();
  done++;
  if (o < MAX && !freeRun) {
    run(o);
    await(mine);
  } else {
    given = freeRun ? UINT64_MAX : gap();
    s->left = given;
  }
  pthread_mutex_unlock(&lock);
  me = s;
}

static inline void point() {
  Slot *s = me;
  if (s == nullptr) return;
  uint64_t l = s->left.load(std::memory_order_relaxed) - 1;
  s->left.store(l, std::memory_order_relaxed);
  if (l == 0) handOver();
}

}  // namespace sched

extern "C" {
#define POINT(name) void name(void *) { sched::point(); }
POINT(__sanitizer_cov_load1)
POINT(__sanitizer_cov_load2)
POINT(__sanitizer_cov_load4)
POINT(__sanitizer_cov_load8)
POINT(__sanitizer_cov_load16)
POINT(__sanitizer_cov_store1)
POINT(__sanitizer_cov_store2)
POINT(__sanitizer_cov_store4)
POINT(__sanitizer_cov_store8)
POINT(__sanitizer_cov_store16)
}
