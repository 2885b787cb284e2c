// The programs seed themselves with the time; let the caller choose it.  The
// times they measure come from a clock that goes on by arbitrary amounts.
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <ctime>
extern "C" time_t time(time_t *t) noexcept {
  const char *e = getenv("EOPSI_TIME");
  time_t v = e ? (time_t) atoll(e) : (time_t) 1450000000;
  if (t) *t = v;
  return v;
}

static std::atomic<uint64_t> reading, calls;

static uint64_t later() {
  uint64_t z = (++calls + (uint64_t) time(nullptr)) * 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z ^= z >> 27;
  uint64_t step = z % 4 == 0 ? z / 4 % 900000000 : z / 4 % 90000;  // nanoseconds
  return reading += step;
}

namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(nanoseconds(1450000000000000000ll + (int64_t) later()));
}
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(nanoseconds((int64_t) later()));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std
