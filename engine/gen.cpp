#include "gen.hpp"
#include <gmp.h>
#include <map>
#include <sstream>

namespace gen {
ZZ nextPrime(const ZZ &z) {
  static std::map<std::string, ZZ> cache;
  std::string key = ref::decimal(z - 1);
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  mpz_t a;
  mpz_init_set_str(a, key.c_str(), 10);
  mpz_nextprime(a, a);
  char *s = mpz_get_str(nullptr, 10, a);
  ZZ r;
  std::istringstream(s) >> r;
  free(s);
  mpz_clear(a);
  return cache[key] = r;
}

ZZ prime(Ctx &c, size_t b) {
  // lowest, highest and some middle primes of the size
  for (;;) {
    ZZ lo = ref::pow2(b - 1), span = ref::pow2(b - 1);
    ZZ start;
    switch (c.weighted({2, 1, 3})) {
      case 0: start = lo + span / 3; break;
      case 1: start = lo + 1; break;
      default: start = lo + span * ZZ((long) c.range(0, 62)) / 64; break;
    }
    ZZ p = nextPrime(start < 2 ? ZZ(2) : start);
    if (NTL::NumBits(p) == (long) b) return p;
    return nextPrime(lo);
  }
}
}  // namespace gen
