// Generators shared by the properties.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <NTL/ZZ.h>
#include <NTL/ZZ_p.h>

namespace gen {
using NTL::ZZ;
using pbt::Ctx;

// Any 64 bit quantity, often one whose low byte, word or half is small though it is large
inline uint64_t wide(Ctx &c, uint64_t small = 64) {
  switch (c.weighted({1, 1, 2})) {
    case 0: return c.drawHot(0) >> c.draw(64);
    case 1: return (1ull << c.draw(64)) + c.draw(3) - 1;
    default: {
      static const unsigned at[] = {8, 16, 31, 32, 48, 63};
      uint64_t high = c.weighted({2, 1}) == 0 ? 1 : c.drawHot(0);
      return (high << at[c.draw(6)]) + c.draw(small);
    }
  }
}

// A word of at most bits (<= 64) bits: small, near a power of two, all ones, uniform.
inline uint64_t edge(Ctx &c, unsigned bits) {
  uint64_t mask = bits >= 64 ? ~0ull : (1ull << bits) - 1;
  switch (c.weighted({2, 2, 1, 3})) {
    case 0: return c.draw(17) & mask;
    case 1: {
      uint64_t v = 1ull << c.draw(bits);
      switch (c.draw(3)) { case 0: break; case 1: v -= 1; break; default: v += 1; }
      return v & mask;
    }
    case 2: return mask - c.draw(3);
    default: return (c.coin() ? wide(c) : c.drawHot(0)) & mask;
  }
}

// Uniform natural of at most n bits
inline ZZ uniformBits(Ctx &c, size_t n) { return n == 0 ? ZZ(0) : ref::fromLE(c.bytes((n + 7) / 8)) % ref::pow2(n); }

// Natural of at most n bits with edge shapes
inline ZZ natural(Ctx &c, size_t n) {
  if (n == 0) return ZZ(0);
  switch (c.weighted({2, 2, 2, 1, 4})) {
    case 0: return ZZ((long) c.draw(17)) % ref::pow2(n);
    case 1: {  // around a power of two
      ZZ v = ref::pow2(c.draw(n)) + ZZ((long) c.draw(3)) - 1;
      return v % ref::pow2(n);
    }
    case 2: {  // random length
      return uniformBits(c, c.range(1, n));
    }
    case 3: { ZZ v = ref::pow2(n) - 1 - ZZ((long) c.draw(3)); return v < 0 ? ZZ(0) : v; }
    default: return uniformBits(c, n);
  }
}

// Below p (p >= 1)
inline ZZ below(Ctx &c, const ZZ &p) {
  switch (c.weighted({4, 1, 1, 2})) {
    case 0: return uniformBits(c, NTL::NumBits(p) + 16) % p;
    case 1: return ZZ((long) c.draw(17)) % p;
    case 2: { ZZ v = p - 1 - ZZ((long) c.draw(17)); return v < 0 ? ZZ(0) : v; }
    default: return natural(c, NTL::NumBits(p)) % p;
  }
}

// Any modulus >= 2 of lo..hi bits (not necessarily prime)
inline ZZ modulus(Ctx &c, size_t lo, size_t hi) {
  size_t b = c.skewed(lo, hi);
  if (b < 2) b = 2;
  ZZ p = ref::pow2(b - 1) + uniformBits(c, b - 1);
  if (p < 2) p = 2;
  return p;
}

// Smallest prime >= z (z >= 2)
ZZ nextPrime(const ZZ &z);
// A prime of exactly b bits; few distinct values per size so that they are cached
ZZ prime(Ctx &c, size_t b);
}  // namespace gen
