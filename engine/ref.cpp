#include "ref.hpp"
#include <cstring>
#include <sstream>

namespace ref {
using NTL::ZZ;

static uint32_t rol(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }

static std::string padBE(const std::string &m) {
  std::string s = m;
  s.push_back((char) 0x80);
  while (s.size() % 64 != 56) s.push_back('\0');
  uint64_t bits = (uint64_t) m.size() * 8;
  for (int i = 7; i >= 0; i--) s.push_back((char) (bits >> (8 * i)));
  return s;
}

std::string sha1(const std::string &m) {
  std::string s = padBE(m);
  uint32_t h[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u};
  for (size_t o = 0; o < s.size(); o += 64) {
    uint32_t w[80];
    for (int i = 0; i < 16; i++) {
      const unsigned char *p = (const unsigned char *) s.data() + o + 4 * i;
      w[i] = (uint32_t) p[0] << 24 | (uint32_t) p[1] << 16 | (uint32_t) p[2] << 8 | p[3];
    }
    for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
      uint32_t f, k;
      if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999u; }
      else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1u; }
      else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdcu; }
      else { f = b ^ c ^ d; k = 0xca62c1d6u; }
      uint32_t t = rol(a, 5) + f + e + k + w[i];
      e = d; d = c; c = rol(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  std::string r;
  for (int i = 0; i < 5; i++) for (int k = 3; k >= 0; k--) r.push_back((char) (h[i] >> (8 * k)));
  return r;
}

static bool isPrime(uint32_t n) {
  for (uint32_t d = 2; d * d <= n; d++) if (n % d == 0) return false;
  return true;
}
// first 32 bits of the fractional part of the k-th root of n, by integer search
static uint32_t fracRoot(uint32_t n, int k) {
  // floor(n^(1/k) * 2^32) mod 2^32
  ZZ target = ZZ(n) << (32 * k), lo(0), hi = ZZ(1) << 40;
  while (lo + 1 < hi) {
    ZZ mid = (lo + hi) >> 1;
    if (NTL::power(mid, k) <= target) lo = mid; else hi = mid;
  }
  ZZ r = lo % (ZZ(1) << 32);
  uint32_t v = 0;
  for (int i = 31; i >= 0; i--) v = v << 1 | (uint32_t) NTL::bit(r, i);
  return v;
}

std::string sha256(const std::string &m) {
  static uint32_t K[64], H0[8];
  static bool init = false;
  if (!init) {
    int n = 0;
    for (uint32_t p = 2; n < 64; p++) if (isPrime(p)) {
      if (n < 8) H0[n] = fracRoot(p, 2);
      K[n++] = fracRoot(p, 3);
    }
    init = true;
  }
  std::string s = padBE(m);
  uint32_t h[8];
  memcpy(h, H0, sizeof h);
  for (size_t o = 0; o < s.size(); o += 64) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++) {
      const unsigned char *p = (const unsigned char *) s.data() + o + 4 * i;
      w[i] = (uint32_t) p[0] << 24 | (uint32_t) p[1] << 16 | (uint32_t) p[2] << 8 | p[3];
    }
    for (int i = 16; i < 64; i++) {
      uint32_t s0 = ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3);
      uint32_t s1 = ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint32_t v[8];
    memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; i++) {
      uint32_t S1 = ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25);
      uint32_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint32_t t1 = v[7] + S1 + ch + K[i] + w[i];
      uint32_t S0 = ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22);
      uint32_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      uint32_t t2 = S0 + mj;
      v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1;
      v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  }
  std::string r;
  for (int i = 0; i < 8; i++) for (int k = 3; k >= 0; k--) r.push_back((char) (h[i] >> (8 * k)));
  return r;
}

static uint64_t rol64(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
static uint64_t mixEnd(uint64_t k) {
  k ^= k >> 33; k *= 0xff51afd7ed558ccdull;
  k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull;
  return k ^ (k >> 33);
}

// Written from the description of the algorithm: the message is cut into
// 16-byte blocks of two little-endian words; the rest is a zero-filled block
// that only goes through the word mixing.
std::string murmur3_x64_128(const std::string &m, uint32_t seed) {
  const uint64_t c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;
  uint64_t h1 = seed, h2 = seed;
  size_t n = m.size();
  auto word = [&](size_t at, size_t len) {
    uint64_t v = 0;
    for (size_t i = 0; i < len; i++) v |= (uint64_t) (unsigned char) m[at + i] << (8 * i);
    return v;
  };
  size_t full = n / 16 * 16;
  for (size_t o = 0; o <= full; o += 16) {
    bool last = o == full;
    size_t have = last ? n - full : 16;
    if (last && have == 0) break;
    uint64_t k1 = word(o, have < 8 ? have : 8), k2 = have > 8 ? word(o + 8, have - 8) : 0;
    k1 *= c1; k1 = rol64(k1, 31); k1 *= c2;
    k2 *= c2; k2 = rol64(k2, 33); k2 *= c1;
    h1 ^= k1;
    if (!last) { h1 = rol64(h1, 27); h1 += h2; h1 = h1 * 5 + 0x52dce729; }
    h2 ^= k2;
    if (!last) { h2 = rol64(h2, 31); h2 += h1; h2 = h2 * 5 + 0x38495ab5; }
  }
  h1 ^= n; h2 ^= n;
  h1 += h2; h2 += h1;
  h1 = mixEnd(h1); h2 = mixEnd(h2);
  h1 += h2; h2 += h1;
  std::string r;
  for (int i = 0; i < 8; i++) r.push_back((char) (h1 >> (8 * i)));
  for (int i = 0; i < 8; i++) r.push_back((char) (h2 >> (8 * i)));
  return r;
}

std::string decimal(const ZZ &z) {
  std::ostringstream o;
  o.exceptions(std::ios::badbit);  // running out of memory is not to pass unnoticed
  o << z;
  return o.str();
}

ZZ fromLE(const std::string &s) {
  ZZ z(0);
  if (s.size() > 512) {
    size_t h = s.size() / 2;
    return fromLE(s.substr(0, h)) + (fromLE(s.substr(h)) << (long) (8 * h));
  }
  for (size_t i = s.size(); i-- > 0;) { z <<= 8; z += (long) (unsigned char) s[i]; }
  return z;
}

std::string toLE(const ZZ &z) {
  std::string s;
  long n = NTL::NumBits(z);
  for (long i = 0; i < n; i += 8) {
    int v = 0;
    for (long k = 0; k < 8 && i + k < n; k++) v |= (int) NTL::bit(z, i + k) << k;
    s.push_back((char) v);
  }
  return s;
}

ZZ pow2(size_t n) { return ZZ(1) << (long) n; }

ZZ prf(const ZZ &seed, uint64_t index, size_t bits) {
  std::string in = toLE(seed);
  for (int i = 0; i < 8; i++) in.push_back((char) (index >> (8 * i)));
  size_t n = (bits + 7) / 8;
  std::string out, d = in;
  while (out.size() < n) { d = sha1(d); out += d; }
  out.resize(n);
  return fromLE(out) % pow2(bits);
}

ZZ evalPoly(const std::vector<ZZ> &f, const ZZ &x, const ZZ &p) {
  ZZ r(0);
  for (size_t i = f.size(); i-- > 0;) r = (r * x + f[i]) % p;
  return r;
}

ZZ evalRoots(const std::vector<ZZ> &roots, const ZZ &x, const ZZ &p) {
  ZZ r(1);
  for (auto &a : roots) { ZZ d = (x - a) % p; if (d < 0) d += p; r = r * d % p; }
  return r % p;
}

std::vector<ZZ> mulPoly(const std::vector<ZZ> &f, const std::vector<ZZ> &g, const ZZ &p) {
  if (f.empty() || g.empty()) return {};
  std::vector<ZZ> r(f.size() + g.size() - 1, ZZ(0));
  for (size_t i = 0; i < f.size(); i++)
    for (size_t j = 0; j < g.size(); j++) r[i + j] = (r[i + j] + f[i] * g[j]) % p;
  return r;
}

ZZ trailingZeros(const ZZ &z) {
  long n = 0;
  while (NTL::bit(z, n) == 0) n++;
  return ZZ(n);
}
}  // namespace ref
