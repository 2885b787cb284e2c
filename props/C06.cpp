// C06: Murmur hash is the standard function of the decimal representation.
#include "pbt.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include "murmurhash3.h"

using namespace pbt;
using NTL::ZZ;
using NTL::ZZ_p;

static std::string want(const ZZ &v, uint32_t seed, size_t len) {
  std::string s = ref::decimal(v);
  if (len > 0 && len < s.size()) s.resize(len);
  return ref::murmur3_x64_128(s, seed);
}

static ZZ element(Ctx &c, const ZZ &p) {
  // by number of decimal digits, so that every block and tail length is met
  if (c.weighted({3, 1}) == 0) {
    size_t maxd = ref::decimal(p - 1).size();
    size_t d = c.range(1, maxd);
    ZZ lo = d == 1 ? ZZ(0) : NTL::power(ZZ(10), (long) d - 1), hi = NTL::power(ZZ(10), (long) d);
    if (hi > p) hi = p;
    return lo + gen::below(c, hi - lo);
  }
  return gen::below(c, p);
}

static void history(Ctx &c) {
  size_t nobj = c.range(1, 3);
  std::vector<uint32_t> seeds;
  std::vector<MurmurHash3 *> objs;
  for (size_t i = 0; i < nobj; i++) {
    uint32_t s = c.weighted({1, 3}) == 0 ? 0 : (uint32_t) gen::edge(c, 32);
    seeds.push_back(s);
    objs.push_back(new MurmurHash3(s));
  }
  ZZ p = gen::modulus(c, 2, 1400);
  ZZ_p::init(p);
  size_t nops = c.chance(1, 300) ? c.range(260, 600) : c.range(1, 8);
  bool tail = false, multi = false;
  std::vector<ZZ> used;
  PBT_NOTE(c, nobj << " object(s), modulus of " << NTL::NumBits(p) << " bits");
  for (size_t k = 0; k < nops; k++) {
    size_t o = c.draw(nobj);
    if (k > 0 && c.chance(1, 6)) {  // the modulus is not the hash's business
      p = gen::modulus(c, 2, 1400);
      ZZ_p::init(p);
      c.label("modulus changed");
    }
    ZZ v;
    switch (used.empty() ? 0 : c.weighted({6, 2, 1})) {
      case 0: v = element(c, p); break;
      case 1: v = used[c.draw(used.size())] % p; break;
      default:  // another digit, at the end or further to the front
        v = (used.back() + NTL::power(ZZ(10), (long) c.skewed(0, 40))) % p;
        c.label("differs from the one before in few digits");
    }
    used.push_back(v);
    std::string d = ref::decimal(v);
    size_t len = 0;
    switch (c.weighted({3, 2, 1, 1})) {
      case 1: len = c.range(1, d.size()); break;
      case 2: len = d.size() + c.draw(3); break;
      case 3: len = gen::wide(c, d.size() + 1); break;
    }
    ZZ_p e;
    conv(e, v);
    HashAlgorithm<ZZ_p> &face = *objs[o];
    const byte *h = (k & 1) ? len == 0 ? face.hash(e) : face.hash(e, len) : len == 0 ? objs[o]->hash(e) : objs[o]->hash(e, len);
    PBT_CHECK(h != nullptr, "no digest");
    PBT_CHECK(objs[o]->hashSize() == 16, "hashSize() is " << objs[o]->hashSize());
    std::string got((const char *) h, 16), exp = want(v, seeds[o], len);
    size_t n = len > 0 && len < d.size() ? len : d.size();
    PBT_NOTE(c, "object " << o << " seed " << seeds[o] << " hash(" << v << ", " << len << ") = " << hex(got));
    PBT_CHECK(got == exp, "seed " << seeds[o] << " hash(" << v << ", " << len << ") over " << n << " characters is " << hex(got)
                                  << ", the standard digest is " << hex(exp));
    tail |= n % 16 != 0;
    multi |= n >= 16;
    if (n % 16 == 0) c.label("whole blocks");
    c.label(n < 16 ? "below one block" : n < 64 ? "1-3 blocks" : "4 blocks or more");
    c.count("hashes");
  }
  if (nops > 255) c.label("more than 255 calls");
  if (tail) c.label("has a tail");
  if (multi && tail) c.nontrivial();
  for (auto *o : objs) delete o;
}

// Texts of up to some 70000 digits
static void longText(Ctx &c) {
  static const size_t at[] = {1024, 4096, 8192, 16384, 32768, 65536};
  size_t top = at[c.draw(6)] + 40;
  ZZ p = NTL::power(ZZ(10), (long) top) + 1;
  ZZ_p::init(p);
  uint32_t seed = (uint32_t) gen::edge(c, 32);
  MurmurHash3 h(seed);
  uint64_t r = c.u64();
  PBT_NOTE(c, "numbers of up to " << top << " digits, seed " << seed);
  for (size_t k = 0, n = c.range(2, 4); k < n; k++) {
    bool isLong = k == 0 || c.coin();
    size_t digits = isLong ? top - c.draw(80) : c.range(1, 60);
    std::string b((digits * 3322 + 999) / 1000 / 8 + 1, 0);
    for (char &ch : b) ch = (char) (splitmix(r) & 0xff);
    ZZ lo = NTL::power(ZZ(10), (long) digits - 1), v = lo + ref::fromLE(b) % (lo * 9);
    size_t len = 0;
    switch (c.draw(3)) {
      case 0: break;
      case 1: len = digits - c.draw(digits < 20 ? digits : 20); break;
      default: len = c.range(1, digits);
    }
    ZZ_p e;
    conv(e, v);
    std::string got((const char *) h.hash(e, len), 16), exp = want(v, seed, len);
    PBT_CHECK(got == exp, "the digest of a number of " << digits << " digits cut to " << len << " is " << hex(got) << ", the standard one is " << hex(exp));
    c.count("hashes");
    if (isLong && (len == 0 || len > 1000)) c.nontrivial();
  }
  c.label("more than " + std::to_string(top - 120) + " digits");
}

// Objects made without a seed: each has one fixed seed of its own.
static void ownSeed(Ctx &c) {
  ZZ p = gen::modulus(c, 8, 700);
  ZZ_p::init(p);
  MurmurHash3 a, b;
  size_t n = c.range(2, 6);
  std::vector<ZZ> vs;
  std::vector<std::string> ha, hb;
  for (size_t i = 0; i < n; i++) {
    vs.push_back(element(c, p));
    ZZ_p e;
    conv(e, vs[i]);
    ha.emplace_back((const char *) a.hash(e), 16);
    hb.emplace_back((const char *) b.hash(e), 16);
  }
  for (size_t k = 0; k < 4; k++) {
    size_t i = c.draw(n);
    ZZ_p e;
    conv(e, vs[i]);
    PBT_CHECK(std::string((const char *) a.hash(e), 16) == ha[i], "a repeated hash of " << vs[i] << " differs");
    PBT_CHECK(std::string((const char *) b.hash(e), 16) == hb[i], "a repeated hash of " << vs[i] << " differs");
  }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < i; j++) {
      PBT_CHECK((vs[i] == vs[j]) == (ha[i] == ha[j]), "digests of " << vs[i] << " and " << vs[j] << " do not tell the numbers apart");
    }
  PBT_NOTE(c, n << " elements below " << p << " hashed by two self-seeded objects");
  c.nontrivial();
}

const Property pbt::property = {
    "C06",
    "Histories of 1-8 (1 in 300: up to 600) hash calls on 1-3 Murmur objects (seeds drawn with edge values), field moduli of 2-1400 bits possibly changed "
    "between calls, elements drawn uniformly over their number of decimal digits (so all tail lengths 0-15 and up to 26 blocks occur), repeated or with another digit, "
    "truncation lengths below, at and above the number of digits; every digest is compared with an independent MurmurHash3_x64_128. "
    "Non-trivial: a history that hashes at least one full block and at least one partial one (or, for self-seeded objects, any). long: numbers of up to 65576 digits, whole and cut, long and short ones by turns; non-trivial: a digest of more than 1000 digits.",
    {{"history", history, 120000, 2000000, 20}, {"own-seed", ownSeed, 4000, 60000, 20}, {"long", longText, 60, 1500, 60}}};
