// C10: the pseudo-random function is stable, in range and history-free.
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include "zzprf.h"
#include <memory>

using namespace pbt;
using NTL::ZZ;

namespace {

// The seed an object picks for itself is ours to know.
struct Auto : ZZPRF {
  ZZ mine;
  size_t picks = 0;
  explicit Auto(const ZZ &s) : mine(s) {}
  ZZ randomSeed() override {
    picks++;
    return mine;
  }
};

ZZ seed(Ctx &c) {
  switch (c.weighted({2, 4, 2, 1})) {
    case 0: return ZZ((long) c.draw(300));
    case 1: return gen::natural(c, c.range(1, 200));
    case 2: return gen::natural(c, 8 * c.range(1, 40) + c.draw(3));
    default: {  // long seeds: more than 255 bytes
      size_t n = c.range(200, 2500);
      uint64_t s = c.u64();
      std::string b(n, 0);
      for (char &ch : b) ch = (char) splitmix(s);
      return ref::fromLE(b);
    }
  }
}
uint64_t index(Ctx &c) {
  switch (c.weighted({3, 2, 2})) {
    case 0: return c.draw(300);
    case 1: return gen::wide(c, 300);
    default: {
      uint64_t v = 1ull << c.draw(64);
      return v + c.draw(3) - 1;
    }
  }
}
size_t bits(Ctx &c) {
  switch (c.weighted({3, 3, 3, 2, 1})) {
    case 0: return c.range(1, 16);
    case 1: return c.range(1, 400);
    case 2: return 160 * c.range(1, 8) + c.draw(21) - 10;  // around whole digests
    case 3: return 8 * c.range(1, 200);
    default: return c.skewed(1, 70000);
  }
}

// several calls on several objects
void history(Ctx &c) {
  struct Obj {
    std::unique_ptr<Auto> p;
    bool picked;
    ZZ seed;
    uint64_t next;
  };
  std::vector<Obj> os;
  for (size_t i = c.range(1, 2); i > 0; i--) {
    ZZ s = seed(c);
    os.push_back({std::unique_ptr<Auto>(new Auto(s)), false, s, 0});
  }
  int randValue = 1;
  randHook = [&] { return randValue; };
  struct Unhook { ~Unhook() { randHook = nullptr; } } unhook;
  bool lengthy = c.chance(1, 150);
  size_t nops = lengthy ? c.range(280, 700) : c.range(1, 14), vals = 0, shrunk = 0, last = 0, sizes = 0, copies = 0;
  std::vector<std::pair<ZZ, uint64_t>> past;
  for (size_t k = 0; k < nops; k++) {
    size_t i = c.draw(os.size());
    Obj &o = os[i];
    auto got = [&](const ZZ &v, const ZZ &s, uint64_t ix, size_t b, const char *how) {
      PBT_NOTE(c, "object " << i << " " << how << " seed " << s << " index " << ix << " bits " << b << " = " << v);
      ZZ w = ref::prf(s, ix, b);
      PBT_CHECK(NTL::sign(v) >= 0 && (size_t) NTL::NumBits(v) <= b, how << ": seed " << s << " index " << ix << ": " << v << " has more than " << b << " bits");
      PBT_CHECK(v == w, how << ": seed " << s << " index " << ix << " bits " << b << " is " << v << ", the chain gives " << w);
      if (b < last) shrunk++;
      if (b != last) sizes++;
      last = b;
      vals++;
      if (b > 160) c.label("several digests");
      if (b % 8) c.label("bits not a multiple of 8");
      if (ix >> 32) c.label("index beyond 32 bits");
      if (NTL::NumBits(s) > 255 * 8) c.label("seed beyond 255 bytes");
      if (b > 65536) c.label("more than 65536 bits");
    };
    auto pick = [&] {
      if (!o.picked) {
        o.seed = o.p->mine;
        o.picked = true;
      }
    };
    switch (c.weighted({8, 3, 3, 1, 1, 1, 1})) {
      case 0: {
        ZZ s;
        uint64_t ix;
        if (!past.empty() && c.chance(1, 3)) {
          std::tie(s, ix) = past[c.draw(past.size())];
        } else {
          s = seed(c);
          ix = index(c);
          past.emplace_back(s, ix);
        }
        size_t b = bits(c);
        got(o.p->generate(s, ix, b), s, ix, b, "explicit");
        break;
      }
      case 1: {
        uint64_t ix = index(c);
        size_t b = bits(c);
        ZZ v = o.p->generate((size_t) ix, b);
        pick();
        got(v, o.seed, ix, b, "own seed");
        c.label("own seed");
        break;
      }
      case 2:    // argument-less: consecutive indices, random length
      case 3:
      case 4: {  // explicit without length
        int op = (int) c.draw(3);
        randValue = (int) c.skewed(1, 3000);
        ZZ v, s;
        uint64_t ix;
        if (op == 0) {
          v = static_cast<PseudoRandom<ZZ, ZZ> &>(*o.p).generate();
          pick();
          s = o.seed;
          ix = o.next++;
          c.label("argument-less");
        } else if (op == 1) {
          s = seed(c);
          ix = index(c);
          v = c.coin() ? o.p->generate(s, ix) : static_cast<PseudoRandom<ZZ, ZZ> &>(*o.p).generate(s, (size_t) ix);
          c.label("no length");
        } else {
          ix = index(c);
          v = c.coin() ? o.p->generate((size_t) ix) : static_cast<PseudoRandom<ZZ, ZZ> &>(*o.p).generate((size_t) ix);
          pick();
          s = o.seed;
          c.label("own seed, no length");
        }
        PBT_CHECK(NTL::sign(v) >= 0, "negative value");
        // any prefix of the chain; zero bytes at its end cannot be seen
        size_t b = 8 * NTL::NumBytes(v);
        PBT_NOTE(c, "object " << i << (op ? " no length" : " argument-less") << " index " << ix << " = " << v);
        PBT_CHECK(b == 0 || v == ref::prf(s, ix, b), (op ? "no length" : "argument-less") << ": seed " << s << " index " << ix << " gives " << v
                                                        << ", the chain begins " << ref::prf(s, ix, b));
        PBT_CHECK(NTL::NumBits(v) <= 8 * 4000, "a random length of " << NTL::NumBits(v) << " bits");
        vals++;
        break;
      }
      case 5: {  // copy
        if (os.size() > 4) break;
        os.push_back({std::unique_ptr<Auto>(new Auto(*o.p)), o.picked, o.seed, o.next});
        PBT_NOTE(c, "object " << os.size() - 1 << " copied from object " << i);
        copies++;
        break;
      }
      default: {
        size_t j = c.draw(os.size());
        if (j != i && c.coin()) {  // assign
          *os[j].p = *o.p;
          os[j].picked = o.picked;
          os[j].seed = o.seed;
          os[j].next = o.next;
          PBT_NOTE(c, "object " << j << " assigned from object " << i);
          copies++;
        } else if (os.size() > 1) {
          os.erase(os.begin() + (long) i);
          PBT_NOTE(c, "object " << i << " destroyed");
        }
      }
    }
  }
  for (auto &o : os) PBT_CHECK(o.p->picks <= 1 || copies, "an object picked " << o.p->picks << " seeds");
  if (nops > 255) c.label("more than 255 operations");
  for (auto &o : os)
    if (o.next > 256) c.label("argument-less beyond 256");
  if (shrunk) c.label("shorter after longer");
  if (copies) c.label("copies");
  c.count("values", vals);
  if (vals >= 2 && sizes >= 2) c.nontrivial();
}

// The library's own choice of a seed and of a length
void own(Ctx &c) {
  uint64_t s = c.u64();
  size_t calls = 0;
  std::vector<int> handed;
  randHook = [&] {
    calls++;
    int v = (int) (splitmix(s) & 0xfff);
    if (splitmix(s) % 4 == 0) v = 0;
    handed.push_back(v);
    return v;
  };
  struct Unhook { ~Unhook() { randHook = nullptr; } } unhook;
  std::unique_ptr<ZZPRF> a(new ZZPRF), b(new ZZPRF);
  size_t bitsA = c.range(64, 400);
  uint64_t ix = index(c);
  ZZ v = a->generate((size_t) ix, bitsA), w = b->generate((size_t) ix, bitsA);
  // the seed is one of the ambient random numbers
  bool known = false;
  ZZ mine;
  for (int h : handed)
    if (ref::prf(ZZ((long) h), ix, bitsA) == v) known = true, mine = ZZ((long) h);
  if (!known) mine = ZZ(0);
  PseudoRandom<ZZ, ZZ> &base = *a;
  size_t n = c.weighted({60, 1}) == 0 ? c.range(1, 8) : c.range(250, 600);
  for (size_t i = 0; i < n; i++) {
    ZZ g = base.generate();
    PBT_CHECK(NTL::NumBits(g) <= 8 * 0x1000 + 8, "a random length of " << NTL::NumBits(g) << " bits from ambient numbers below 4096");
    if (known) {
      size_t bb = 8 * NTL::NumBytes(g);
      PBT_CHECK(bb == 0 || g == ref::prf(mine, i, bb), "argument-less value " << i << " is " << g);
    }
    PBT_CHECK(a->generate((size_t) ix, bitsA) == v, "the value of index " << ix << " under the object's own seed changed");
    PBT_CHECK(b->generate((size_t) ix, bitsA) == w, "the value of index " << ix << " under the other object's own seed changed");
  }
  ZZPRF copy(*a);
  a.reset();
  PBT_CHECK(copy.generate((size_t) ix, bitsA) == v, "a copy has another own seed");
  PBT_NOTE(c, "own seed " << (known ? ref::decimal(mine) : "?") << ", " << n << " argument-less values");
  c.label(known ? "seed recognised" : "seed not recognised");
  c.count("values", 3 * n + 3);
  c.nontrivial();
}

// Numbers of a million bits and more
void longNumbers(Ctx &c) {
  ZZPRF g;
  ZZ s = seed(c);
  size_t most = 0;
  for (size_t k = 0, n = c.range(2, 4); k < n; k++) {
    size_t bits = k == 0 || c.coin() ? ((size_t) 1 << c.range(17, 23)) + c.draw(400) - 200 : c.range(1, 400);
    uint64_t ix = index(c);
    PBT_NOTE(c, "index " << ix << ", " << bits << " bits");
    PBT_CHECK(g.generate(s, ix, bits) == ref::prf(s, ix, bits), "the value of " << bits << " bits for index " << ix << " and seed " << s << " differs from the chain");
    most = std::max(most, bits);
    c.count("values");
  }
  c.label(most > 1000000 ? "more than a million bits" : "more than 130000 bits");
  c.nontrivial();
}

// More values than a 16-bit count can hold from one object
void marathon(Ctx &c) {
  size_t n = 66000 + c.draw(3000);
  int randValue = 1;
  randHook = [&] { return randValue; };
  struct Unhook { ~Unhook() { randHook = nullptr; } } unhook;
  ZZ s = seed(c);
  uint64_t r = c.u64();
  Auto a(s);
  PseudoRandom<ZZ, ZZ> &base = a;
  for (size_t i = 0; i < n; i++) {
    randValue = 1 + (int) (splitmix(r) % 40);
    ZZ g = base.generate();
    size_t b = 8 * NTL::NumBytes(g);
    PBT_CHECK(b == 0 || g == ref::prf(s, i, b), "argument-less value " << i << " is " << g << ", the chain begins " << ref::prf(s, i, b));
    if (i % 3 == 0) {
      uint64_t ix = i % 5 ? i : splitmix(r);
      size_t bits = 1 + splitmix(r) % 400;
      ZZ t = i % 2 ? s : ZZ((long) (splitmix(r) >> 20));
      PBT_CHECK(a.ZZPRF::generate(t, ix, bits) == ref::prf(t, ix, bits), "value " << i << ": seed " << t << " index " << ix << " bits " << bits << " differs from the chain");
    }
  }
  PBT_CHECK(a.picks <= 1, "the object picked " << a.picks << " seeds");
  PBT_NOTE(c, n << " argument-less values under seed " << s);
  c.label("argument-less beyond 65536");
  c.count("values", n + n / 3);
  c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C10",
    "history: 1-14 (1 in 150: up to 700) calls (explicit seed, own seed, argument-less, no length, copy, assign, destroy) on up to 5 objects; seeds of 0-20000 bits, "
    "64-bit indices with edge values, lengths of 1-70000 bits with emphasis on partial bytes and on multiples of the digest; every value "
    "compared with an independent SHA-1 chain. own: seeds the library picks itself, values repeated later and on copies. marathon: more than 65536 argument-less values from one object. long: values of 2^17 to 2^23 bits, with short ones between. Non-trivial: at "
    "least two values of different lengths in one history.",
    {{"history", history, 70000, 1200000, 30}, {"own", own, 3000, 60000, 30}, {"marathon", marathon, 1, 6, 120}, {"long", longNumbers, 30, 600, 120}}};
