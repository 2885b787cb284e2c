// C14: number helpers satisfy their arithmetic definitions.
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include "ntlmiss.h"
#include <memory>

using namespace pbt;
using NTL::ZZ;
using NTL::ZZ_p;

namespace {

ZZ natural(Ctx &c) {
  switch (c.weighted({3, 2, 2, 1})) {
    case 0: return gen::natural(c, c.range(1, 140));
    case 1: return gen::natural(c, c.range(1, 400)) * ref::pow2(c.draw(300));  // trailing zeros
    case 2: return ref::pow2(c.draw(600)) + ZZ((long) c.draw(3)) - 1;
    default: {
      size_t n = c.range(1, 700);
      uint64_t s = c.u64();
      std::string b(n, 0);
      for (char &ch : b) ch = (char) splitmix(s);
      return ref::fromLE(b) * ref::pow2(c.draw(70));
    }
  }
}

size_t bitLength(const ZZ &z) {  // by definition: least n with z < 2^n
  std::string b = ref::toLE(z);
  if (b.empty()) return 0;
  size_t n = 8 * (b.size() - 1);
  for (unsigned v = (unsigned char) b.back(); v; v >>= 1) n++;
  return n;
}

void numbers(Ctx &c) {
  ZZ z = natural(c);
  if (c.chance(1, 300)) {  // a long number
    z = (z + 1) * ref::pow2(c.range(5000, 70000)) + natural(c) * (long) c.draw(2);
    c.label("more than 5000 bits");
  }
  ZZ z0 = z;
  size_t bl = bitLength(z);
  PBT_NOTE(c, z << " (" << bl << " bits)");
  unsigned long l = NTL::log2(z);
  PBT_CHECK(l == (bl <= 1 ? 0 : bl - 1), "log2(" << z << ") is " << l);
  unsigned long nb = NTL::bytes(z);
  PBT_CHECK(nb == (bl + 7) / 8, "bytes(" << z << ") is " << nb << " for " << bl << " bits");
  // padding
  size_t pad = c.chance(1, 100) ? c.range(60000, 70000) : c.weighted({1, 4, 1}) == 0 ? 0 : c.skewed(1, 3000);
  ZZ pz = NTL::zeroPad(z, pad);
  PBT_CHECK(pz == z * ref::pow2(pad), "zeroPad(" << z << ", " << pad << ") is " << pz);
  if (z > 0) {
    PBT_CHECK(ZZ((long) NTL::countLeadingZeros(z)) == ref::trailingZeros(z), "countLeadingZeros(" << z << ") is " << NTL::countLeadingZeros(z));
    PBT_CHECK(NTL::countLeadingZeros(pz) == NTL::countLeadingZeros(z) + pad, "countLeadingZeros of " << z << " padded by " << pad << " is " << NTL::countLeadingZeros(pz));
    // up to a size
    size_t to;
    switch (c.draw(4)) {
      case 0: to = c.chance(1, 40) ? c.range(60000, 140000) : c.draw(1500); break;
      case 1: to = bl + c.draw(200); break;
      case 2: to = bl > 3 ? bl - c.draw(3) : bl; break;
      default: to = bl + 1 + c.draw(2); break;
    }
    ZZ tz = NTL::zeroPadTo(z, to);
    if (to > bl) {
      PBT_CHECK(bitLength(tz) == to - 1, "zeroPadTo(" << z << ", " << to << ") has " << bitLength(tz) << " bits");
      PBT_CHECK(tz == z * ref::pow2(to - 1 - bl), "zeroPadTo(" << z << ", " << to << ") is " << tz);
      c.label("padded to a size");
    } else {
      PBT_CHECK(tz == z, "zeroPadTo(" << z << ", " << to << ") is " << tz << " though it already has " << bl << " bits");
      c.label("long enough already");
    }
    if (ref::trailingZeros(z) > 0) c.label("trailing zeros");
  } else {
    PBT_CHECK(NTL::zeroPadTo(z, c.draw(300)) == 0, "zero padded to a size is not zero");
  }
  PBT_CHECK(z == z0, "the argument changed");
  // the same number modulo p
  ZZ p = z + 1 + gen::natural(c, c.range(1, 80));
  if (p < 2) p = 2;
  ZZ_p::init(p);
  ZZ_p e;
  conv(e, z);
  PBT_CHECK(NTL::bytes(e) == (bl + 7) / 8, "bytes(" << z << " modulo " << p << ") is " << NTL::bytes(e));
  if (z > 1) c.nontrivial();
  if (bl > 64) c.label("more than a word");
  if (bl > 255 * 8) c.label("more than 255 bytes");
}

void counts(Ctx &c) {
  auto any = [&](unsigned long least) -> unsigned long {
    if (c.chance(1, 6)) return ~0ul - c.skewed(0, 300);  // as large as can be said
    unsigned long v = gen::edge(c, c.coin() ? 64 : 20);
    return v < least ? least : v;
  };
  for (int i = 0; i < 8; i++) {
    unsigned long bits = any(0), per = c.weighted({2, 1}) == 0 ? c.range(1, 200) : any(1);
    auto big = [](unsigned long v) { return NTL::conv<ZZ>(v); };
    unsigned long n = NTL::blocks(bits, per);
    ZZ b = big(bits);
    PBT_NOTE(c, "blocks(" << bits << ", " << per << ") = " << n);
    PBT_CHECK(big(n) * big(per) >= b && (n == 0 || big(n - 1) * big(per) < b), "blocks(" << bits << ", " << per << ") is " << n);
    unsigned long y = NTL::bytes(bits);
    PBT_CHECK(big(y) * 8 >= b && (y == 0 || big(y - 1) * 8 < b), "bytes(" << bits << " bits) is " << y);
    if (bits % per) c.nontrivial();
    if (bits > ~0ul - per) c.label("counts whose sum is not a word");
  }
  c.count("counts", 8);
}

void conversions(Ctx &c) {
  ZZ p = gen::modulus(c, 2, 300);
  ZZ_p::init(p);
  size_t n = c.chance(1, 500) ? c.range(65530, 66000) : c.weighted({1, 6}) == 0 ? 0 : c.skewed(1, 200);
  uint64_t s = c.u64();
  bool same = c.chance(1, 6);
  std::vector<ZZ> ref;
  std::vector<ZZ_p> v;
  std::unique_ptr<ZZ_p[]> a(new ZZ_p[n ? n : 1]);
  for (size_t i = 0; i < n; i++) {
    ZZ z = n < 20 ? gen::below(c, p) : same ? ZZ(1) : ref::fromLE(std::to_string(splitmix(s))) % p;
    ref.push_back(z);
    ZZ_p e;
    conv(e, z);
    v.push_back(e);
    a[i] = e;
  }
  PBT_NOTE(c, n << " elements modulo " << p);
  auto eq = [&](const NTL::vec_ZZ_p &w, const char *how) {
    PBT_CHECK((size_t) w.length() == n, how << " of " << n << " elements gives " << w.length());
    for (size_t i = 0; i < n; i++) PBT_CHECK(rep(w[(long) i]) == ref[i], how << ": element " << i << " is " << w[(long) i] << " instead of " << ref[i]);
  };
  auto old = [&](NTL::vec_ZZ_p &w) {  // something else before
    size_t m = c.weighted({1, 2}) == 0 ? 0 : c.skewed(1, 250);
    w.SetLength((long) m);
    for (size_t i = 0; i < m; i++) conv(w[(long) i], (long) (i + 1));
  };
  NTL::vec_ZZ_p w, x, y;
  old(w);
  NTL::vector2VecZZp(w, v);
  eq(w, "vector2VecZZp in place");
  eq(NTL::vector2VecZZp(v), "vector2VecZZp");
  old(x);
  NTL::array2VecZZp(x, a.get(), n);
  eq(x, "array2VecZZp in place");
  eq(NTL::array2VecZZp(a.get(), n), "array2VecZZp");
  // a part of the vector itself
  if (n > 1) {
    size_t from = c.draw(n), len = c.draw(n - from + 1);
    NTL::vec_ZZ_p self = NTL::array2VecZZp(a.get(), n);
    NTL::array2VecZZp(self, &self[(long) from], len);
    PBT_CHECK((size_t) self.length() == len, "array2VecZZp of " << len << " elements of the same vector gives " << self.length());
    for (size_t i = 0; i < len; i++)
      PBT_CHECK(rep(self[(long) i]) == ref[from + i], "array2VecZZp of elements of the same vector: element " << i << " is " << self[(long) i] << " instead of " << ref[from + i]);
  }
  for (size_t i = 0; i < n; i++) PBT_CHECK(rep(a[i]) == ref[i] && rep(v[i]) == ref[i], "the source changed");
  // nothing given
  old(y);
  NTL::vec_ZZ_p y0 = y;
  NTL::array2VecZZp(y, nullptr, n);
  PBT_CHECK(y == y0 || y.length() == 0, "converting a null array invents elements");
  PBT_CHECK(NTL::array2VecZZp(nullptr, n).length() == 0, "a null array gives elements");
  // printing
  std::vector<ZZ> zs;
  std::string want = "[";
  for (size_t i = 0; i < n; i++) {
    zs.push_back(n < 20 ? natural(c) : ref[i]);
    want += (i ? ", " : " ") + ref::decimal(zs[i]);
  }
  want += n ? " ]\n" : "]\n";
  std::string out = captureCout([&] { NTL::printZZArray(zs.data(), n); });
  PBT_CHECK(out == want, "printZZArray prints " << out << " instead of " << want);
  if (n >= 2) c.nontrivial();
  if (n == 0) c.label("empty");
  if (n > 65000) c.label("about 65536 elements");
  c.count("elements", n);
}

}  // namespace

const Property pbt::property = {
    "C14",
    "numbers: naturals of 0-6000 (rarely 5000-76000) bits (uniform, around powers of two, with long runs of trailing zeros), pad sizes 0-3000 (rarely about 65536) and target sizes (rarely 60000-140000) around the "
    "number's length: logarithm, byte count, padding and zero counting against their definitions. counts: block and byte counts of 64-bit quantities. "
    "conversions: arrays and vectors of 0-200 (rarely about 65536) field elements in both forms, into vectors already holding something, null arrays, printing. "
    "Non-trivial: a number above one, a count with a remainder, at least two elements.",
    {{"numbers", numbers, 150000, 2000000, 20}, {"counts", counts, 20000, 300000, 20}, {"conversions", conversions, 20000, 300000, 20}}};
