// C13: byte strings behave as little-endian natural numbers.
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include "strint.h"
#include <memory>

using namespace pbt;
using NTL::ZZ;

namespace {

ZZ word(unsigned long w) {
  std::string s;
  for (size_t i = 0; i < sizeof w; i++) s += (char) (w >> (8 * i));
  return ref::fromLE(s);
}

std::string content(Ctx &c, size_t n) {
  switch (c.weighted({4, 1, 1, 2})) {
    case 1: return std::string(n, '\0');
    case 2: return std::string(n, '\xff');
    case 3: {  // one byte matters
      std::string s(n, '\0');
      if (n) s[c.draw(n)] = (char) c.range(1, 255);
      return s;
    }
    default: break;
  }
  if (n <= 64) return c.bytes(n);
  uint64_t s = c.u64();
  std::string m(n, 0);
  for (char &ch : m) ch = (char) splitmix(s);
  return m;
}

size_t declared(Ctx &c) { return c.chance(1, 1000) ? c.range(8150, 8300) : c.weighted({3, 1}) == 0 ? c.draw(40) : c.skewed(1, 600); }
size_t given(Ctx &c, size_t len) {
  switch (c.weighted({3, 2, 1, 2})) {
    case 0: return len ? c.range(1, len) : 1;
    case 1: return len;
    case 2: return 0;
    default: return len + 1 + c.draw(20);
  }
}

struct Buf {  // exactly as large as declared: the sanitizer guards the ends
  std::unique_ptr<byte[]> p;
  explicit Buf(const std::string &s) : p(new byte[s.size()]) { memcpy(p.get(), s.data(), s.size()); }
};

void agree(Ctx &c, const StrInt &s, const ZZ &v, const std::string &after) {
  std::string dec = ref::decimal(v), le = ref::toLE(v);
  std::string be(le.rbegin(), le.rend());
  if (be.empty()) be = std::string(1, '\0');
  PBT_CHECK(s.toString() == dec, after << ": toString() is " << s.toString() << ", expected " << dec);
  std::ostringstream o;
  o << s;
  PBT_CHECK(o.str() == dec, after << ": printed as " << o.str() << ", expected " << dec);
  PBT_CHECK(word(s.lsb()) == v % ref::pow2(64), after << ": lsb() of " << dec << " is " << s.lsb());
  PBT_CHECK(s.getByteSize() == be.size(), after << ": getByteSize() of " << dec << " is " << s.getByteSize());
  for (int i = 0; i < 2; i++) {
    unsigned long d = i ? (unsigned long) gen::wide(c) : (unsigned long) c.skewed(1, 100000);
    if (d == 0) d = 1;
    PBT_CHECK(word(s.rem(d)) == v % word(d), after << ": " << dec << " modulo " << d << " is " << s.rem(d) << ", expected " << v % word(d));
  }
  switch (c.draw(4)) {
    case 0: {  // new memory
      size_t n = gen::wide(c);
      byte *b = s.toBytes(nullptr, &n);
      PBT_CHECK(b != nullptr && n == be.size(), after << ": toBytes(new) gives " << n << " bytes instead of " << be.size());
      std::string got((char *) b, n);
      delete[] b;
      PBT_CHECK(got == be, after << ": bytes of " << dec << " are " << hex(got) << ", expected " << hex(be));
      break;
    }
    case 1: {  // no length wanted
      byte *b = s.toBytes(nullptr, nullptr);
      PBT_CHECK(b != nullptr, after << ": no bytes");
      std::string got((char *) b, be.size());
      delete[] b;
      PBT_CHECK(got == be, after << ": bytes of " << dec << " are " << hex(got) << ", expected " << hex(be));
      break;
    }
    case 2: {  // a buffer that is large enough
      size_t room = be.size() + (c.coin() ? c.draw(10) : 0), n = room;
      Buf buf(std::string(room, '\x5a'));
      byte *b = s.toBytes(buf.p.get(), &n);
      PBT_CHECK(b == buf.p.get(), after << ": " << room << " bytes were enough for " << be.size() << ", but another buffer is returned");
      PBT_CHECK(n == be.size(), after << ": toBytes gives " << n << " bytes instead of " << be.size());
      PBT_CHECK(std::string((char *) b, n) == be, after << ": bytes of " << dec << " are " << hex(std::string((char *) b, n)) << ", expected " << hex(be));
      break;
    }
    default: {  // too small
      if (be.size() < 2) break;
      size_t room = c.draw(be.size()), n = room;
      Buf buf(std::string(room, '\x5a'));
      byte *b = s.toBytes(buf.p.get(), &n);
      PBT_CHECK(b != nullptr && b != buf.p.get() && n == be.size(), after << ": toBytes with " << room << " bytes for " << be.size() << " gives " << n << " bytes");
      std::string got((char *) b, n);
      delete[] b;
      PBT_CHECK(got == be, after << ": bytes of " << dec << " are " << hex(got) << ", expected " << hex(be));
      c.label("buffer too small");
    }
  }
}

void history(Ctx &c) {
  size_t len = declared(c), max = len ? len : 1;
  std::unique_ptr<StrInt> s;
  ZZ v(0);
  std::string what;
  if (len > 0 && c.coin()) {
    std::string b = content(c, given(c, len));
    Buf buf(b);
    s.reset(new StrInt(len, buf.p.get(), b.size()));
    v = ref::fromLE(b.substr(0, len));
    what = "StrInt(" + std::to_string(len) + ", " + hex(b) + ")";
  } else if (c.chance(1, 4)) {
    size_t n = c.draw(30);
    s.reset(new StrInt(len, nullptr, n));
    what = "StrInt(" + std::to_string(len) + ", null, " + std::to_string(n) + ")";
  } else {
    s.reset(new StrInt(len));
    what = "StrInt(" + std::to_string(len) + ")";
  }
  PBT_NOTE(c, what);
  agree(c, *s, v, what);
  size_t nops = c.chance(1, 400) ? c.range(200, 400) : c.range(1, 10), sets = 0, adds = 0;
  bool carry = false, odd = false, cut = false;
  std::unique_ptr<Buf> kept;
  std::string last;
  for (size_t k = 0; k < nops; k++) {
    ZZ before = v;
    switch (c.weighted({5, 2, 3, 3})) {
      case 0: {
        bool again = kept != nullptr && c.chance(1, 3);  // the same memory, some bytes or none changed
        std::string b = again ? last : content(c, given(c, max));
        if (again) {
          for (size_t i = b.empty() ? 0 : c.draw(3); i > 0; i--) b[c.draw(b.size())] = (char) c.draw(256);
          memcpy(kept->p.get(), b.data(), b.size());
          c.label("from the same memory");
        } else {
          kept.reset(new Buf(b));
        }
        last = b;
        Buf &buf = *kept;
        s->set(buf.p.get(), b.size());
        what = "set(" + hex(b) + ")";
        v = ref::fromLE(b.substr(0, max));
        sets++;
        odd |= std::min(b.size(), max) % 2 == 1 && b.size() > 2;
        cut |= b.size() > max;
        if (b.empty()) c.label("no bytes");
        PBT_CHECK(std::string((char *) buf.p.get(), b.size()) == b, what << " changed its input");
        break;
      }
      case 1: {
        unsigned long w = gen::edge(c, 64);
        s->set(w);
        v = word(w);
        what = "set(" + std::to_string(w) + ")";
        break;
      }
      case 2: {
        size_t times = c.chance(1, 5) ? c.range(2, 300) : 1;
        for (size_t i = 0; i < times; i++) s->inc();
        v += (long) times;
        what = "inc() " + std::to_string(times) + " times";
        adds++;
        break;
      }
      default: {
        unsigned long w = gen::edge(c, 64);
        s->add(w);
        v += word(w);
        what = "add(" + std::to_string(w) + ")";
        adds++;
      }
    }
    if (NTL::NumBits(v) > NTL::NumBits(before) && NTL::NumBits(before) >= 64) carry = true;
    what += " in step " + std::to_string(k) + " (declared " + std::to_string(len) + ")";
    PBT_NOTE(c, what << " = " << v);
    agree(c, *s, v, what);
    c.count("operations");
  }
  if (len > 255) c.label("declared for more than 255 bytes");
  if (len > 8000) c.label("declared for about 8192 bytes");
  if (odd) c.label("odd number of bytes");
  if (cut) c.label("more bytes than declared");
  if (carry) c.label("grew beyond a word");
  if (v > ref::pow2(64)) c.label("more than a word");
  if ((sets && adds) || sets >= 2) c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C13",
    "Histories of 1-10 (rarely up to 400) operations (set from bytes, set a word, increment up to 300 times, add a word) on one object declared for 0-600 (rarely about 8192) bytes; byte "
    "strings shorter, equal and longer than declared, of zeros, all ones, one significant byte or random, in exactly sized buffers, some of them the buffer before with bytes or nothing changed; after every "
    "operation decimal text, word, byte size, two remainders and one form of byte conversion are compared with natural-number arithmetic. "
    "Non-trivial: bytes set and then arithmetic, or bytes set twice.",
    {{"history", history, 120000, 2000000, 20}}};
