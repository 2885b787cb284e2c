// C07: the SHA adapters return the standard digest of exactly the given bytes.
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include "shabyte.h"
#include "shastr.h"
#include "shazzp.h"
#include <algorithm>
#include <map>
#include <memory>

using namespace pbt;
using NTL::ZZ;
using NTL::ZZ_p;

namespace {

std::string digest(HashFlavour f, const std::string &m) { return f == SHA256_FLAVOUR ? ref::sha256(m) : ref::sha1(m); }
size_t digestSize(HashFlavour f) { return f == SHA256_FLAVOUR ? 32 : 20; }
std::string upper(std::string s) {
  for (char &ch : s) ch = (char) toupper((unsigned char) ch);
  return s;
}

// Called as what it is or through its base, with the length or, for 0, without
template <class T, class H> byte *call(H &h, T x, size_t len, size_t way) {
  HashAlgorithm<T> &face = h;
  if (way % 2) return len == 0 && way % 4 == 1 ? face.hash(x) : face.hash(x, len);
  return len == 0 && way % 4 == 0 ? h.hash(x) : h.hash(x, len);
}

// One of the three adapters behind a common face; the message is what is fed
// to the digest before truncation.
struct Adapter {
  HashFlavour flavour;
  explicit Adapter(HashFlavour f) : flavour(f) {}
  virtual ~Adapter() {}
  virtual const byte *run(const std::string &m, size_t len) = 0;
  virtual size_t size() const = 0;
  virtual std::string name() const = 0;
  virtual std::string readable(const byte *d, size_t n) const = 0;
  virtual Adapter *copy() const = 0;
  virtual void assign(const Adapter &o) = 0;
  virtual int kind() const = 0;
};

template <class H> struct Base : Adapter {
  std::unique_ptr<H> h;
  Base(HashFlavour f, H *p) : Adapter(f), h(p) {}
  size_t size() const override { return h->hashSize(); }
  std::string name() const override { return h->name(); }
  std::string readable(const byte *d, size_t n) const override { return h->readableDigest(d, n); }
  void assign(const Adapter &o) override {
    *h = *static_cast<const Base<H> &>(o).h;
    flavour = o.flavour;
  }
};

// The arrays hashed in a case, by size: often the same memory with other bytes
std::map<size_t, std::unique_ptr<byte[]>> arrays;

struct Bytes : Base<SHAByteArray> {
  Bytes(HashFlavour f) : Base(f, new SHAByteArray(f)) {}
  Bytes(const Bytes &o) : Base(o.flavour, new SHAByteArray(*o.h)) {}
  const byte *run(const std::string &m, size_t) override {
    // an exact heap buffer: the sanitizer sees any byte read beyond it
    std::unique_ptr<byte[]> &b = arrays[m.size()];
    if (b == nullptr) b.reset(new byte[m.size() ? m.size() : 1]);
    memcpy(b.get(), m.data(), m.size());
    std::string before((char *) b.get(), m.size());
    const byte *r = call<byte *>(*h, b.get(), m.size(), m.size() + (m.empty() ? 0 : (byte) m[0]));
    PBT_CHECK(before == std::string((char *) b.get(), m.size()), "hash() changed its input");
    return r;
  }
  Adapter *copy() const override { return new Bytes(*this); }
  int kind() const override { return 0; }
};
struct Str : Base<SHAString> {
  Str(HashFlavour f) : Base(f, new SHAString(f)) {}
  Str(const Str &o) : Base(o.flavour, new SHAString(*o.h)) {}
  const byte *run(const std::string &m, size_t len) override { return call<std::string>(*h, m, len, m.size() / 2); }
  Adapter *copy() const override { return new Str(*this); }
  int kind() const override { return 1; }
};
struct Field : Base<SHAZZp> {
  Field(HashFlavour f) : Base(f, new SHAZZp(f)) {}
  Field(const Field &o) : Base(o.flavour, new SHAZZp(o.flavour)) {}  // not copyable: it owns a stream
  const byte *run(const std::string &m, size_t len) override {
    ZZ_p e;
    conv(e, NTL::to_ZZ(m.c_str()));
    return call<ZZ_p>(*h, e, len, m.size() / 2);
  }
  void assign(const Adapter &) override {}
  Adapter *copy() const override { return new Field(*this); }
  int kind() const override { return 2; }
};
// SHAZZp's stream member makes it neither copyable nor assignable
template <> void Base<SHAZZp>::assign(const Adapter &) {}

Adapter *fresh(int kind, HashFlavour f) {
  switch (kind) {
    case 0: return new Bytes(f);
    case 1: return new Str(f);
    default: return new Field(f);
  }
}

HashFlavour flavour(Ctx &c) { return c.coin() ? SHA256_FLAVOUR : SHA1_FLAVOUR; }

size_t messageLength(Ctx &c) {
  switch (c.weighted({200, 400, 200, 100, 1})) {
    case 0: return c.draw(20);
    case 1: {  // around the limits of one, two, ... blocks
      size_t base = 64 * c.range(0, 4);
      static const size_t at[] = {54, 55, 56, 57, 62, 63, 64, 65};
      return base + at[c.draw(8)];
    }
    case 2: return c.draw(400);
    case 3: return c.draw(5000);
    default: return c.range(65400, 140000);
  }
}

std::string message(Ctx &c, size_t n) {
  switch (c.weighted({3, 1, 1, 1})) {
    case 0:
      if (n <= 200) return c.bytes(n);
      break;
    case 1: return std::string(n, '\0');
    case 2: return std::string(n, '\xff');
    default: break;
  }
  uint64_t s = c.u64();
  std::string m(n, 0);
  for (char &ch : m) ch = (char) (splitmix(s) % (n % 2 ? 256 : 3));
  return m;
}

// The earlier message with a byte, an end or an order changed
std::string changed(Ctx &c, std::string m) {
  switch (c.weighted({4, 1, 1, 1})) {
    case 0: m[c.weighted({1, 1, 2}) == 0 ? 0 : c.coin() ? m.size() - 1 : c.draw(m.size())] ^= (char) c.range(1, 255); break;
    case 1: m.resize(c.draw(m.size() + 1)); break;
    case 2: m += (char) c.draw(256); break;
    default: std::reverse(m.begin(), m.end());
  }
  return m;
}

void history(Ctx &c) {
  arrays.clear();
  std::string last;
  ZZ lastValue(0);
  ZZ p = gen::modulus(c, 2, 1600);
  ZZ_p::init(p);
  std::vector<std::unique_ptr<Adapter>> as;
  size_t n0 = c.range(1, 3);
  for (size_t i = 0; i < n0; i++) {
    int kind = (int) c.weighted({2, 2, 2});
    as.emplace_back(fresh(kind, flavour(c)));
  }
  size_t nops = c.chance(1, 300) ? c.range(260, 500) : c.range(1, 10);
  size_t hashes = 0, edge = 0, copies = 0;
  for (size_t k = 0; k < nops; k++) {
    size_t i = c.draw(as.size());
    switch (c.weighted({12, 2, 2, 1, 1})) {
      case 1:  // copy
        if (as[i]->kind() == 2 || as.size() > 8) break;
        as.emplace_back(as[i]->copy());
        PBT_NOTE(c, "object " << as.size() - 1 << " is a copy of object " << i);
        copies++;
        continue;
      case 2: {  // assign
        size_t j = c.draw(as.size());
        if (as[i]->kind() == 2 || as[i]->kind() != as[j]->kind()) break;
        as[j]->assign(*as[i]);
        PBT_NOTE(c, "object " << j << " assigned from object " << i);
        copies++;
        continue;
      }
      case 3:  // destroy
        if (as.size() < 2) break;
        as.erase(as.begin() + (long) i);
        PBT_NOTE(c, "object " << i << " destroyed");
        continue;
      case 4:
        p = gen::modulus(c, 2, 1600);
        ZZ_p::init(p);
        break;
    }
    i = c.draw(as.size());
    Adapter &a = *as[i];
    std::string m, used;
    size_t len = 0;
    if (a.kind() == 2) {
      lastValue = c.chance(1, 4) ? (lastValue + (1L << c.draw(20))) % p : gen::below(c, p);
      m = ref::decimal(lastValue);
    } else {
      m = !last.empty() && c.chance(1, 3) ? changed(c, last) : message(c, messageLength(c));
      if (m.size() == last.size() && m != last) c.label("as many other bytes");
      last = m;
    }
    if (a.kind() != 0) {
      switch (c.weighted({3, 2, 1, 1})) {
        case 1: len = m.empty() ? 0 : c.range(1, m.size()); break;
        case 2: len = m.size() + c.draw(3); break;
        case 3: len = gen::wide(c, m.size() + 1); break;
      }
    }
    used = m;
    if (len > 0 && len < m.size()) used.resize(len);
    const byte *d = a.run(m, len);
    PBT_NOTE(c, "object " << i << " (" << (a.kind() == 0 ? "bytes" : a.kind() == 1 ? "string" : "field") << ", flavour " << a.flavour
                          << ") hashes " << m.size() << " bytes, length " << len << ": " << hex(m.substr(0, 80)));
    PBT_CHECK(a.size() == digestSize(a.flavour), "hashSize() is " << a.size());
    if (a.kind() == 0 && m.empty()) {
      PBT_CHECK(d == nullptr, "an empty byte array gives a digest");
      c.label("empty bytes");
      continue;
    }
    PBT_CHECK(d != nullptr, "no digest of " << m.size() << " bytes");
    std::string got((const char *) d, a.size()), want = digest(a.flavour, used);
    PBT_CHECK(got == want, "digest of " << used.size() << " bytes is " << hex(got) << ", the standard one is " << hex(want));
    std::string r = a.readable(d, a.size());
    PBT_CHECK(upper(r) == upper(hex(want)), "readable form " << r << " of digest " << hex(want));
    size_t part = c.draw(a.size() + 1);
    r = a.readable(d, part);
    PBT_CHECK(upper(r) == upper(hex(want.substr(0, part))), "readable form " << r << " of the first " << part << " bytes of " << hex(want));
    hashes++;
    if (used.size() % 64 >= 55 || (!used.empty() && used.size() % 64 == 0)) edge++;
    c.label(used.empty() ? "empty" : used.size() > 65535 ? "more than 65535 bytes" : used.size() < 56 ? "one block" : used.size() < 64 ? "one block, length does not fit" : "several blocks");
    if (used.find('\0') != std::string::npos) c.label("embedded zero");
    if (used.size() < m.size()) c.label("cut");
    c.count("hashes");
  }
  // names identify flavours
  for (size_t i = 0; i < as.size(); i++)
    for (int f = 0; f < 2; f++) {
      HashFlavour fl = f ? SHA256_FLAVOUR : SHA1_FLAVOUR;
      std::unique_ptr<Adapter> o(fresh(as[i]->kind(), fl));
      PBT_CHECK((as[i]->name() == o->name()) == (fl == as[i]->flavour),
                "names \"" << as[i]->name() << "\" (flavour " << as[i]->flavour << ") and \"" << o->name() << "\" (flavour " << fl << ")");
      std::string num = fl == SHA256_FLAVOUR ? "256" : "1";
      (void) num;
      if (fl == as[i]->flavour && fl == SHA256_FLAVOUR)
        PBT_CHECK(as[i]->name().find("256") != std::string::npos, "the name of SHA-256 is \"" << as[i]->name() << "\"");
      if (fl == as[i]->flavour && fl == SHA1_FLAVOUR)
        PBT_CHECK(as[i]->name().find("256") == std::string::npos, "the name of SHA-1 is \"" << as[i]->name() << "\"");
    }
  if (copies) c.label("copies");
  if (hashes >= 2 || edge) c.nontrivial();
}

// A null pointer, with any length, has no digest.
void nothing(Ctx &c) {
  SHAByteArray h(flavour(c));
  size_t len = gen::wide(c);
  PBT_CHECK(h.hash(nullptr, len) == nullptr, "a null byte array of length " << len << " gives a digest");
  byte b = 0;
  PBT_CHECK(h.hash(&b, 0) == nullptr, "an empty byte array gives a digest");
  PBT_CHECK(h.hash(&b) == nullptr, "a byte array of no length gives a digest");
  std::string m = message(c, 1 + c.draw(100));
  const byte *d = h.hash((byte *) &m[0], m.size());
  PBT_CHECK(d && std::string((const char *) d, h.hashSize()) == digest(h.hashSize() == 32 ? SHA256_FLAVOUR : SHA1_FLAVOUR, m),
            "wrong digest after empty input");
  // any bytes have their hexadecimal text
  std::string any = message(c, c.draw(200));
  std::string r = HashAlgorithm<int>::readableDigest((const byte *) any.data(), any.size());
  PBT_CHECK(upper(r) == upper(hex(any)), "readable form of " << hex(any) << " is " << r);
  c.nontrivial();
}

// Inputs whose length needs three bytes or more
void longInput(Ctx &c) {
  static const size_t at[] = {1u << 17, 1u << 18, 1u << 19, 1u << 20, 1u << 21, 1u << 22, 1u << 24};
  size_t n = at[c.weighted({3, 3, 3, 3, 2, 1, 1})] + c.draw(200) - 70;
  HashFlavour f = flavour(c);
  SHAByteArray b(f);
  SHAString s(f);
  std::string m(n, 0);
  uint64_t r = c.u64();
  for (size_t i = 0; i < n; i += 8) {
    uint64_t w = splitmix(r);
    memcpy(&m[i], &w, n - i < 8 ? n - i : 8);
  }
  size_t len = c.coin() ? n : n - c.draw(n / 2);
  PBT_NOTE(c, n << " bytes, of which " << len);
  std::string want = digest(f, m.substr(0, len));
  {
    std::unique_ptr<byte[]> exact(new byte[len]);
    memcpy(exact.get(), m.data(), len);
    PBT_CHECK(std::string((const char *) b.hash(exact.get(), len), b.hashSize()) == want, "the digest of " << len << " bytes is not the standard one");
  }
  PBT_CHECK(std::string((const char *) s.hash(m, len == n && c.coin() ? 0 : len), s.hashSize()) == want, "the digest of a string of " << n << " bytes cut to " << len << " is not the standard one");
  if (n < (1u << 18)) {
    size_t digits = n / (c.coin() ? 2 : 8);
    ZZ_p::init(NTL::power(ZZ(10), (long) digits) + 1);
    ZZ lo = NTL::power(ZZ(10), (long) digits - 1), v = lo + ref::fromLE(m.substr(0, digits * 5 / 12 + 2)) % (lo * 9);
    ZZ_p e;
    conv(e, v);
    SHAZZp z(f);
    size_t cut = c.coin() ? 0 : digits - c.draw(100);
    std::string d = ref::decimal(v);
    PBT_CHECK(std::string((const char *) z.hash(e, cut), z.hashSize()) == digest(f, cut == 0 ? d : d.substr(0, cut)), "the digest of a number of " << digits << " digits cut to " << cut << " is not the standard one");
    c.label("a number of more than 16000 digits");
  }
  m.resize(c.range(1, 200));
  PBT_CHECK(std::string((const char *) b.hash((byte *) &m[0], m.size()), b.hashSize()) == digest(f, m), "the digest of " << m.size() << " bytes after long ones is not the standard one");
  c.label(n > (1u << 20) ? "more than a million bytes" : "more than 130000 bytes");
  c.count("hashes", 3);
  c.nontrivial();
}

// The chain used elsewhere: hashing an adapter's own result
void chain(Ctx &c) {
  HashFlavour f = flavour(c);
  SHAByteArray h(f);
  std::string m = message(c, 1 + c.draw(150));
  size_t n = c.range(1, 12);
  byte *d = h.hash((byte *) &m[0], m.size());
  std::string want = digest(f, m);
  for (size_t i = 0; i < n; i++) {
    PBT_CHECK(d && std::string((const char *) d, h.hashSize()) == want, "link " << i << " of the chain from " << hex(m));
    d = h.hash(d, h.hashSize());
    want = digest(f, want);
  }
  c.count("hashes", n);
  c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C07",
    "history: 1-10 (1 in 300: up to 500) operations (hash, copy, assign, destroy, change of field modulus) on several byte, string and field-element adapters "
    "of both flavours, messages of 0-5000 (rarely 65400-140000) bytes with emphasis on lengths 54-65 modulo 64, embedded zeros, often an earlier message changed a little and in the same memory, all length arguments; every "
    "digest compared with independent SHA-1/SHA-256, readable forms with hexadecimal text, names between flavours. nothing: null and "
    "empty inputs. chain: digests of the adapter's own result buffer. long: inputs of 2^17 to 2^24 bytes and numbers of up to 65000 digits. Non-trivial: a history with at least two digests or one whose "
    "message ends near a block limit.",
    {{"history", history, 80000, 1500000, 20}, {"nothing", nothing, 6000, 100000, 20}, {"chain", chain, 6000, 100000, 20}, {"long", longInput, 50, 1000, 120}}};
