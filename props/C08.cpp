// C08: the hash table places, keeps and bounds its elements.
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include "hashbuckets.hpp"
#include "murmurhash3.h"
#include "shastr.h"
#include "shazzp.h"
#include <cmath>
#include <memory>

using namespace pbt;
using NTL::ZZ;
using NTL::ZZ_p;

namespace {

// How the base class hands over the element: by value or by reference
template <class> struct First;
template <class R, class C, class A, class... B> struct First<R (C::*)(A, B...)> { typedef A type; };
template <class F> using Given = typename First<F>::type;

// A hash algorithm with digests of any size; digests of some shapes are
// mostly zero so that the position of each byte matters.
struct Free : HashAlgorithm<int> {
  size_t d;
  uint64_t seed;
  int shape;
  std::vector<byte> last;
  size_t calls = 0;
  Free(size_t d, uint64_t seed, int shape) : d(d), seed(seed), shape(shape), last(d) {}
  std::string digest(int e) const {
    uint64_t s = seed * 1000003 + (uint64_t) e;
    splitmix(s);
    std::string r(d, '\0');
    switch (shape) {
      case 0:
        for (auto &ch : r) ch = (char) splitmix(s);
        break;
      case 1: r[splitmix(s) % d] = (char) splitmix(s); break;
      case 2: r[d - 1] = (char) splitmix(s); break;
      case 3:
        for (auto &ch : r) ch = '\xff';
        r[splitmix(s) % d] = (char) splitmix(s);
        break;
      default:  // few different digests: crowded buckets
        for (auto &ch : r) ch = (char) (splitmix(s) % 2);
    }
    return r;
  }
  byte *hash(Given<decltype(&HashAlgorithm<int>::hash)> n, const size_t = 0) override {
    calls++;
    std::string r = digest(n);
    memcpy(last.data(), r.data(), d);
    return last.data();
  }
  size_t hashSize() const override { return d; }
  std::string name() const override { return "free"; }
};

template <class T> struct Algo {
  std::unique_ptr<HashAlgorithm<T>> h;
  std::function<std::string(const T &)> ref;
  std::string what;
};

Algo<int> algo(Ctx &c, int *) {
  size_t d = c.weighted({1, 3}) == 0 ? c.range(1, 4) : c.skewed(1, 100);
  Free *f = new Free(d, c.u64(), (int) c.draw(5));
  return {std::unique_ptr<HashAlgorithm<int>>(f), [f](const int &e) { return f->digest(e); }, "digests of " + std::to_string(d) + " bytes"};
}
Algo<std::string> algo(Ctx &c, std::string *) {
  HashFlavour f = c.coin() ? SHA256_FLAVOUR : SHA1_FLAVOUR;
  return {std::unique_ptr<HashAlgorithm<std::string>>(new SHAString(f)),
          [f](const std::string &e) { return f == SHA1_FLAVOUR ? ref::sha1(e) : ref::sha256(e); }, f == SHA1_FLAVOUR ? "SHA-1" : "SHA-256"};
}
Algo<ZZ_p> algo(Ctx &c, ZZ_p *) {
  size_t k = c.draw(3);
  if (k < 2) {
    HashFlavour f = k ? SHA256_FLAVOUR : SHA1_FLAVOUR;
    return {std::unique_ptr<HashAlgorithm<ZZ_p>>(new SHAZZp(f)),
            [f](const ZZ_p &e) { return f == SHA1_FLAVOUR ? ref::sha1(ref::decimal(rep(e))) : ref::sha256(ref::decimal(rep(e))); },
            f == SHA1_FLAVOUR ? "SHA-1" : "SHA-256"};
  }
  uint32_t s = (uint32_t) gen::edge(c, 32);
  return {std::unique_ptr<HashAlgorithm<ZZ_p>>(new MurmurHash3(s)), [s](const ZZ_p &e) { return ref::murmur3_x64_128(ref::decimal(rep(e)), s); },
          "Murmur"};
}

int element(Ctx &c, int *) { return (int) (c.coin() ? c.draw(30) : c.u64() & 0x7fffffff); }
std::string element(Ctx &c, std::string *) { return c.bytes(c.draw(12)); }
ZZ_p element(Ctx &c, ZZ_p *) {
  ZZ_p e;
  conv(e, gen::below(c, ZZ_p::modulus()));
  return e;
}
std::string show(int e) { return std::to_string(e); }
std::string show(const std::string &e) { return hex(e); }
std::string show(const ZZ_p &e) { return ref::decimal(rep(e)); }

double numberAfter(const std::string &out, const std::string &tag) {
  size_t at = out.find(tag);
  PBT_CHECK(at != std::string::npos, "statistics without \"" << tag << "\":\n" << out);
  return atof(out.c_str() + at + tag.size());
}
bool close(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::max(1.0, std::fabs(b)) || std::fabs(a - b) <= 2e-5 * std::fabs(b); }

template <class T> struct Model {
  std::vector<std::vector<T>> b;
  size_t n = 0;
};

template <class T> void compare(HashBuckets<T> &t, const Model<T> &m, bool brackets) {
  PBT_CHECK(t.getLength() == m.b.size(), "getLength() is " << t.getLength());
  PBT_CHECK(t.size() == m.n, "size() is " << t.size() << " after adding " << m.n);
  for (size_t i = 0; i < m.b.size(); i++) {
    MarkedVector<T> v = brackets ? t[i] : t.getBucket(i);
    PBT_CHECK(v.size() == m.b[i].size(), "bucket " << i << " has " << v.size() << " elements instead of " << m.b[i].size());
    for (size_t j = 0; j < v.size(); j++)
      PBT_CHECK(v[j] == m.b[i][j], "element " << j << " of bucket " << i << " is " << show(v[j]) << " instead of " << show(m.b[i][j]));
    PBT_CHECK(!v.isMarked(), "bucket " << i << " is marked");
  }
}

template <class T> void stats(HashBuckets<T> &t, const Model<T> &m, bool full) {
  std::string out = captureCout([&] { t.printStats(full); });
  size_t k = m.b.size(), mn = m.b[0].size(), mx = mn;
  double var = 0, avg = (double) m.n / (double) k;
  for (auto &b : m.b) {
    mn = std::min(mn, b.size());
    mx = std::max(mx, b.size());
    var += ((double) b.size() - avg) * ((double) b.size() - avg);
  }
  var /= (double) k;
  struct { const char *tag; double want; } want[] = {{"HashBuchets - ", (double) k}, {"buckets of size ", (double) t.getMaxLoad()},
                                                     {"N = ", (double) m.n}, {"min = ", (double) mn}, {"max = ", (double) mx},
                                                     {"m = ", avg}, {"v = ", var}, {"d = ", std::sqrt(var)},
                                                     {"%", 0}};
  for (auto &w : want) {
    if (w.tag[0] == '%') continue;
    std::string tag = w.tag;
    double got;
    if (tag == "m = " || tag == "v = " || tag == "d = ") tag = " " + tag;
    got = numberAfter(out, tag);
    PBT_CHECK(close(got, w.want), "statistics say " << w.tag << got << ", the buckets say " << w.want << "\n" << out);
  }
  size_t at = out.find("N = ");
  double pc = numberAfter(out.substr(at), "(");
  PBT_CHECK(close(pc, 100.0 * (double) m.n / (double) k / (double) t.getMaxLoad()), "statistics say " << pc << "% full\n" << out);
  for (int i = 0; i < 2; i++) {
    at = out.find(i ? "max = " : "min = ");
    size_t bi = (size_t) numberAfter(out.substr(at), "(bucket ");
    PBT_CHECK(bi < k && m.b[bi].size() == (i ? mx : mn), "statistics name bucket " << bi << " as the " << (i ? "fullest" : "emptiest") << "\n" << out);
  }
  size_t shown = full ? k : std::min<size_t>(k, 30);
  for (size_t i = 0; i < shown; i++) {
    std::ostringstream o;
    o << "(" << i << ", " << m.b[i].size() << ")";
    PBT_CHECK(out.find(o.str()) != std::string::npos, "statistics without " << o.str() << "\n" << out);
  }
}

// status 1 with a message on standard error, from within a catch-all
void refused(const std::string &what, const std::function<void()> &f) {
  ForkResult r = forked([&](std::string &) {
    try {
      f();
    } catch (...) {
    }
  });
  PBT_CHECK(!r.returned, what << " was not refused (or was refused by an exception that can be caught)");
  PBT_CHECK(r.exited && r.code == 1, what << " ended the program with " << (r.exited ? "status " : "signal ") << (r.exited ? r.code : r.sig)
                                          << "; standard error: " << r.err.substr(0, 2000));
  PBT_CHECK(!r.err.empty(), what << " ended the program without a message");
}

template <class T> void run(Ctx &c) {
  T *tag = nullptr;
  if (sizeof(T) == sizeof(ZZ_p) && std::is_same<T, ZZ_p>::value) ZZ_p::init(gen::modulus(c, 2, 400));
  size_t k, load;
  switch (c.weighted({3, 3, 1})) {
    case 0: k = c.range(1, 4); break;
    case 1: k = c.range(1, 60); break;
    default: k = c.skewed(1, 1500); break;
  }
  load = c.weighted({3, 1}) == 0 ? c.range(1, 6) : c.skewed(1, 80);
  if (c.chance(1, 60)) {  // a table that can hold nothing
    bool none = c.coin();
    (none ? k : load) = 0;
    Algo<T> a = algo(c, tag);
    HashBuckets<T> t(k, load, a.h.get());
    T e = element(c, tag);
    size_t i = c.draw(k + 2);
    PBT_NOTE(c, k << " buckets of " << load << ", " << a.what);
    switch (c.draw(none ? 4 : 2)) {
      case 0: refused("adding to " + std::to_string(k) + " buckets of " + std::to_string(load), [&] { t.add(e); }); break;
      case 1: refused("adding to bucket " + std::to_string(i) + " of " + std::to_string(k) + " of " + std::to_string(load), [&] { t.addToBucket(e, i); }); break;
      case 2: refused("getBucket without buckets", [&] { t.getBucket(i); }); break;
      default: refused("reading a bucket without buckets", [&] { t[i]; });
    }
    PBT_CHECK(t.size() == 0 && t.getLength() == k && t.getMaxLoad() == load, "a table that holds nothing has changed");
    c.label("room for nothing");
    c.nontrivial();
    return;
  }
  std::vector<Algo<T>> as;
  as.push_back(algo(c, tag));
  size_t cur = 0;
  std::unique_ptr<HashBuckets<T>> t;
  if (c.coin()) {
    t.reset(new HashBuckets<T>(k, load, as[0].h.get()));
  } else {
    t.reset(new HashBuckets<T>(k, load));
    t->setHashAlgorithm(as[0].h.get());
  }
  PBT_NOTE(c, k << " buckets of " << load << ", " << as[0].what);
  PBT_CHECK(t->getMaxLoad() == load, "getMaxLoad() is " << t->getMaxLoad());
  Model<T> m;
  m.b.resize(k);
  auto place = [&](const T &e) { return (size_t) NTL::to_long(ref::fromLE(as[cur].ref(e)) % ZZ((long) k)); };
  size_t nops = c.skewed(1, k > 100 ? 12 : 30), refusals = 0, kept = 0, maxed = 0;
  bool multi = false;
  std::vector<T> seen;
  auto fresh = [&]() -> T {
    if (!seen.empty() && c.chance(1, 5)) return seen[c.draw(seen.size())];
    seen.push_back(element(c, tag));
    return seen.back();
  };
  for (size_t op = 0; op < nops; op++) {
    switch (c.weighted({6, 4, 3, 2, 1, 1})) {
      case 0: {  // add
        T e = fresh();
        size_t i = place(e);
        PBT_NOTE(c, "add " << show(e) << " (bucket " << i << ")");
        if (m.b[i].size() >= load) {
          if (refusals >= 2) break;
          refusals++;
          refused("adding to the full bucket " + std::to_string(i), [&] { t->add(e); });
          c.label("full bucket");
          break;
        }
        t->add(e);
        m.b[i].push_back(e);
        m.n++;
        kept++;
        break;
      }
      case 1: {  // addToBucket
        T e = fresh();
        size_t i = c.draw(k);
        size_t times = c.chance(1, 4) ? load : 1;  // fill it
        for (size_t j = 0; j < times && m.b[i].size() < load; j++) {
          PBT_NOTE(c, "add " << show(e) << " to bucket " << i);
          t->addToBucket(e, i);
          m.b[i].push_back(e);
          m.n++;
          kept++;
        }
        if (m.b[i].size() == load) {
          maxed++;
          if (refusals < 2 && c.chance(1, 3)) {
            refusals++;
            refused("adding to the full bucket " + std::to_string(i), [&] { t->addToBucket(e, i); });
            c.label("full bucket");
          }
        }
        break;
      }
      case 2: {  // bulk
        size_t n = c.draw(9);
        std::vector<T> l;
        size_t fits = 0;
        Model<T> after = m;
        for (size_t j = 0; j < n; j++) {
          T e = fresh();
          size_t i = place(e);
          l.push_back(e);
          if (fits == j && after.b[i].size() < load) {
            after.b[i].push_back(e);
            after.n++;
            fits++;
          }
        }
        PBT_NOTE(c, "add " << n << " elements at once, " << fits << " fit");
        HashTable<T, MarkedVector<T>> &base = *t;
        std::unique_ptr<T[]> arr(new T[n ? n : 1]);
        for (size_t j = 0; j < n; j++) arr[j] = l[j];
        if (fits < n) {
          if (refusals >= 2) break;
          refusals++;
          refused("adding " + std::to_string(n) + " elements of which one has no room", [&] { base.add(arr.get(), n); });
          c.label("full bucket in bulk");
          break;
        }
        base.add(arr.get(), n);
        m = after;
        kept += n;
        multi |= n > 1;
        break;
      }
      case 3: {  // outside
        if (refusals >= 2) break;
        refusals++;
        size_t i = k;
        switch (c.draw(4)) {
          case 0: break;
          case 1: i = k + 1 + c.draw(10); break;
          case 2: i = ~(size_t) 0 - c.draw(3); break;
          default: i = gen::wide(c, k); if (i < k) i += k; break;
        }
        T e = fresh();
        std::string at = "bucket index " + std::to_string(i) + " of " + std::to_string(k);
        PBT_NOTE(c, at);
        switch (c.draw(3)) {
          case 0: refused("adding to " + at, [&] { t->addToBucket(e, i); }); break;
          case 1: refused("getBucket of " + at, [&] { t->getBucket(i); }); break;
          default: refused("reading " + at, [&] { (*t)[i]; });
        }
        c.label("outside");
        break;
      }
      case 4:  // another algorithm
        if (as.size() < 3 && c.coin()) as.push_back(algo(c, tag));
        cur = c.draw(as.size());
        PBT_NOTE(c, "hash algorithm now " << as[cur].what);
        t->setHashAlgorithm(as[cur].h.get());
        c.label("algorithm changed");
        break;
      default: {
        std::string s = captureCout([&] { t->setHashAlgorithm(nullptr); });
        PBT_NOTE(c, "no hash algorithm given: nothing changes");
      }
    }
    if (k <= 100 || op + 1 == nops) compare(*t, m, op % 2 == 1);
  }
  // a bucket that was read does not change the table
  size_t i = c.draw(k);
  MarkedVector<T> v = t->getBucket(i);
  v.push_back(element(c, tag));
  compare(*t, m, false);
  stats(*t, m, c.coin());
  c.count("elements", kept);
  if (maxed) c.label("bucket exactly full");
  if (multi) c.label("bulk");
  if (kept >= 2 || refusals) c.nontrivial();
}

// Large tables, where the index depends on all bytes of the digest
void large(Ctx &c) {
  size_t d = c.range(1, 40);
  Free f(d, c.u64(), 0);
  size_t k = c.range(1000, 40000), n = c.range(100, 1500);
  HashBuckets<int> t(k, n, &f);
  std::vector<std::vector<int>> want(k);
  uint64_t s = c.u64();
  PBT_NOTE(c, k << " buckets, " << n << " elements, digests of " << d << " bytes");
  for (size_t i = 0; i < n; i++) {
    int e = (int) (splitmix(s) & 0x7fffffff);
    t.add(e);
    want[(size_t) NTL::to_long(ref::fromLE(f.digest(e)) % ZZ((long) k))].push_back(e);
  }
  PBT_CHECK(t.size() == n, "size() is " << t.size());
  for (size_t i = 0; i < k; i++) {
    MarkedVector<int> b = t.getBucket(i);
    PBT_CHECK(b == want[i], "bucket " << i << " has " << b.size() << " elements, expected " << want[i].size() << " (or others)");
  }
  c.count("elements", n);
  c.nontrivial();
}

// Buckets with more elements than a byte or a word counts, tables with more buckets or elements
void crowded(Ctx &c) {
  size_t k, load, fill;
  switch (c.weighted({6, 1, 1})) {
    case 0: k = c.range(1, 6); load = c.range(250, 1200); break;
    case 1: k = c.range(1, 2); load = c.range(65530, 70000); break;
    default: k = c.range(65530, 70000); load = c.range(1, 2); break;
  }
  Free f(c.range(1, 8), c.u64(), 0);
  HashBuckets<int> t(k, load, &f);
  HashTable<int, MarkedVector<int>> &base = t;
  Model<int> m;
  m.b.resize(k);
  uint64_t s = c.u64();
  bool byHash = k > 6 || c.chance(1, 3);
  size_t chunk = c.coin() ? 1 : c.range(100, 70000);
  fill = byHash ? c.range(1, k * load) : k * load - c.draw(load + 1);
  PBT_NOTE(c, k << " buckets of " << load << ", " << fill << " elements " << (byHash ? "by their hash, " : "given a bucket, ") << chunk << " at a time");
  std::vector<int> list;
  auto flush = [&] {
    if (list.size() == 1) base.add(list[0]);
    else base.add(list.data(), list.size());
    list.clear();
  };
  for (size_t n = 0, tries = 0; n < fill && tries < 2 * fill; tries++) {
    int e = (int) (splitmix(s) & 0x7fffffff);
    size_t i = byHash ? (size_t) NTL::to_long(ref::fromLE(f.digest(e)) % ZZ((long) k)) : n / load;
    if (m.b[i].size() >= load) continue;
    m.b[i].push_back(e);
    m.n++;
    n++;
    if (!byHash) t.addToBucket(e, i);
    else {
      list.push_back(e);
      if (list.size() >= chunk) flush();
    }
  }
  if (!list.empty()) flush();
  compare(t, m, c.coin());
  stats(t, m, k < 100 && c.coin());
  size_t at = 0;
  while (at < k && m.b[at].size() < load) at++;
  if (at < k) {
    refused("adding to the full bucket " + std::to_string(at) + " of " + std::to_string(load), [&] { t.addToBucket(1, at); });
    c.label("full bucket");
  }
  refused("bucket index " + std::to_string(k) + " of " + std::to_string(k), [&] { t.addToBucket(1, k); });
  if (m.n > 65536) c.label("more than 65536 elements");
  if (load > 65536) c.label("more than 65536 in a bucket");
  if (k > 65536) c.label("more than 65536 buckets");
  c.count("elements", m.n);
  c.nontrivial();
}

void ints(Ctx &c) { run<int>(c); }
void strings(Ctx &c) { run<std::string>(c); }
void fields(Ctx &c) { run<ZZ_p>(c); }

}  // namespace

const Property pbt::property = {
    "C08",
    "Histories of up to 30 operations (add, add to a bucket, bulk add, read, change of algorithm, refused operations in a child process "
    "whose exit status and message are checked) on tables of 1-1500 buckets and loads 1-80, over ints with digests of 1-100 bytes of "
    "several shapes, strings with SHA and field elements with Murmur/SHA; the whole table is compared with a model after every operation "
    "and the printed statistics with the bucket sizes. large: up to 1500 elements over up to 40000 buckets. crowded: loads of 250-70000 in few buckets, or up to 70000 buckets, filled one by one or in bulk, with refusals. Non-trivial: at least two "
    "elements kept or a refusal.",
    {{"ints", ints, 4000, 120000, 30}, {"strings", strings, 1500, 40000, 30}, {"fields", fields, 1500, 40000, 30}, {"large", large, 200, 4000, 30}, {"crowded", crowded, 160, 4000, 60}}};
