// C09: concealment fills every bucket and keeps the original elements.
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include "hashbuckets.hpp"
#include "murmurhash3.h"
#include "zzpprf.h"
#include <algorithm>
#include <memory>

using namespace pbt;
using NTL::ZZ;
using NTL::ZZ_p;

namespace {

// Generators that record everything they hand out.
struct IntGen : PseudoRandom<int, int> {
  std::vector<int> out;
  int next, step;
  IntGen(int first, int step) : next(first), step(step) {}
  int give() {
    out.push_back(next);
    next += step;
    return out.back();
  }
  // by value or by reference, as the base class wants it
  int generate(const int, const size_t, const size_t = 0) { return give(); }
  int generate(const int &, const size_t, const size_t = 0) { return give(); }
  int generate(const size_t, const size_t = 0) override { return give(); }
  int generate() override { return give(); }
  int randomSeed() override { return 1; }
  int defaultSeed() override { return 1; }
};

struct FieldGen : ZZpPRF {
  std::vector<ZZ> out;
  int depth = 0;
  FieldGen(const ZZ &p) : ZZpPRF(p) {}
  ZZ_p rec(const ZZ_p &v) {
    if (depth == 0) out.push_back(rep(v));
    return v;
  }
  ZZ_p seeded(const ZZ_p &seed, size_t index, size_t bits) {
    depth++;
    ZZ_p v = ZZpPRF::generate(seed, index, bits);
    depth--;
    return rec(v);
  }
  // by value or by reference, as the base class wants it
  ZZ_p generate(const ZZ_p seed, const size_t index, const size_t bits = 0) { return seeded(seed, index, bits); }
  ZZ_p generate(const ZZ_p &seed, const size_t index, const size_t bits = 0) { return seeded(seed, index, bits); }
  ZZ_p generate(const size_t index, const size_t bits = 0) override {
    depth++;
    ZZ_p v = PseudoRandom<ZZ_p, ZZ_p>::generate(index, bits);
    depth--;
    return rec(v);
  }
  ZZ_p generate() override {
    depth++;
    ZZ_p v = PseudoRandom<ZZ_p, ZZ_p>::generate();
    depth--;
    return rec(v);
  }
};

int key(int v) { return v; }
ZZ key(const ZZ_p &v) { return rep(v); }

struct Shape {
  size_t k, load;
  std::vector<size_t> n;  // elements per bucket
};
Shape shape(Ctx &c) {
  Shape s;
  s.k = c.weighted({4, 1}) == 0 ? c.range(1, 12) : c.skewed(1, 400);
  s.load = c.weighted({4, 1}) == 0 ? c.range(1, 8) : c.skewed(1, s.k > 100 ? 20 : 150);
  switch (c.weighted({2000, 1, 1, 1})) {
    case 0: break;
    case 1: s.k = c.range(65530, 66000); s.load = c.range(1, 2); break;
    case 2: s.k = c.range(1, 2); s.load = c.range(65530, 66000); break;
    default: s.k = c.range(255, 260); s.load = c.range(255, 260); break;
  }
  if (s.k * s.load > 65000) {  // without a choice per bucket
    c.label("more than 65000 cells");
    uint64_t seed = c.u64();
    unsigned kind = (unsigned) c.draw(3);
    for (size_t i = 0; i < s.k; i++) {
      uint64_t r = splitmix(seed);
      s.n.push_back(kind == 0 ? 0 : kind == 1 ? r % (s.load + 1) : r % 2 ? s.load : s.load - 1);
    }
    return s;
  }
  int mode = (int) c.weighted({3, 1, 1, 1});
  for (size_t i = 0; i < s.k; i++) {
    size_t n = 0;
    switch (mode) {
      case 0: n = c.chance(1, 3) ? 0 : c.chance(1, 4) ? s.load : c.draw(s.load + 1); break;
      case 1: n = 0; break;
      case 2: n = s.load; break;
      default: n = c.chance(1, 2) ? s.load : s.load - 1; break;
    }
    s.n.push_back(n);
  }
  return s;
}

// The common part: t holds want; conceal it and check, several times
template <class T, class G>
void check(Ctx &c, HashBuckets<T> &t, const Shape &s, const std::vector<std::vector<T>> &want, G &g, const std::function<void(size_t)> &between) {
  size_t free = 0, empty = 0, full = 0, added = t.size();
  for (size_t i = 0; i < s.k; i++) {
    free += s.load - s.n[i];
    empty += s.n[i] == 0;
    full += s.n[i] == s.load;
  }
  PBT_NOTE(c, s.k << " buckets of " << s.load << ", " << empty << " empty, " << full << " full, " << free << " free cells");
  size_t rounds = c.range(1, 3);
  std::vector<MarkedVector<T>> first;
  for (size_t r = 0; r < rounds; r++) {
    t.conceal(g);
    PBT_CHECK(g.out.size() == free, "round " << r << ": " << g.out.size() << " values generated for " << free << " free cells");
    PBT_CHECK(t.getLength() == s.k && t.getMaxLoad() == s.load, "the dimensions changed");
    std::vector<decltype(key(std::declval<T>()))> used, made;
    for (auto &v : g.out) made.push_back(v);
    for (size_t i = 0; i < s.k; i++) {
      MarkedVector<T> b = t[i];
      PBT_CHECK(b.size() == s.load, "round " << r << ": bucket " << i << " holds " << b.size() << " of " << s.load);
      for (size_t j = 0; j < s.n[i]; j++)
        PBT_CHECK(key(b[j]) == key(want[i][j]), "round " << r << ": element " << j << " of bucket " << i << " is " << key(b[j]) << " instead of " << key(want[i][j]));
      for (size_t j = s.n[i]; j < s.load; j++) used.push_back(key(b[j]));
      PBT_CHECK(b.isMarked() == (s.n[i] == 0), "round " << r << ": bucket " << i << " with " << s.n[i] << " elements is " << (b.isMarked() ? "" : "not ") << "marked");
      if (r == 0) {
        first.push_back(b);
      } else {
        for (size_t j = 0; j < s.load; j++) PBT_CHECK(key(b[j]) == key(first[i][j]), "round " << r << ": concealing again changed bucket " << i);
      }
    }
    std::sort(used.begin(), used.end());
    std::sort(made.begin(), made.end());
    PBT_CHECK(used == made, "round " << r << ": the fillers are not the generated values");
    between(r);
  }
  (void) added;
  if (empty) c.label("empty buckets");
  if (full) c.label("full buckets");
  if (empty && full && free > 0) c.label("mixed");
  c.count("fillers", free);
  if (rounds > 1) c.label("repeated");
  if (free > 0 && free < s.k * s.load) c.nontrivial();
  if (free == 0 || free == s.k * s.load) c.label("all or nothing"), c.nontrivial();
}

void ints(Ctx &c) {
  Shape s = shape(c);
  HashBuckets<int> t(s.k, s.load);
  std::vector<std::vector<int>> want(s.k);
  for (size_t i = 0; i < s.k; i++)
    for (size_t j = 0; j < s.n[i]; j++) {
      int e = s.k * s.load > 65000 ? (int) (i + j) : (int) c.draw(50);
      want[i].push_back(e);
      t.addToBucket(e, i);
    }
  // fillers may look like elements already there, and like each other
  IntGen g((int) c.draw(60), c.chance(1, 5) ? 0 : 1);
  check<int, IntGen>(c, t, s, want, g, [](size_t) {});
}

void fields(Ctx &c) {
  ZZ p = gen::modulus(c, 2, 300);
  ZZ_p::init(p);
  Shape s = shape(c);
  MurmurHash3 h((uint32_t) c.u64());
  HashBuckets<ZZ_p> t(s.k, s.load, &h);
  std::vector<std::vector<ZZ_p>> want(s.k);
  uint64_t sm = c.u64();
  if (c.coin()) {  // by hash
    size_t n = c.draw(s.k * s.load + 1);
    for (auto &x : s.n) x = 0;
    for (size_t j = 0; j < n; j++) {
      ZZ_p e;
      conv(e, ref::fromLE(std::to_string(splitmix(sm))) % p);
      size_t i = (size_t) NTL::to_long(ref::fromLE(std::string((char *) h.hash(e), 16)) % ZZ((long) s.k));
      if (s.n[i] == s.load) continue;
      t.add(e);
      s.n[i]++;
      want[i].push_back(e);
    }
    c.label("placed by hash");
  } else {
    for (size_t i = 0; i < s.k; i++)
      for (size_t j = 0; j < s.n[i]; j++) {
        ZZ_p e;
        conv(e, ref::fromLE(std::to_string(splitmix(sm))) % p);
        want[i].push_back(e);
        t.addToBucket(e, i);
      }
  }
  FieldGen g(p);
  check<ZZ_p, FieldGen>(c, t, s, want, g, [](size_t) {});
  // the generator really is the argument-less field generator
  for (auto &v : g.out)
    PBT_CHECK(v >= 0 && v < p, "filler " << v << " outside the field");
}

// Marks are as they were given last, whatever is done with the contents
void marks(Ctx &c) {
  struct One {
    std::unique_ptr<MarkedVector<int>> v;
    std::vector<int> is;
    bool marked = false;
  };
  std::vector<One> all;
  size_t ops = c.range(2, 60), given = 0;
  for (size_t k = 0; k < ops; k++) {
    if (all.empty() || (all.size() < 5 && c.chance(1, 6))) {
      all.emplace_back();
      all.back().v.reset(new MarkedVector<int>);
      PBT_NOTE(c, "vector " << all.size() - 1);
    }
    size_t i = c.draw(all.size());
    One &o = all[i];
    switch (c.draw(9)) {
      case 0: o.v->mark(); o.marked = true; given++; PBT_NOTE(c, "mark " << i); break;
      case 1: {
        bool b = c.coin();
        o.v->mark(b);
        o.marked = b;
        given++;
        PBT_NOTE(c, "mark " << i << " as " << b);
        break;
      }
      case 2: o.v->unmark(); o.marked = false; given++; PBT_NOTE(c, "unmark " << i); break;
      case 3: o.v->clear(); o.is.clear(); PBT_NOTE(c, "clear " << i); break;
      case 4: {
        size_t j = c.draw(all.size());
        if (c.coin()) *o.v = *all[j].v;
        else o.v.reset(new MarkedVector<int>(*all[j].v));
        o.is = std::vector<int>(all[j].is);
        o.marked = all[j].marked;
        PBT_NOTE(c, i << " becomes a copy of " << j);
        c.label("a copy");
        break;
      }
      case 5: {
        size_t n = c.skewed(0, 300);
        o.v->resize(n, 7);
        o.is.resize(n, 7);
        PBT_NOTE(c, "resize " << i << " to " << n);
        break;
      }
      case 6:
        if (o.is.empty()) break;
        o.v->pop_back();
        o.is.pop_back();
        PBT_NOTE(c, "shorten " << i);
        break;
      default: {
        int x = (int) c.draw(1000);
        o.v->push_back(x);
        o.is.push_back(x);
        PBT_NOTE(c, "append to " << i);
      }
    }
    for (size_t j = 0; j < all.size(); j++) {
      PBT_CHECK(all[j].v->isMarked() == all[j].marked, "vector " << j << " is " << (all[j].marked ? "no longer" : "now") << " marked");
      PBT_CHECK(std::vector<int>(all[j].v->begin(), all[j].v->end()) == all[j].is, "the contents of vector " << j << " changed");
    }
  }
  if (given > 1) c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C09",
    "Tables of 1-400 buckets and loads 1-150 (rarely more than 65000 cells) whose buckets are empty, partly filled, one short of full or full (ints placed by bucket, field "
    "elements by bucket or by hash), concealed 1-3 times with a generator that records every value it hands out (counters, constant values, "
    "the field generator). Every bucket, mark and filler is compared with the model, fillers as a multiset with the recorded values. "
    "Non-trivial: some cells free and some taken, or the extreme cases of completely empty or full tables.  marks: up to 5 marked vectors marked, unmarked, changed and copied, "
    "with all of them compared after each operation; non-trivial: more than one mark given or taken.",
    {{"ints", ints, 60000, 500000, 30}, {"fields", fields, 20000, 150000, 30}, {"marks", marks, 10000, 100000, 20}}};
