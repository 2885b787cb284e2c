// C04: outsourced data hides the set behind masks and a fixed shape.
#include "proto.hpp"

using namespace proto;

// The masks of a client's data: its blinded values minus the evaluations of
// the polynomials whose roots its buckets hold.
static Matrix masks(Ctx &c, World &w, Holding &h, const std::string &who, std::vector<ZZ> &x) {
  const Params &P = w.P;
  PBT_CHECK(h.client->getBlindedDataSize() == P.length * P.degree, "getBlindedDataSize() of " << who << " is " << h.client->getBlindedDataSize());
  PBT_CHECK(h.client->getBlindedData() != nullptr, who << " has no blinded data");
  Matrix b = copyMatrix(h.client->getBlindedData(), P.length, P.degree);
  std::vector<ZZ> pts = h.client->points();
  PBT_CHECK(pts.size() == P.degree, who << " uses " << pts.size() << " evaluation points instead of " << P.degree);
  PBT_CHECK(asSet(pts).size() == pts.size(), who << " uses an evaluation point twice");
  if (x.empty()) x = pts;
  PBT_CHECK(x == pts, who << " uses other evaluation points than another client");
  // what must be in which bucket
  Room room(P);
  std::map<size_t, std::multiset<std::string>> expect;
  for (auto &e : h.elements) expect[room.bucket(e)].insert(ref::decimal(e << (long) P.pad()));
  for (size_t j = 0; j < P.length; j++) {
    auto bucket = h.buckets->getBucket(j);
    PBT_CHECK(bucket.size() == P.height, "bucket " << j << " of " << who << " holds " << bucket.size() << " of " << P.height);
    std::vector<ZZ> roots;
    std::multiset<std::string> have, &want = expect[j];
    for (auto &e : bucket) { roots.push_back(rep(e)); have.insert(ref::decimal(rep(e))); }
    for (auto &s : want) {
      auto it = have.find(s);
      PBT_CHECK(it != have.end(), "padded element " << s << " is not in bucket " << j << " of " << who);
      have.erase(it);
    }
    for (size_t i = 0; i < P.degree; i++) {
      ZZ v = b[j][i] - ref::evalRoots(roots, x[i], P.p);
      b[j][i] = v < 0 ? v + P.p : v;
    }
  }
  return b;
}

static void blindingOf(Ctx &c, bool large) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  w.P = large ? largeParams(c) : params(c, 30, 8, 120);
  const Params &P = w.P;
  size_t cells = large ? std::min<size_t>(40, P.length * P.height) : P.length * P.height;
  std::vector<ZZ> pool;
  ZZ s1 = secret(c), s2;
  switch (c.weighted({2, 2, 1, 1})) {
    case 0: s2 = s1 + 1; break;
    case 1: s2 = secret(c); break;
    case 2: s2 = s1 + ref::pow2(c.range(0, P.field)); break;
    default: s2 = s1 << 8; break;
  }
  World w2;
  Member &a = w.addMember("Alice", s1), &b = w.addMember(c.coin() ? "Alice" : name(c, {"Alice"}), s1), &o = w.addMember("Oscar", s2);
  auto one = [&](Member &m, const std::vector<ZZ> &d) {
    unsigned threads = (unsigned) c.draw(9);
    if (c.coin()) reseedAmbient(c.u64());
    m.now = w.hold(m, d, threads, c.coin());
    PBT_NOTE(c, quoted(m.id) << " secret " << m.secret << " threads " << threads << " blinds " << brief(d));
  };
  PBT_NOTE(c, P);
  // two data sets of very different size under one secret
  std::vector<ZZ> d1 = elements(c, P, pool, cells), d2 = elements(c, P, pool, c.coin() ? 1 : cells), d3 = c.coin() ? d1 : elements(c, P, pool, cells);
  one(a, d1);
  one(b, d2);
  one(o, d3);
  std::vector<ZZ> x;
  Matrix ma = masks(c, w, *a.now, "the first client", x), mb = masks(c, w, *b.now, "the second client with this secret", x),
         mo = masks(c, w, *o.now, "the client with another secret", x);
  for (size_t j = 0; j < P.length; j++)
    for (size_t i = 0; i < P.degree; i++)
      PBT_CHECK(ma[j][i] == mb[j][i], "the mask of cell (" << j << ", " << i << ") depends on more than the secret: " << ma[j][i] << " and " << mb[j][i]);
  std::map<std::string, std::pair<size_t, size_t>> seen;
  for (size_t j = 0; j < P.length; j++)
    for (size_t i = 0; i < P.degree; i++) {
      auto r = seen.insert({ref::decimal(ma[j][i]), {j, i}});
      PBT_CHECK(r.second, "the mask " << ma[j][i] << " of cell (" << j << ", " << i << ") is also that of (" << r.first->second.first << ", " << r.first->second.second << ")");
    }
  if ((s1 - s2) % P.p != 0) {
    for (size_t j = 0; j < P.length; j++)
      for (size_t i = 0; i < P.degree; i++) {
        auto it = seen.find(ref::decimal(mo[j][i]));
        PBT_CHECK(it == seen.end(), "the mask of cell (" << j << ", " << i << ") under secret " << s2 << " is that of (" << it->second.first << ", " << it->second.second
                                                         << ") under secret " << s1);
      }
    c.label("two secrets compared");
  }
  // spread over the field: every low bit takes both values, every quarter is met
  if (P.length * P.degree >= 200 && !large) {
    size_t q[4] = {0, 0, 0, 0};
    for (long bit = 0; bit < (long) P.field - 2; bit++) {
      size_t ones = 0;
      for (auto &row : ma)
        for (auto &v : row) ones += NTL::bit(v, bit);
      PBT_CHECK(ones != 0 && ones != P.length * P.degree, "bit " << bit << " is the same in all " << P.length * P.degree << " masks");
    }
    for (auto &row : ma)
      for (auto &v : row) q[NTL::conv<long>(v * 4 / P.p)]++;
    for (int k = 0; k < 4; k++) PBT_CHECK(q[k] > 0, "no mask of " << P.length * P.degree << " lies in quarter " << k << " of the field");
    c.label("spread tested");
  }
  c.count("cells", 3 * P.length * P.degree);
  if (d1 != d2 && P.length * P.degree > 3) c.nontrivial();
}

static void blinding(Ctx &c) { blindingOf(c, false); }
static void large(Ctx &c) { blindingOf(c, true); }

const Property pbt::property = {
    "C04",
    "Per case three clients with one table shape (1-30 buckets of 1-8 cells, degree 2*height+1..+5, prime fields of 64-210 bits; in the large cases more than 65536 values or 128 cells per bucket): two with one secret but different data "
    "sets (one cell up to a full table), names, thread counts, ways to give the secret and ambient randomness, and one with another secret (random, or next to the first).  "
    "Masks are recovered as blinded value minus the independently computed product over the bucket's contents; the first two clients' must be equal, all of them distinct "
    "between positions, disjoint from those of the other secret, and spread over the field.  Non-trivial: different data sets and more than 3 cells.",
    {{"blinding", blinding, 6000, 200000, 60}, {"large", large, 16, 300, 240}}};
