// C01: the delegated intersection equals the plain intersection.
#include "proto.hpp"

using namespace proto;

static void play(Ctx &c, World &w, Member &a, Member &b, const std::vector<ZZ> &da, const std::vector<ZZ> &db) {
  PBT_NOTE(c, w.P << "\nrequester " << quoted(a.id) << " secret " << a.secret << " elements " << brief(da) << "\nresponder " << quoted(b.id) << " secret "
                  << b.secret << " elements " << brief(db));
  unsigned threads = (unsigned) c.draw(5);
  w.outsource(b, db, threads, c.coin());
  w.outsource(a, da, (unsigned) c.draw(5), c.coin());
  w.request(a, b);
  auto want = meet(da, db);
  w.checkResult(a, b, "the requester's intersection");
  PBT_CHECK(b.now->client->getIntersection().length() == 0, "the responder got a result it did not ask for");
  // the client still knows the set it was given
  for (Member *m : {&a, &b}) {
    const auto &d = m == &a ? da : db;
    PBT_CHECK(m->now->client->getRawData() == m->now->raw && m->now->client->getRawDataSize() == d.size(), "the raw data of " << quoted(m->id) << " changed");
    for (size_t i = 0; i < d.size(); i++) PBT_CHECK(m->now->raw[i] == d[i], "raw element " << i << " of " << quoted(m->id) << " changed");
  }
  c.count("elements", da.size() + db.size());
  c.count("common elements", want.size());
  c.label(want.empty() ? "empty intersection" : want.size() == 1 ? "one common element" : "several common elements");
  if (asSet(da) == asSet(db)) c.label("equal sets");
  else if (want.size() == asSet(da).size() || want.size() == asSet(db).size()) c.label("a subset of the other");
  if (!want.empty() && want.size() < asSet(da).size() + asSet(db).size() - want.size()) c.nontrivial();
}

static void names(Ctx &c, World &w, std::vector<std::string> &ids, size_t n) {
  for (size_t i = 0; i < n; i++) ids.push_back(name(c, ids));
}

static void pairs(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  w.P = params(c, 12, 8);
  w.shareHash = c.chance(1, 3);
  if (w.shareHash) c.label("one hash object for all");
  std::vector<std::string> ids;
  names(c, w, ids, 3);
  w.makeCloud(ids[2]);
  Member &a = w.addMember(ids[0], secret(c)), &b = w.addMember(ids[1], c.chance(1, 10) ? a.secret : secret(c));
  std::vector<ZZ> pool;
  size_t cells = w.P.length * w.P.height;
  auto da = elements(c, w.P, pool, cells);
  auto db = c.chance(1, 12) ? da : elements(c, w.P, pool, cells);
  c.label(w.P.alg == 0 ? "Murmur" : w.P.alg == 1 ? "SHA-1" : "SHA-256");
  if (a.secret == 0 || b.secret == 0) c.label("a zero secret");
  if (a.secret >= w.P.p || b.secret >= w.P.p) c.label("a secret beyond the field");
  play(c, w, a, b, da, db);
}

// Sets from one draw, for tables too large to be drawn element by element
static std::vector<ZZ> bulk(const Params &P, uint64_t seed, const std::vector<ZZ> &other, unsigned commonPercent, size_t want) {
  std::vector<ZZ> r;
  Room room(P);
  for (size_t k = 0; r.size() < want && k < 40 * want + 1000; k++) {
    ZZ v(0);
    if (!other.empty() && splitmix(seed) % 100 < commonPercent) v = other[splitmix(seed) % other.size()];
    else {
      for (size_t b = 0; b < P.bits; b += 60) v = (v << 60) + ZZ((long) (splitmix(seed) >> 4));
      v %= ref::pow2(P.bits);
    }
    if (room.put(v)) r.push_back(v);
  }
  return r;
}

static void large(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  Params &P = w.P;
  P.bits = c.range(12, 64);
  P.field = P.bits + 45 < 64 ? 64 : P.bits + 45;
  P.p = gen::prime(c, P.field);
  ZZ_p::init(P.p);
  switch (c.draw(4)) {
    case 0:  // many buckets
      P.length = c.range(257, 700);
      P.height = c.range(1, 2);
      P.degree = 2 * P.height + 1 + c.draw(3);
      c.label("more than 256 buckets");
      break;
    case 1:  // high buckets
      P.length = c.range(1, 2);
      P.height = c.range(65, 140);
      P.degree = 2 * P.height + 1 + c.draw(3);
      c.label("more than 64 elements in a bucket");
      break;
    case 2:  // many evaluation points
      P.length = c.range(225, 280);
      P.height = 1;
      P.degree = c.range(280, 320);
      c.label("more than 256 evaluation points");
      if (P.length * P.degree > 65536) c.label("more than 65536 cells");
      break;
    default:
      P.length = c.range(20, 60);
      P.height = c.range(4, 14);
      P.degree = 2 * P.height + 1 + c.draw(3);
      c.label("hundreds of elements");
  }
  P.alg = (int) c.weighted({4, 1, 1});
  w.makeCloud("Cloud");
  Member &a = w.addMember("Alice", secret(c)), &b = w.addMember("Bob", secret(c));
  size_t cells = P.length * P.height;
  size_t na = c.chance(1, 3) ? cells : c.range(1, cells), nb = c.chance(1, 3) ? cells : c.range(1, cells);
  auto da = bulk(P, c.u64(), {}, 0, na);
  auto db = bulk(P, c.u64(), da, (unsigned) c.range(0, 100), nb);
  play(c, w, a, b, da, db);
}

const Property pbt::property = {
    "C01",
    "One complete run per case: 1-12 buckets of 1-8 cells (pairs) or 257-700 buckets, 65-140 cells per bucket, or more than 65536 stored values (large), prime "
    "fields of 64-270 (now and then up to 660) bits with at least 44 bits of padding, degree 2*height+1..+5 or far above, Murmur / SHA-1 / SHA-256 placement, elements of "
    "1-150 bits with edge values (zero, all ones, powers of two, repeats), tables up to completely full buckets, secrets of 0-2000 bits given as number "
    "or bytes, names empty, long, prefixes of each other, with high bytes.  The result is compared with the set intersection computed independently.  "
    "Non-trivial: the intersection is not empty and not the union.",
    {{"pairs", pairs, 5000, 150000, 60}, {"large", large, 60, 1500, 240}}};
