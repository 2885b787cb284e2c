// C05: cloud and responder apply one and the same keyed transformation.
#include "proto.hpp"

using namespace proto;

// A cloud whose clients are stand-ins that only collect what they are sent.
struct Oracle {
  Params P;
  Server cloud;
  HashAlgorithm<ZZ_p> *hash;
  HashBuckets<ZZ_p> table;
  Client a, b;
  Matrix got;
  size_t answers = 0;
  std::vector<std::pair<vec_ZZ_p *, EOPSIMessage *>> kept;

  Oracle(const Params &P, const std::string &ida, const std::string &idb, const std::string &idc)
      : P(P), cloud(P.p, P.length, P.height, P.degree, idc), hash(P.newHash()), table(P.length, P.height, hash),
        a(table, P.p, P.length, P.height, P.degree, ida, ZZ(1)), b(table, P.p, P.length, P.height, P.degree, idb, ZZ(2)) {
    for (Client *x : {&a, &b}) {
      cloud.authenticate(*x);
      x->authenticate(cloud);
    }
    b.hook = [this](EOPSIMessage *m) {
      PBT_CHECK(m->getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION, "the cloud sent its partner a message of type " << m->getType());
      vec_ZZ_p *t = (vec_ZZ_p *) m->getData();
      got = copyMatrix(t, this->P.length, this->P.degree);
      delete[] t;
      answers++;
      return false;
    };
    a.hook = [](EOPSIMessage *) -> bool { PBT_FAIL("the cloud answered the client that asked instead of the partner"); };
  }
  ~Oracle() {
    for (auto &k : kept) { delete[] k.first; delete k.second; }
    delete hash;
  }
  bool again = false;  // use the memory of the message before
  void store(Client &x, const Matrix &m) {
    if (again) {  // what this client sent before, written anew
      for (auto i = kept.rbegin(); i != kept.rend(); i++)
        if (i->second->getPartyId() == x.getId()) {
          for (size_t j = 0; j < P.length; j++)
            for (size_t k = 0; k < P.degree; k++) conv(i->first[j][(long) k], m[j][k]);
          x.send(cloud, i->second);
          return;
        }
    }
    vec_ZZ_p *d = newMatrix(m);
    EOPSIMessage *msg = new EOPSIMessage(d, P.length * P.degree, EOPSI_MESSAGE_OUTSOURCING_DATA);
    msg->setPartyId(x.getId());
    x.send(cloud, msg);
    kept.push_back({d, msg});
  }
  Matrix ask(const std::string &key) {
    std::string t = a.getId() + std::string(1, '\0') + b.getId() + std::string(1, '\0') + key + std::string(1, '\0');
    unsigned char *d = new unsigned char[t.size()];  // the cloud releases it
    memcpy(d, t.data(), t.size());
    EOPSIMessage msg(d, t.size(), EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST);
    msg.setPartyId(a.getId());
    size_t before = answers;
    a.send(cloud, &msg);
    PBT_CHECK(answers == before + 1, "a computation request made " << answers - before << " answers");
    return got;
  }
  Matrix ask(const std::string &key, const Matrix &ma, const Matrix &mb) {
    store(a, ma);
    store(b, mb);
    return ask(key);
  }
};

static ZZ mod(const ZZ &v, const ZZ &p) { ZZ r = v % p; return r < 0 ? r + p : r; }
static Matrix filled(const Params &P, const ZZ &v) { return Matrix(P.length, std::vector<ZZ>(P.degree, v)); }
static Matrix matrix(Ctx &c, const Params &P) {
  Matrix m = filled(P, ZZ(0));
  if (P.length * P.degree > 400 || c.weighted({2, 1}) == 0) {
    uint64_t s = c.u64();
    for (auto &row : m)
      for (auto &v : row) {
        for (size_t b = 0; b < P.field + 16; b += 60) v = (v << 60) + ZZ((long) (splitmix(s) >> 4));
        v %= P.p;
      }
  } else {
    for (auto &row : m)
      for (auto &v : row) v = gen::below(c, P.p);
  }
  return m;
}
static std::string key128(Ctx &c) {
  std::string k(16, '\0');
  switch (c.weighted({4, 2, 1, 1})) {
    case 0: k = c.bytes(16); break;
    case 1: k = c.bytes(c.range(0, 15)); k.resize(16, '\0'); break;  // high bytes zero
    case 2: k = std::string(16, '\xff'); break;
    default: k[c.draw(16)] = (char) c.draw(256);
  }
  return k;
}

struct Keyed {
  Matrix a, wa, wb;  // masks and the evaluations of both clients' polynomials
};

// Lagrange interpolation over the points, checking monic of the given degree
static std::vector<ZZ> polynomial(const std::vector<ZZ> &x, const std::vector<ZZ> &y, size_t degree, const ZZ &p) {
  // Newton form on the first degree+1 points, then the other points must agree
  size_t n = degree + 1;
  std::vector<ZZ> d(y.begin(), y.begin() + (long) n);
  for (size_t k = 1; k < n; k++) {
    // the inverses of all differences by one inversion
    std::vector<ZZ> upTo(1, ZZ(1));
    for (size_t i = k; i < n; i++) upTo.push_back(mod(upTo.back() * (x[i] - x[i - k]), p));
    ZZ inv;
    NTL::InvMod(inv, upTo.back(), p);
    for (size_t i = n; i-- > k;) {
      d[i] = mod((d[i] - d[i - 1]) * mod(inv * upTo[i - k], p), p);
      inv = mod(inv * (x[i] - x[i - k]), p);
    }
  }
  std::vector<ZZ> f(1, d[n - 1]);
  for (size_t k = n - 1; k-- > 0;) {
    f = ref::mulPoly(f, {mod(-x[k], p), ZZ(1)}, p);
    f[0] = mod(f[0] + d[k], p);
  }
  for (size_t i = n; i < x.size(); i++)
    if (ref::evalPoly(f, x[i], p) != y[i]) return {};
  return f;
}

static Keyed learn(Oracle &o, const std::string &key, const std::vector<ZZ> &x) {
  Keyed k;
  const ZZ &p = o.P.p;
  k.a = o.ask(key, filled(o.P, ZZ(0)), filled(o.P, ZZ(0)));
  k.wa = o.ask(key, filled(o.P, ZZ(1)), filled(o.P, ZZ(0)));
  k.wb = o.ask(key, filled(o.P, ZZ(0)), filled(o.P, ZZ(1)));
  for (size_t j = 0; j < o.P.length; j++)
    for (size_t i = 0; i < o.P.degree; i++) {
      k.wa[j][i] = mod(k.wa[j][i] - k.a[j][i], p);
      k.wb[j][i] = mod(k.wb[j][i] - k.a[j][i], p);
    }
  return k;
}

static void values(const Params &P, const Keyed &k, const std::vector<ZZ> &x, const std::string &key, std::map<std::string, std::string> &seen) {
  auto once = [&](const ZZ &v, const std::string &what) {
    auto r = seen.insert({ref::decimal(v), what});
    PBT_CHECK(r.second, "the key-derived value " << v << " is used twice: " << r.first->second << " and " << what);
  };
  std::string of = " of key " + hex(key);
  for (size_t j = 0; j < P.length; j++) {
    for (size_t i = 0; i < P.degree; i++) once(k.a[j][i], "mask (" + std::to_string(j) + ", " + std::to_string(i) + ")" + of);
    for (int s = 0; s < 2; s++) {
      auto f = polynomial(x, s == 0 ? k.wa[j] : k.wb[j], P.height, P.p);
      std::string what = std::string("polynomial ") + std::to_string(j) + " of the " + (s == 0 ? "first" : "second") + " client" + of;
      PBT_CHECK(!f.empty(), what << " is not of degree " << P.height);
      PBT_CHECK(f.size() == P.height + 1 && f[P.height] == 1, what << " is not monic of degree " << P.height);
      for (size_t i = 0; i < P.height; i++) once(f[i], "coefficient " + std::to_string(i) + " of " + what);
    }
  }
}

static void compare(const Params &P, const Matrix &got, const Keyed &k, const Matrix &ma, const Matrix &mb, const std::string &what) {
  for (size_t j = 0; j < P.length; j++)
    for (size_t i = 0; i < P.degree; i++) {
      ZZ want = mod(k.a[j][i] + ma[j][i] * k.wa[j][i] + mb[j][i] * k.wb[j][i], P.p);
      PBT_CHECK(got[j][i] == want, what << ", cell (" << j << ", " << i << "), is " << got[j][i] << " instead of " << want);
    }
}

static void checkPoints(const Params &P, const std::vector<ZZ> &x) {
  PBT_CHECK(x.size() == P.degree, x.size() << " evaluation points instead of " << P.degree);
  PBT_CHECK(asSet(x).size() == x.size(), "an evaluation point is used twice");
}

static std::vector<std::string> threeNames(Ctx &c) {
  std::vector<std::string> ids;
  for (int i = 0; i < 3; i++) ids.push_back(name(c, ids));
  return ids;
}

// A few buckets of very many cells, or with very many points
static Params tallParams(Ctx &c) {
  Params P;
  P.bits = c.range(12, 20);
  P.field = 64 + c.draw(3);
  P.p = gen::prime(c, P.field);
  ZZ_p::init(P.p);
  P.length = c.range(1, 2);
  P.height = c.coin() ? c.range(257, 600) : c.range(1, 6);
  P.degree = P.height > 6 ? 2 * P.height + 1 + c.draw(2) : c.range(514, 2200);
  P.alg = (int) c.draw(3);
  c.label(P.height > 6 ? "more than 256 cells in a bucket" : "more than 512 points");
  return P;
}

enum Size { USUAL, LARGE, TALL };

static void cloudOf(Ctx &c, Size size) {
  bool large = size != USUAL;
  reseedAmbient(c.u64());
  Params P = size == TALL ? tallParams(c) : large ? largeParams(c) : params(c, 8, 6, 60);
  auto ids = threeNames(c);
  Oracle o(P, ids[0], ids[1], ids[2]);
  std::string key = key128(c);
  PBT_NOTE(c, P << ", key " << hex(key));
  // some history before
  size_t before = large ? 0 : c.draw(3);
  if (!large && P.length * P.degree <= 30 && c.chance(1, 20)) before = c.range(20, 300);
  for (size_t i = 0; i < before; i++) o.ask(key128(c), matrix(c, P), matrix(c, P));
  // the points must not be asked for before the first computation: the cloud makes them by itself
  o.ask(key, filled(P, ZZ(0)), filled(P, ZZ(0)));
  std::vector<ZZ> x = o.cloud.points();
  checkPoints(P, x);
  Keyed k = learn(o, key, x);
  std::map<std::string, std::string> seen;
  values(P, k, x, key, seen);
  size_t rounds = large ? 1 : c.range(1, 3);
  for (size_t r = 0; r < rounds; r++) {
    Matrix ma = matrix(c, P), mb = c.chance(1, 8) ? ma : matrix(c, P);
    o.again = c.coin();
    Matrix t = o.ask(key, ma, mb);
    compare(P, t, k, ma, mb, "the cloud's output");
    if (c.coin()) o.ask(key128(c));
    if (c.coin()) PBT_CHECK(o.ask(key) == t, "the same request on the same data gave another output");
    c.count("outputs compared");
  }
  // another key: everything differs
  std::string key2 = key;
  switch (c.draw(3)) {
    case 0: key2[c.draw(16)] ^= (char) (1 << c.draw(8)); break;
    case 1: key2 = key.substr(1) + key[0]; break;
    default: key2 = key128(c);
  }
  if (key2 != key && !large) {
    Keyed k2 = learn(o, key2, x);
    values(P, k2, x, key2, seen);
    c.label("two keys compared");
  }
  // another cloud with another name and history applies the same transformation
  Oracle o2(P, ids[1] + "1", ids[0] + "2", ids[2] + "3");
  Matrix ma = matrix(c, P), mb = matrix(c, P);
  compare(P, o2.ask(key, ma, mb), k, ma, mb, "another cloud's output");
  PBT_CHECK(o2.cloud.points() == x, "two clouds use different evaluation points");
  if (P.length > 1 || P.height > 1) c.nontrivial();
  c.label(before > 255 ? "after more than 255 computations" : before ? "with earlier computations" : "first computation of the cloud");
}

static void cloud(Ctx &c) { cloudOf(c, USUAL); }
static void large(Ctx &c) { cloudOf(c, LARGE); }
static void tall(Ctx &c) { cloudOf(c, TALL); }

static void responder(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.P = params(c, 6, 5, 60);
  const Params &P = w.P;
  auto ids = threeNames(c);
  w.makeCloud(ids[2]);
  Member &a = w.addMember(ids[0], secret(c)), &b = w.addMember(ids[1], secret(c));
  std::vector<ZZ> pool;
  size_t cells = P.length * P.height;
  auto da = elements(c, P, pool, cells), db = elements(c, P, pool, cells);
  PBT_NOTE(c, P << "\nrequester secret " << a.secret << " elements " << brief(da) << "\nresponder secret " << b.secret << " elements " << brief(db));
  w.outsource(a, da);
  w.outsource(b, db);
  size_t runs = c.range(1, 2);
  for (size_t r = 0; r < runs; r++) w.request(a, b);
  const Seen *req = w.wire.last(EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, ids[2]), *t = w.wire.last(EOPSI_MESSAGE_OUTPUT_COMPUTATION, ids[0]),
             *q = w.wire.last(EOPSI_MESSAGE_POLYNOMIAL, ids[0]);
  PBT_CHECK(req && t && q, "a run without request, output or share");
  size_t at = ids[1].size() + 1 + ids[0].size() + 1;
  PBT_CHECK(req->text.size() >= at + 16, "the request has no room for a key");
  std::string key = req->text.substr(at, 16);
  std::vector<ZZ> x = w.cloud->points();
  checkPoints(P, x);
  PBT_CHECK(a.now->client->points() == x && b.now->client->points() == x, "the parties use different evaluation points");
  Oracle o(P, ids[1], ids[0], ids[2]);
  Keyed k = learn(o, key, x);
  // masks and polynomials of both clients from their tables
  auto split = [&](Member &m, Matrix &poly, Matrix &mask) {
    Matrix blind = copyMatrix(m.now->client->getBlindedData(), P.length, P.degree);
    poly = mask = blind;
    for (size_t j = 0; j < P.length; j++) {
      std::vector<ZZ> roots;
      for (auto &e : m.now->buckets->getBucket(j)) roots.push_back(rep(e));
      for (size_t i = 0; i < P.degree; i++) {
        poly[j][i] = ref::evalRoots(roots, x[i], P.p);
        mask[j][i] = mod(blind[j][i] - poly[j][i], P.p);
      }
    }
  };
  Matrix pa, ma, pb, mb;
  split(a, pa, ma);
  split(b, pb, mb);
  // the responder is the first client of the request, the requester the second
  compare(P, q->cells, k, mb, ma, "the responder's share");
  for (size_t j = 0; j < P.length; j++)
    for (size_t i = 0; i < P.degree; i++) {
      ZZ want = mod(pb[j][i] * k.wa[j][i] + pa[j][i] * k.wb[j][i], P.p), got = mod(t->cells[j][i] - q->cells[j][i], P.p);
      PBT_CHECK(got == want, "the difference of the shares at (" << j << ", " << i << ") is " << got << " instead of the combination " << want);
    }
  c.count("shares compared");
  c.label(runs > 1 ? "second run" : "first run");
  c.nontrivial();
}

const Property pbt::property = {
    "C05",
    "cloud: arbitrary matrices of field elements are outsourced under two names and requested with chosen 128-bit keys (random, high bytes zero, all ones, single bytes), after "
    "0-2 (on small tables sometimes up to 300) earlier computations; storing zeros and ones recovers the key's masks and polynomials as a linear operator, which must be monic of degree exactly the bucket size with no "
    "value used twice (also not under a neighbouring key), predict the output for 1-3 further pairs of matrices cell by cell, and be the same on another cloud.  responder: complete "
    "runs; the share of the responder must be that operator applied to both clients' masks, and the difference of the shares the combination of both clients' polynomials.  "
    "1-8 buckets of 1-6 cells, degree 2*height+1..+5, prime fields of 64-170 (now and then up to 570) bits; large: more than 65536 values, or 130-260 cells per bucket; tall: 257-600 cells per bucket, or 514-2200 points.  Non-trivial: more than one bucket or cell (cloud), any (responder).",
    {{"cloud", cloud, 5000, 150000, 60}, {"responder", responder, 3000, 90000, 60}, {"large", large, 16, 300, 400}, {"tall", tall, 16, 300, 400}}};
