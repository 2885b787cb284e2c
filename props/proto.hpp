// A world of protocol parties with spies on every link, and the data they hold.
#pragma once
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"

#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include "eopsiclient.h"
#include "eopsiserver.h"
#include "murmurhash3.h"
#include "protocolex.h"
#include "shazzp.h"

namespace proto {
using namespace pbt;
using NTL::ZZ;
using NTL::ZZ_p;
using NTL::vec_ZZ_p;
typedef std::vector<std::vector<ZZ>> Matrix;

inline Matrix copyMatrix(const vec_ZZ_p *m, size_t rows, size_t cols) {
  Matrix r(rows, std::vector<ZZ>(cols));
  for (size_t j = 0; j < rows; j++) {
    PBT_CHECK((size_t) m[j].length() == cols, "row " << j << " of a matrix has " << m[j].length() << " cells instead of " << cols);
    for (size_t i = 0; i < cols; i++) r[j][i] = rep(m[j][i]);
  }
  return r;
}
inline vec_ZZ_p *newMatrix(const Matrix &m) {
  vec_ZZ_p *r = new vec_ZZ_p[m.size()];
  for (size_t j = 0; j < m.size(); j++) {
    r[j].SetLength((long) m[j].size());
    for (size_t i = 0; i < m[j].size(); i++) conv(r[j][(long) i], m[j][i]);
  }
  return r;
}

struct Params {
  ZZ p;
  size_t field = 0, bits = 0, length = 1, height = 1, degree = 3;
  int alg = 0;  // 0 murmur, 1 SHA-1, 2 SHA-256
  uint32_t algSeed = 0;
  size_t pad() const { return field - bits - 1; }
  HashAlgorithm<ZZ_p> *newHash() const {
    if (alg == 0) return new MurmurHash3(algSeed);
    return new SHAZZp(alg == 1 ? SHA1_FLAVOUR : SHA256_FLAVOUR);
  }
};

inline std::ostream &operator<<(std::ostream &o, const Params &P) {
  return o << "field " << P.p << " (" << P.field << " bits), elements of " << P.bits << " bits, " << P.length << " buckets of " << P.height
           << ", degree " << P.degree << ", hash " << (P.alg == 0 ? "Murmur seed " + std::to_string(P.algSeed) : P.alg == 1 ? "SHA-1" : "SHA-256");
}

// Something a party received.
struct Seen {
  EOPSIMessageType type;
  std::string from, to, text;  // text: the bytes of a request
  Matrix cells;                // a share
  size_t claimed = 0;          // length of the message
};

struct Wire {
  std::vector<Seen> log;
  bool copyCells = true;
  size_t count(EOPSIMessageType t) const {
    size_t n = 0;
    for (auto &s : log) n += s.type == t;
    return n;
  }
  const Seen *last(EOPSIMessageType t, const std::string &to) const {
    for (size_t i = log.size(); i-- > 0;)
      if (log[i].type == t && log[i].to == to) return &log[i];
    return nullptr;
  }
  void see(EOPSIMessage *m, const std::string &to, size_t rows, size_t cols) {
    Seen s;
    s.type = m->getType();
    s.from = m->getPartyId();
    s.to = to;
    s.claimed = m->length();
    if (m->getData() != nullptr) {
      switch (s.type) {
        case EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST:
        case EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST: s.text.assign((const char *) m->getData(), m->length()); break;
        case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
        case EOPSI_MESSAGE_POLYNOMIAL:
          if (copyCells) s.cells = copyMatrix((vec_ZZ_p *) m->getData(), rows, cols);
          break;
        default: break;
      }
    }
    log.push_back(s);
  }
};

// What the base class keeps for itself is not relied on by name, as far as that can be avoided
template <typename Base> class Spy : public Base {
  template <class S> static auto unknowns(S &s, size_t n, int) -> decltype(s.getUnknowns(n)) { return s.getUnknowns(n); }
  template <class S> static vec_ZZ_p unknowns(S &, size_t, long) { throw Discard(); }  // not there under this name

 public:
  // a client
  template <class... More>
  Spy(HashBuckets<ZZ_p> &t, const ZZ &p, size_t length, size_t height, size_t degree, const std::string &id, More... more)
      : Base(t, p, length, height, degree, id, more...), rows(length) {}
  // a cloud
  Spy(const ZZ &p, size_t length, size_t height, size_t degree, const std::string &id) : Base(p, length, height, degree, id), rows(length) {}
  size_t rows;
  Wire *wire = nullptr;
  // return false to keep the message from the party (after the hook took care of it)
  std::function<bool(EOPSIMessage *)> hook;
  void receive(EOPSIMessage *m) override {
    if (m != nullptr && wire != nullptr) wire->see(m, this->getId(), rows, this->getDegree());
    auto h = hook;  // the hook may replace itself
    if (m != nullptr && h && !h(m)) return;
    Base::receive(m);
  }
  void deliver(EOPSIMessage *m) { Base::receive(m); }
  std::vector<ZZ> points() {
    vec_ZZ_p u = unknowns(*this, this->getDegree(), 0);
    std::vector<ZZ> r;
    for (long i = 0; i < u.length(); i++) r.push_back(rep(u[i]));
    return r;
  }
};
typedef Spy<EOPSIClient> Client;
typedef Spy<EOPSIServer> Server;

// Outsourced data as a client and the cloud hold it.
struct Holding {
  HashBuckets<ZZ_p> *buckets = nullptr;
  std::shared_ptr<HashAlgorithm<ZZ_p>> hash;
  Client *client = nullptr;
  ZZ *raw = nullptr;
  EOPSIMessage *stored = nullptr;
  std::vector<ZZ> elements;
  ~Holding() {
    delete client;
    delete buckets;
    delete[] raw;
    delete stored;
  }
};

struct Member {
  std::string id;
  ZZ secret;
  std::unique_ptr<Holding> now;
  bool outsourced = false;
};

inline std::set<std::string> asSet(const std::vector<ZZ> &v) {
  std::set<std::string> s;
  for (auto &z : v) s.insert(ref::decimal(z));
  return s;
}
inline std::vector<std::string> asList(const NTL::vec_ZZ &v) {
  std::vector<std::string> r;
  for (long i = 0; i < v.length(); i++) r.push_back(ref::decimal(v[i]));
  std::sort(r.begin(), r.end());
  return r;
}
inline std::string show(const std::vector<std::string> &v) {
  std::string r = "{";
  for (size_t i = 0; i < v.size() && i < 40; i++) r += (i ? ", " : "") + v[i];
  return r + (v.size() > 40 ? ", ...}" : "}");
}
inline std::vector<std::string> meet(const std::vector<ZZ> &a, const std::vector<ZZ> &b) {
  auto x = asSet(a), y = asSet(b);
  std::vector<std::string> r;
  for (auto &s : x)
    if (y.count(s)) r.push_back(s);
  return r;
}
inline std::string brief(const std::vector<ZZ> &v) {
  std::vector<std::string> s;
  for (auto &z : v) s.push_back(ref::decimal(z));
  return std::to_string(v.size()) + " " + show(s);
}

// The capacity of the buckets, computed with a hash object of its own.
class Room {
 public:
  explicit Room(const Params &P) : P(P), alg(P.newHash()), used(P.length, 0) {}
  ~Room() { delete alg; }
  size_t bucket(const ZZ &v) const {
    ZZ_p e;
    conv(e, v << (long) P.pad());
    std::string d((const char *) alg->hash(e), alg->hashSize());
    return (size_t) NTL::conv<long>(ref::fromLE(d) % ZZ((long) P.length));
  }
  bool put(const ZZ &v) {
    size_t b = bucket(v);
    if (used[b] >= P.height) return false;
    used[b]++;
    total++;
    return true;
  }
  bool full() const { return total == P.length * P.height; }
  size_t fullBuckets() const { return std::count(used.begin(), used.end(), P.height); }
  size_t emptyBuckets() const { return std::count(used.begin(), used.end(), (size_t) 0); }
  size_t total = 0;

 private:
  const Params &P;
  HashAlgorithm<ZZ_p> *alg;
  std::vector<size_t> used;
};

inline Params params(Ctx &c, size_t maxLength, size_t maxHeight, size_t maxBits = 150) {
  Params P;
  P.bits = c.weighted({3, 1}) == 0 ? c.skewed(1, maxBits) : c.range(1, 8);
  size_t lo = P.bits + 45 < 64 ? 64 : P.bits + 45;
  P.field = lo + (c.weighted({1, 2}) == 0 ? 0 : c.skewed(0, 60));
  if (c.chance(1, 25)) {  // a wide field, with a padding about a round number of bits
    static const size_t round[] = {128, 192, 256, 256, 256, 384, 512};
    P.field = P.bits + 1 + round[c.draw(7)] + (c.coin() ? 0 : c.draw(3) - 1);
    c.label("a padding of 127 or more bits");
  }
  P.p = gen::prime(c, P.field);
  ZZ_p::init(P.p);
  P.length = c.skewed(1, maxLength);
  P.height = c.skewed(1, maxHeight);
  P.degree = 2 * P.height + 1 + (c.weighted({3, 1}) == 0 ? 0 : c.range(0, 5));
  P.alg = (int) c.weighted({4, 1, 1});
  if (P.alg == 0) P.algSeed = (uint32_t) gen::edge(c, 32);
  return P;
}

// More than 65536 stored values, or a dimension beyond 256
inline Params largeParams(Ctx &c) {
  Params P;
  P.bits = c.range(12, 20);
  P.field = 64 + c.draw(3);
  P.p = gen::prime(c, P.field);
  ZZ_p::init(P.p);
  switch (c.draw(3)) {
    case 0: P.height = c.range(1, 2); P.degree = 2 * P.height + 1 + c.draw(2); P.length = 65600 / P.degree + c.range(1, 300); break;
    case 1: P.height = c.range(4, 12); P.degree = c.range(260, 300); P.length = c.range(255, 280); break;
    default: P.height = c.range(130, 260); P.degree = 2 * P.height + 1 + c.draw(2); P.length = c.range(1, 4); break;
  }
  P.alg = (int) c.weighted({4, 1, 1});
  c.label(P.length * P.degree > 65536 ? "more than 65536 cells" : "more than 128 cells in a bucket");
  return P;
}

// Elements of at most bits bits
inline ZZ element(Ctx &c, size_t bits) { return gen::natural(c, bits); }

// A list of elements that fits the table; pool holds elements used before.
inline std::vector<ZZ> elements(Ctx &c, const Params &P, std::vector<ZZ> &pool, size_t maxN) {
  std::vector<ZZ> r;
  Room room(P);
  size_t cells = P.length * P.height;
  if (maxN > cells) maxN = cells;
  bool brim = c.chance(1, 4) && cells <= maxN;
  size_t want = brim ? cells : c.range(1, maxN);
  unsigned common = (unsigned) c.draw(4);  // how eagerly earlier elements are taken again
  for (size_t tries = 0; r.size() < want && tries < want * (brim ? 6 : 3) + 4; tries++) {
    ZZ v;
    if (!pool.empty() && c.draw(4) < common) v = pool[c.draw(pool.size())];
    else if (!r.empty() && c.chance(1, 12)) v = r[c.draw(r.size())];  // repeated in the set
    else v = element(c, P.bits);
    if (room.put(v)) r.push_back(v);
  }
  if (brim)  // complete it without spending choices
    for (uint64_t s = c.u64(), k = 0; !room.full() && k < 400 * cells; k++) {
      ZZ v(0);
      for (size_t b = 0; b < P.bits; b += 60) v = (v << 60) + ZZ((long) (splitmix(s) >> 4));
      v %= ref::pow2(P.bits);
      if (room.put(v)) r.push_back(v);
    }
  if (r.empty()) {
    ZZ v = element(c, P.bits);
    r.push_back(v);
  }
  if (room.full()) c.label("a completely full table");
  if (room.fullBuckets()) c.label("a full bucket");
  if (room.emptyBuckets()) c.label("an empty bucket");
  if (asSet(r).size() < r.size()) c.label("repeated elements in a set");
  for (auto &v : r) {
    pool.push_back(v);
    if (NTL::IsZero(v)) c.label("the element zero");
  }
  return r;
}

inline std::string name(Ctx &c, const std::vector<std::string> &taken) {
  std::string s;
  switch (c.weighted({4, 2, 1, 1, 1})) {
    case 0: s = std::string("P") + (char) ('a' + c.draw(26)); break;
    case 1: {  // a variation of another name
      if (taken.empty()) { s = "A"; break; }
      s = taken[c.draw(taken.size())];
      switch (c.draw(3)) {
        case 0: s += (char) (1 + c.draw(255)); break;
        case 1: if (!s.empty()) s.pop_back(); break;
        default: s = (char) (1 + c.draw(255)) + s; break;
      }
      break;
    }
    case 2: s = std::string(c.range(1, 400), (char) (1 + c.draw(255))); break;
    case 3: break;  // the default: an empty name
    default: {
      size_t n = c.range(1, 12);
      for (size_t i = 0; i < n; i++) s += (char) (1 + c.draw(255));
    }
  }
  while (std::find(taken.begin(), taken.end(), s) != taken.end()) s += "x";
  return s;
}

inline ZZ secret(Ctx &c) {
  switch (c.weighted({30, 20, 10, 1, 9})) {
    case 0: return gen::natural(c, 128);
    case 1: return gen::natural(c, 24);
    case 2: return gen::natural(c, 2000);
    case 3: return gen::natural(c, 20000);
    default: return ref::fromLE(c.bytes(c.range(0, 40)));
  }
}

class World {
 public:
  Params P;
  Wire wire;
  std::unique_ptr<Server> cloud;
  std::vector<std::unique_ptr<Member>> members;
  ZZ bornField;           // clients are built with these, if set, and given P's afterwards
  size_t bornDegree = 0;
  bool shareHash = false;  // one algorithm object for all clients' tables
  std::shared_ptr<HashAlgorithm<ZZ_p>> oneHash;

  void makeCloud(const std::string &id) {
    cloud.reset(new Server(P.p, P.length, P.height, P.degree, id));
    cloud->wire = &wire;
  }
  Member &addMember(const std::string &id, const ZZ &secret) {
    members.emplace_back(new Member);
    members.back()->id = id;
    members.back()->secret = secret;
    return *members.back();
  }
  // A client with data, not yet known to anybody
  std::unique_ptr<Holding> hold(const Member &m, const std::vector<ZZ> &els, unsigned threads = 1, bool secretAsBytes = false) {
    std::unique_ptr<Holding> h(new Holding);
    if (shareHash && oneHash) h->hash = oneHash;
    else h->hash.reset(P.newHash());
    if (shareHash) oneHash = h->hash;
    h->buckets = new HashBuckets<ZZ_p>(P.length, P.height, h->hash.get());
    ZZ field = NTL::IsZero(bornField) ? P.p : bornField;
    size_t degree = bornDegree ? bornDegree : P.degree;
    if (secretAsBytes) {
      std::string b = ref::toLE(m.secret);
      h->client = new Client(*h->buckets, field, P.length, P.height, degree, m.id, (const byte *) b.data(), b.size());
    } else {
      h->client = new Client(*h->buckets, field, P.length, P.height, degree, m.id, m.secret);
    }
    if (field != P.p) h->client->setFieldsize(P.p);
    if (degree != P.degree) h->client->setDegree(P.degree);
    h->client->wire = &wire;
    h->elements = els;
    h->raw = new ZZ[els.size()];
    for (size_t i = 0; i < els.size(); i++) h->raw[i] = els[i];
    h->client->setRawData(h->raw, els.size(), P.bits, threads);
    return h;
  }
  void authenticateAll(Member &m) {
    cloud->authenticate(*m.now->client);
    m.now->client->authenticate(*cloud);
    for (auto &o : members)
      if (o->now && o.get() != &m) {
        o->now->client->authenticate(*m.now->client);
        m.now->client->authenticate(*o->now->client);
      }
  }
  void store(Member &m) {
    EOPSIMessage *old = m.now->stored;
    EOPSIMessage *s = new EOPSIMessage;
    s->setType(EOPSI_MESSAGE_OUTSOURCING_DATA);
    s->setPartyId(m.id);
    s->setData(m.now->client->getBlindedData(), m.now->client->getBlindedDataSize());
    m.now->client->send(*cloud, s);
    m.now->stored = s;
    m.outsourced = true;
    delete old;
  }
  // (Re-)outsource: a client of that name with new data replaces the old one.
  void outsource(Member &m, const std::vector<ZZ> &els, unsigned threads = 1, bool secretAsBytes = false) {
    std::unique_ptr<Holding> old = std::move(m.now);
    m.now = hold(m, els, threads, secretAsBytes);
    authenticateAll(m);
    store(m);
  }
  // The request of m to o, as the simulation program words it
  static std::string requestText(const std::string &id, const ZZ &secret) {
    return id + std::string(1, '\0') + ref::toLE(secret) + std::string(1, '\0');
  }
  void request(Member &from, Member &to) {
    std::string t = requestText(from.id, from.secret);
    std::vector<unsigned char> data(t.begin(), t.end());
    data.shrink_to_fit();
    EOPSIMessage msg;
    msg.setType(EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST);
    msg.setPartyId(from.id);
    msg.setData(data.data(), data.size());
    from.now->client->send(*to.now->client, &msg);
  }
  void checkResult(const Member &a, const Member &b, const std::string &what) {
    checkList(a, meet(a.now->elements, b.now->elements), what);
  }
  void checkList(const Member &a, const std::vector<std::string> &sortedWant, const std::string &what) {
    std::vector<std::string> want = sortedWant, got = asList(a.now->client->getIntersection());
    std::sort(want.begin(), want.end());
    if (want == got) return;
    std::vector<std::string> missing, extra;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(missing));
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
    PBT_FAIL(what << ": expected " << want.size() << " common elements " << show(want) << ", got " << got.size() << "; missing " << show(missing)
                  << ", unexpected or repeated " << show(extra));
  }
};

inline std::string quoted(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (r.size() > 60) { r += "..."; break; }
    if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; } else r += (char) ch;
  }
  return r + "\"";
}
}  // namespace proto
