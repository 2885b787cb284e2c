// C26: what is handed over stays as it was, and so does what has been handed back.
#include "proto.hpp"

#include "exception.h"
#include "outofboundex.h"
#include "shabyte.h"
#include "shastr.h"
#include "shazzp.h"
#include "strint.h"
#include "zzppoly.h"
#include "zzpprf.h"
#include "zzprf.h"

using namespace proto;
using NTL::vec_ZZ;

namespace {

HashFlavour flavour(bool b) { return b ? SHA256_FLAVOUR : SHA1_FLAVOUR; }

// Everything that must stay as it is, with what it was
struct Watch {
  struct Item {
    std::string what;
    const void *owner;  // who may change it when used; null: nobody
    std::function<std::string()> now;
    std::string was;
  };
  std::vector<Item> items;
  uint64_t looks = 0;
  void add(const std::string &what, const void *owner, std::function<std::string()> now) {
    std::string was = now();
    items.push_back({what, owner, std::move(now), was});
  }
  // The owner is used or destroyed: what it has handed back is no longer promised
  void used(const void *owner) {
    items.erase(std::remove_if(items.begin(), items.end(), [&](const Item &i) { return i.owner == owner; }), items.end());
  }
  void check(const std::string &after) {
    for (auto &i : items) {
      std::string n = i.now();
      looks++;
      PBT_CHECK(n == i.was, i.what << " changed from " << quoted(i.was) << " to " << quoted(n) << " by " << after);
    }
  }
};

std::string text(const ZZ_p &z) { return ref::decimal(rep(z)); }
std::string text(const ZZ &z) { return ref::decimal(z); }
template <typename V> std::string textVec(const V &v) {
  std::string r = std::to_string(v.length());
  for (long i = 0; i < v.length(); i++) r += " " + text(v[i]);
  return r;
}
template <typename T> std::string textArray(const T *v, size_t n) {
  std::string r;
  for (size_t i = 0; i < n; i++) r += text(v[i]) + " ";
  return r;
}
std::string textRows(const vec_ZZ_p *v, size_t n) {
  std::string r;
  for (size_t i = 0; i < n; i++) r += textVec(v[i]) + "\n";
  return r;
}
std::string textTable(HashBuckets<ZZ_p> &t) {
  std::ostringstream o;
  o << t.getLength() << " " << t.getMaxLoad() << " " << t.size();
  for (size_t i = 0; i < t.getLength(); i++) {
    auto b = t.getBucket(i);
    o << "\n" << b.isMarked();
    for (auto &z : b) o << " " << text(z);
  }
  return o.str();
}

struct Bytes {
  std::unique_ptr<byte[]> at;
  size_t n;
};
struct Points {
  vec_ZZ_p x;
  std::vector<vec_ZZ_p> y;
};

void objects(Ctx &c) {
  reseedAmbient(c.u64());
  ZZ p = gen::prime(c, c.skewed(8, 130));
  ZZ_p::init(p);
  PBT_NOTE(c, "field " << p);
  Watch w;
  // what is handed over
  std::vector<std::unique_ptr<Bytes>> arrays;
  std::vector<std::unique_ptr<std::string>> strings;
  std::vector<std::unique_ptr<std::vector<ZZ_p>>> lists;
  std::vector<std::unique_ptr<std::vector<ZZ>>> naturals;
  std::vector<std::unique_ptr<Points>> points;
  std::vector<std::unique_ptr<Bytes>> mine;  // handed back for good
  for (size_t i = c.range(1, 3); i > 0; i--) {
    std::string s = c.bytes(c.skewed(1, 120));
    if (c.coin())
      for (size_t k = c.draw(s.size() + 1); k-- > 0;) s[s.size() - 1 - k % s.size()] = 0;
    arrays.emplace_back(new Bytes{std::unique_ptr<byte[]>(new byte[s.size()]), s.size()});
    Bytes *b = arrays.back().get();
    memcpy(b->at.get(), s.data(), s.size());
    w.add("an array of bytes handed over", nullptr, [b] { return std::string((char *) b->at.get(), b->n); });
  }
  for (size_t i = c.range(1, 2); i > 0; i--) {
    strings.emplace_back(new std::string(c.bytes(c.skewed(0, 60))));
    std::string *s = strings.back().get();
    w.add("a string handed over", nullptr, [s] { return *s; });
  }
  for (size_t i = c.range(1, 2); i > 0; i--) {
    lists.emplace_back(new std::vector<ZZ_p>(c.range(1, 12)));
    auto *l = lists.back().get();
    for (auto &z : *l) conv(z, gen::below(c, p));
    w.add("a list of field elements handed over", nullptr, [l] { return std::to_string(l->size()) + ": " + textArray(l->data(), l->size()); });
    naturals.emplace_back(new std::vector<ZZ>(c.range(1, 8)));
    auto *m = naturals.back().get();
    for (auto &z : *m) z = gen::natural(c, c.skewed(1, 300));
    w.add("an array of naturals handed over", nullptr, [m] { return textArray(m->data(), m->size()); });
  }
  for (size_t i = c.range(1, 2); i > 0; i--) {
    points.emplace_back(new Points);
    Points *q = points.back().get();
    size_t n = std::min<size_t>(c.range(2, 7), (size_t) NTL::conv<long>(p > 100 ? ZZ(100) : p) - 1), m = c.range(1, 4);
    std::set<std::string> seen;
    while ((size_t) q->x.length() < n) {
      ZZ_p z;
      conv(z, gen::below(c, p));
      while (!seen.insert(text(z)).second) z += 1;
      q->x.append(z);
    }
    q->y.resize(m);
    for (auto &y : q->y) {
      // values of a polynomial with roots of its own, so that there is something to find
      std::vector<ZZ> roots;
      for (size_t k = c.range(1, n - 1); k > 0; k--) roots.push_back(gen::below(c, p) / 16 * 16);
      y.SetLength((long) n);
      for (size_t k = 0; k < n; k++) conv(y[(long) k], ref::evalRoots(roots, rep(q->x[(long) k]), p));
    }
    w.add("points handed over", nullptr, [q] { return textVec(q->x) + "\n" + textRows(q->y.data(), q->y.size()); });
  }
  // the objects
  std::vector<std::unique_ptr<HashAlgorithm<ZZ_p>>> zz;
  std::vector<std::unique_ptr<SHAString>> str;
  std::vector<std::unique_ptr<SHAByteArray>> arr;
  std::vector<std::unique_ptr<StrInt>> num;
  struct Tab {
    std::unique_ptr<HashBuckets<ZZ_p>> t;
    HashAlgorithm<ZZ_p> *alg;
    size_t room;
  };
  std::vector<std::unique_ptr<Tab>> tab;
  std::vector<std::unique_ptr<ZZpPolynomials>> pol;
  std::vector<std::unique_ptr<ZZPRF>> prf;
  std::vector<std::unique_ptr<EOPSIMessage>> msg;
  std::vector<std::unique_ptr<Exception>> exc;
  auto digest = [&](const void *owner, const char *whose, const byte *d, size_t n) {
    w.used(owner);
    if (d != nullptr) w.add(std::string("a digest of ") + whose, owner, [d, n] { return std::string((const char *) d, n); });
  };
  auto newZZ = [&] {
    if (c.coin()) zz.emplace_back(new MurmurHash3((uint32_t) gen::edge(c, 32)));
    else zz.emplace_back(new SHAZZp(flavour(c.coin())));
  };
  newZZ();
  size_t ops = c.range(4, 50), kinds = 0, last = 99;
  for (size_t k = 0; k < ops; k++) {
    std::ostringstream o;
    size_t kind = c.draw(13);
    auto &list = *lists[c.draw(lists.size())];
    Bytes &by = *arrays[c.draw(arrays.size())];
    switch (kind) {
      case 0: {
        if (zz.size() < 4 && c.chance(1, 3)) newZZ();
        auto &h = *zz[c.draw(zz.size())];
        size_t len = c.coin() ? 0 : c.range(1, 50);
        digest(&h, "a field element's hash algorithm", h.hash(list[c.draw(list.size())], len), h.hashSize());
        o << "hashing a field element";
        break;
      }
      case 1: {
        if (str.empty() || (str.size() < 3 && c.chance(1, 3))) str.emplace_back(new SHAString(flavour(c.coin())));
        auto &h = *str[c.draw(str.size())];
        std::string &s = *strings[c.draw(strings.size())];
        digest(&h, "a string's hash algorithm", h.hash(s, c.coin() ? 0 : c.range(1, 50)), h.hashSize());
        o << "hashing a string";
        break;
      }
      case 2: {
        if (arr.empty() || (arr.size() < 3 && c.chance(1, 3))) arr.emplace_back(new SHAByteArray(flavour(c.coin())));
        auto &h = *arr[c.draw(arr.size())];
        digest(&h, "a byte array's hash algorithm", h.hash(by.at.get(), c.range(0, by.n)), h.hashSize());
        o << "hashing bytes";
        break;
      }
      case 3: {
        size_t len = c.range(0, by.n);
        if (num.empty() || (num.size() < 3 && c.chance(1, 3))) {
          num.emplace_back(new StrInt(c.range(1, 80), by.at.get(), len == 0 ? 1 : len));
          o << "making a number of bytes";
        } else {
          auto &n = *num[c.draw(num.size())];
          switch (c.draw(4)) {
            case 0: n.set(by.at.get(), len); o << "setting a number from bytes"; break;
            case 1: n.set(gen::edge(c, 64)); n.inc(); o << "setting a number"; break;
            case 2: n.add(gen::edge(c, 64)); o << "adding to a number"; break;
            default: {
              std::string *s = new std::string(n.toString());
              strings.emplace_back(s);
              w.add("a decimal text handed back", nullptr, [s] { return *s; });
              (void) n.rem(1 + gen::edge(c, 32));
              o << "asking a number for its text";
            }
          }
        }
        break;
      }
      case 4: {
        if (num.empty()) num.emplace_back(new StrInt(c.range(1, 80), by.at.get(), by.n));
        auto &n = *num[c.draw(num.size())];
        size_t need = n.getByteSize(), cap = c.weighted({3, 1, 1}) == 0 ? need + c.draw(40) : c.draw(need + 3);
        std::unique_ptr<Bytes> b(new Bytes{std::unique_ptr<byte[]>(new byte[cap]), cap});
        std::string fill = c.bytes(cap);
        memcpy(b->at.get(), fill.data(), cap);
        size_t len = cap;
        bool none = c.chance(1, 5);
        byte *r = none ? n.toBytes(nullptr, c.coin() ? &len : nullptr) : n.toBytes(b->at.get(), &len);
        o << "writing a number of " << need << " bytes into " << (none ? 0 : cap);
        if (r == b->at.get()) {
          PBT_CHECK(cap >= need, "a number of " << need << " bytes was written into " << cap);
          PBT_CHECK(memcmp(r + need, fill.data() + need, cap - need) == 0, "a number of " << need << " bytes changed bytes behind it in a buffer of " << cap);
          if (cap > need) c.label("a buffer longer than the number");
        } else {
          PBT_CHECK(memcmp(b->at.get(), fill.data(), cap) == 0, "a buffer that was not used (" << cap << " bytes, " << need << " needed) was changed");
          b.reset(new Bytes{std::unique_ptr<byte[]>(r), need});
          c.label("memory handed back");
        }
        Bytes *q = b.get();
        mine.push_back(std::move(b));
        w.add("the bytes of a number handed back", nullptr, [q] { return std::string((char *) q->at.get(), q->n); });
        break;
      }
      case 5: {
        if (tab.empty() || (tab.size() < 3 && c.chance(1, 4))) {
          HashAlgorithm<ZZ_p> *a = zz[c.draw(zz.size())].get();
          size_t load = c.range(8, 40);
          tab.emplace_back(new Tab{std::unique_ptr<HashBuckets<ZZ_p>>(new HashBuckets<ZZ_p>(c.range(1, 9), load, a)), a, load});
          o << "making a table";
          break;
        }
        Tab &t = *tab[c.draw(tab.size())];
        if (c.chance(1, 6)) {
          t.alg = zz[c.draw(zz.size())].get();
          t.t->setHashAlgorithm(t.alg);
          o << "giving a table another algorithm";
        } else if (t.room >= list.size()) {
          w.used(t.alg);  // the table uses it
          w.used(t.t.get());
          switch (c.draw(3)) {
            case 0: t.t->HashTable<ZZ_p, MarkedVector<ZZ_p>>::add(list.data(), list.size()); t.room -= list.size(); o << "adding a list"; break;
            case 1: t.t->add(list[c.draw(list.size())]); t.room--; o << "adding an element"; break;
            default: t.t->addToBucket(list[c.draw(list.size())], c.draw(t.t->getLength())); t.room--; o << "adding to a bucket"; break;
          }
          HashBuckets<ZZ_p> *q = t.t.get();
          w.add("a table", q, [q] { return textTable(*q); });
        } else {
          w.used(t.t.get());
          ZZpPRF r(p);
          t.t->conceal(r);
          t.room = 0;
          o << "concealing a table";
          HashBuckets<ZZ_p> *q = t.t.get();
          w.add("a concealed table", q, [q] { return textTable(*q); });
          c.label("a concealed table");
        }
        break;
      }
      case 6:
      case 7: {
        if (pol.empty() || (pol.size() < 3 && c.chance(1, 3))) pol.emplace_back(new ZZpPolynomials(c.draw(6)));
        auto &q = *pol[c.draw(pol.size())];
        Points &pt = *points[c.draw(points.size())];
        PolynomialFactoringAlgorithm f = c.coin() ? PFA_BERLEKAMP : PFA_CANZASS;
        if (p == 2) f = PFA_CANZASS;
        size_t n = c.range(1, pt.y.size());
        vec_ZZ *r;
        w.used(&q);
        if (c.coin()) {
          r = &q.findIntersection(pt.x, pt.y.data(), n, f);
          o << "finding roots";
        } else {
          q.interpolate(pt.x, pt.y.data(), n);
          q.factorise(f);
          r = &q.findIntersection();
          o << "interpolating, factoring and finding roots";
        }
        if (r->length()) c.label("roots handed back");
        w.add("the roots handed back", &q, [r] { return textVec(*r); });
        break;
      }
      case 8: {
        if (prf.empty() || (prf.size() < 3 && c.chance(1, 3))) prf.emplace_back(new ZZPRF);
        auto &g = *prf[c.draw(prf.size())];
        auto &m = *naturals[c.draw(naturals.size())];
        if (c.coin()) {
          (void) g.generate(m[c.draw(m.size())], c.draw(100), c.range(1, 400));
          o << "generating a number";
        } else {
          ZZpPRF r(p, &g);
          (void) r.generate(list[c.draw(list.size())], c.draw(100), c.range(0, 200));
          o << "generating a field element";
        }
        break;
      }
      case 9: {
        auto &m = *naturals[c.draw(naturals.size())];
        switch (c.draw(7)) {
          case 0: {
            vec_ZZ_p v;
            NTL::vector2VecZZp(v, list);
            vec_ZZ_p u = NTL::vector2VecZZp(list);
            for (long i = 0; i < v.length(); i++) { v[i] += 1; u[i] += 2; }
            o << "converting a vector";
            break;
          }
          case 1: {
            vec_ZZ_p v;
            NTL::array2VecZZp(v, list.data(), list.size());
            vec_ZZ_p u = NTL::array2VecZZp(list.data(), list.size());
            for (long i = 0; i < v.length(); i++) { v[i] += 1; u[i] += 2; }
            o << "converting an array";
            break;
          }
          case 2: captureCout([&] { NTL::printZZArray(m.data(), m.size()); }); o << "printing an array"; break;
          case 3: (void) NTL::zeroPad(m[c.draw(m.size())], c.draw(100)); o << "padding"; break;
          case 4: (void) NTL::zeroPadTo(m[c.draw(m.size())], c.draw(400)); o << "padding to a size"; break;
          case 5: (void) NTL::log2(m[c.draw(m.size())]); (void) NTL::bytes(m[c.draw(m.size())]); o << "asking for a size"; break;
          default: (void) NTL::countLeadingZeros(m[c.draw(m.size())]); (void) NTL::bytes(list[c.draw(list.size())]); o << "counting zeros";
        }
        break;
      }
      case 10: {
        if (msg.empty() || (msg.size() < 3 && c.chance(1, 3))) msg.emplace_back(new EOPSIMessage);
        auto &m = *msg[c.draw(msg.size())];
        std::string &s = *strings[c.draw(strings.size())];
        switch (c.draw(3)) {
          case 0: m.setData(by.at.get(), by.n); o << "giving a message data"; break;
          case 1: m.setPartyId(s); o << "giving a message a name"; break;
          default: {
            size_t pos = c.draw(130);
            std::string *r = new std::string("untouched");
            bool ok = m.readString(pos, *r);
            strings.emplace_back(r);
            w.add(ok ? "a string read" : "a string not read", nullptr, [r] { return *r; });
            try {
              throw Exception(*r, false);
            } catch (Exception &e) {
              e.setMessage(s);
            }
            o << "reading a string";
          }
        }
        break;
      }
      case 11: {
        std::string &s = *strings[c.draw(strings.size())];
        if (exc.empty() || (exc.size() < 4 && c.chance(1, 2))) {
          switch (c.draw(3)) {
            case 0: exc.emplace_back(new Exception(s)); break;
            case 1: exc.emplace_back(new OutOfBoundException(s)); break;
            default: exc.emplace_back(new ProtocolException(s)); break;
          }
          o << "making an exception";
        } else {
          auto &e = *exc[c.draw(exc.size())];
          w.used(&e);
          switch (c.draw(3)) {
            case 0: e.setMessage(s); o << "giving an exception a message"; break;
            case 1: e.setExitCode((int) c.draw(200)); (void) e.getMessage(); o << "giving an exception a code"; break;
            default: {
              std::unique_ptr<Exception> copy(new Exception(e));
              copy->setMessage(s);
              (void) copy->what();
              o << "copying an exception";
            }
          }
        }
        const Exception *e = exc[c.draw(exc.size())].get();
        w.used(e);
        const char *what = e->what();
        size_t n = strlen(what);
        w.add("the reason of an exception", e, [what, n] { return std::string(what, n); });
        if (exc.size() > 1) c.label("reasons of several exceptions");
        break;
      }
      default: {  // an object goes
        auto drop = [&](auto &v, const char *what) {
          if (v.empty()) return;
          size_t i = c.draw(v.size());
          w.used(v[i].get());
          v.erase(v.begin() + (long) i);
          o << "the end of " << what;
        };
        switch (c.draw(7)) {
          case 0: drop(str, "a string's hash algorithm"); break;
          case 1: drop(arr, "a byte array's hash algorithm"); break;
          case 2: drop(num, "a number"); break;
          case 3:
            if (!tab.empty()) {
              size_t i = c.draw(tab.size());
              w.used(tab[i]->t.get());
              tab.erase(tab.begin() + (long) i);
              o << "the end of a table";
            }
            break;
          case 4: drop(pol, "a batch of polynomials"); break;
          case 5: drop(exc, "an exception"); break;
          default: drop(msg, "a message"); break;
        }
      }
    }
    PBT_NOTE(c, o.str());
    if (kind != last) kinds++;
    last = kind;
    w.check(o.str());
  }
  // everything handed over outlives the objects
  tab.clear(); pol.clear(); prf.clear(); msg.clear(); num.clear(); str.clear(); arr.clear(); exc.clear();
  for (auto &h : zz) w.used(h.get());
  w.items.erase(std::remove_if(w.items.begin(), w.items.end(), [](const Watch::Item &i) { return i.owner != nullptr; }), w.items.end());
  zz.clear();
  w.check("the end of all objects");
  c.count("comparisons", w.looks);
  if (kinds > 3) c.nontrivial();
}

// A cloud whose transformation can be called
struct Open : EOPSIServer {
  using EOPSIServer::EOPSIServer;
  template <class S> static auto transform(S &s, const ZZ &key, vec_ZZ_p *a, vec_ZZ_p *b, int) -> decltype(s.computeTOrQ(key, a, b)) { return s.computeTOrQ(key, a, b); }
  template <class S> static vec_ZZ_p *transform(S &, const ZZ &, vec_ZZ_p *, vec_ZZ_p *, long) { return nullptr; }  // not there under this name
  vec_ZZ_p *transformation(const ZZ &key, vec_ZZ_p *a, vec_ZZ_p *b) { return transform(*this, key, a, b, 0); }
};

std::string letter(const EOPSIMessage &m) {
  std::ostringstream o;
  o << (int) m.getType() << " " << m.getPartyId() << " " << m.getData() << " " << m.length();
  return o.str();
}

void parties(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  w.P = params(c, 4, 4, 80);
  const Params &P = w.P;
  PBT_NOTE(c, P);
  std::vector<std::string> ids;
  size_t n = c.range(2, 3);
  for (size_t i = 0; i <= n; i++) ids.push_back(name(c, ids));
  w.makeCloud(ids[n]);
  Open open(P.p, P.length, P.height, P.degree, "open");
  Watch watch;
  std::vector<ZZ> pool;
  std::vector<std::unique_ptr<Bytes>> secrets, letters;
  std::vector<std::unique_ptr<EOPSIMessage>> msgs;
  std::vector<std::unique_ptr<vec_ZZ_p[]>> matrices;
  // what the parties are sent travels in messages watched from here on
  auto post = [&](EOPSIParty &to, EOPSIParty &from, EOPSIMessageType type, const std::string &claim, const std::string &data, bool takes, const std::string &what) {
    letters.emplace_back(new Bytes{std::unique_ptr<byte[]>(new byte[data.size()]), data.size()});
    Bytes *b = letters.back().get();
    memcpy(b->at.get(), data.data(), data.size());
    msgs.emplace_back(new EOPSIMessage);
    EOPSIMessage *m = msgs.back().get();
    m->setData(b->at.get(), data.size());
    m->setType(type);
    m->setPartyId(claim);
    watch.add("a message", nullptr, [m] { return letter(*m); });
    size_t at = watch.items.size();
    watch.add("the data of a message", nullptr, [b] { return std::string((char *) b->at.get(), b->n); });
    bool refused = false;
    try {
      from.send(to, m);
    } catch (ProtocolException &) {
      refused = true;
    }
    if (takes && !refused) {  // the cloud releases what it has served
      b->at.release();
      watch.items.erase(watch.items.begin() + (long) at);
    }
    watch.check(what + (refused ? " (refused)" : ""));
    return !refused;
  };
  auto take = [&](Member &m, bool again) {
    std::vector<ZZ> els = elements(c, P, pool, P.length * P.height);
    std::unique_ptr<Holding> old = std::move(m.now);
    if (old) {
      watch.used(old->client);
      watch.used(old->buckets);
    }
    if (old) watch.used(old->stored);
    m.now = w.hold(m, els, (unsigned) c.draw(4), c.coin());
    w.authenticateAll(m);
    Holding *h = m.now.get();
    size_t cells = els.size(), rows = P.length;
    ZZ *raw = h->raw;
    for (size_t e = 0; e < cells; e++) PBT_CHECK(raw[e] == els[e], "element " << e << " of the data of " << quoted(m.id) << " became " << raw[e] << " when it was set");
    vec_ZZ_p *bl = h->client->getBlindedData();
    HashBuckets<ZZ_p> *t = h->buckets;
    EOPSIMessage *s = h->stored = new EOPSIMessage(bl, h->client->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA);
    s->setPartyId(m.id);
    watch.add("the data of " + quoted(m.id), h->client, [raw, cells] { return textArray(raw, cells); });
    watch.add("the outsourced values of " + quoted(m.id), h->client, [bl, rows] { return textRows(bl, rows); });
    watch.add("the outsourcing message of " + quoted(m.id), s, [s] { return letter(*s); });
    watch.add("the table of " + quoted(m.id), t, [t] { return textTable(*t); });
    watch.check("authentication");
    h->client->send(*w.cloud, s);
    PBT_NOTE(c, quoted(m.id) << (again ? " outsources anew " : " outsources ") << brief(els));
    watch.check("outsourcing by " + quoted(m.id));
  };
  for (size_t i = 0; i < n; i++) take(w.addMember(ids[i], secret(c)), false);
  size_t ops = c.range(2, 10), served = 0, refused = 0;
  for (size_t k = 0; k < ops; k++) {
    size_t i = c.draw(n), j = c.draw(n - 1);
    if (j >= i) j++;
    Member &a = *w.members[i], &b = *w.members[j];
    std::string req = World::requestText(a.id, a.secret);
    switch (c.weighted({4, 2, 1, 2, 1, 1})) {
      case 0:
        PBT_NOTE(c, quoted(a.id) << " asks " << quoted(b.id));
        PBT_CHECK(post(*b.now->client, *a.now->client, EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, a.id, req, false, "a request"), "a request was refused");
        w.checkResult(a, b, "result of " + quoted(a.id));
        served++;
        break;
      case 1: {
        std::string bad = req.substr(0, c.draw(a.id.size() + 1));
        if (c.coin()) bad = World::requestText(a.id + "x", a.secret);
        PBT_NOTE(c, quoted(a.id) << " sends " << quoted(bad) << " to " << quoted(b.id));
        if (bad.empty()) bad = "?";
        PBT_CHECK(!post(*b.now->client, *a.now->client, EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, a.id, bad, false, "a bad request"), "a bad request was served");
        refused++;
        break;
      }
      case 2:
        take(a, true);
        c.label("outsourced anew");
        break;
      case 3: {  // the cloud is asked for partners that are unknown or words are missing
        std::string cut = a.id + std::string(1, '\0') + (c.coin() ? "nobody of this name" + std::string(1, '\0') + std::string(17, 'k') : b.id + std::string(1, '\0') + c.bytes(c.draw(15)));
        EOPSIMessageType type = c.coin() ? EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST : c.coin() ? EOPSI_MESSAGE_OUTSOURCING_DATA : EOPSI_MESSAGE_POLYNOMIAL;
        if (type == EOPSI_MESSAGE_OUTSOURCING_DATA) cut.resize(c.range(1, P.length * P.degree - 1));
        PBT_NOTE(c, quoted(a.id) << " sends the cloud a bad message of type " << (int) type);
        PBT_CHECK(!post(*w.cloud, *a.now->client, type, a.id, cut, false, "a bad message to the cloud"), "a bad message of type " << (int) type << " was accepted by the cloud");
        refused++;
        break;
      }
      case 4: {  // straight to the cloud
        std::string ask = b.id + std::string(1, '\0') + a.id + std::string(1, '\0') + c.bytes(16) + std::string(1, '\0');
        w.members[i]->now->client->hook = [](EOPSIMessage *m) {
          if (m->getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION) delete[] (vec_ZZ_p *) m->getData();
          return false;
        };
        bool ok = post(*w.cloud, *b.now->client, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, b.id, ask, true, "a request to the cloud");
        w.members[i]->now->client->hook = nullptr;
        PBT_CHECK(ok, "the cloud refused a request");
        PBT_NOTE(c, quoted(b.id) << " has the cloud answer " << quoted(a.id));
        served++;
        break;
      }
      default: {  // the transformation itself
        vec_ZZ_p *m[2];
        for (auto &x : m) {
          matrices.emplace_back(new vec_ZZ_p[P.length]);
          x = matrices.back().get();
          for (size_t r = 0; r < P.length; r++) {
            x[r].SetLength((long) P.degree);
            for (size_t q = 0; q < P.degree; q++) conv(x[r][(long) q], gen::below(c, P.p));
          }
          vec_ZZ_p *y = x;
          size_t rows = P.length;
          watch.add("a matrix handed over", nullptr, [y, rows] { return textRows(y, rows); });
        }
        vec_ZZ_p *same = c.chance(1, 4) ? m[0] : m[1];
        std::unique_ptr<vec_ZZ_p[]> r(open.transformation(gen::natural(c, 128), m[0], same));
        if (!r) continue;
        for (size_t q = 0; q < P.length; q++) r[q][0] += 1;
        PBT_NOTE(c, "the transformation of two matrices");
        watch.check("the transformation");
        c.label("the transformation");
      }
    }
  }
  // secrets as bytes
  {
    std::string s = c.bytes(c.range(1, 60));
    Bytes b{std::unique_ptr<byte[]>(new byte[s.size()]), s.size()};
    memcpy(b.at.get(), s.data(), s.size());
    std::unique_ptr<HashAlgorithm<ZZ_p>> h(P.newHash());
    HashBuckets<ZZ_p> t(P.length, P.height, h.get());
    std::string before = textTable(t);
    { EOPSIClient x(t, P.p, P.length, P.height, P.degree, "x", b.at.get(), s.size()); }
    PBT_CHECK(memcmp(b.at.get(), s.data(), s.size()) == 0, "a secret handed over as bytes was changed");
    PBT_CHECK(textTable(t) == before, "a table was changed by a client without data");
  }
  watch.check("everything");
  c.count("comparisons", watch.looks);
  c.count("served", served);
  c.count("refused", refused);
  if (served > 0 && served + refused > 1) c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C26",
    "objects: up to 50 calls on hash algorithms, numbers, tables, polynomial batches, generators, conversions, messages and exceptions, all given arrays, strings, lists and "
    "points from one pool, so that the same input is handed over again and again; after each call everything handed over, and everything handed back by objects not used "
    "since, is compared with what it was; buffers are longer, as long as or shorter than needed; non-trivial: at least four changes of the kind of call.  "
    "parties: histories of outsourcing (again), requests served and refused, by client and cloud, and bare transformations; data, outsourced values, tables, messages, "
    "their bytes and matrices are compared after each; non-trivial: one request served and at least two messages.",
    {{"objects", objects, 6000, 150000, 30}, {"parties", parties, 2500, 50000, 60}}};
