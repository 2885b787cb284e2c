// C22: parties and messages keep what they are given.
#include "proto.hpp"

using namespace proto;

namespace {

// A party that records what it gets and takes what it is given to own.
class Recorder : public EOPSIParty {
 public:
  using EOPSIParty::EOPSIParty;
  struct Got {
    EOPSIMessageType type;
    std::string from;
  };
  std::vector<Got> got;
  void receive(EOPSIMessage *m) override {
    got.push_back({m->getType(), m->getPartyId()});
    switch (m->getType()) {
      case EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST: delete[] (byte *) m->getData(); break;
      case EOPSI_MESSAGE_POLYNOMIAL:
      case EOPSI_MESSAGE_OUTPUT_COMPUTATION: delete[] (vec_ZZ_p *) m->getData(); break;
      default: break;
    }
  }
  bool isAuthorised(const EOPSIMessage *) const override { return false; }
};

const int TYPES[] = {0, 1, 2, 3, 4, 5};
const char *role(const EOPSIParty *p) { return p->getType() == EOPSI_PARTY_SERVER ? "server" : "client"; }

// ---------------------------------------------------------------- messages
struct Letter {
  EOPSIMessage m;
  std::string data;                 // what it was given, as bytes
  std::unique_ptr<unsigned char[]> at;
  bool null = true;
  int type = EOPSI_MESSAGE_UNKNOWN;
  std::string from;
};

void checkLetter(const EOPSIMessage &m, const Letter &l, const char *what) {
  PBT_CHECK((int) m.getType() == l.type, what << " has type " << (int) m.getType() << " instead of " << l.type);
  PBT_CHECK(m.getPartyId() == l.from, what << " is from " << quoted(m.getPartyId()) << " instead of " << quoted(l.from));
  PBT_CHECK(m.getData() == (l.null ? nullptr : l.at.get()), what << " has other data than it was given");
  if (!l.null) {
    PBT_CHECK(m.length() == l.data.size(), what << " has length " << m.length() << " instead of " << l.data.size());
    PBT_CHECK(memcmp(l.at.get(), l.data.data(), l.data.size()) == 0, what << " changed the data it was given");
  }
}

void checkReading(Ctx &c, const EOPSIMessage &m, const Letter &l) {
  // one after another, then at random places
  size_t pos = 0, want = 0;
  size_t turns = std::min<size_t>(l.data.size(), 100);
  for (size_t k = 0; k < 6 + turns; k++) {
    if (k >= 4 + turns) pos = want = c.coin() ? c.draw(l.data.size() + 3) : gen::wide(c);
    std::string s = "untouched", expect;
    size_t end = l.null || want >= l.data.size() ? std::string::npos : l.data.find('\0', want);
    bool ok = m.readString(pos, s);
    PBT_CHECK(ok == (end != std::string::npos), "a string at " << want << " of " << (l.null ? "no data" : quoted(l.data)) << (ok ? " was read though there is none" : " was not read"));
    if (ok) {
      expect = l.data.substr(want, end - want);
      PBT_CHECK(s == expect, "the string at " << want << " of " << quoted(l.data) << " was read as " << quoted(s));
      want = end + 1;
      c.label("a string read from a message");
    } else {
      PBT_CHECK(s == "untouched", "a failed reading changed the string to " << quoted(s));
    }
    PBT_CHECK(pos == want, "after reading " << (ok ? "a string" : "nothing") << " the position is " << pos << " instead of " << want);
  }
}

void messages(Ctx &c) {
  std::vector<std::unique_ptr<Letter>> all;
  auto fill = [&](Letter &l) {
    l.null = c.chance(1, 6);
    l.data.clear();
    if (!l.null) {
      for (size_t n = c.draw(5); n > 0; n--) l.data += name(c, {}) + std::string(c.chance(5, 6) ? 1 : 0, '\0');
      if (c.coin()) l.data += c.bytes(c.draw(24));
      if (c.chance(1, 40)) {  // a long string, and perhaps another behind it
        std::string s(c.coin() ? c.range(200, 600) : c.range(60000, 70000), (char) (1 + c.draw(255)));
        l.data = c.coin() ? s + '\0' + l.data : l.data + s + std::string(c.draw(2), '\0');
        c.label("a long string in a message");
      }
    }
    l.at.reset(l.null ? nullptr : new unsigned char[l.data.size()]);
    if (!l.null) memcpy(l.at.get(), l.data.data(), l.data.size());
  };
  size_t ops = c.range(2, 24), told = 0;
  for (size_t k = 0; k < ops; k++) {
    if (all.empty() || c.chance(1, 5)) {  // a new message
      all.emplace_back(new Letter);
      Letter &l = *all.back();
      switch (c.draw(3)) {
        case 0: break;
        case 1: fill(l); l.m = EOPSIMessage(l.at.get(), l.data.size()); break;
        default: fill(l); l.type = TYPES[c.draw(6)]; l.m = EOPSIMessage(l.at.get(), l.data.size(), (EOPSIMessageType) l.type);
      }
      PBT_NOTE(c, "message " << all.size() - 1 << ": " << (l.null ? "no data" : quoted(l.data)) << " type " << l.type);
    }
    size_t i = c.draw(all.size());
    Letter &l = *all[i];
    switch (c.draw(4)) {
      case 0: fill(l); l.m.setData(l.at.get(), l.data.size()); PBT_NOTE(c, i << " gets " << (l.null ? "no data" : quoted(l.data))); told++; break;
      case 1: l.type = TYPES[c.draw(6)]; l.m.setType((EOPSIMessageType) l.type); PBT_NOTE(c, i << " gets type " << l.type); told++; break;
      case 2: l.from = c.coin() ? name(c, {}) : c.bytes(c.skewed(0, 300)); l.m.setPartyId(l.from); PBT_NOTE(c, i << " gets name " << quoted(l.from)); told++; break;
      default: checkReading(c, l.m, l);
    }
    for (auto &o : all) checkLetter(o->m, *o, o.get() == &l ? "the message" : "another message");
    if (c.chance(1, 3)) {
      EOPSIMessage copy(l.m);
      checkLetter(copy, l, "a copy");
      if (c.coin()) { copy.setPartyId("copy"); copy.setType(EOPSI_MESSAGE_POLYNOMIAL); copy.setData(nullptr); c.label("a copy changed"); }
      checkLetter(l.m, l, "a copied message");
    }
  }
  c.count("messages", all.size());
  if (told > 1) c.nontrivial();
}

// ---------------------------------------------------------------- parties
struct Node {
  EOPSIParty *p = nullptr;
  Recorder *rec = nullptr;
  Client *client = nullptr;
  Server *server = nullptr;
  std::string id;
  EOPSIPartyType type = EOPSI_PARTY_CLIENT;
  ZZ field;
  size_t degree = 0;
  std::map<std::string, Node *> knows;
  bool known = false;  // to anybody
};

struct Scene {
  Params P;
  Wire wire;
  std::unique_ptr<HashAlgorithm<ZZ_p>> hash;
  std::vector<std::unique_ptr<HashBuckets<ZZ_p>>> tables;
  std::vector<std::unique_ptr<EOPSIParty>> owned;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::string> names;

  Node &add(Ctx &c, int kind, const std::string &id) {
    nodes.emplace_back(new Node);
    Node &n = *nodes.back();
    n.id = id;
    n.field = P.p;
    n.degree = P.degree;
    switch (kind) {
      case 0:
        tables.emplace_back(new HashBuckets<ZZ_p>(P.length, P.height, hash.get()));
        n.p = n.client = new Client(*tables.back(), P.p, P.length, P.height, P.degree, id, ZZ(77));
        n.client->wire = &wire;
        break;
      case 1:
        n.type = EOPSI_PARTY_SERVER;
        n.p = n.server = new Server(P.p, P.length, P.height, P.degree, id);
        n.server->wire = &wire;
        break;
      default:
        n.type = kind == 2 ? EOPSI_PARTY_CLIENT : EOPSI_PARTY_SERVER;
        n.p = n.rec = new Recorder(n.type, P.p, P.length, P.height, P.degree, id);
    }
    owned.emplace_back(n.p);
    if (std::find(names.begin(), names.end(), id) == names.end()) names.push_back(id);
    PBT_NOTE(c, "party " << nodes.size() - 1 << ": " << (kind < 2 ? "" : "recording ") << role(n.p) << " " << quoted(id));
    return n;
  }
  size_t index(const Node &n) {
    for (size_t i = 0; i < nodes.size(); i++)
      if (nodes[i].get() == &n) return i;
    return 0;
  }
};

void checkParties(Ctx &c, Scene &s) {
  for (auto &n : s.nodes) {
    PBT_CHECK(n->p->getId() == n->id, "party " << quoted(n->id) << " says its name is " << quoted(n->p->getId()));
    PBT_CHECK(n->p->getType() == n->type, "party " << quoted(n->id) << " changed its role");
    PBT_CHECK(n->p->getFieldsize() == n->field, "party " << quoted(n->id) << " has field " << n->p->getFieldsize() << " instead of " << n->field);
    PBT_CHECK(n->p->getDegree() == n->degree, "party " << quoted(n->id) << " has degree " << n->p->getDegree() << " instead of " << n->degree);
    for (auto &id : s.names) {
      bool k = n->knows.count(id);
      PBT_CHECK(n->p->hasAuthenticated(id) == k, quoted(n->id) << (k ? " forgot " : " takes for authenticated ") << quoted(id));
    }
    for (auto &o : s.nodes) {
      auto i = n->knows.find(o->id);
      if (i != n->knows.end() && i->second != o.get()) continue;  // stands for another party of that name
      bool k = i != n->knows.end();
      PBT_CHECK(n->p->hasAuthenticated(*o->p) == k, quoted(n->id) << (k ? " forgot party " : " takes for authenticated party ") << quoted(o->id));
    }
  }
  std::string other = name(c, s.names);
  Node &n = *s.nodes[c.draw(s.nodes.size())];
  PBT_CHECK(!n.p->hasAuthenticated(other), quoted(n.id) << " takes the unknown name " << quoted(other) << " for authenticated");
}

// Who is authorised, by the role the sender has now
void askAuthorised(Ctx &c, Scene &s) {
  Node &r = *s.nodes[c.draw(s.nodes.size())];
  if (r.rec) return;
  std::string from = s.names[c.draw(s.names.size())];
  int type = TYPES[c.draw(6)];
  EOPSIMessage m(nullptr, 0, (EOPSIMessageType) type);
  m.setPartyId(from);
  bool ok = r.p->isAuthorised(&m);
  auto i = r.knows.find(from);
  bool fromClient = i != r.knows.end() && i->second->type == EOPSI_PARTY_CLIENT, fromServer = i != r.knows.end() && !fromClient;
  PBT_NOTE(c, "may " << quoted(from) << " send type " << type << " to " << quoted(r.id) << "? " << ok);
  if (r.client) {
    bool want = (fromClient && (type == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST || type == EOPSI_MESSAGE_POLYNOMIAL)) || (fromServer && type == EOPSI_MESSAGE_OUTPUT_COMPUTATION);
    PBT_CHECK(ok == want, "client " << quoted(r.id) << (ok ? " accepts" : " does not accept") << " type " << type << " from " << quoted(from));
  } else {
    bool want = fromClient && (type == EOPSI_MESSAGE_OUTSOURCING_DATA || type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST);
    // servers among themselves are refused on receipt
    if (!fromServer) PBT_CHECK(ok == want, "server " << quoted(r.id) << (ok ? " accepts" : " does not accept") << " type " << type << " from " << quoted(from));
  }
  c.label("authorisation asked");
}

// A request by a recording client: the cloud and the requester the client knows
// now get one message each, nobody else does.
void route(Ctx &c, Scene &s) {
  std::vector<std::pair<Node *, Node *>> may;
  for (auto &r : s.nodes) {
    if (!r->client) continue;
    bool real = false, cloud = false;
    for (auto &k : r->knows) {
      if (k.second->type != EOPSI_PARTY_SERVER) continue;
      if (k.second->rec) cloud = true;
      else real = true;
    }
    if (real || !cloud) continue;
    for (auto &k : r->knows)
      if (k.second->rec && k.second->type == EOPSI_PARTY_CLIENT) may.emplace_back(k.second, r.get());
  }
  if (may.empty()) return;
  auto ar = may[c.draw(may.size())];
  Node &a = *ar.first, &r = *ar.second;
  PBT_NOTE(c, "party " << s.index(a) << " " << quoted(a.id) << " asks party " << s.index(r) << " " << quoted(r.id));
  std::vector<size_t> before;
  for (auto &n : s.nodes) before.push_back(n->rec ? n->rec->got.size() : 0);
  size_t log = s.wire.log.size();
  std::string t = World::requestText(a.id, secret(c));
  std::vector<unsigned char> data(t.begin(), t.end());
  EOPSIMessage m(data.data(), data.size(), EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST);
  m.setPartyId(a.id);
  a.p->send(*r.p, &m);
  PBT_CHECK(s.wire.log.size() == log + 1, "a request reached other parties than the one asked");
  size_t clouds = 0;
  for (size_t i = 0; i < s.nodes.size(); i++) {
    Node &n = *s.nodes[i];
    if (!n.rec) continue;
    size_t got = n.rec->got.size() - before[i];
    auto k = r.knows.find(n.id);
    bool current = k != r.knows.end() && k->second == &n;
    if (&n == &a) {
      PBT_CHECK(got == 1 && n.rec->got.back().type == EOPSI_MESSAGE_POLYNOMIAL && n.rec->got.back().from == r.id, "the requester got " << got << " messages, not just its share");
    } else if (got > 0) {
      PBT_CHECK(current && n.type == EOPSI_PARTY_SERVER, "party " << i << " " << quoted(n.id) << " got a message though it is " << (current ? "no server" : "not the one authenticated last under its name"));
      PBT_CHECK(got == 1 && n.rec->got.back().type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST && n.rec->got.back().from == r.id, "the cloud got " << got << " messages, not just the request");
      clouds++;
    }
  }
  PBT_CHECK(clouds == 1, clouds << " clouds were asked");
  c.count("requests routed");
  c.label("a request routed");
}

void parties(Ctx &c) {
  reseedAmbient(c.u64());
  Scene s;
  s.P = params(c, 3, 2, 40);
  s.hash.reset(s.P.newHash());
  size_t n = c.range(2, 6);
  size_t changed = 0;
  for (size_t i = 0; i < n; i++) s.add(c, (int) c.weighted({3, 1, 3, 3}), name(c, s.names));
  // often most know each other from the start; clients then know recording clouds only
  if (c.chance(2, 3))
    for (auto &x : s.nodes)
      for (auto &y : s.nodes) {
        if (x == y || (x->client && y->server) || c.chance(1, 6)) continue;
        x->p->authenticate(*y->p);
        x->knows[y->id] = y.get();
        y->known = true;
        PBT_NOTE(c, quoted(x->id) << " authenticates " << quoted(y->id));
      }
  size_t ops = c.range(4, 40);
  for (size_t k = 0; k < ops; k++) {
    Node &a = *s.nodes[c.draw(s.nodes.size())], &b = *s.nodes[c.draw(s.nodes.size())];
    switch (c.weighted({12, 2, 2, 1, 1, 4, 4})) {
      case 0:
        a.p->authenticate(*b.p);
        PBT_NOTE(c, "party " << s.index(a) << " " << quoted(a.id) << " authenticates party " << s.index(b) << " " << quoted(b.id));
        if (a.id != b.id) {
          if (a.knows.count(b.id) && a.knows[b.id] != &b) { changed++; c.label("authenticated again: another party of the name"); }
          a.knows[b.id] = &b;
          b.known = true;
        } else {
          c.label("authentication of oneself");
        }
        break;
      case 1: s.add(c, a.client ? 0 : a.server ? 1 : a.type == EOPSI_PARTY_CLIENT ? 2 : 3, a.id); break;
      case 2: {  // role
        if (!a.rec) break;
        a.type = a.type == EOPSI_PARTY_CLIENT ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT;
        a.p->setType(a.type);
        PBT_NOTE(c, "party " << s.index(a) << " becomes a " << role(a.p));
        changed++;
        c.label("role changed");
        break;
      }
      case 3: {  // name, before anybody knows it
        if (a.known || !a.knows.empty()) break;
        a.id = name(c, s.names);
        a.p->setId(a.id);
        s.names.push_back(a.id);
        PBT_NOTE(c, "party " << s.index(a) << " is now called " << quoted(a.id));
        changed++;
        c.label("name changed");
        break;
      }
      case 4: {
        if (!a.rec) break;
        a.field = c.coin() ? gen::natural(c, 300) : s.P.p;
        a.degree = c.coin() ? gen::wide(c) : s.P.degree;
        a.p->setFieldsize(a.field);
        a.p->setDegree(a.degree);
        PBT_NOTE(c, "party " << s.index(a) << " gets field " << a.field << " and degree " << a.degree);
        changed++;
        break;
      }
      case 5: askAuthorised(c, s); break;
      default: route(c, s);
    }
    checkParties(c, s);
  }
  c.count("changes", changed);
  if (changed > 0) c.nontrivial();
}

// Very many parties: everybody authenticated stays authenticated, under its own name
void many(Ctx &c) {
  reseedAmbient(c.u64());
  Scene s;
  s.P = params(c, 2, 2, 40);
  s.hash.reset(s.P.newHash());
  Node &a = s.add(c, (int) c.draw(4), "the one who knows");
  bool wide = c.coin(), sharing = c.coin();
  size_t n = c.skewed(40, 700), head = c.skewed(1, 300);
  std::string common = c.bytes(head);
  for (size_t i = 0; i < n; i++) {
    std::string id = std::to_string(i);
    if (wide) id = std::string(4 - std::min<size_t>(id.size(), 4), '0') + id;
    if (sharing) id = common + id;
    int kind = a.client ? (int) c.weighted({1, 0, 20, i == 0 ? 0u : 1u}) : (int) c.weighted({1, 1, 20, 4});
    s.nodes.emplace_back(new Node);
    Node &b = *s.nodes.back();
    b.id = id;
    b.type = kind == 0 || kind == 2 ? EOPSI_PARTY_CLIENT : EOPSI_PARTY_SERVER;
    b.p = b.rec = new Recorder(b.type, s.P.p, s.P.length, s.P.height, s.P.degree, id);
    s.owned.emplace_back(b.p);
  }
  PBT_NOTE(c, n << " parties" << (sharing ? " whose names begin alike, with " + quoted(common) : std::string()));
  std::map<std::string, Node *> knows;
  auto sure = [&](size_t from) {
    for (size_t i = from; i < s.nodes.size(); i++) {
      Node &b = *s.nodes[i];
      auto k = knows.find(b.id);
      PBT_CHECK(a.p->hasAuthenticated(b.id) == (k != knows.end()), (k != knows.end() ? "forgot " : "takes for authenticated ") << quoted(b.id) << ", " << knows.size() << " parties known");
      if (k == knows.end() || k->second == &b) PBT_CHECK(a.p->hasAuthenticated(*b.p) == (k != knows.end()), (k != knows.end() ? "forgot party " : "takes for authenticated party ") << quoted(b.id));
      if (a.rec) continue;
      int type = a.client ? EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST : EOPSI_MESSAGE_OUTSOURCING_DATA;
      EOPSIMessage m(nullptr, 0, (EOPSIMessageType) type);
      m.setPartyId(b.id);
      bool want = k != knows.end() && k->second->type == EOPSI_PARTY_CLIENT;
      if (a.server && k != knows.end() && !want) continue;  // servers among themselves are refused on receipt
      PBT_CHECK(a.p->isAuthorised(&m) == want, quoted(b.id) << (want ? " may no longer" : " may now") << " send a request, " << knows.size() << " parties known");
    }
  };
  for (size_t i = 1; i <= n; i++) {
    Node &b = *s.nodes[i];
    if (c.chance(1, 30)) continue;  // never authenticated
    a.p->authenticate(*b.p);
    knows[b.id] = &b;
    if (c.chance(1, 40)) {  // and replaced by a namesake
      s.nodes.emplace_back(new Node);
      Node &d = *s.nodes.back();
      d.id = b.id;
      d.type = c.coin() ? EOPSI_PARTY_CLIENT : EOPSI_PARTY_SERVER;
      d.p = d.rec = new Recorder(d.type, s.P.p, s.P.length, s.P.height, s.P.degree, d.id);
      s.owned.emplace_back(d.p);
      a.p->authenticate(*d.p);
      knows[d.id] = &d;
      c.label("a namesake");
    }
    if (c.chance(1, 40)) sure(1);
    else if (i % 4 == 0) sure(s.nodes.size() - 1);
  }
  sure(1);
  c.count("parties", n);
  if (knows.size() > 64) { c.nontrivial(); c.label("more than 64 parties known"); }
  if (knows.size() > 256) c.label("more than 256 parties known");
}

// ---------------------------------------------------------------- clients
void clients(Ctx &c) {
  reseedAmbient(c.u64());
  Params P = params(c, 4, 3, 60);
  struct One {
    std::unique_ptr<HashAlgorithm<ZZ_p>> hash;
    std::unique_ptr<HashBuckets<ZZ_p>> table;
    std::unique_ptr<EOPSIClient> client;
    std::unique_ptr<ZZ[]> raw;
    std::vector<ZZ> given;
    ZZ secret;
    Matrix blinded;
    bool data = false;
  };
  std::vector<std::unique_ptr<One>> all;
  size_t n = c.range(1, 3), set = 0, calls = c.range(1, 10) + n;
  std::vector<ZZ> pool;
  for (size_t i = 0; i < n; i++) {
    all.emplace_back(new One);
    One &o = *all.back();
    o.hash.reset(P.newHash());
    o.table.reset(new HashBuckets<ZZ_p>(P.length, P.height, o.hash.get()));
    o.secret = secret(c);
    std::string id = name(c, {});
    switch (c.draw(3)) {
      case 0: o.client.reset(new EOPSIClient(*o.table, P.p, P.length, P.height, P.degree, id, o.secret)); break;
      case 1: {
        std::string b = ref::toLE(o.secret) + std::string(c.draw(3), '\0');
        o.client.reset(new EOPSIClient(*o.table, P.p, P.length, P.height, P.degree, id, (const byte *) b.data(), b.size()));
        c.label("secret given as bytes");
        break;
      }
      default:
        o.client.reset(new EOPSIClient(*o.table, P.p, P.length, P.height, P.degree, id, ZZ(5)));
        o.client->setSecret(o.secret);
    }
    PBT_CHECK(o.client->getId() == id, "the client's name is " << quoted(o.client->getId()) << " instead of " << quoted(id));
    PBT_NOTE(c, "client " << i << " " << quoted(id) << " with secret " << o.secret);
  }
  PBT_NOTE(c, P);
  auto check = [&](One &o, size_t i) {
    EOPSIClient &k = *o.client;
    PBT_CHECK(k.getSecret() == o.secret, "client " << i << " has secret " << k.getSecret() << " instead of " << o.secret);
    PBT_CHECK(k.getBlindedDataSize() == P.length * P.degree, "client " << i << " says it has " << k.getBlindedDataSize() << " values to outsource");
    PBT_CHECK(k.getFieldsize() == P.p && k.getDegree() == P.degree && k.getType() == EOPSI_PARTY_CLIENT, "client " << i << " changed its parameters");
    PBT_CHECK(k.getIntersection().length() == 0, "client " << i << " has an intersection before any computation");
    vec_ZZ_p *now = k.getBlindedData();
    if (!o.data) {
      PBT_CHECK(k.getRawData() == nullptr && k.getRawDataSize() == 0 && now == nullptr, "client " << i << " has data nobody gave it");
      return;
    }
    PBT_CHECK(k.getRawData() == o.raw.get() && k.getRawDataSize() == o.given.size(), "client " << i << " does not hand back its data");
    for (size_t e = 0; e < o.given.size(); e++) PBT_CHECK(o.raw[e] == o.given[e], "client " << i << " changed element " << e << " of its data to " << o.raw[e]);
    Matrix m = copyMatrix(now, P.length, P.degree);
    PBT_CHECK(m == o.blinded, "the outsourced values of client " << i << " changed");
  };
  for (size_t k = 0; k < calls; k++) {
    size_t i = k < n ? k : c.draw(n);
    One &o = *all[i];
    switch (c.draw(4)) {
      case 0:
        if (!o.data) {
          std::vector<ZZ> els = elements(c, P, pool, P.length * P.height);
          o.raw.reset(new ZZ[els.size()]);
          for (size_t e = 0; e < els.size(); e++) o.raw[e] = els[e];
          o.given = els;
          o.client->setRawData(o.raw.get(), els.size(), P.bits, (unsigned) c.draw(4));
          o.data = true;
          o.blinded = copyMatrix(o.client->getBlindedData(), P.length, P.degree);
          PBT_NOTE(c, "client " << i << " gets " << brief(els));
          set++;
        }
        break;
      case 1: {  // nothing to store
        ZZ some(3);
        size_t size = c.draw(5);
        if (c.coin()) o.client->setRawData(nullptr, size, c.draw(200));
        else o.client->setRawData(&some, 0, c.draw(200));
        PBT_NOTE(c, "client " << i << " gets no data");
        c.label("empty data");
        break;
      }
      case 2:
        o.secret = secret(c);
        o.client->setSecret(o.secret);
        PBT_NOTE(c, "client " << i << " gets secret " << o.secret);
        if (o.data) c.label("another secret after outsourcing");
        break;
      default: {
        NTL::vec_ZZ mine = o.client->getIntersection();
        mine.append(ZZ(1));
        ZZ s = o.client->getSecret();
        s += 1;
        c.label("a copy changed");
      }
    }
    for (size_t j = 0; j < n; j++) check(*all[j], j);
  }
  if (set > 0) c.nontrivial();
}

// Runs are exact whatever was asked, and however often no data was set, in between.
void runs(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  w.P = params(c, 3, 3, 60);
  std::vector<std::string> ids;
  size_t n = c.range(2, 3);
  for (size_t i = 0; i <= n; i++) ids.push_back(name(c, ids));
  w.makeCloud(ids[n]);
  std::vector<ZZ> pool;
  PBT_NOTE(c, w.P);
  for (size_t i = 0; i < n; i++) {
    Member &m = w.addMember(ids[i], secret(c));
    w.outsource(m, elements(c, w.P, pool, w.P.length * w.P.height));
    PBT_NOTE(c, quoted(m.id) << " outsources " << brief(m.now->elements));
  }
  std::vector<std::vector<std::string>> results(n);
  size_t ops = c.range(2, 8), empty = 0, requests = 0;
  for (size_t k = 0; k <= ops; k++) {
    size_t i = c.draw(n), j = c.draw(n - 1);
    if (j >= i) j++;
    Member &a = *w.members[i], &b = *w.members[j];
    Client *cl = a.now->client;
    switch (k == ops ? 0 : c.draw(4)) {
      case 0:
        PBT_NOTE(c, quoted(a.id) << " asks " << quoted(b.id));
        w.request(a, b);
        results[i] = meet(a.now->elements, b.now->elements);
        requests++;
        break;
      case 1: {
        ZZ some(3);
        size_t bits = c.coin() ? c.range(1, w.P.field) : gen::wide(c);
        if (c.coin()) cl->setRawData(nullptr, c.draw(5), bits);
        else cl->setRawData(&some, 0, bits, (unsigned) c.draw(3));
        PBT_NOTE(c, quoted(a.id) << " gets no data of " << bits << " bits");
        c.label("empty data before a run");
        empty++;
        break;
      }
      case 2: {
        NTL::vec_ZZ mine = cl->getIntersection();
        for (long e = 0; e < mine.length(); e++) mine[e] += 1;
        mine.append(ZZ(1));
        c.label("a copy of a result changed");
        break;
      }
      default: {
        cl->setSecret(cl->getSecret());
        cl->setId(cl->getId());
        cl->setDegree(cl->getDegree());
        cl->setFieldsize(cl->getFieldsize());
        cl->setType(cl->getType());
        w.cloud->setDegree(w.cloud->getDegree());
        w.cloud->setFieldsize(w.cloud->getFieldsize());
        PBT_NOTE(c, quoted(a.id) << " is given what it reports");
        c.label("given what it reports");
      }
    }
    for (size_t x = 0; x < n; x++) {
      w.checkList(*w.members[x], results[x], "result of " + quoted(w.members[x]->id));
      Holding &h = *w.members[x]->now;
      PBT_CHECK(h.client->getRawData() == h.raw && h.client->getRawDataSize() == h.elements.size(), quoted(w.members[x]->id) << " does not hand back its data");
    }
  }
  c.count("runs", requests);
  if (empty > 0 && requests > 1) c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C22",
    "messages: up to some 8 messages at once given data (none, strings with and without terminators, further bytes, in exactly sized buffers), types and names in any order, "
    "copied, and read from at every place, compared with what they were given last; non-trivial: something was given more than once.  "
    "parties: 2-6 clients, servers and recording parties plus namesakes, authenticating each other and themselves in any order and repeatedly, changing roles, names, fields and "
    "degrees; a model of who knows whom decides hasAuthenticated() for every pair and name, isAuthorised() for every role and type, and who is sent the messages a request "
    "causes; non-trivial: a role, name or parameter changed or a namesake replaced a party.  many: one party authenticates 40-700 others, with names alike, namesakes and some left out, and who is known is compared again and again; non-trivial: more than 64 known.  clients: 1-3 clients given secrets (number, bytes, later), data and no data, with "
    "everything they hand back compared after each call; non-trivial: data was given.  runs: histories of runs with no data set, results copied and parties given what they report in between; non-trivial: at least two runs, and no data set.",
    {{"messages", messages, 12000, 300000, 30}, {"parties", parties, 16000, 300000, 30}, {"many", many, 150, 3000, 60}, {"clients", clients, 4000, 80000, 30}, {"runs", runs, 3000, 60000, 60}}};
