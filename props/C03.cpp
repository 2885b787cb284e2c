// C03: only authorised, well-formed messages are acted on.
#include "proto.hpp"

using namespace proto;

class Dummy : public EOPSIParty {
 public:
  using EOPSIParty::EOPSIParty;
  size_t received = 0;
  void receive(EOPSIMessage *) override { received++; }
  bool isAuthorised(const EOPSIMessage *) const override { return false; }
};

struct Stage {
  World w;
  std::vector<std::unique_ptr<Dummy>> dummies;
  std::vector<EOPSIParty *> all;                           // cloud, clients, dummies
  std::map<EOPSIParty *, std::set<EOPSIParty *>> knows;    // who has authenticated whom
  std::map<Member *, std::vector<std::string>> results;    // model of the clients' results
  std::set<Member *> stored;
  std::vector<Matrix> blinded;
  size_t refused = 0, runs = 0, refusedRuns = 0;
  std::map<std::string, size_t> kinds;

  EOPSIParty *byId(const std::string &id) {
    for (auto *p : all)
      if (p->getId() == id) return p;
    return nullptr;
  }
  bool known(EOPSIParty *r, const std::string &id) {
    EOPSIParty *p = byId(id);
    return p && knows[r].count(p);
  }
  Member *member(EOPSIParty *p) {
    for (auto &m : w.members)
      if (m->now->client == p) return m.get();
    return nullptr;
  }
  bool isCloud(EOPSIParty *p) { return p == w.cloud.get(); }
  bool isReal(EOPSIParty *p) { return isCloud(p) || member(p); }
};

static void checkState(Stage &s, const std::string &after) {
  for (auto &m : s.w.members) s.w.checkList(*m, s.results[m.get()], "result of " + quoted(m->id) + " after " + after);
}
static void checkData(Stage &s, const std::string &after) {
  size_t k = 0;
  for (auto &m : s.w.members) {
    PBT_CHECK(copyMatrix(m->now->client->getBlindedData(), s.w.P.length, s.w.P.degree) == s.blinded[k], "outsourced data of " << quoted(m->id) << " changed after " << after);
    k++;
  }
}

static bool canRun(Stage &s, Member &a, Member &b) {
  EOPSIParty *pa = a.now->client, *pb = b.now->client, *cl = s.w.cloud.get();
  return s.knows[pb].count(pa) && s.knows[pb].count(cl) && s.knows[cl].count(pa) && s.knows[cl].count(pb) && s.stored.count(&a) && s.stored.count(&b) &&
         s.knows[pa].count(cl) && s.knows[pa].count(pb);
}

// Is a message of a known sender with proper content refused for its type alone?
static void inject(Ctx &c, Stage &s, EOPSIParty *fixedReceiver = nullptr);

static void run(Ctx &c, Stage &s, Member &a, Member &b, bool interleave) {
  bool ok = canRun(s, a, b);
  size_t mid = interleave ? c.range(1, 3) : 0;
  PBT_NOTE(c, "run of " << quoted(a.id) << " with " << quoted(b.id) << (ok ? "" : " (must be refused)") << (mid ? ", with messages in between" : ""));
  Client *ca = a.now->client;
  if (mid)
    ca->hook = [&](EOPSIMessage *m) {
      if (m->getType() != EOPSI_MESSAGE_OUTPUT_COMPUTATION) return true;
      EOPSIMessage copy = *m;
      ca->hook = nullptr;
      ca->deliver(&copy);
      for (size_t i = 0; i < mid; i++) inject(c, s, c.coin() ? (EOPSIParty *) ca : nullptr);
      return false;
    };
  bool threw = false;
  try {
    s.w.request(a, b);
  } catch (ProtocolException &e) {
    threw = true;
    PBT_CHECK(!ok, "a valid request of " << quoted(a.id) << " to " << quoted(b.id) << " was refused: " << e.what());
  }
  ca->hook = nullptr;
  PBT_CHECK(ok || !threw == false, "a request of " << quoted(a.id) << " to " << quoted(b.id) << " that cannot be served was not refused");
  if (ok) {
    s.results[&a] = meet(a.now->elements, b.now->elements);
    s.runs++;
    if (mid) s.kinds["in the middle of a run"]++;
  } else {
    s.refusedRuns++;
    s.kinds["request that cannot be served"]++;
  }
  checkState(s, ok ? "a run" : "a refused run");
}

static void inject(Ctx &c, Stage &s, EOPSIParty *fixedReceiver) {
  World &w = s.w;
  std::vector<EOPSIParty *> reals;
  reals.push_back(w.cloud.get());
  for (auto &m : w.members) reals.push_back(m->now->client);
  EOPSIParty *R = fixedReceiver ? fixedReceiver : c.weighted({1, 2}) == 0 ? reals[0] : reals[1 + c.draw(reals.size() - 1)];
  bool toCloud = s.isCloud(R);
  // who claims to send it
  std::string from;
  bool sensible = c.coin();  // right type from a right party, so that only the content can be at fault
  std::vector<EOPSIParty *> right;
  int rightType = toCloud ? (c.chance(2, 3) ? EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST : EOPSI_MESSAGE_OUTSOURCING_DATA)
                          : (c.chance(2, 3) ? EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST : c.coin() ? EOPSI_MESSAGE_POLYNOMIAL : EOPSI_MESSAGE_OUTPUT_COMPUTATION);
  for (auto *p : s.all)
    if (p != R && s.knows[R].count(p) && (p->getType() == EOPSI_PARTY_SERVER) == (rightType == EOPSI_MESSAGE_OUTPUT_COMPUTATION)) right.push_back(p);
  if (sensible && !right.empty()) from = right[c.draw(right.size())]->getId();
  else switch (c.weighted({6, 2, 1})) {
    case 0: from = s.all[c.draw(s.all.size())]->getId(); break;
    case 1: {  // an unknown name close to a known one
      std::vector<std::string> ids;
      for (auto *p : s.all) ids.push_back(p->getId());
      from = name(c, ids);
      break;
    }
    default: from = R->getId();
  }
  EOPSIParty *sender = s.byId(from);
  bool known = s.known(R, from) && from != R->getId();
  static const int TYPES[] = {0, 1, 2, 3, 4, 5, 6, 7, 64, 0x7fffffff, -1};
  int type = sensible ? rightType : TYPES[c.weighted({6, 6, 6, 5, 5, 2, 1, 1, 1, 1, 1})];
  std::string claimed = c.chance(1, 4) ? (c.coin() ? s.all[c.draw(s.all.size())]->getId() : from + "x") : from;
  std::string partner = c.chance(1, 4) ? name(c, {}) : s.all[c.draw(s.all.size())]->getId();
  ZZ sec = secret(c);
  // content
  bool isNull = c.chance(1, 8);
  std::string text;
  vec_ZZ_p *cells = nullptr;
  void *data = nullptr;
  size_t len = 0;
  std::unique_ptr<unsigned char[]> bytes;
  unsigned char *leaked = nullptr;
  bool wellFormed = !isNull;
  std::string how;
  switch (type) {
    case EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST:
    case EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST: {
      bool cl = type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST;
      text = claimed + std::string(1, '\0');
      size_t must = text.size();
      if (cl) {
        text += partner + std::string(1, '\0');
        text += c.bytes(16);
        must = text.size();
        text += std::string(1, '\0');
      } else {
        text = World::requestText(claimed, sec);
      }
      if (c.chance(1, 3)) {
        size_t cut = c.draw(text.size() + 1);
        text.resize(cut);
        how = ", cut to " + std::to_string(cut) + " bytes";
      }
      // an empty rest after the name carries no secret: neither clearly valid nor invalid
      if (!cl && text.size() == claimed.size() + 1 && !isNull && claimed == from && known) {
        return;
      }
      if (text.size() < must) wellFormed = false;
      if (claimed != from) wellFormed = false;
      break;
    }
    case EOPSI_MESSAGE_OUTSOURCING_DATA:
    case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
    case EOPSI_MESSAGE_POLYNOMIAL: {
      cells = new vec_ZZ_p[w.P.length];
      for (size_t j = 0; j < w.P.length; j++) {
        cells[j].SetLength((long) w.P.degree);
        for (size_t i = 0; i < w.P.degree; i++) conv(cells[j][(long) i], (long) (j + i + 1));
      }
      break;
    }
    default:
      if (c.coin()) text = World::requestText(claimed, sec);
  }
  size_t need = w.P.length * w.P.degree;
  if (type == EOPSI_MESSAGE_OUTSOURCING_DATA) {
    len = c.chance(1, 3) ? c.draw(need) : need;
    if (len < need) { wellFormed = false; how = ", length " + std::to_string(len) + " of " + std::to_string(need); }
  } else if (cells) {
    len = 1;
  } else {
    len = text.size();
  }
  if (isNull) {
    data = nullptr;
    len = c.coin() ? 0 : c.draw(1000);
  } else if (cells) {
    data = cells;
  } else if (type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) {  // would belong to the cloud if it were accepted
    leaked = new unsigned char[text.size()];
    memcpy(leaked, text.data(), text.size());
    data = leaked;
  } else {
    bytes.reset(new unsigned char[text.size()]);
    memcpy(bytes.get(), text.data(), text.size());
    data = bytes.get();
  }
  // the verdict
  bool fromClient = sender && sender->getType() == EOPSI_PARTY_CLIENT, fromServer = sender && sender->getType() == EOPSI_PARTY_SERVER;
  std::string why;
  if (from == R->getId()) why = "from itself";
  else if (!known) why = sender ? "from a party not authenticated" : "from an unknown name";
  else if (toCloud) {
    if (type != EOPSI_MESSAGE_OUTSOURCING_DATA && type != EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) why = "type not for servers";
    else if (!fromClient) why = "server sending what only clients may";
    else if (!wellFormed) why = isNull ? "no content" : claimed != from && !cells ? "names do not match" : "truncated content";
    else if (type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) {
      EOPSIParty *pp = s.byId(partner);
      Member *mp = pp ? s.member(pp) : nullptr, *ms = s.member(sender);
      if (!pp || !s.knows[R].count(pp)) why = "partner unknown";
      else if (!mp || !s.stored.count(mp)) why = "partner without data";
      else if (!ms || !s.stored.count(ms)) why = "sender without data";
    }
  } else {
    if (type == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST) {
      if (!fromClient) why = "server sending what only clients may";
      else if (!wellFormed) why = isNull ? "no content" : claimed != from ? "names do not match" : "truncated content";
      else {
        Member *ms = s.member(sender), *mr = s.member(R);
        EOPSIParty *cl = w.cloud.get();
        if (!s.knows[R].count(cl)) why = "no cloud known";
        else if (!s.knows[cl].count(R) || !s.knows[cl].count(sender) || !ms || !s.stored.count(ms) || !s.stored.count(mr)) why = "no data to work on";
      }
    } else if (type == EOPSI_MESSAGE_OUTPUT_COMPUTATION) {
      if (!fromServer) why = "client sending what only servers may";
      else if (isNull) why = "no content";
    } else if (type == EOPSI_MESSAGE_POLYNOMIAL) {
      if (!fromClient) why = "server sending what only clients may";
      else if (isNull) why = "no content";
    } else {
      why = type > 4 || type < 0 ? "undefined type" : "type not for clients";
    }
  }
  if (why.empty()) {  // acceptable: not the business of this operation
    delete[] leaked;
    delete[] cells;
    return;
  }
  EOPSIMessage *m = new EOPSIMessage;
  m->setType((EOPSIMessageType) type);
  m->setPartyId(from);
  m->setData(data, len);
  bool direct = c.coin();
  EOPSIParty *carrier = sender ? sender : s.all[c.draw(s.all.size())];
  PBT_NOTE(c, "message of type " << type << " from " << quoted(from) << " to " << quoted(R->getId()) << ", " << (isNull ? "no data" : cells ? "cells" : quoted(text)) << how
                                 << " (" << why << ")");
  size_t logged = w.wire.log.size(), got = 0;
  for (auto &d : s.dummies) got += d->received;
  bool authorised = R->isAuthorised(m);
  PBT_CHECK(known || from == R->getId() || !authorised, "isAuthorised() accepts a message of type " << type << " " << why);
  bool threw = false;
  try {
    if (direct) R->receive(m);
    else carrier->send(*R, m);
  } catch (ProtocolException &) {
    threw = true;
  }
  PBT_CHECK(threw, "a message of type " << type << " from " << quoted(from) << " to " << quoted(R->getId()) << (toCloud ? " (cloud)" : " (client)") << " was not refused: " << why
                                        << how);
  for (size_t i = logged + 1; i < w.wire.log.size(); i++)
    PBT_CHECK(w.wire.log[i].type != EOPSI_MESSAGE_OUTPUT_COMPUTATION && w.wire.log[i].type != EOPSI_MESSAGE_POLYNOMIAL,
              "a refused message (" << why << ") made " << quoted(w.wire.log[i].from) << " send a share to " << quoted(w.wire.log[i].to));
  size_t got2 = 0;
  for (auto &d : s.dummies) got2 += d->received;
  PBT_CHECK(got == got2, "a refused message (" << why << ") made somebody send a message");
  if (cells)  // still the sender's
    for (size_t j = 0; j < w.P.length; j++)
      for (size_t i = 0; i < w.P.degree; i++) PBT_CHECK(cells[j][(long) i] == (long) (j + i + 1), "content of a refused message was changed");
  // A refused message belongs to its sender; storing a reference to it would show later.
  if (cells)
    for (size_t j = 0; j < w.P.length; j++) clear(cells[j]);
  delete[] cells;
  delete m;
  s.refused++;
  s.kinds[why]++;
  c.label(why);
  checkState(s, "a refused message (" + why + ")");
  checkData(s, "a refused message (" + why + ")");
}

static void history(Ctx &c) {
  reseedAmbient(c.u64());
  Stage s;
  World &w = s.w;
  w.wire.copyCells = false;
  w.P = params(c, 4, 3, 60);
  size_t n = c.range(2, 3), nd = c.range(0, 3);
  std::vector<std::string> ids;
  for (size_t i = 0; i < n + nd + 1; i++) ids.push_back(name(c, ids));
  w.makeCloud(ids[n + nd]);
  std::vector<ZZ> pool;
  for (size_t i = 0; i < n; i++) {
    Member &m = w.addMember(ids[i], secret(c));
    m.now = w.hold(m, elements(c, w.P, pool, w.P.length * w.P.height));
    s.blinded.push_back(copyMatrix(m.now->client->getBlindedData(), w.P.length, w.P.degree));
  }
  s.all.push_back(w.cloud.get());
  for (auto &m : w.members) s.all.push_back(m->now->client);
  for (size_t i = 0; i < nd; i++) {
    s.dummies.emplace_back(new Dummy(c.coin() ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT, w.P.p, w.P.length, w.P.height, w.P.degree, ids[n + i]));
    s.all.push_back(s.dummies.back().get());
  }
  PBT_NOTE(c, w.P << ", cloud " << quoted(w.cloud->getId()));
  for (auto &m : w.members) PBT_NOTE(c, "client " << quoted(m->id) << " secret " << m->secret << " elements " << brief(m->now->elements));
  for (auto &d : s.dummies) PBT_NOTE(c, (d->getType() == EOPSI_PARTY_CLIENT ? "further client " : "further server ") << quoted(d->getId()));
  auto authenticate = [&](EOPSIParty *r, EOPSIParty *o) {
    // a client may pick any server it knows as its cloud, so it only learns of the real one
    if (s.member(r) && !s.isCloud(o) && o->getType() == EOPSI_PARTY_SERVER) return;
    r->authenticate(*o);
    if (r != o) s.knows[r].insert(o);
    PBT_NOTE(c, quoted(r->getId()) << " authenticates " << quoted(o->getId()));
  };
  auto checkAuth = [&]() {
    for (auto *r : s.all)
      for (auto *o : s.all) {
        bool k = s.knows[r].count(o);
        PBT_CHECK(r->hasAuthenticated(o->getId()) == k && r->hasAuthenticated(*o) == k,
                  quoted(r->getId()) << (k ? " forgot " : " takes for authenticated ") << quoted(o->getId()));
      }
  };
  auto storeFor = [&](Member &m) {
    bool ok = s.knows[w.cloud.get()].count(m.now->client);
    bool threw = false;
    try {
      w.store(m);
    } catch (ProtocolException &) {
      threw = true;
    }
    PBT_CHECK(threw == !ok, "outsourcing by " << quoted(m.id) << (ok ? " was refused" : " was accepted without authentication"));
    if (ok) s.stored.insert(&m);
    PBT_NOTE(c, quoted(m.id) << " outsources" << (ok ? "" : " (refused)"));
    if (!ok) s.kinds["outsourcing without authentication"]++;
  };
  // most of the world knows each other from the start
  for (auto *r : s.all)
    for (auto *o : s.all)
      if (r != o && !c.chance(1, 6)) authenticate(r, o);
  checkAuth();
  for (auto &m : w.members)
    if (!c.chance(1, 8)) storeFor(*m);
  auto twoMembers = [&]() {
    size_t i = c.draw(n), j = c.draw(n - 1);
    if (j >= i) j++;
    return std::make_pair(w.members[i].get(), w.members[j].get());
  };
  size_t ops = c.range(1, 16);
  for (size_t k = 0; k < ops; k++) {
    switch (c.weighted({8, 3, 1, 1, 1, 1})) {
      case 0: inject(c, s); break;
      case 1: { auto ab = twoMembers(); run(c, s, *ab.first, *ab.second, c.coin()); break; }
      case 2: authenticate(s.all[c.draw(s.all.size())], s.all[c.draw(s.all.size())]); checkAuth(); break;
      case 3: storeFor(*w.members[c.draw(n)]); break;
      case 4: {  // null messages
        EOPSIParty *a = s.all[c.draw(s.all.size())], *b = s.all[c.draw(s.all.size())];
        size_t logged = w.wire.log.size(), got = 0, got2 = 0;
        for (auto &d : s.dummies) got += d->received;
        bool threw = false;
        try {
          a->send(*b, nullptr);
        } catch (ProtocolException &) {
          threw = true;
        }
        for (auto &d : s.dummies) got2 += d->received;
        PBT_CHECK(threw && logged == w.wire.log.size() && got == got2, "a null message was sent");
        PBT_CHECK(!a->isAuthorised(nullptr), "a null message is authorised");
        PBT_NOTE(c, "null message refused");
        s.kinds["null message"]++;
        c.label("null message");
        break;
      }
      default: {  // a role changes; clients never know servers but the cloud
        if (s.dummies.empty()) break;
        Dummy *d = s.dummies[c.draw(s.dummies.size())].get();
        bool free = true;
        for (auto &m : w.members) free &= !s.knows[m->now->client].count(d);
        if (free) {
          d->setType(d->getType() == EOPSI_PARTY_CLIENT ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT);
          PBT_NOTE(c, quoted(d->getId()) << " changes its role");
          c.label("role changed");
        }
      }
    }
  }
  // and the valid runs are still exact
  auto ab = twoMembers();
  for (Member *m : {ab.first, ab.second}) {
    for (EOPSIParty *o : {(EOPSIParty *) ab.first->now->client, (EOPSIParty *) ab.second->now->client, (EOPSIParty *) w.cloud.get()}) {
      if (o != m->now->client) { authenticate(m->now->client, o); authenticate(o, m->now->client); }
    }
    if (!s.stored.count(m)) storeFor(*m);
  }
  run(c, s, *ab.first, *ab.second, c.coin());
  c.count("messages refused", s.refused);
  c.count("runs", s.runs);
  c.count("requests that cannot be served", s.refusedRuns);
  if (s.refused + s.refusedRuns > 0) c.nontrivial();
}

const Property pbt::property = {
    "C03",
    "Histories over one cloud, 2-3 clients with data and 0-3 further parties of either role, with a random, growing authentication relation: messages with any claimed "
    "sender (known, unknown, near-miss names, the receiver itself), any type (5 defined, unknown and undefined values), any claimed names, content missing, cut at any byte "
    "or of the wrong length, delivered directly or through send(), before, between and in the middle of runs; requests whose parties are not all known to each other or have "
    "no data; null messages.  A model of authentication, roles and outsourced data decides which messages must be refused; those must end in a ProtocolException, cause no "
    "share to be sent, and leave every result, the authentication relation and all data as they were, and the runs after them must be exact.  "
    "Non-trivial: at least one message or request was refused.",
    {{"history", history, 9000, 200000, 60}}};
