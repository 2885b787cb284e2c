// C02: every run in a history of protocol runs is exact.
#include "proto.hpp"

using namespace proto;

struct Pending {
  Member *who;
  std::vector<std::string> want;
  std::vector<EOPSIMessage> held;
};

static void history(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  w.P = params(c, 5, 4, 80);
  w.shareHash = c.chance(1, 3);
  if (w.shareHash) c.label("one hash object for all");
  std::vector<std::string> ids;
  size_t n = c.range(2, 5);
  for (size_t i = 0; i <= n; i++) ids.push_back(name(c, ids));
  w.makeCloud(ids[n]);
  std::vector<ZZ> pool;
  size_t cells = w.P.length * w.P.height;
  std::map<Member *, std::vector<std::string>> model;  // what each client's last result must be
  std::map<Member *, size_t> runs, outs;
  PBT_NOTE(c, w.P << ", cloud " << quoted(ids[n]));
  auto outsource = [&](Member &m) {
    auto d = elements(c, w.P, pool, cells);
    w.outsource(m, d, (unsigned) c.draw(4), c.chance(1, 4));
    model[&m].clear();
    outs[&m]++;
    PBT_NOTE(c, quoted(m.id) << " outsources " << brief(d) << " secret " << m.secret);
  };
  for (size_t i = 0; i < n; i++) outsource(w.addMember(ids[i], secret(c)));

  std::vector<Pending> pending;
  auto isPending = [&](Member *m) { return std::any_of(pending.begin(), pending.end(), [&](Pending &p) { return p.who == m; }); };
  auto checkAll = [&](const char *after) {
    for (auto &m : w.members)
      w.checkList(*m, model[m.get()], std::string("result of ") + quoted(m->id) + " after " + after);
  };
  size_t ops = c.range(1, 12), completed = 0, swapped = 0, delayed = 0, nested = 0;
  std::set<std::pair<Member *, Member *>> pairsRun;
  bool repeated = false, roleSwap = false, afterRe = false, inBetween = false;
  auto finish = [&](size_t k) {
    Pending p = pending[k];
    pending.erase(pending.begin() + (long) k);
    bool other = c.coin();
    PBT_NOTE(c, "shares reach " << quoted(p.who->id) << (other ? " in the other order" : ""));
    if (other && p.held.size() == 2) { std::swap(p.held[0], p.held[1]); swapped++; }
    for (auto &m : p.held) p.who->now->client->deliver(&m);
    model[p.who] = p.want;
    completed++;
  };
  for (size_t k = 0; k < ops; k++) {
    switch (c.weighted({6, 2, 2, 2, 1})) {
      case 0: {  // a run
        Member *a = w.members[c.draw(n)].get(), *b = w.members[c.draw(n)].get();
        if (a == b) b = w.members[(size_t) (std::find_if(w.members.begin(), w.members.end(), [&](auto &m) { return m.get() == a; }) - w.members.begin() + 1) % n].get();
        if (isPending(a)) continue;
        size_t times = c.chance(1, 5) ? 2 : 1;
        for (size_t r = 0; r < times; r++) {
          if (pairsRun.count({a, b})) repeated = true;
          if (pairsRun.count({b, a})) roleSwap = true;
          if (outs[a] > 1 || outs[b] > 1) afterRe = true;
          if (!pending.empty()) inBetween = true;
          pairsRun.insert({a, b});
          PBT_NOTE(c, quoted(a->id) << " requests from " << quoted(b->id));
          if (c.chance(1, 5)) {  // somebody else is served while the shares are sent
            EOPSIMessageType at = c.coin() ? EOPSI_MESSAGE_POLYNOMIAL : EOPSI_MESSAGE_OUTPUT_COMPUTATION;
            Client *ca = a->now->client;
            size_t x = c.draw(n), y = c.draw(n);
            ca->hook = [&, at, ca, x, y](EOPSIMessage *m) {
              if (m->getType() != at) return true;
              EOPSIMessage copy = *m;
              Member *px = w.members[x].get(), *py = w.members[y].get();
              ca->hook = nullptr;
              ca->deliver(&copy);
              if (px == py || px == a || isPending(px)) return false;
              PBT_NOTE(c, "  meanwhile " << quoted(px->id) << " requests from " << quoted(py->id));
              w.request(*px, *py);
              model[px] = meet(px->now->elements, py->now->elements);
              nested++;
              completed++;
              return false;
            };
          }
          w.request(*a, *b);
          a->now->client->hook = nullptr;
          model[a] = meet(a->now->elements, b->now->elements);
          completed++;
          checkAll("a run");
        }
        break;
      }
      case 1: {  // re-outsource
        Member *a = w.members[c.draw(n)].get();
        if (isPending(a)) continue;
        if (c.coin()) a->secret = secret(c);
        outsource(*a);
        break;
      }
      case 2: {  // a run whose shares are held back
        Member *a = w.members[c.draw(n)].get(), *b = w.members[c.draw(n)].get();
        if (a == b || isPending(a)) continue;
        Pending p;
        p.who = a;
        p.want = meet(a->now->elements, b->now->elements);
        a->now->client->hook = [&](EOPSIMessage *m) {
          if (m->getType() != EOPSI_MESSAGE_OUTPUT_COMPUTATION && m->getType() != EOPSI_MESSAGE_POLYNOMIAL) return true;
          p.held.push_back(*m);
          return false;
        };
        PBT_NOTE(c, quoted(a->id) << " requests from " << quoted(b->id) << ", shares on their way");
        w.request(*a, *b);
        a->now->client->hook = nullptr;
        PBT_CHECK(p.held.size() == 2, "a request made " << p.held.size() << " shares");
        pending.push_back(p);
        delayed++;
        break;
      }
      case 3:
        if (!pending.empty()) finish(c.draw(pending.size()));
        break;
      default: {  // somebody new joins
        if (w.members.size() >= 5) continue;
        ids.push_back(name(c, ids));
        outsource(w.addMember(ids.back(), secret(c)));
        n = w.members.size();
        c.label("a client joined late");
      }
    }
    checkAll("an operation");
  }
  while (!pending.empty()) {
    finish(pending.size() - 1);
    checkAll("late shares");
  }
  // one more exact run closes every history
  Member *a = w.members[c.draw(n)].get(), *b = w.members[(size_t) (c.draw(n))].get();
  if (a != b) {
    w.request(*a, *b);
    model[a] = meet(a->now->elements, b->now->elements);
    completed++;
    checkAll("the closing run");
  }
  if (repeated) c.label("a pair ran again");
  if (roleSwap) c.label("roles swapped");
  if (afterRe) c.label("ran after re-outsourcing");
  if (inBetween) c.label("a run between another's request and shares");
  if (delayed) c.label("delayed shares");
  if (nested) c.label("a run inside another run");
  if (swapped) c.label("shares in the other order");
  c.count("runs", completed);
  if (completed >= 2 && (repeated || roleSwap || afterRe || inBetween || nested)) c.nontrivial();
}

// Many clients, many runs and re-outsourcings on tiny tables.
static void longHistory(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  w.P = params(c, 2, 2, 20);
  w.shareHash = c.chance(1, 3);
  if (w.shareHash) c.label("one hash object for all");
  std::vector<std::string> ids;
  size_t n = c.range(2, 24);
  for (size_t i = 0; i <= n; i++) ids.push_back(name(c, ids));
  w.makeCloud(ids[n]);
  std::vector<ZZ> pool;
  size_t cells = w.P.length * w.P.height;
  std::map<Member *, std::vector<std::string>> model;
  PBT_NOTE(c, w.P << ", cloud " << quoted(ids[n]));
  auto outsource = [&](Member &m) {
    auto d = elements(c, w.P, pool, cells);
    if (pool.size() > 64) pool.erase(pool.begin(), pool.end() - 32);
    w.outsource(m, d, (unsigned) c.draw(4), c.chance(1, 4));
    model[&m].clear();
    PBT_NOTE(c, quoted(m.id) << " outsources " << brief(d) << " secret " << m.secret);
  };
  for (size_t i = 0; i < n; i++) outsource(w.addMember(ids[i], secret(c)));
  size_t ops = c.weighted({6, 1}) == 0 ? c.range(20, 80) : c.range(200, 400), runs = 0, again = 0, mostRuns = 0;
  std::map<Member *, size_t> by;
  // some histories keep to a few clients, so that one of them sees very many runs
  size_t circle = c.coin() ? std::min<size_t>(n, 2 + c.draw(2)) : n;
  for (size_t k = 0; k < ops; k++) {
    w.wire.log.clear();
    Member *a = w.members[c.draw(circle)].get();
    if (c.chance(1, 6)) {
      if (c.chance(1, 3)) a->secret = secret(c);
      outsource(*a);
      again++;
      continue;
    }
    Member *b = w.members[(size_t) (std::find_if(w.members.begin(), w.members.end(), [&](auto &m) { return m.get() == a; }) - w.members.begin() + 1 + c.draw(n - 1)) % n].get();
    PBT_NOTE(c, quoted(a->id) << " requests from " << quoted(b->id));
    w.request(*a, *b);
    model[a] = meet(a->now->elements, b->now->elements);
    runs++;
    mostRuns = std::max(mostRuns, ++by[a]);
    w.checkList(*a, model[a], "result of run " + std::to_string(runs));
    Member *o = w.members[k % n].get();
    w.checkList(*o, model[o], "result of " + quoted(o->id) + " after run " + std::to_string(runs));
  }
  for (auto &m : w.members) w.checkList(*m, model[m.get()], "result of " + quoted(m->id) + " at the end");
  if (n > 16) c.label("more than 16 clients");
  if (mostRuns > 64) c.label("more than 64 runs by one client");
  if (again > 16) c.label("more than 16 re-outsourcings");
  c.count("runs", runs);
  if (runs >= 10) c.nontrivial();
}

// Several clouds, all of which are given everybody's data: any one may serve a
// request.  Clouds are also replaced by new ones of their name.
static void clouds(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  w.P = params(c, 3, 3, 60);
  size_t n = c.range(2, 4), nc = c.range(1, 3);
  std::vector<std::string> ids;
  for (size_t i = 0; i < n + nc; i++) ids.push_back(name(c, ids));
  std::vector<std::unique_ptr<Server>> all, gone;
  std::vector<std::unique_ptr<EOPSIMessage>> stored;
  auto makeCloud = [&](const std::string &id) {
    std::unique_ptr<Server> s(new Server(w.P.p, w.P.length, w.P.height, w.P.degree, id));
    s->wire = &w.wire;
    return s;
  };
  auto give = [&](Member &m, Server &s) {
    stored.emplace_back(new EOPSIMessage(m.now->client->getBlindedData(), m.now->client->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA));
    stored.back()->setPartyId(m.id);
    s.authenticate(*m.now->client);
    m.now->client->authenticate(s);
    m.now->client->send(s, stored.back().get());
  };
  for (size_t i = 0; i < nc; i++) all.push_back(makeCloud(ids[n + i]));
  std::map<Member *, std::vector<std::string>> model;
  std::vector<ZZ> pool;
  PBT_NOTE(c, w.P << ", " << nc << " clouds");
  auto outsource = [&](Member &m) {
    auto d = elements(c, w.P, pool, w.P.length * w.P.height);
    auto old = std::move(m.now);
    m.now = w.hold(m, d, (unsigned) c.draw(3), c.chance(1, 4));
    for (auto &o : w.members)
      if (o->now && o.get() != &m) {
        o->now->client->authenticate(*m.now->client);
        m.now->client->authenticate(*o->now->client);
      }
    size_t first = c.draw(nc);
    for (size_t i = 0; i < nc; i++) give(m, *all[(first + i) % nc]);
    model[&m].clear();
    PBT_NOTE(c, quoted(m.id) << " outsources " << brief(d) << " secret " << m.secret);
  };
  for (size_t i = 0; i < n; i++) outsource(w.addMember(ids[i], secret(c)));
  size_t ops = c.range(2, 12), runs = 0, replaced = 0;
  for (size_t k = 0; k <= ops; k++) {
    size_t i = c.draw(n), j = c.draw(n - 1);
    if (j >= i) j++;
    Member &a = *w.members[i], &b = *w.members[j];
    switch (k == ops ? 0 : c.weighted({3, 1, 1})) {
      case 0: {
        PBT_NOTE(c, quoted(a.id) << " requests from " << quoted(b.id));
        w.wire.log.clear();
        w.request(a, b);
        PBT_CHECK(w.wire.count(EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) == 1, w.wire.count(EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) << " clouds were asked");
        model[&a] = meet(a.now->elements, b.now->elements);
        runs++;
        break;
      }
      case 1: outsource(a); break;
      default: {
        size_t s = c.draw(nc);
        PBT_NOTE(c, "cloud " << quoted(all[s]->getId()) << " is replaced");
        gone.push_back(std::move(all[s]));
        all[s] = makeCloud(gone.back()->getId());
        for (auto &m : w.members) give(*m, *all[s]);
        replaced++;
        c.label("a cloud replaced");
      }
    }
    for (auto &m : w.members) w.checkList(*m, model[m.get()], "result of " + quoted(m->id));
  }
  c.count("runs", runs);
  if (nc > 1) c.label("several clouds");
  if (runs >= 2 && (nc > 1 || replaced)) c.nontrivial();
}

// Groups of clients with fields, element sizes, numbers of points and hashes of
// their own share one cloud, which is given the group's field and degree
// whenever another group's turn comes.
static void groups(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  struct Group {
    Params P;
    std::vector<Member *> members;
    std::vector<ZZ> pool;
  };
  std::vector<Group> gs(c.range(2, 3));
  Params first = params(c, 3, 3, 60);
  for (auto &g : gs) {
    g.P = params(c, 3, 3, 60);
    g.P.length = first.length;
    g.P.height = first.height;
    g.P.degree = 2 * first.height + 1 + (c.coin() ? 0 : c.range(0, 5));
    if (&g != &gs[0] && c.chance(1, 3)) {  // the same field
      g.P.p = gs[0].P.p;
      g.P.field = gs[0].P.field;
      g.P.bits = gs[0].P.bits;
      c.label("one field for two groups");
    }
  }
  w.P = gs[0].P;
  std::vector<std::string> ids;
  ids.push_back(name(c, ids));
  w.makeCloud(ids[0]);
  size_t now = gs.size(), switches = 0, back = 0, born = 0, runs = 0;
  std::set<size_t> seen;
  auto turn = [&](size_t g) {
    if (g == now) return;
    w.P = gs[g].P;
    ZZ_p::init(w.P.p);
    switch (c.draw(3)) {
      case 0: w.cloud->setFieldsize(w.P.p); w.cloud->setDegree(w.P.degree); break;
      case 1: w.cloud->setDegree(w.P.degree); w.cloud->setFieldsize(w.P.p); break;
      default:  // anything in between
        w.cloud->setDegree(gs[c.draw(gs.size())].P.degree);
        w.cloud->setFieldsize(gs[c.draw(gs.size())].P.p);
        w.cloud->setDegree(w.P.degree);
        w.cloud->setFieldsize(w.P.p);
    }
    if (now < gs.size()) switches++;
    if (!seen.insert(g).second) back++;
    now = g;
    PBT_NOTE(c, "group " << g << ": " << w.P);
  };
  std::map<Member *, std::vector<std::string>> model;
  auto outsource = [&](Member &m) {
    Group &g = gs[now];
    w.bornField = 0;
    w.bornDegree = 0;
    if (c.chance(1, 3)) {
      Params &o = gs[c.draw(gs.size())].P;
      if (c.coin()) w.bornField = o.p;
      if (c.coin()) w.bornDegree = o.degree;
      if ((!NTL::IsZero(w.bornField) && w.bornField != w.P.p) || (w.bornDegree && w.bornDegree != w.P.degree)) born++;
    }
    auto d = elements(c, w.P, g.pool, w.P.length * w.P.height);
    w.outsource(m, d, (unsigned) c.draw(3), c.chance(1, 4));
    model[&m].clear();
    PBT_NOTE(c, quoted(m.id) << " outsources " << brief(d) << " secret " << m.secret << (born ? ", reconfigured" : ""));
  };
  size_t ops = c.range(3, 14);
  for (size_t k = 0; k <= ops; k++) {
    turn(k == 0 ? 0 : k == 1 ? 1 : c.draw(gs.size()));
    Group &g = gs[now];
    while (g.members.size() < 2) {
      ids.push_back(name(c, ids));
      g.members.push_back(&w.addMember(ids.back(), secret(c)));
      outsource(*g.members.back());
    }
    Member &a = *g.members[c.draw(2)], &b = *g.members[&a == g.members[0]];
    if (k < ops && c.chance(1, 5)) {
      outsource(a);
    } else {
      PBT_NOTE(c, quoted(a.id) << " requests from " << quoted(b.id));
      w.request(a, b);
      model[&a] = meet(a.now->elements, b.now->elements);
      runs++;
    }
    for (auto &m : w.members) w.checkList(*m, model[m.get()], "result of " + quoted(m->id));
  }
  c.count("runs", runs);
  if (back) c.label("back to an earlier group");
  if (born) c.label("clients given another field or degree before their data");
  if (switches && runs >= 2) c.nontrivial();
}

// More runs by one pair than 16 bits can count.
static void marathon(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  w.P = params(c, 1, 1, 16);
  w.makeCloud("Cloud");
  std::vector<ZZ> pool;
  for (const char *id : {"A", "B"}) w.outsource(w.addMember(id, secret(c)), elements(c, w.P, pool, 1));
  Member &a = *w.members[0], &b = *w.members[1];
  auto want = meet(a.now->elements, b.now->elements);
  size_t runs = 66000;
  PBT_NOTE(c, w.P << ", " << brief(a.now->elements) << " and " << brief(b.now->elements) << ", " << runs << " runs");
  for (size_t k = 0; k < runs; k++) {
    w.wire.log.clear();
    w.request(a, b);
    w.checkList(a, want, "result of run " + std::to_string(k + 1));
  }
  w.request(b, a);
  w.checkList(b, want, "result of the run the other way");
  c.count("runs", runs);
  c.nontrivial();
}

const Property pbt::property = {
    "C02",
    "Histories of 1-12 operations over 2-5 clients and one cloud: runs, repeated runs, re-outsourcing (new data, sometimes a new secret, under the same name), "
    "clients joining later, runs that start while the shares of another one are delivered, and runs whose two shares are held back while other operations happen and then delivered in either order.  A model keeps the data each "
    "client has outsourced; after every operation the result of every client must be the last intersection it asked for and nothing else.  A second generator makes histories of up to 400 runs and re-outsourcings among up to 24 clients.  clouds: 1-3 clouds given everybody's data, and replaced.  groups: 2-3 groups of clients with fields and degrees of their own sharing one cloud.  marathon: 66000 runs.  In a third of the cases all clients share one hash algorithm object.  Non-trivial: at least two "
    "completed runs with a pair repeated, roles swapped, a run after re-outsourcing, a run inside another one or a run in between another's request and shares; at least ten runs in a long history; two runs with several clouds or a replaced one; a group's turn come again.",
    {{"history", history, 4000, 120000, 90}, {"long", longHistory, 250, 6000, 300}, {"clouds", clouds, 1500, 40000, 90}, {"groups", groups, 2500, 60000, 90}, {"marathon", marathon, 1, 16, 900}}};
