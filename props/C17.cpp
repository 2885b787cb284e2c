// C17: every computation request uses a fresh key and discloses nothing else.
#include "proto.hpp"

using namespace proto;

static const size_t KEY = 16;

// Check what one accepted request put on the links and return its key.
static std::string exchange(World &w, size_t from, const Member &a, const Member &b) {
  size_t asks = 0, outs = 0, shares = 0, others = 0;
  std::string key;
  const std::string &cloud = w.cloud->getId();
  for (size_t i = from; i < w.wire.log.size(); i++) {
    const Seen &s = w.wire.log[i];
    switch (s.type) {
      case EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST:
        PBT_CHECK(s.from == a.id && s.to == b.id, "a client request went from " << quoted(s.from) << " to " << quoted(s.to));
        break;
      case EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST: {
        asks++;
        PBT_CHECK(s.from == b.id && s.to == cloud, "a cloud request went from " << quoted(s.from) << " to " << quoted(s.to));
        std::string head = b.id + std::string(1, '\0') + a.id + std::string(1, '\0');
        PBT_CHECK(s.text.size() == head.size() + KEY + 1, "the cloud request has " << s.text.size() << " bytes instead of " << head.size() + KEY + 1);
        PBT_CHECK(s.text.compare(0, head.size(), head) == 0, "the cloud request does not name responder and requester: " << quoted(s.text));
        PBT_CHECK(s.text.back() == '\0', "the cloud request is not terminated");
        key = s.text.substr(head.size(), KEY);
        PBT_CHECK(NTL::NumBits(ref::fromLE(key)) == 128, "the temporary key " << hex(key) << " has " << NTL::NumBits(ref::fromLE(key)) << " bits");
        break;
      }
      case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
        outs++;
        PBT_CHECK(s.from == cloud && s.to == a.id, "an output went from " << quoted(s.from) << " to " << quoted(s.to));
        break;
      case EOPSI_MESSAGE_POLYNOMIAL:
        shares++;
        PBT_CHECK(s.from == b.id && s.to == a.id, "a share went from " << quoted(s.from) << " to " << quoted(s.to));
        break;
      default: others++;
    }
  }
  PBT_CHECK(asks == 1 && outs == 1 && shares == 1 && others == 0,
            "one request made " << asks << " cloud requests, " << outs << " outputs, " << shares << " shares and " << others << " other messages");
  return key;
}

struct Scene {
  World w;
  std::vector<std::pair<size_t, size_t>> requests;
};

static void build(Ctx &c, Scene &s, size_t maxRequests) {
  World &w = s.w;
  w.P = params(c, 4, 3, 40);
  size_t n = c.range(2, 4);
  std::vector<std::string> ids;
  for (size_t i = 0; i <= n; i++) ids.push_back(name(c, ids));
  w.makeCloud(ids[n]);
  std::vector<ZZ> pool;
  PBT_NOTE(c, w.P << ", cloud " << quoted(ids[n]));
  for (size_t i = 0; i < n; i++) {
    Member &m = w.addMember(ids[i], i > 0 && c.chance(1, 4) ? w.members[0]->secret : secret(c));
    auto d = i > 0 && c.chance(1, 4) ? w.members[0]->now->elements : elements(c, w.P, pool, w.P.length * w.P.height);
    w.outsource(m, d);
    PBT_NOTE(c, quoted(m.id) << " secret " << m.secret << " elements " << brief(d));
  }
  size_t r = c.range(1, maxRequests);
  for (size_t i = 0; i < r; i++) {
    if (i > 0 && c.coin()) { s.requests.push_back(s.requests.back()); continue; }
    size_t a = c.draw(n), b = c.draw(n - 1);
    if (b >= a) b++;
    s.requests.push_back({a, b});
  }
}

static void links(Ctx &c) {
  reseedAmbient(c.u64());
  Scene s;
  build(c, s, c.weighted({30, 1}) == 0 ? 6 : 40);
  World &w = s.w;
  std::map<std::string, size_t> keys;
  struct Run { size_t a, b; Matrix t, q; };
  std::vector<Run> runs;
  bool repeated = false;
  for (size_t k = 0; k < s.requests.size(); k++) {
    Member &a = *w.members[s.requests[k].first], &b = *w.members[s.requests[k].second];
    size_t from = w.wire.log.size();
    w.request(a, b);
    PBT_NOTE(c, quoted(a.id) << " requests from " << quoted(b.id));
    std::string key = exchange(w, from, a, b);
    auto r = keys.insert({key, k});
    PBT_CHECK(r.second, "request " << k << " uses the key of request " << r.first->second << ": " << hex(key));
    Run run{s.requests[k].first, s.requests[k].second, w.wire.last(EOPSI_MESSAGE_OUTPUT_COMPUTATION, a.id)->cells,
            w.wire.last(EOPSI_MESSAGE_POLYNOMIAL, a.id)->cells};
    for (size_t j = 0; j < w.P.length; j++)
      for (size_t i = 0; i < w.P.degree; i++) {
        ZZ comb = (run.t[j][i] - run.q[j][i]) % w.P.p;
        if (comb < 0) comb += w.P.p;
        PBT_CHECK(run.t[j][i] != comb && run.q[j][i] != comb, "a share is the unmasked combination at (" << j << ", " << i << ")");
        for (auto &o : runs) {
          PBT_CHECK(o.t[j][i] != run.t[j][i], "the cloud's output at (" << j << ", " << i << ") is that of an earlier run");
          PBT_CHECK(o.q[j][i] != run.q[j][i], "the responder's share at (" << j << ", " << i << ") is that of an earlier run");
        }
      }
    for (auto &o : runs) repeated |= o.a == run.a && o.b == run.b;
    runs.push_back(run);
  }
  c.count("requests", runs.size());
  if (repeated) { c.label("a request repeated on the same data"); c.nontrivial(); }
}

// The same world, requests and process state but other ambient randomness: other keys.
static void fresh(Ctx &c) {
  uint64_t amb = c.u64(), sa = c.u64(), sb = sa ^ (1 + c.draw(0xffffffff));
  reseedAmbient(amb);
  Scene s;
  build(c, s, 3);
  World &w = s.w;
  w.wire.copyCells = false;
  auto keysUnder = [&](uint64_t seed) {
    ForkResult r = forked([&](std::string &rep) {
      reseedAmbient(seed);
      for (auto &rq : s.requests) {
        Member &a = *w.members[rq.first], &b = *w.members[rq.second];
        size_t from = w.wire.log.size();
        w.request(a, b);
        rep += exchange(w, from, a, b);
      }
    });
    PBT_CHECK(r.returned, "the runs did not end regularly: " << r.report << r.err.substr(0, 500));
    return r.report;
  };
  std::string ka = keysUnder(sa), kb = keysUnder(sb);
  PBT_CHECK(ka.size() == KEY * s.requests.size() && kb.size() == ka.size(), "not one key per request");
  std::set<std::string> all;
  for (auto *k : {&ka, &kb})
    for (size_t i = 0; i < k->size(); i += KEY)
      PBT_CHECK(all.insert(k->substr(i, KEY)).second, "the key " << hex(k->substr(i, KEY)) << " does not depend on the random state: it comes with the same data, secrets and names again");
  c.count("requests", 2 * s.requests.size());
  c.nontrivial();
}

// All bits of the key but the highest vary, and no key comes twice.
static void bits(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.wire.copyCells = false;
  w.P = params(c, 1, 1, 20);
  w.makeCloud("Cloud");
  Member &a = w.addMember("A", secret(c)), &b = w.addMember("B", secret(c));
  std::vector<ZZ> pool;
  w.outsource(a, elements(c, w.P, pool, 1));
  w.outsource(b, elements(c, w.P, pool, 1));
  std::set<std::string> keys;
  size_t n = c.weighted({8, 1}) == 0 ? 96 : c.range(258, 600), ones[128] = {0};
  for (size_t k = 0; k < n; k++) {
    w.wire.log.clear();
    size_t from = 0;
    Member &x = k % 2 ? a : b, &y = k % 2 ? b : a;
    w.request(x, y);
    std::string key = exchange(w, from, x, y);
    PBT_CHECK(keys.insert(key).second, "a key came twice: " << hex(key));
    ZZ z = ref::fromLE(key);
    for (long i = 0; i < 128; i++) ones[i] += NTL::bit(z, i);
  }
  for (long i = 0; i < 127; i++) PBT_CHECK(ones[i] > 0 && ones[i] < n, "bit " << i << " is the same in " << n << " keys");
  PBT_NOTE(c, n << " requests between two clients, secrets " << a.secret << " and " << b.secret);
  if (n > 256) c.label("more than 256 requests");
  c.count("requests", n);
  c.nontrivial();
}

const Property pbt::property = {
    "C17",
    "links: 1-6 (rarely up to 40) requests (half of them repeating the previous one) among 2-4 clients with arbitrary names, secrets (some shared) and data (some shared); every message on every "
    "link is recorded: exactly one cloud request per request with exactly the two names and a 128-bit key not used before, exactly one output from the cloud to the requester and "
    "one share from the responder to the requester, shares differing from those of every earlier run in every cell and from the unmasked combination.  fresh: the same requests from the "
    "same process state under two random states must use different keys.  bits: 96 (sometimes up to 600) keys, of which every bit but the highest takes both values.  Non-trivial: a request was repeated (links), any (others).",
    {{"links", links, 3500, 100000, 60}, {"fresh", fresh, 400, 12000, 60}, {"bits", bits, 60, 2000, 120}}};
