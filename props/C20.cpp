// C20: using the library again and again needs no more memory than before.
#include "proto.hpp"

#include "exception.h"
#include "outofboundex.h"
#include "ntlmiss.h"
#include "shabyte.h"
#include "shastr.h"
#include "simplebm.h"
#include "strint.h"
#include "zzppoly.h"
#include "zzpprf.h"
#include "zzprf.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace proto;

namespace {

typedef std::function<void()> Op;

size_t live() { return __sanitizer_get_current_allocated_bytes(); }

// Repeats the cycle; it fails when the memory in use keeps growing in proportion
// to the number of cycles, and not when a buffer reaches a size it then keeps.
void judge(Ctx &c, const Op &cycle, const std::string &what) {
  for (int i = 0; i < 4; i++) cycle();
  size_t cycles = 4;
  auto grows = [&](size_t n, size_t perCycle, long &by) {
    size_t before = live();
    for (size_t i = 0; i < n; i++) cycle();
    cycles += n;
    size_t after = live();
    by = (long) after - (long) before;
    return after >= before + n * perCycle && after > before;
  };
  long by = 0;
  for (int k = 0; k < 4; k++)
    if (!grows(3, 1, by)) {
      c.count("cycles", cycles);
      return;
    }
  c.label("confirmed at length");
  long sum = 0;
  for (int k = 0; k < 5; k++) {
    if (!grows(10, 1, by)) {
      c.count("cycles", cycles);
      return;
    }
    sum += by;
  }
  PBT_FAIL("the memory in use grows by " << sum / 50 << " bytes with every repetition of: " << what);
}

// ---------------------------------------------------------------- protocol runs

enum Refusal { NOBODY, ITSELF, WRONG_TYPE, NO_TERMINATOR, WRONG_NAME, NO_DATA, TO_NOBODY, NO_PARTNER, SHORT_KEY, SHORT_CELLS, NULL_SHARE, REFUSALS };

void refuse(World &w, Member &m, int kind, bool toCloud) {
  EOPSIParty *R = toCloud ? (EOPSIParty *) w.cloud.get() : (EOPSIParty *) m.now->client;
  EOPSIParty *other = nullptr;
  for (auto &o : w.members)
    if (o.get() != &m) other = o->now->client;
  std::string text = other->getId() + std::string(1, '\0') + "\x07" + std::string(1, '\0');
  EOPSIMessage msg;
  msg.setPartyId(other->getId());
  msg.setType(toCloud ? EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST : EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST);
  switch (kind) {
    case NOBODY: msg.setPartyId("nobody at all"); break;
    case ITSELF: msg.setPartyId(R->getId()); break;
    case WRONG_TYPE: msg.setType(EOPSI_MESSAGE_UNKNOWN); break;
    case NO_TERMINATOR: text = text.substr(0, other->getId().size()); break;
    case WRONG_NAME: text = "x" + text; break;
    case NO_DATA: text.clear(); break;
    case TO_NOBODY:
    case NO_PARTNER: text = other->getId() + std::string(1, '\0') + "nobody at all" + std::string(1, '\0') + std::string(16, 'k') + std::string(1, '\0'); break;
    case SHORT_KEY: text = other->getId() + std::string(1, '\0') + m.id + std::string(1, '\0') + std::string(15, 'k'); break;
    case SHORT_CELLS: msg.setType(EOPSI_MESSAGE_OUTSOURCING_DATA); break;
    default: msg.setType(EOPSI_MESSAGE_POLYNOMIAL); text.clear(); break;
  }
  // those a client may well accept are only sent to the cloud
  if (!toCloud && (kind == TO_NOBODY || kind == NO_PARTNER || kind == SHORT_KEY)) {
    text = "x" + text;
  }
  std::vector<char> data(text.begin(), text.end());
  if (!data.empty()) {
    // short of the cells in any table, and never read
    msg.setData(data.data(), kind == SHORT_CELLS ? 1 : data.size());
  }
  bool threw = false;
  try {
    R->receive(&msg);
  } catch (ProtocolException &) {
    threw = true;
  }
  if (!threw) throw Discard();  // not this property's business
}

void runs(Ctx &c) {
  reseedAmbient(c.u64());
  World w;
  w.P = params(c, 4, 3, 60);
  std::vector<std::string> ids;
  size_t n = c.range(2, 3);
  for (size_t i = 0; i <= n; i++) ids.push_back(name(c, ids));
  w.makeCloud(ids[n]);
  w.cloud->wire = nullptr;
  std::vector<ZZ> pool;
  std::vector<std::vector<std::vector<ZZ>>> sets(n);
  PBT_NOTE(c, w.P << ", " << n << " clients");
  for (size_t i = 0; i < n; i++) {
    Member &m = w.addMember(ids[i], secret(c));
    for (int k = 0; k < 2; k++) sets[i].push_back(elements(c, w.P, pool, w.P.length * w.P.height));
    w.outsource(m, sets[i][0]);
    m.now->client->wire = nullptr;
  }
  std::vector<Op> plan;
  std::string what;
  size_t ops = c.range(1, 4), served = 0, refused = 0;
  for (size_t k = 0; k < ops; k++) {
    size_t i = c.draw(n), j = (i + 1 + c.draw(n - 1)) % n;
    World *pw = &w;
    Member *a = w.members[i].get(), *b = w.members[j].get();
    std::ostringstream o;
    switch (c.weighted({4, 3, 2, 1, 1, 1, 1, 1})) {
      case 0:
        plan.push_back([=] { pw->request(*a, *b); });
        o << "client " << i << " requests from client " << j;
        served++;
        break;
      case 1: {
        int kind = (int) c.draw(REFUSALS);
        bool toCloud = c.coin();
        plan.push_back([=] { refuse(*pw, *a, kind, toCloud); });
        o << (toCloud ? "the cloud" : "client " + std::to_string(i)) << " refuses a message of kind " << kind;
        refused++;
        break;
      }
      case 2: {
        auto *set = &sets[i];
        auto turn = std::make_shared<size_t>(0);
        plan.push_back([=] {
          pw->outsource(*a, (*set)[++*turn % 2]);
          a->now->client->wire = nullptr;
        });
        o << "client " << i << " is replaced by one with other data";
        break;
      }
      case 3:  // two messages held back and given in the other order
        plan.push_back([=] {
          std::vector<EOPSIMessage> held;
          a->now->client->hook = [&](EOPSIMessage *m) {
            if (m->getType() != EOPSI_MESSAGE_OUTPUT_COMPUTATION && m->getType() != EOPSI_MESSAGE_POLYNOMIAL) return true;
            held.push_back(*m);
            return false;
          };
          pw->request(*a, *b);
          a->now->client->hook = nullptr;
          for (size_t x = held.size(); x-- > 0;) a->now->client->deliver(&held[x]);
        });
        o << "client " << i << " gets its shares from client " << j << " late and in the other order";
        served++;
        break;
      case 4: {  // a request the cloud refuses: somebody it holds no data of
        auto stranger = std::make_shared<Member>();
        stranger->id = name(c, ids);
        stranger->secret = ZZ(7);
        stranger->now = w.hold(*stranger, sets[i][0]);
        stranger->now->client->wire = nullptr;
        stranger->now->client->authenticate(*a->now->client);
        plan.push_back([=] {
          a->now->client->authenticate(*stranger->now->client);
          bool threw = false;
          try {
            pw->request(*stranger, *a);
          } catch (ProtocolException &) {
            threw = true;
          }
          if (!threw) throw Discard();
        });
        o << "a client without outsourced data requests from client " << i;
        ids.push_back(stranger->id);
        refused++;
        break;
      }
      case 5:  // one of the two shares gets lost, now and then together with its client
        {
          bool first = c.coin(), gone = c.coin();
          auto *set = &sets[i];
          plan.push_back([=] {
            a->now->client->hook = [=](EOPSIMessage *m) {
              if (m->getType() != (first ? EOPSI_MESSAGE_OUTPUT_COMPUTATION : EOPSI_MESSAGE_POLYNOMIAL)) return true;
              delete[] (vec_ZZ_p *) m->getData();
              return false;
            };
            pw->request(*a, *b);
            a->now->client->hook = nullptr;
            if (gone) {
              pw->outsource(*a, (*set)[0]);
              a->now->client->wire = nullptr;
            }
          });
          o << "client " << i << " gets only one of the shares from client " << j << (gone ? " and is replaced" : "");
          c.label("a share lost");
        }
        break;
      case 6: {  // asked without knowing a cloud
        auto lonely = std::make_shared<Member>();
        lonely->id = name(c, ids);
        lonely->secret = ZZ(9);
        lonely->now = w.hold(*lonely, sets[i][0]);
        lonely->now->client->wire = nullptr;
        lonely->now->client->authenticate(*a->now->client);
        plan.push_back([=] {
          lonely->now->client->authenticate(*a->now->client);
          a->now->client->authenticate(*lonely->now->client);
          bool threw = false;
          try {
            pw->request(*a, *lonely);
          } catch (ProtocolException &) {
            threw = true;
          }
          if (!threw) throw Discard();
        });
        o << "client " << i << " requests from a client that knows no cloud";
        ids.push_back(lonely->id);
        refused++;
        break;
      }
      default:  // the same message stored again
        plan.push_back([=] { pw->store(*a); });
        o << "client " << i << " outsources the same data again";
    }
    PBT_NOTE(c, o.str());
    what += (k ? "; " : "") + o.str();
  }
  judge(c, [&] { for (auto &op : plan) op(); }, what);
  if (served) c.label("runs served");
  if (refused) c.label("messages refused");
  c.nontrivial();
}

// ------------------------------------------------------------------ components

const byte *bytesOf(const std::string &s) { return (const byte *) s.data(); }

// copies made, assigned and let go, where the class allows it
template <typename T, typename Use>
void copying(const T &used, T &kept, Use use) {
  if constexpr (std::is_copy_constructible_v<T>) {
    T d(used);
    use(d);
    if constexpr (std::is_copy_assignable_v<T>) {
      T e(d);
      e = kept;
      use(e);
      e = used;
      kept = e;
      d = *&d;
      use(d);
      use(kept);
    }
  }
}

void components(Ctx &c) {
  reseedAmbient(c.u64());
  size_t bits = c.range(64, 200);
  ZZ p = gen::prime(c, bits);
  ZZ_p::init(p);
  std::vector<Op> plan;
  std::string what;
  size_t ops = c.range(1, 6);
  for (size_t k = 0; k < ops; k++) {
    bool fresh = c.coin();  // objects made and destroyed in every cycle, or kept
    std::ostringstream o;
    o << (fresh ? "new " : "kept ");
    switch (c.draw(9)) {
      case 0: {
        std::string s = c.bytes(c.range(0, 200));
        HashFlavour f = c.coin() ? SHA1_FLAVOUR : SHA256_FLAVOUR;
        size_t len = c.draw(24), times = c.range(1, 4);
        ZZ v = gen::below(c, p);
        bool copy = c.coin();
        auto a = std::make_shared<SHAByteArray>(f);
        auto b = std::make_shared<SHAString>(f);
        auto z = std::make_shared<SHAZZp>(f);
        auto m = std::make_shared<MurmurHash3>((uint32_t) len);
        plan.push_back([=] {
          auto use = [&](SHAByteArray &a, SHAString &b, SHAZZp &z, MurmurHash3 &m) {
            ZZ_p e;
            conv(e, v);
            for (size_t i = 0; i < times; i++) {
              a.hash((byte *) s.data(), s.size());
              b.hash(s, len);
              z.hash(e, len);
              m.hash(e, len);
              a.readableDigest(bytesOf(s), s.size());
              b.readableDigest(b.hash(s, len), b.hashSize());
              m.name() + z.name() + b.name() + a.name();
            }
          };
          if (!fresh) return use(*a, *b, *z, *m);
          SHAByteArray a2(f);
          SHAString b2(f);
          SHAZZp z2(f);
          MurmurHash3 m2((uint32_t) len);
          use(a2, b2, z2, m2);
          if (copy) {
            SHAByteArray a3(a2);
            SHAString b3(b2);
            use(a3, b3, z2, m2);
            a3 = *a;
            b3 = *b;
            use(a3, b3, z2, m2);
          }
        });
        o << "hash algorithms" << (copy ? ", copied" : "");
        break;
      }
      case 1: {
        size_t length = c.range(1, 6), load = c.range(1, 6), changes = c.draw(3);
        std::vector<ZZ> els;
        for (size_t i = c.range(0, load); i > 0; i--) els.push_back(gen::below(c, p));
        bool fill = c.coin(), stats = c.chance(1, 4), copies = c.coin();
        auto h = std::make_shared<MurmurHash3>(1), h2 = std::make_shared<MurmurHash3>(2);
        auto sha = std::make_shared<SHAZZp>(SHA256_FLAVOUR);
        auto prf = std::make_shared<ZZpPRF>(p);
        auto kept = std::make_shared<HashBuckets<ZZ_p>>(length, load, h.get());
        for (auto &v : els) {
          ZZ_p e;
          conv(e, v);
          kept->add(e);
        }
        plan.push_back([=] {
          if (!fresh) {
            for (size_t i = 0; i < changes + 1; i++) kept->setHashAlgorithm(i % 2 ? (HashAlgorithm<ZZ_p> *) sha.get() : h2.get());
            kept->size();
            if (stats) kept->printStats(true);
            return;
          }
          HashBuckets<ZZ_p> b(length, load, h.get());
          for (size_t i = 0; i < changes; i++) b.setHashAlgorithm(i % 2 ? (HashAlgorithm<ZZ_p> *) sha.get() : h2.get());
          ZZ_p e;
          for (auto &v : els) {
            conv(e, v);
            b.add(e);
          }
          for (size_t i = 0; i < changes; i++) b.setHashAlgorithm(i % 2 ? (HashAlgorithm<ZZ_p> *) sha.get() : h.get());
          if (fill) b.conceal(*prf);
          if (stats) b.printStats(true);
          if (copies)
            copying(b, *kept, [&](HashBuckets<ZZ_p> &t) {
              if (fill) t.conceal(*prf);
              if (stats) t.printStats(true);
            });
        });
        o << "hash table" << (copies ? ", copied" : "") << (changes || !fresh ? ", other algorithm set" : "") << (fill ? ", concealed" : "");
        break;
      }
      case 2: {
        ZZ seed = gen::natural(c, c.range(1, 300));
        size_t index = c.drawHot(0), b = c.range(1, 500), times = c.range(1, 3);
        bool own = c.coin(), copies = c.coin();
        auto kept = std::make_shared<ZZPRF>();
        plan.push_back([=] {
          auto use = [&](ZZPRF &g) {
            for (size_t i = 0; i < times; i++) {
              g.generate(seed, index + i, b + 8 * i);
              if (own) g.generate(index, b);
            }
          };
          if (!fresh) return use(*kept);
          ZZPRF g;
          use(g);
          if (copies) {
            ZZPRF d(g), e;
            e = d;
            e = *kept;
            use(d);
            use(e);
          }
        });
        o << "integer generator, " << b << " bits" << (own ? ", own seed" : "") << (copies ? ", copied" : "");
        break;
      }
      case 3: {
        ZZ seed = gen::below(c, p);
        size_t index = c.drawHot(0), b = c.range(0, 300), times = c.range(1, 3);
        bool given = c.coin(), modulo = c.coin(), copies = c.coin();
        auto base = std::make_shared<ZZPRF>();
        auto kept = given ? std::make_shared<ZZpPRF>(p, base.get()) : std::make_shared<ZZpPRF>(p);
        plan.push_back([=] {
          ZZ_p s;
          conv(s, seed);
          auto use = [&](ZZpPRF &g) {
            for (size_t i = 0; i < times; i++) g.generate(s, index + i, b);
            if (modulo) g.setModulo(g.getModulo());
          };
          if (!fresh) return use(*kept);
          ZZpPRF g(p, given ? base.get() : nullptr);
          use(g);
          if (copies) copying(g, *kept, use);
        });
        o << "field generator" << (copies ? ", copied" : "") << (given ? " from an integer generator" : "") << (modulo ? ", modulus set again" : "");
        break;
      }
      case 4: {
        size_t nmax = c.range(1, 4), pad = c.range(1, 40), rounds = c.range(1, 3);
        std::vector<size_t> ns;
        std::vector<int> ways;
        for (size_t i = 0; i < rounds; i++) {
          ns.push_back(c.draw(nmax + 1));
          ways.push_back((int) c.draw(5));
        }
        bool copies = c.coin();
        PolynomialFactoringAlgorithm pfa = c.coin() ? PFA_BERLEKAMP : PFA_CANZASS;
        std::vector<std::vector<ZZ>> roots(nmax);
        for (auto &r : roots)
          for (size_t i = c.range(1, 4); i > 0; i--) r.push_back(c.coin() ? gen::below(c, p) : ZZ((long) c.draw(9)) << (long) pad);
        auto x = std::make_shared<vec_ZZ_p>();
        std::shared_ptr<vec_ZZ_p> y(new vec_ZZ_p[nmax], [](vec_ZZ_p *q) { delete[] q; });
        x->SetLength(6);
        for (long i = 0; i < 6; i++) conv((*x)[i], i + 1);
        for (size_t j = 0; j < nmax; j++) {
          y.get()[j].SetLength(6);
          for (long i = 0; i < 6; i++) conv(y.get()[j][i], ref::evalRoots(roots[j], ZZ(i + 1), p));
        }
        auto kept = std::make_shared<ZZpPolynomials>(pad);
        plan.push_back([=] {
          auto use = [&](ZZpPolynomials &z) {
            for (size_t i = 0; i < rounds; i++) {
              if (ways[i] == 0) {
                z.findIntersection(*x, y.get(), ns[i], pfa);
                continue;
              }
              z.interpolate(*x, y.get(), ns[i], ways[i] != 2);
              if (ways[i] == 2) z.makeMonic();
              if (ways[i] == 4) continue;
              z.factorise(pfa);
              if (ways[i] == 3) z.factorise(pfa);
              z.findIntersection();
              z.findIntersection();
            }
          };
          if (!fresh) return use(*kept);
          ZZpPolynomials z(pad);
          use(z);
          if (copies) copying(z, *kept, use);
        });
        o << "batch of polynomials" << (copies ? ", copied" : "");
        break;
      }
      case 5: {
        std::string s = c.bytes(c.range(0, 80)), s2 = c.bytes(c.range(0, 80));
        size_t len = c.range(1, 60), words = c.draw(3);
        bool copies = c.coin();
        unsigned long w = c.u64();
        auto kept = std::make_shared<StrInt>(len);
        plan.push_back([=] {
          auto use = [&](StrInt &n) {
            n.set(bytesOf(s), s.size());
            for (size_t i = 0; i < words; i++) { n.add(w); n.inc(); }
            n.rem(w ? w : 1);
            n.lsb();
            n.toString();
            byte *b = n.toBytes(nullptr, nullptr);
            delete[] b;
            byte small[100];
            size_t room = sizeof small;
            b = n.toBytes(small, &room);
            if (b != small) delete[] b;
            n.set(bytesOf(s2), s2.size());
            n.set(w);
          };
          if (!fresh) return use(*kept);
          StrInt n(len), n2(len, bytesOf(s), s.size());
          use(n);
          use(n2);
          if (copies) copying(n2, *kept, use);
        });
        o << "number from bytes" << (copies ? ", copied" : "");
        break;
      }
      case 6: {
        std::vector<std::pair<int, std::string>> marks;
        for (size_t i = c.range(0, 8); i > 0; i--) marks.push_back({(int) c.draw(4), std::string(1, (char) ('a' + c.draw(4)))});
        bool copies = c.coin();
        size_t room = c.coin() ? 512 : c.range(1, 6);
        auto kept = std::make_shared<SimpleBenchmark>(room);
        plan.push_back([=] {
          auto use = [&](SimpleBenchmark &b) {
            b.start();
            for (auto &m : marks) {
              if (m.first < 2) b.step(b.isPaused() ? "" : m.second);
              else if (m.first == 2) b.pause();
              else b.cont();
            }
            b.stop();
            b.cumulativeBenchmark();
            b.benchmark(std::string("a"));
            b.average();
            b.variance();
            b.max();
            b.min();
          };
          if (!fresh) return use(*kept);
          SimpleBenchmark b(room);
          use(b);
          if (copies) copying(b, *kept, use);
        });
        o << "stopwatch" << (copies ? ", copied" : "");
        break;
      }
      case 7: {
        std::string text = c.bytes(c.range(0, 60));
        plan.push_back([=] {
          for (int k = 0; k < 3; k++) {
            try {
              switch (k) {
                case 0: throw ProtocolException(text);
                case 1: throw OutOfBoundException(text, false);
                default: throw Exception(text, false);
              }
            } catch (std::exception &e) {
              if (e.what() == nullptr) throw Discard();
            }
          }
        });
        o << "exceptions";
        break;
      }
      default: {  // clients and clouds, and what they read
        Params P;
        P.p = p;
        P.field = bits;
        P.bits = 8;
        P.length = c.range(1, 4);
        P.height = c.range(1, 4);
        P.degree = 2 * P.height + 1;
        ZZ v = gen::natural(c, 8), secret = gen::natural(c, 100);
        bool data = c.coin(), asBytes = c.coin();
        plan.push_back([=] {
          World w;
          w.P = P;
          w.makeCloud("cloud");
          Member &m = w.addMember("client", secret);
          if (data) {
            w.outsource(m, {v}, 1, asBytes);
          } else {
            MurmurHash3 h(0);
            HashBuckets<ZZ_p> b(P.length, P.height, &h);
            Client cl(b, P.p, P.length, P.height, P.degree, "client", secret);
            cl.authenticate(*w.cloud);
            w.cloud->authenticate(cl);
            cl.setSecret(secret + 1);
            cl.getIntersection();
          }
          std::vector<ZZ_p> vs(3);
          vec_ZZ_p out;
          NTL::vector2VecZZp(out, vs);
          out = NTL::vector2VecZZp(vs);
          NTL::zeroPad(v, 40);
        });
        o << "parties" << (data ? " with data" : "");
      }
    }
    PBT_NOTE(c, o.str());
    what += (k ? "; " : "") + o.str();
  }
  judge(c, [&] { for (auto &op : plan) op(); }, what);
  c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C20",
    "Random cycles are repeated at least 7 times while the live heap is metered (AddressSanitizer): runs: 1-4 steps of one cloud with 2-3 clients (requests, shares held back, "
    "swapped or lost, messages refused for 13 reasons, clients replaced, data outsourced again); components: 1-6 steps with kept or newly made hash algorithms, hash tables, "
    "generators, batches of polynomials, numbers, stopwatches, exceptions and parties.  Fails when the live heap grows by at least a byte per cycle in 9 consecutive windows "
    "(62 cycles).  Every case is non-trivial: it allocates and repeats.",
    {{"runs", runs, 500, 20000, 120}, {"components", components, 3000, 100000, 120}}};
