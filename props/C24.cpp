// C24: copies are objects of their own.
#include "proto.hpp"

#include "exception.h"
#include "markedvector.hpp"
#include "outofboundex.h"
#include "shabyte.h"
#include "shastr.h"
#include "shazzp.h"
#include "simplebm.h"
#include "strint.h"
#include "zzppoly.h"
#include "zzpprf.h"
#include "zzprf.h"

#include <type_traits>

using namespace proto;

namespace {

HashFlavour flavour(bool b) { return b ? SHA256_FLAVOUR : SHA1_FLAVOUR; }

// Something done with an object, and what it gives
template <typename T>
using Op = std::function<void(T &, std::ostream &)>;

template <typename T>
struct Kind {
  std::function<std::function<T *()>(Ctx &)> make;       // a recipe for new objects
  std::function<Op<T>(Ctx &, std::string &)> op;         // a random operation and its name
  Op<T> observe;                                         // everything that can be read
};

// What the object gives when the operation is done; exceptions are results
template <typename T>
void apply(const Op<T> &op, T &t, std::string &transcript) {
  std::ostringstream o;
  try {
    op(t, o);
  } catch (CheckFailed &) {
    throw;
  } catch (std::exception &e) {
    o << "exception " << e.what();
  }
  transcript += o.str() + "\n";
}

template <typename T>
struct Slot {
  std::function<T *()> recipe;
  std::unique_ptr<T> object;
  std::vector<std::shared_ptr<Op<T>>> history;
  std::string transcript;
  size_t copied = 0;
};

template <typename T>
void copies(Ctx &c, const Kind<T> &k, const std::string &what) {
  if constexpr (std::is_copy_constructible_v<T>) {
    c.label(what);
    std::vector<Slot<T>> s;
    std::ostringstream trail;
    auto fresh = [&] {
      Slot<T> x;
      x.recipe = k.make(c);
      x.object.reset(x.recipe());
      s.push_back(std::move(x));
    };
    auto act = [&](T &t, Slot<T> &x, std::string &name) {
      auto op = std::make_shared<Op<T>>(k.op(c, name));
      apply(*op, t, x.transcript);
      x.history.push_back(op);
    };
    auto judge = [&](Slot<T> &x, T &t, const std::string &when) {
      std::string live = x.transcript, again;
      apply(k.observe, t, live);
      std::unique_ptr<T> r(x.recipe());
      for (auto &op : x.history) apply(*op, *r, again);
      apply(k.observe, *r, again);
      if (live == again) return;
      size_t i = 0;
      while (i < live.size() && i < again.size() && live[i] == again[i]) i++;
      size_t from = i < 40 ? 0 : i - 40;
      PBT_FAIL(what << " " << when << " differs from one that has done the same without copying: ..." << live.substr(from, 120) << " instead of ..." << again.substr(from, 120)
                    << " (" << trail.str() << ")");
    };
    fresh();
    size_t n = c.range(3, 24), made = 0, after = 0;
    PBT_NOTE(c, what);
    for (size_t i = 0; i < n; i++) {
      size_t a = c.draw(s.size()), b = c.draw(s.size());
      std::string name;
      size_t did = c.weighted({6, 3, 3, 2, 1, 2});
      if (s.size() == 6 && (did == 1 || did == 4)) did = 3;
      if (s.size() == 1 && did == 3) did = 1;
      std::ostringstream step;
      switch (did) {
        case 0:
          act(*s[a].object, s[a], name);
          if (s[a].copied) after++;
          step << name << " on " << a;
          break;
        case 1: {
          Slot<T> x;
          x.recipe = s[a].recipe;
          x.history = s[a].history;
          x.transcript = s[a].transcript;
          x.object.reset(new T(*s[a].object));
          x.copied = s[a].copied = 1;
          s.push_back(std::move(x));
          made++;
          step << "copy of " << a;
          break;
        }
        case 2:
          if constexpr (std::is_copy_assignable_v<T>) {
            T &r = (*s[a].object = *s[b].object);
            PBT_CHECK(&r == s[a].object.get(), what << ": an assignment does not give the object assigned to");
            if (a != b) {
              s[a].recipe = s[b].recipe;
              s[a].history = s[b].history;
              s[a].transcript = s[b].transcript;
              s[a].copied = s[b].copied = 1;
            }
            made++;
            step << b << " assigned to " << a;
          }
          break;
        case 3:
          s.erase(s.begin() + (long) a);
          step << a << " destroyed";
          break;
        case 4:
          fresh();
          step << "a new one";
          break;
        default: {
          T t(*s[a].object);
          Slot<T> x;
          x.recipe = s[a].recipe;
          x.history = s[a].history;
          x.transcript = s[a].transcript;
          for (size_t j = c.range(0, 3); j > 0; j--) {
            act(t, x, name);
            step << name << ", ";
          }
          judge(x, t, "copied for a while");
          made++;
          step << "on a copy of " << a << " for a while";
          s[a].copied = 1;
        }
      }
      PBT_NOTE(c, step.str());
      trail << step.str() << "; ";
      if (c.chance(1, 4)) {
        Slot<T> &x = s[c.draw(s.size())];
        judge(x, *x.object, "");
      }
    }
    for (auto &x : s) judge(x, *x.object, x.copied ? "that has been copied" : "");
    c.count("copies", made);
    if (made > 0 && after > 0) c.nontrivial();
  }
}

// -- the kinds -----------------------------------------------------------------

void numbers(Ctx &c) {
  Kind<StrInt> k;
  k.make = [](Ctx &c) {
    size_t len = c.range(1, 40);
    std::string b = c.bytes(c.range(0, 40));
    bool given = c.coin();
    return [=] { return given && !b.empty() ? new StrInt(len, (const byte *) b.data(), b.size()) : new StrInt(len); };
  };
  k.op = [](Ctx &c, std::string &name) -> Op<StrInt> {
    switch (c.draw(4)) {
      case 0: {
        std::string b = c.bytes(c.range(0, 50));
        name = "set bytes";
        return [=](StrInt &n, std::ostream &) { n.set((const byte *) b.data(), b.size()); };
      }
      case 1: {
        unsigned long v = c.u64();
        name = "set word";
        return [=](StrInt &n, std::ostream &) { n.set(v); };
      }
      case 2: {
        name = "increment";
        return [](StrInt &n, std::ostream &) { n.inc(); };
      }
      default: {
        unsigned long v = c.u64();
        name = "add";
        return [=](StrInt &n, std::ostream &) { n.add(v); };
      }
    }
  };
  k.observe = [](StrInt &n, std::ostream &o) { o << n << " " << n.rem(1000003) << " " << n.lsb() << " " << n.getByteSize(); };
  copies(c, k, "numbers from bytes");
}

void tables(Ctx &c) {
  ZZ p = gen::prime(c, c.range(64, 128));
  ZZ_p::init(p);
  // algorithms are not owned by the tables
  std::vector<std::shared_ptr<HashAlgorithm<ZZ_p>>> algs;
  for (int i = 0; i < 3; i++) {
    Params P;
    P.alg = i;
    P.algSeed = 42;
    algs.push_back(std::shared_ptr<HashAlgorithm<ZZ_p>>(P.newHash()));
  }
  typedef HashBuckets<ZZ_p> T;
  Kind<T> k;
  bool plain = c.chance(1, 5);  // without any algorithm
  k.make = [algs, plain](Ctx &c) {
    size_t length = c.range(1, 5), load = c.range(1, 5), alg = c.draw(3);
    return [=] { return new T(length, load, plain ? nullptr : algs[alg].get()); };
  };
  // adding to a full bucket ends the program
  auto room = [](T &t) {
    for (size_t i = 0; i < t.getLength(); i++)
      if (t.getBucket(i).size() >= t.getMaxLoad()) return false;
    return true;
  };
  k.op = [=](Ctx &c, std::string &name) -> Op<T> {
    switch (c.weighted({plain ? 0u : 6u, plain ? 9u : 3u, 1, plain ? 0u : 1u, 2})) {
      case 0: {
        ZZ v = gen::below(c, p);
        name = "add";
        return [=](T &t, std::ostream &o) {
          ZZ_p e;
          conv(e, v);
          if (room(t)) t.add(e);
          o << t.size();
        };
      }
      case 1: {
        ZZ v = gen::below(c, p);
        size_t i = c.draw(5);
        name = "add to bucket";
        return [=](T &t, std::ostream &o) {
          ZZ_p e;
          conv(e, v);
          if (i < t.getLength() && t.getBucket(i).size() < t.getMaxLoad()) t.addToBucket(e, i);
          o << t.size();
        };
      }
      case 2:
        name = "conceal";
        return [=](T &t, std::ostream &o) {
          randHook = [] { return 12345; };
          struct Unhook { ~Unhook() { randHook = nullptr; } } unhook;
          ZZpPRF g(p);
          t.conceal(g);
          o << t.size();
        };
      case 3: {
        auto a = algs[c.draw(3)];
        name = "set algorithm";
        return [=](T &t, std::ostream &) { t.setHashAlgorithm(a.get()); };
      }
      default:
        name = "statistics";
        return [](T &t, std::ostream &o) {
          bool full = true;
          o << captureCout([&] { t.printStats(full); });
        };
    }
  };
  k.observe = [](T &t, std::ostream &o) {
    o << t.getLength() << " " << t.getMaxLoad() << " " << t.size() << ":";
    for (size_t i = 0; i < t.getLength(); i++) {
      auto b = t.getBucket(i);
      o << " [" << (MarkedVector<ZZ_p>(b).isMarked() ? "m" : "");
      for (auto &e : b) o << " " << e;
      o << "]";
    }
  };
  copies(c, k, "hash tables");
}

void batches(Ctx &c) {
  ZZ p = gen::prime(c, c.range(64, 100));
  ZZ_p::init(p);
  typedef ZZpPolynomials T;
  Kind<T> k;
  k.make = [](Ctx &c) {
    size_t pad = c.range(1, 40);
    return [=] { return new T(pad); };
  };
  auto values = [p](Ctx &c, size_t n) {
    std::vector<std::vector<ZZ>> y(n);
    for (auto &v : y) {
      std::vector<ZZ> roots;
      for (size_t i = c.range(0, 3); i > 0; i--) roots.push_back((ZZ((long) c.draw(9)) << (long) c.range(0, 42)) % p);
      for (long i = 0; i < 5; i++) v.push_back(ref::evalRoots(roots, ZZ(i + 1), p));
    }
    return y;
  };
  auto put = [](const std::vector<std::vector<ZZ>> &y, vec_ZZ_p &x, std::unique_ptr<vec_ZZ_p[]> &v) {
    x.SetLength(5);
    for (long i = 0; i < 5; i++) conv(x[i], i + 1);
    v.reset(new vec_ZZ_p[y.size()]);
    for (size_t j = 0; j < y.size(); j++) {
      v[j].SetLength(5);
      for (long i = 0; i < 5; i++) conv(v[j][i], y[j][(size_t) i]);
    }
  };
  k.op = [=](Ctx &c, std::string &name) -> Op<T> {
    PolynomialFactoringAlgorithm pfa = c.coin() ? PFA_CANZASS : PFA_BERLEKAMP;
    switch (c.weighted({3, 3, 2, 3})) {
      case 0: {
        auto y = values(c, c.range(1, 3));
        name = "interpolate";
        return [=](T &t, std::ostream &) {
          vec_ZZ_p x;
          std::unique_ptr<vec_ZZ_p[]> v;
          put(y, x, v);
          t.interpolate(x, v.get(), y.size());
        };
      }
      case 1:
        name = "factorise";
        return [=](T &t, std::ostream &) { t.factorise(pfa); };
      case 2:
        name = "roots";
        return [](T &t, std::ostream &o) {
          for (auto &z : asList(t.findIntersection())) o << z << " ";
        };
      default: {
        auto y = values(c, c.range(1, 3));
        name = "interpolate and factorise";
        return [=](T &t, std::ostream &o) {
          vec_ZZ_p x;
          std::unique_ptr<vec_ZZ_p[]> v;
          put(y, x, v);
          for (auto &z : asList(t.findIntersection(x, v.get(), y.size(), pfa))) o << z << " ";
        };
      }
    }
  };
  k.observe = [](T &t, std::ostream &o) {
    o << t.size() << " " << t.getPadsize() << " " << t << " ";
    std::vector<std::string> r;
    for (auto &z : asList(t.findIntersection())) o << z << " ";
  };
  copies(c, k, "polynomial batches");
}

template <typename T>
void bytesHash(Ctx &c, const std::string &what) {
  Kind<T> k;
  k.make = [](Ctx &c) {
    bool f = c.coin();
    return [=] { return new T(flavour(f)); };
  };
  k.op = [](Ctx &c, std::string &name) -> Op<T> {
    std::string s = c.bytes(c.range(1, 80));
    size_t len = c.draw(100);
    name = "hash";
    return [=](T &t, std::ostream &o) {
      if constexpr (std::is_same_v<T, SHAByteArray>) o << hex(t.hash((byte *) s.data(), s.size()), t.hashSize());
      else o << hex(t.hash(s, len), t.hashSize());
    };
  };
  k.observe = [](T &t, std::ostream &o) {
    std::string s = "observed";
    o << t.name() << " " << t.hashSize() << " ";
    if constexpr (std::is_same_v<T, SHAByteArray>) o << hex(t.hash((byte *) s.data(), s.size()), t.hashSize());
    else o << hex(t.hash(s), t.hashSize());
  };
  copies(c, k, what);
}

template <typename T>
void elementHash(Ctx &c, const std::string &what) {
  ZZ p = gen::prime(c, c.range(64, 200));
  ZZ_p::init(p);
  Kind<T> k;
  k.make = [](Ctx &c) {
    uint64_t s = c.u64();
    return [=] {
      if constexpr (std::is_same_v<T, MurmurHash3>) return new T((uint32_t) s);
      else return new T(flavour(s & 1));
    };
  };
  k.op = [p](Ctx &c, std::string &name) -> Op<T> {
    ZZ v = gen::below(c, p);
    size_t len = c.draw(40);
    name = "hash";
    return [=](T &t, std::ostream &o) {
      ZZ_p e;
      conv(e, v);
      o << hex(t.hash(e, len), t.hashSize());
    };
  };
  k.observe = [](T &t, std::ostream &o) {
    ZZ_p e;
    conv(e, 12345);
    o << t.name() << " " << t.hashSize() << " " << hex(t.hash(e), t.hashSize());
  };
  copies(c, k, what);
}

void generators(Ctx &c) {
  Kind<ZZPRF> k;
  k.make = [](Ctx &) { return [] { return new ZZPRF; }; };
  k.op = [](Ctx &c, std::string &name) -> Op<ZZPRF> {
    size_t index = c.coin() ? c.draw(5) : c.u64(), bits = c.range(1, 400);
    ZZ seed = gen::natural(c, c.range(1, 300));
    int r = (int) c.draw(1000);
    switch (c.weighted({3, 2, 2})) {
      case 0:
        name = "generate from a seed";
        return [=](ZZPRF &g, std::ostream &o) { o << g.generate(seed, index, bits); };
      case 1:
        name = "generate from the own seed";
        return [=](ZZPRF &g, std::ostream &o) {
          randHook = [=] { return r; };
          struct Unhook { ~Unhook() { randHook = nullptr; } } unhook;
          o << g.generate(index, bits);
        };
      default:
        name = "generate the next";
        return [=](ZZPRF &g, std::ostream &o) {
          randHook = [=] { return r + 1; };
          struct Unhook { ~Unhook() { randHook = nullptr; } } unhook;
          PseudoRandom<ZZ, ZZ> &h = g;
          o << h.generate();
        };
    }
  };
  k.observe = [](ZZPRF &g, std::ostream &o) {
    randHook = [] { return 77; };
    struct Unhook { ~Unhook() { randHook = nullptr; } } unhook;
    o << g.generate(ZZ(5), 6, 70) << " " << g.generate((size_t) 3, (size_t) 90);
  };
  // observing may draw the own seed: not part of the history, so it is done on a copy
  auto see = k.observe;
  k.observe = [see](ZZPRF &g, std::ostream &o) {
    ZZPRF d(g);
    see(d, o);
  };
  copies(c, k, "integer generators");
}

void fieldGenerators(Ctx &c) {
  ZZ p = gen::prime(c, c.range(64, 160));
  ZZ_p::init(p);
  Kind<ZZpPRF> k;
  k.make = [p](Ctx &c) {
    ZZ m = c.coin() ? p : NTL::power2_ZZ((long) c.range(8, 64)) + 1;
    return [=] { return new ZZpPRF(m); };
  };
  k.op = [p](Ctx &c, std::string &name) -> Op<ZZpPRF> {
    size_t index = c.coin() ? c.draw(5) : c.u64(), bits = c.range(0, 300);
    ZZ seed = gen::below(c, p);
    int r = 1 + (int) c.draw(1000);
    switch (c.weighted({3, 2, 2, 1})) {
      case 0:
        name = "generate from a seed";
        return [=](ZZpPRF &g, std::ostream &o) {
          ZZ_p s;
          conv(s, seed);
          o << g.generate(s, index, bits);
        };
      case 1:
      case 2:
        name = "generate from the own seed";
        return [=](ZZpPRF &g, std::ostream &o) {
          randHook = [=] { return r; };
          struct Unhook { ~Unhook() { randHook = nullptr; } } unhook;
          PseudoRandom<ZZ_p, ZZ_p> &h = g;
          if (bits % 2) o << h.generate(index, bits);
          else o << h.generate();
        };
      default:
        name = "set modulus";
        return [=](ZZpPRF &g, std::ostream &) { g.setModulo(seed + 3); };
    }
  };
  k.observe = [](ZZpPRF &g, std::ostream &o) {
    ZZ_p s;
    conv(s, 9);
    o << g.getModulo() << " " << g.generate(s, 6, 70);
  };
  copies(c, k, "field generators");
}

void stopwatches(Ctx &c) {
  typedef SimpleBenchmark T;
  auto now = std::make_shared<int64_t>(0);
  clockHook = [now] { return *now * 1000; };
  struct Unhook { ~Unhook() { clockHook = nullptr; } } unhook;
  auto time = std::make_shared<int64_t>(0);
  Kind<T> k;
  k.make = [](Ctx &c) {
    size_t n = c.draw(5);
    return [=] { return new T(n); };
  };
  k.op = [now, time](Ctx &c, std::string &name) -> Op<T> {
    *time += (int64_t) c.draw(100000);
    int64_t at = *time;
    std::string cursor = c.coin() ? "" : c.coin() ? "a" : "b";
    size_t kind = c.weighted({2, 5, 3, 3, 2, 1});
    static const char *const names[] = {"start", "step", "pause", "continue", "stop", "reset"};
    name = names[kind];
    return [=](T &t, std::ostream &) {
      *now = at;
      switch (kind) {
        case 0: t.start(); break;
        case 1: t.step(cursor); break;
        case 2: t.pause(cursor); break;
        case 3: t.cont(); break;
        case 4: t.stop(cursor); break;
        default: t.reset();
      }
    };
  };
  k.observe = [](T &t, std::ostream &o) {
    o << t.isPaused() << t.isStopped() << " " << t.benchmark().count() << " " << t.benchmark("a").count() << " " << t.benchmark(std::string("b")).count() << " " << t.cumulativeBenchmark("a").count();
    for (int np = 0; np < 2; np++)
      o << " " << t.cumulativeBenchmark((size_t) 0, np).count() << " " << t.average(np) << " " << t.variance(np) << " " << t.min(np).count() << " " << t.max(np).count();
    for (size_t i = 0; i < 6; i++) o << " " << t.benchmark(i).count();
  };
  copies(c, k, "stopwatches");
}

void messages(Ctx &c) {
  typedef EOPSIMessage T;
  auto store = std::make_shared<std::vector<std::string>>();
  for (int i = 0; i < 4; i++) store->push_back(c.bytes(c.range(1, 20)) + std::string(1, '\0'));
  Kind<T> k;
  k.make = [store](Ctx &c) {
    size_t d = c.draw(5);
    return [=] { return d < 4 ? new T((void *) (*store)[d].data(), (*store)[d].size(), EOPSI_MESSAGE_POLYNOMIAL) : new T; };
  };
  k.op = [store](Ctx &c, std::string &name) -> Op<T> {
    switch (c.draw(4)) {
      case 0: {
        std::string n = c.bytes(c.range(0, 30));
        name = "set sender";
        return [=](T &m, std::ostream &) { m.setPartyId(n); };
      }
      case 1: {
        EOPSIMessageType t = (EOPSIMessageType) c.draw(6);
        name = "set type";
        return [=](T &m, std::ostream &) { m.setType(t); };
      }
      case 2: {
        size_t d = c.draw(4);
        name = "set data";
        return [=](T &m, std::ostream &) { m.setData((void *) (*store)[d].data(), (*store)[d].size()); };
      }
      default: {
        size_t at = c.draw(25);
        name = "read";
        return [=](T &m, std::ostream &o) {
          if (m.getData() == nullptr) return;
          size_t pos = at;
          std::string s;
          bool b = m.readString(pos, s);
          o << b << pos << hex(s);
        };
      }
    }
  };
  k.observe = [](T &m, std::ostream &o) { o << hex(m.getPartyId()) << " " << m.getType() << " " << m.getData() << " " << m.length(); };
  copies(c, k, "messages");
}

void marked(Ctx &c) {
  typedef MarkedVector<ZZ> T;
  Kind<T> k;
  k.make = [](Ctx &) { return [] { return new T; }; };
  k.op = [](Ctx &c, std::string &name) -> Op<T> {
    switch (c.draw(4)) {
      case 0:
      case 1: {
        ZZ v = gen::natural(c, 200);
        name = "append";
        return [=](T &t, std::ostream &) { t.push_back(v); };
      }
      case 2: {
        bool b = c.coin();
        name = "mark";
        return [=](T &t, std::ostream &) { t.mark(b); };
      }
      default:
        name = "unmark";
        return [](T &t, std::ostream &) { t.unmark(); };
    }
  };
  k.observe = [](T &t, std::ostream &o) {
    o << t.isMarked();
    for (auto &z : t) o << " " << z;
  };
  copies(c, k, "marked vectors");
}

void exceptions(Ctx &c) {
  typedef ProtocolException T;
  Kind<T> k;
  k.make = [](Ctx &c) {
    std::string s = c.bytes(c.range(0, 60));
    return [=] { return new T(s, false); };
  };
  k.op = [](Ctx &, std::string &name) -> Op<T> {
    name = "catch";
    return [](T &e, std::ostream &o) {
      try {
        throw e;
      } catch (std::exception &x) {
        o << hex(x.what());
      }
    };
  };
  k.observe = [](T &e, std::ostream &o) { o << hex(e.getMessage()) << " " << hex(e.what()) << " " << e.isFatal() << " " << e.getExitCode(); };
  copies(c, k, "exceptions");
}

void histories(Ctx &c) {
  reseedAmbient(c.u64());
  switch (c.weighted({3, 3, 3, 1, 1, 1, 2, 2, 2, 1, 1, 1})) {
    case 0: return numbers(c);
    case 1: return tables(c);
    case 2: return batches(c);
    case 3: return bytesHash<SHAByteArray>(c, "SHA of bytes");
    case 4: return bytesHash<SHAString>(c, "SHA of strings");
    case 5: return c.coin() ? elementHash<MurmurHash3>(c, "Murmur") : elementHash<SHAZZp>(c, "SHA of field elements");
    case 6: return generators(c);
    case 7: return fieldGenerators(c);
    case 8: return stopwatches(c);
    case 9: return messages(c);
    case 10: return marked(c);
    default: return exceptions(c);
  }
}

}  // namespace

const Property pbt::property = {
    "C24",
    "Histories of 3-24 steps on up to 6 objects of one kind (numbers from bytes, hash tables, polynomial batches, hash algorithms, generators, stopwatches, messages, "
    "marked vectors, exceptions): operations, copying, assigning (to itself too), destroying, working on a copy for a while.  At random moments and at the end every "
    "object is compared with a new one that does, without any copying, what the object and the ones it was copied from have done: all results and all that can be read "
    "must be equal.  Non-trivial: something was copied and an object that took part in copying was used afterwards.",
    {{"histories", histories, 20000, 600000, 60}}};
