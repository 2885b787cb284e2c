// Pieces of work over all components, each computing a text from given inputs.
#pragma once
#include "proto.hpp"

#include "exception.h"
#include "ntlmiss.h"
#include "outofboundex.h"
#include "shabyte.h"
#include "shastr.h"
#include "simplebm.h"
#include "strint.h"
#include "zzppoly.h"
#include "zzpprf.h"
#include "zzprf.h"

#include <condition_variable>
#include <mutex>
#include <thread>

namespace proto {

// Carries out the steps of a piece of work in its own way
struct Relay {
  virtual ~Relay() {}
  virtual void run(const std::function<void()> &f) = 0;
};

// Threads that carry out steps, one at a time, in place of the thread that
// builds and owns the objects.
class Threads : public Relay {
 public:
  explicit Threads(uint64_t s) : seed(s) {}
  ~Threads() override {
    for (auto &w : workers) {
      std::unique_lock<std::mutex> l(w.m);
      w.end = true;
      w.cv.notify_all();
      l.unlock();
      if (w.t.joinable()) w.t.join();
    }
  }
  void run(const std::function<void()> &f) override {
    uint64_t k = splitmix(seed) % 4;
    if (k == 0) {
      f();
      return;
    }
    NTL::ZZ_pContext modulus;
    modulus.save();
    std::exception_ptr e;
    std::function<void()> g = [&] {
      modulus.restore();
      try {
        f();
      } catch (...) {
        e = std::current_exception();
      }
    };
    handed++;
    if (k == 1) {
      std::thread(g).join();
    } else {
      Worker &w = workers[k - 2];
      std::unique_lock<std::mutex> l(w.m);
      w.job = &g;
      if (!w.t.joinable()) w.t = std::thread([&w] { w.loop(); });
      w.cv.notify_all();
      w.cv.wait(l, [&] { return w.job == nullptr; });
    }
    if (e) std::rethrow_exception(e);
  }
  size_t handed = 0;

 private:
  struct Worker {
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> *job = nullptr;
    bool end = false;
    std::thread t;
    void loop() {
      std::unique_lock<std::mutex> l(m);
      for (;;) {
        cv.wait(l, [&] { return job != nullptr || end; });
        if (job == nullptr) return;
        (*job)();
        job = nullptr;
        cv.notify_all();
      }
    }
  };
  uint64_t seed;
  Worker workers[2];
};

inline thread_local Relay *relay = nullptr;

// A step of a piece of work: carried out by the relay where there is one
template <typename F>
inline void there(F &&f) {
  if (relay == nullptr) f();
  else relay->run(f);
}

// What is computed, as text.  Everything it uses is built by the work itself,
// from numbers and byte strings; what is random by contract is left out.
typedef std::function<void(std::ostream &)> Work;

// What a thread says on the standard output, apart from what the others say
struct Ears : std::streambuf {
  static inline thread_local std::string *said = nullptr;
  static inline bool open = false;
  std::streambuf *before;
  Ears() : before(std::cout.rdbuf(this)) { open = true; }
  ~Ears() {
    open = false;
    std::cout.rdbuf(before);
  }
  int overflow(int ch) override {
    if (said && ch != EOF) *said += (char) ch;
    return 0;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    if (said) said->append(s, (size_t) n);
    return n;
  }
};
template <typename F>
inline void listen(std::ostream &o, F &&f) {
  if (!Ears::open) return f();
  std::string s;
  Ears::said = &s;
  f();
  Ears::said = nullptr;
  o << s;
}

inline HashFlavour flavour(bool b) { return b ? SHA256_FLAVOUR : SHA1_FLAVOUR; }

const size_t KINDS = 10;

inline Work work(Ctx &c, const ZZ &p, size_t kind, std::string &name) {
  size_t bits = (size_t) NTL::NumBits(p);
  size_t times = c.range(1, 12);
  switch (kind) {
    case 0: {
      name = "Murmur";
      uint32_t seed = (uint32_t) c.u64();
      ZZ v = gen::below(c, p);
      size_t len = c.draw(30);
      return [=](std::ostream &o) {
        MurmurHash3 h(seed);
        for (size_t i = 0; i < times; i++) {
          ZZ_p e;
          conv(e, v + (long) i);
          there([&] { o << hex(h.hash(e, len), h.hashSize()) << " "; });
        }
        o << h.name() << " ";
      };
    }
    case 1: {
      name = "SHA of bytes and strings";
      std::string s = c.bytes(c.range(1, 100));
      bool f = c.coin();
      return [=](std::ostream &o) {
        SHAByteArray a(flavour(f));
        SHAString b(flavour(f));
        for (size_t i = 0; i < times; i++) {
          std::string t = s + (char) i;
          there([&] { o << hex(a.hash((byte *) t.data(), t.size()), a.hashSize()) << " " << hex(b.hash(t), b.hashSize()) << " " << a.name() << b.name() << " "; });
          there([&] { o << a.readableDigest(a.hash((byte *) t.data(), t.size()), a.hashSize()) << " "; });
        }
      };
    }
    case 2: {
      name = "SHA of field elements";
      ZZ v = gen::below(c, p);
      bool f = c.coin();
      return [=](std::ostream &o) {
        SHAZZp a(flavour(f));
        for (size_t i = 0; i < times; i++) {
          ZZ_p e;
          conv(e, v + (long) i);
          there([&] { o << hex(a.hash(e), a.hashSize()) << " "; });
        }
        o << a.name() << " ";
      };
    }
    case 3: {
      name = "integer generator";
      ZZ seed = gen::natural(c, c.range(1, 300));
      size_t index = c.u64(), b = c.range(1, 500);
      return [=](std::ostream &o) {
        ZZPRF g;
        for (size_t i = 0; i < times; i++) there([&] { o << g.generate(seed, index + i, b) << " "; });
        ZZPRF d(g);
        ZZ own;
        there([&] { own = g.generate(index, b); });
        there([&] { o << (own == g.generate(index, b)); });
        there([&] { o << d.generate(seed, index, b) << " "; });
      };
    }
    case 4: {
      name = "field generator";
      ZZ seed = gen::below(c, p);
      size_t index = c.u64(), b = c.range(0, 300);
      bool given = c.coin();
      return [=](std::ostream &o) {
        ZZPRF base;
        ZZpPRF g(p, given ? &base : nullptr);
        ZZ_p s;
        conv(s, seed);
        for (size_t i = 0; i < times; i++) there([&] { o << g.generate(s, index + i, b) << " "; });
        there([&] { o << g.getModulo() << " "; });
      };
    }
    case 5: {
      name = "hash table";
      size_t length = c.range(1, 6), load = c.range(1, 6);
      int alg = (int) c.draw(3);
      uint64_t seed = c.u64();
      bool fill = c.coin(), stats = c.coin();
      size_t describe = c.coin() ? 1 : c.range(4, 24);
      return [=](std::ostream &o) {
        Params P;
        P.alg = alg;
        P.algSeed = 5;
        std::unique_ptr<HashAlgorithm<ZZ_p>> h(P.newHash());
        ZZpPRF prf(p);
        for (size_t r = 0; r < times; r++) {
          HashBuckets<ZZ_p> b(length, load, h.get());
          uint64_t s = seed + r;
          ZZ_p e;
          for (size_t i = 0; i < load; i++) {
            conv(e, (long) (splitmix(s) >> 2));
            there([&] { b.add(e); });
          }
          o << b.size() << " ";
          std::vector<size_t> before;
          for (size_t j = 0; j < length; j++) before.push_back(b[j].size());
          if (fill) there([&] { b.conceal(prf); });
          for (size_t j = 0; j < length; j++) {
            o << "[" << b[j].size() << (MarkedVector<ZZ_p>(b[j]).isMarked() ? "m" : "") << ":";
            for (size_t i = 0; i < before[j]; i++) o << " " << b[j][i];
            o << "] ";
          }
          // described several times, as a window of a few instructions is hard to meet
          for (size_t i = 0; i < describe; i++) there([&] { listen(o, [&] { b.printStats(stats); }); });
        }
      };
    }
    case 6: {
      name = "polynomials";
      size_t n = c.range(1, 3), pad = c.range(1, bits - 8);
      std::vector<std::vector<ZZ>> roots(n);
      for (auto &r : roots)
        for (size_t i = c.range(1, 4); i > 0; i--) r.push_back((c.coin() ? gen::below(c, p) : ZZ((long) c.draw(9)) << (long) pad) % p);
      PolynomialFactoringAlgorithm pfa = c.coin() ? PFA_BERLEKAMP : PFA_CANZASS;
      bool step = c.coin(), asked = c.chance(1, 3);
      size_t rounds = (times + 3) / 4;
      return [=](std::ostream &o) {
        vec_ZZ_p x;
        std::unique_ptr<vec_ZZ_p[]> y(new vec_ZZ_p[n]);
        x.SetLength(6);
        for (long i = 0; i < 6; i++) conv(x[i], i + 1);
        for (size_t j = 0; j < n; j++) {
          y[j].SetLength(6);
          for (long i = 0; i < 6; i++) conv(y[j][i], ref::evalRoots(roots[j], ZZ(i + 1), p));
        }
        ZZpPolynomials z(pad);
        for (size_t r = 0; r < rounds; r++) {
          if (asked && r % 2 == 0) there([&] { z.useThreads(1 + r % 3); });
          NTL::vec_ZZ got;
          if (step) {
            there([&] { z.interpolate(x, y.get(), n); });
            there([&] { z.factorise(pfa); });
            there([&] { got = z.findIntersection(); });
          } else {
            there([&] { got = z.findIntersection(x, y.get(), n, pfa); });
          }
          for (auto &s : asList(got)) o << s << " ";
          o << z << "; ";
        }
      };
    }
    case 7: {
      name = "numbers from bytes";
      std::string s = c.bytes(c.range(0, 60));
      size_t len = c.range(1, 60);
      unsigned long w = c.u64();
      return [=](std::ostream &o) {
        StrInt n(len);
        for (size_t i = 0; i < times; i++) {
          std::string t = s + (char) i;
          there([&] { n.set((const byte *) t.data(), t.size()); });
          there([&] {
            n.add(w);
            n.inc();
          });
          o << n << " " << n.rem(w | 1) << " " << n.lsb() << " " << n.toString() << " " << n.getByteSize() << " ";
          size_t sz;
          byte *b = nullptr;
          there([&] { b = n.toBytes(nullptr, &sz); });
          o << hex(b, sz) << " ";
          delete[] b;
        }
      };
    }
    case 8: {
      name = "number helpers, exceptions and stopwatch";
      ZZ v = gen::natural(c, 300) + 1;
      std::string text = c.bytes(c.range(1, 20));
      size_t pad = c.range(1, 400);
      return [=](std::ostream &o) {
        for (size_t i = 0; i < times; i++) {
          there([&] {
            o << NTL::log2(v) << " " << NTL::bytes(v) << " " << NTL::zeroPad(v, pad) << " " << NTL::zeroPadTo(v, pad) << " " << NTL::countLeadingZeros(v << (long) pad) << " ";
          });
          std::vector<ZZ_p> vs(3);
          conv(vs[1], v);
          o << NTL::vector2VecZZp(vs) << " ";
          try {
            there([&] { throw ProtocolException(text); });
          } catch (ProtocolException &e) {
            o << e.what() << " ";
          }
          try {
            there([&] { throw OutOfBoundException(i % 2 ? text : "", OutOfBoundException::NON_FATAL); });
          } catch (Exception &e) {
            there([&] { e.setFatal(i % 3 == 0); });
            o << e.getMessage() << e.isFatal() << e.getExitCode() << " ";
          }
          std::string digits = ref::toLE(v);
          there([&] {
            ZZ u = NTL::ZZFromBytes((const byte *) digits.data(), (long) digits.size());
            o << u << " ";
          });
          SimpleBenchmark b;
          int64_t clock = (int64_t) (1000000000 + i);
          auto at = [&](auto f) {
            there([&] {
              GivenTimes g(clock);
              f();
            });
          };
          at([&] { b.start(); });
          for (size_t k = 0; k < i % 5; k++) at([&] { b.step(k % 2 ? "y" : "z"); });
          at([&] { b.step("x"); });
          at([&] { b.pause(); });
          o << b.isPaused();
          at([&] {
            b.cont();
            b.stop();
          });
          o << b.isPaused() << b.isStopped();
          for (int all = 0; all < 2; all++)
            there([&] {
              o << " " << b.cumulativeBenchmark((size_t) 0, all).count() << " " << b.min(all).count() << " " << b.max(all).count() << " " << b.average(all) << " "
                << b.variance(all) << " " << b.standardDeviation(all);
            });
          there([&] { o << " " << b.benchmark("x").count() << " " << b.cumulativeBenchmark("x").count() << " " << b.benchmark((size_t) 0).count() << " "; });
        }
      };
    }
    default: {
      name = "protocol";
      Params P;
      P.p = p;
      P.field = bits;
      P.bits = c.range(2, bits - 46);
      P.length = c.range(1, 3);
      P.height = c.range(1, 3);
      P.degree = 2 * P.height + 1;
      P.alg = (int) c.draw(3);
      std::vector<ZZ> pool;
      std::vector<std::vector<ZZ>> sets;
      for (int i = 0; i < 3; i++) sets.push_back(elements(c, P, pool, P.length * P.height));
      std::vector<std::pair<size_t, size_t>> reqs;
      for (size_t i = c.range(1, 4); i > 0; i--) {
        size_t a = c.draw(3);
        reqs.push_back({a, (a + 1 + c.draw(2)) % 3});
      }
      ZZ secret = gen::natural(c, 100);
      return [=](std::ostream &o) {
        World w;
        w.wire.copyCells = false;
        w.P = P;
        w.makeCloud("cloud");
        for (int i = 0; i < 3; i++) {
          Member &m = w.addMember(std::string("P") + (char) ('a' + i), secret + i);
          there([&] { w.outsource(m, sets[(size_t) i]); });
        }
        for (auto &r : reqs) {
          there([&] { w.request(*w.members[r.first], *w.members[r.second]); });
          for (auto &s : asList(w.members[r.first]->now->client->getIntersection())) o << s << " ";
          o << "; ";
        }
      };
    }
  }
}

}  // namespace proto
