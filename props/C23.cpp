// C23: results depend on the inputs alone, and the surroundings stay as they are.
#include "work.hpp"

#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <iostream>
#include <locale>
#include <thread>
#include <cstring>
#include <sys/stat.h>
#include <unistd.h>

using namespace proto;

// What asks for an environment variable may be told that it is set.  Names
// that say which locale is wanted, and those of the sanitizers, are left alone.
extern char **environ;
static const char *invented = nullptr;
extern "C" char *getenv(const char *name) {
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  if (invented == nullptr || !strncmp(name, "LC_", 3) || !strncmp(name, "LANG", 4) || strstr(name, "SAN_")) return nullptr;
  return const_cast<char *>(invented);
}
extern "C" char *secure_getenv(const char *name) { return getenv(name); }

namespace {

struct Piece {
  Work work;
  std::string name;
};

std::vector<Piece> pieces(Ctx &c, const ZZ &p, size_t n) {
  std::vector<Piece> r(n);
  ZZ_p::init(p);
  for (auto &x : r) x.work = work(c, p, c.draw(KINDS), x.name);
  return r;
}

// What one piece computes
std::string perform(const Piece &x) {
  std::ostringstream o;
  o.imbue(std::locale::classic());
  try {
    x.work(o);
  } catch (CheckFailed &) {
    throw;
  } catch (std::exception &e) {
    o << "exception " << e.what();
  }
  return o.str();
}

// Numbers in groups, another decimal point, other words for truth
struct Grouped : std::numpunct<char> {
  std::string groups;
  char separator;
  Grouped(std::string g, char s) : groups(std::move(g)), separator(s) {}
  char do_thousands_sep() const override { return separator; }
  char do_decimal_point() const override { return separator == ',' ? '.' : ','; }
  std::string do_grouping() const override { return groups; }
  std::string do_truename() const override { return "oui"; }
  std::string do_falsename() const override { return "non"; }
};

// Everything the library could change about its surroundings
struct Surroundings {
  std::ios::fmtflags flags[3];
  std::streamsize precision[3];
  char fill[3];
  std::ios::iostate state[3], mask[3];
  std::streambuf *buf[3];
  std::locale here, inStream[3];
  std::string clocale;
  int rounding;
  std::terminate_handler terminate;
  std::new_handler memory;
  void (*signals[4])(int);
  ZZ modulus;
  size_t files = 0, threads = 0, inFolder = 0;
  std::string folder, environment;

  static std::ostream &stream(int i) { return i == 0 ? std::cout : i == 1 ? std::cerr : std::clog; }
  static size_t entries(const char *path) {
    size_t n = 0;
    if (DIR *d = opendir(path)) {
      while (readdir(d)) n++;
      closedir(d);
    }
    return n;
  }
  // An empty folder to work in
  static pid_t goHome() {
    std::string d = scratchFolder() + "/here-" + std::to_string(getpid());
    mkdir(d.c_str(), 0700);
    if (chdir(d.c_str())) abort();
    return getpid();
  }
  static Surroundings now(bool files) {
    Surroundings s;
    for (int i = 0; i < 3; i++) {
      std::ostream &o = stream(i);
      s.flags[i] = o.flags();
      s.precision[i] = o.precision();
      s.fill[i] = o.fill();
      s.state[i] = o.rdstate();
      s.mask[i] = o.exceptions();
      s.buf[i] = o.rdbuf();
      s.inStream[i] = o.getloc();
    }
    s.clocale = setlocale(LC_ALL, nullptr);
    s.rounding = fegetround();
    s.terminate = std::get_terminate();
    s.memory = std::get_new_handler();
    int which[4] = {SIGFPE, SIGPIPE, SIGINT, SIGALRM};
    for (int i = 0; i < 4; i++) {
      struct sigaction a;
      sigaction(which[i], nullptr, &a);
      s.signals[i] = a.sa_handler;
    }
    s.modulus = ZZ_p::modulus();
    for (char **e = environ; e && *e; e++) s.environment += std::string(*e) + "\n";
    if (files) {
      static const pid_t home = goHome();
      (void) home;
      s.files = entries("/proc/self/fd");
      s.threads = entries("/proc/self/task");
      char b[4096];
      if (getcwd(b, sizeof b)) s.folder = b;
      s.inFolder = entries(".");
    }
    return s;
  }
  std::string difference(const Surroundings &t) const {
    static const char *const names[] = {"standard output", "standard error", "the log stream"};
    for (int i = 0; i < 3; i++) {
      std::string n = names[i];
      if (flags[i] != t.flags[i]) return "the format flags of " + n;
      if (precision[i] != t.precision[i]) return "the precision of " + n;
      if (fill[i] != t.fill[i]) return "the fill character of " + n;
      if (state[i] != t.state[i]) return "the error state of " + n;
      if (mask[i] != t.mask[i]) return "the exception mask of " + n;
      if (buf[i] != t.buf[i]) return "the buffer of " + n;
      if (inStream[i] != t.inStream[i]) return "the locale of " + n;
    }
    if (here != t.here) return "the global locale";
    if (clocale != t.clocale) return "the C locale";
    if (rounding != t.rounding) return "the rounding mode";
    if (terminate != t.terminate) return "the terminate handler";
    if (memory != t.memory) return "the new handler";
    for (int i = 0; i < 4; i++)
      if (signals[i] != t.signals[i]) return "a signal handler";
    if (modulus != t.modulus) return "the current modulus";
    if (files != t.files) return "the number of open files";
    if (threads < t.threads) return "the number of threads";
    if (folder != t.folder) return "the working directory";
    if (inFolder != t.inFolder) return "the files in the working directory";
    if (environment != t.environment) return "the environment variables";
    return "";
  }
};

// Discards, or refuses, what is written
struct Sink : std::streambuf {
  bool refuse;
  explicit Sink(bool r) : refuse(r) {}
  int overflow(int ch) override { return refuse ? traits_type::eof() : traits_type::not_eof(ch); }
};

// Changes the surroundings as chosen, and puts them back
class Disturbance {
 public:
  explicit Disturbance(Ctx &c) : out(c.coin()) {
    for (int i = 0; i < 3; i++) {
      std::ostream &o = Surroundings::stream(i);
      kept[i].copyfmt(o);
      state[i] = o.rdstate();
      buf[i] = o.rdbuf();
    }
    terminate = std::set_terminate([] { abort(); });
    memory = std::set_new_handler([] { throw std::bad_alloc(); });
    struct sigaction ignored {};
    ignored.sa_handler = SIG_IGN;
    sigaction(SIGPIPE, &ignored, &broken);
    size_t n = c.range(1, 3);
    for (size_t k = 0; k < n; k++) one(c, c.draw(9));
  }
  ~Disturbance() {
    std::set_terminate(terminate);
    std::set_new_handler(memory);
    sigaction(SIGPIPE, &broken, nullptr);
    std::locale::global(before);
    setlocale(LC_ALL, "C");
    for (int i = 0; i < 3; i++) {
      std::ostream &o = Surroundings::stream(i);
      o.rdbuf(buf[i]);
      o.clear(state[i]);
      o.copyfmt(kept[i]);
      o.width(0);
    }
    randHook = nullptr;
    clockHook = nullptr;
    invented = nullptr;
    for (auto *p : blocks) free(p);
  }
  std::string what;

 private:
  void one(Ctx &c, size_t kind) {
    switch (kind) {
      case 0: {
        std::string groups = c.coin() ? "\3" : std::string(1, (char) c.range(1, 4)) + (char) c.range(1, 3);
        char sep = ",. '_"[c.draw(5)];
        std::locale::global(std::locale(std::locale::classic(), new Grouped(groups, sep)));
        what += "a locale that groups digits; ";
        if (c.coin())
          for (int i = 0; i < 3; i++) Surroundings::stream(i).imbue(std::locale());
        break;
      }
      case 1: {
        for (int i = 0; i < 3; i++) {
          std::ostream &o = Surroundings::stream(i);
          o.flags((std::ios::fmtflags) (c.coin() ? std::ios::hex | std::ios::showbase | std::ios::uppercase | std::ios::left
                                                 : std::ios::oct | std::ios::showpos | std::ios::scientific | std::ios::boolalpha | std::ios::internal));
          o.precision((std::streamsize) c.range(1, 20));
          o.fill("*0 "[c.draw(3)]);
          o.width((std::streamsize) c.draw(30));
        }
        what += "streams with other formats; ";
        break;
      }
      case 2:
        for (int i = 0; i < 3; i++) Surroundings::stream(i).setstate(c.coin() ? std::ios::badbit : std::ios::failbit);
        what += "streams that have failed; ";
        lossy = true;
        break;
      case 3:
        for (int i = 0; i < 3; i++) Surroundings::stream(i).rdbuf(&sinks[out]);
        what += out ? "streams that refuse everything; " : "streams that drop everything; ";
        lossy = true;
        break;
      case 4: {
        uint64_t s = c.u64();
        ZZ z = ref::fromLE(std::to_string(s));
        NTL::SetSeed(z);
        bool fixed = c.coin();
        randHook = [s, fixed]() mutable { return fixed ? (int) (s & 0x7fff) : (int) (splitmix(s) & 0x7fffffff); };
        what += "other ambient randomness; ";
        break;
      }
      case 5: {
        int64_t at = (int64_t) c.draw(1ull << 60), step = (int64_t) c.draw(1ull << 40);
        clockHook = [=]() mutable { return at += step; };
        what += "another time; ";
        break;
      }
      case 6: {
        uint64_t s = c.u64();
        for (size_t i = 0; i < 200; i++) {
          size_t n = 1 + splitmix(s) % 700;
          void *p = malloc(n);
          memset(p, (int) (splitmix(s) & 255), n);
          if (splitmix(s) % 2) free(p); else blocks.push_back(p);
        }
        what += "other memory contents; ";
        break;
      }
      case 7: {
        static const char *const values[] = {"1", "0", "", "yes", "/nowhere", "8192"};
        invented = values[c.draw(6)];
        what += "environment variables; ";
        break;
      }
      default:
        setlocale(LC_ALL, c.coin() ? "C.UTF-8" : "POSIX");
        what += "another C locale; ";
    }
  }
  std::locale before;
  std::terminate_handler terminate;
  std::new_handler memory;
  struct sigaction broken;
  bool out;
  std::ios kept[3] = {std::ios(nullptr), std::ios(nullptr), std::ios(nullptr)};
  std::ios::iostate state[3];
  std::streambuf *buf[3];
  Sink sinks[2] = {Sink(false), Sink(true)};
  std::vector<void *> blocks;

 public:
  bool lossy = false;  // writing itself may set an error state
};

std::string differing(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t from = i < 30 ? 0 : i - 30;
  return "..." + a.substr(from, 100) + " first, ..." + b.substr(from, 100) + " then";
}

void surroundings(Ctx &c) {
  reseedAmbient(c.u64());
  ZZ p = gen::prime(c, c.range(64, 160));
  ZZ_p::init(p);
  Surroundings start = Surroundings::now(true);
  auto xs = pieces(c, p, c.range(1, 4));
  ZZ q = gen::prime(c, c.range(64, 200));
  auto others = pieces(c, q, c.range(1, 3));  // unrelated work
  ZZ_p::init(p);
  std::vector<std::string> want;
  std::string all;
  for (auto &x : xs) {
    want.push_back(perform(x));
    all += (all.empty() ? "" : ", ") + x.name;
    c.label(x.name);
  }
  PBT_NOTE(c, "modulo " << p << ": " << all);
  // what is changed once and for all shows the first time only
  std::string once = start.difference(Surroundings::now(true));
  PBT_CHECK(once.empty(), all << " changed " << once << " at the first time");
  size_t rounds = c.range(1, 3);
  for (size_t r = 0; r < rounds; r++) {
    std::vector<size_t> order(xs.size());
    for (size_t i = 0; i < order.size(); i++) order[i] = i;
    std::string how;
    if (c.coin() && order.size() > 1) {
      for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[c.draw(i + 1)]);
      how += "another order; ";
      c.label("another order");
    }
    if (c.coin()) {
      ZZ_p::init(q);
      for (auto &x : others) perform(x);
      ZZ_p::init(p);
      how += "after unrelated work; ";
      c.label("after unrelated work");
    }
    bool thread = c.chance(1, 4), between = c.chance(1, 4);
    if (thread) how += "in another thread; ", c.label("in another thread");
    Threads hands(c.u64());
    bool handed = c.chance(1, 4);
    if (handed) how += "steps handed to other threads; ";
    if (between) how += "unrelated work in between; ", c.label("unrelated work in between");
    std::vector<std::string> got(xs.size());
    std::string changed;
    {
      Disturbance d(c);
      how += d.what;
      auto run = [&] {
        ZZ_p::init(p);
        for (size_t i : order) {
          Surroundings a = Surroundings::now(!thread && !handed);
          {
            struct Guard {
              explicit Guard(Relay *r) { relay = r; }
              ~Guard() { relay = nullptr; }
            } guard(handed ? &hands : nullptr);
            got[i] = perform(xs[i]);
          }
          Surroundings b = Surroundings::now(!thread && !handed);
          // a thread that has ended may be listed for a while
          for (int k = 0; k < 40 && b.threads > a.threads; k++) {
            usleep(5000);
            b.threads = Surroundings::entries("/proc/self/task");
          }
          if (d.lossy)
            for (int k = 0; k < 3; k++)  // errors may be added, not taken away
              if ((b.state[k] & a.state[k]) == a.state[k]) b.state[k] = a.state[k];
          std::string x = a.difference(b);
          if (!x.empty() && changed.empty()) changed = xs[i].name + " changed " + x;
          if (between) {
            ZZ_p::init(q);
            for (auto &y : others) perform(y);
            ZZ_p::init(p);
          }
        }
      };
      if (thread) {
        std::exception_ptr e;
        std::thread t([&] {
          try {
            run();
          } catch (...) {
            e = std::current_exception();
          }
        });
        t.join();
        if (e) std::rethrow_exception(e);
      } else {
        run();
      }
    }
    PBT_NOTE(c, "round " << r << ": " << how);
    for (size_t k = 0; k < how.size();) {
      size_t e = how.find("; ", k);
      if (e == std::string::npos) break;
      c.label(how.substr(k, e - k));
      k = e + 2;
    }
    for (size_t i = 0; i < xs.size(); i++)
      PBT_CHECK(got[i] == want[i], xs[i].name << " depends on its surroundings (" << how << "): " << differing(want[i], got[i]));
    PBT_CHECK(changed.empty(), changed << " (" << how << ")");
    PBT_CHECK(ZZ_p::modulus() == p, "the current modulus changed");
  }
  c.count("executions", xs.size() * (rounds + 1));
  c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C23",
    "1-4 pieces of work (those of C21) computed once in plain surroundings and up to 3 times in changed ones: a global locale that groups digits and has another decimal "
    "point, standard streams with any format, failed, dropping or refusing what is written, other ambient randomness, time, environment variables and memory contents, another C locale, "
    "another thread, single steps handed to other threads, another order, and after or in between unrelated work over another modulus.  The results must be the same, and each piece must leave modulus, locales, format, "
    "error state and buffers of the streams, rounding mode, handlers, environment, open files, threads, folder and what is in it as they were.  Every case is non-trivial.",
    {{"surroundings", surroundings, 6000, 150000, 120}}};
