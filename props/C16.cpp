// C16: fatal exceptions end the program, other exceptions carry their message.
#include "gen.hpp"
#include "pbt.hpp"
#include "outofboundex.h"
#include "protocolex.h"
#include <memory>

using namespace pbt;

namespace {

enum Kind { PLAIN, BOUND, PROTOCOL };
const char *const kKind[] = {"Exception", "OutOfBoundException", "ProtocolException"};

std::string message(Ctx &c) {
  size_t n = 0;
  switch (c.weighted({2, 3, 2, 1})) {
    case 0: n = 0; break;
    case 1: n = c.range(1, 20); break;
    case 2: n = c.range(1, 200); break;
    default: n = c.skewed(200, 20000); break;
  }
  std::string m(n, 'x');
  uint64_t s = c.u64();
  int how = (int) c.draw(3);
  for (char &ch : m) {
    uint64_t v = n <= 20 ? c.draw(255) : splitmix(s) % 255;
    ch = how == 0 ? (char) ('a' + v % 26) : how == 1 ? (char) (v + 1) : (v % 7 == 0 ? '\n' : v % 7 == 1 ? '%' : v % 7 == 2 ? ' ' : (char) ('0' + v % 10));
  }
  return m;
}

// Throw one, with only the arguments given
struct Args {
  Kind kind;
  std::string msg;
  bool fatal;
  int code, given;  // given: number of arguments passed
};
[[noreturn]] void raise(const Args &a) {
  switch (a.kind) {
    case PLAIN:
      switch (a.given) {
        case 0: throw Exception();
        case 1: throw Exception(a.msg);
        case 2: throw Exception(a.msg, a.fatal);
        default: throw Exception(a.msg, a.fatal, a.code);
      }
    case BOUND:
      switch (a.given) {
        case 0: throw OutOfBoundException();
        case 1: throw OutOfBoundException(a.msg);
        default: throw OutOfBoundException(a.msg, a.fatal);
      }
    default:
      switch (a.given) {
        case 0: throw ProtocolException();
        case 1: throw ProtocolException(a.msg);
        case 2: throw ProtocolException(a.msg, a.fatal);
        default: throw ProtocolException(a.msg, a.fatal, a.code);
      }
  }
}

// An exit status; one nobody ends with may be any number
int status(Ctx &c, bool any) { return any && c.chance(1, 3) ? (int) (uint32_t) gen::edge(c, 32) : (int) c.draw(256); }

Args args(Ctx &c, bool fatal) {
  Args a;
  a.kind = (Kind) c.draw(3);
  a.msg = message(c);
  a.fatal = fatal;
  a.code = c.weighted({1, 3}) == 0 ? 1 : status(c, !fatal);
  a.given = fatal ? (int) c.range(2, 3) : (int) c.draw(4);
  if (a.given == 0) a.msg.clear();
  if (a.given < 3 || a.kind == BOUND) a.code = 1;
  return a;
}

std::string show(const Args &a) {
  std::ostringstream o;
  o << kKind[a.kind] << " with " << a.given << " arguments, message of " << a.msg.size() << " bytes \"" << hex(a.msg.substr(0, 60)) << "\", " << (a.fatal ? "fatal, code " : "not fatal, code ") << a.code;
  return o.str();
}

std::string explanation() {
  try {
    throw OutOfBoundException();
  } catch (const std::exception &e) {
    return e.what();
  }
}

void text(const std::string &got, const Args &a, const char *by) {
  std::string want = a.kind == BOUND && a.msg.empty() ? explanation() : a.msg;
  PBT_CHECK(got == want, show(a) << ", caught as " << by << ": its text is \"" << hex(got.substr(0, 200)) << "\", " << got.size() << " bytes");
  if (a.kind == BOUND && a.msg.empty()) PBT_CHECK(!want.empty(), "an out-of-bounds exception without a message explains nothing");
}

void quiet(Ctx &c) {
  size_t n = c.range(1, 4);
  std::vector<std::pair<Args, std::exception_ptr>> kept;
  for (size_t i = 0; i < n; i++) {
    Args a = args(c, false);
    PBT_NOTE(c, show(a));
    int by = (int) c.draw(4);
    bool caught = false;
    try {
      raise(a);
    } catch (const Exception &e) {
      caught = true;
      kept.emplace_back(a, std::current_exception());
      if (by == 0) text(e.what(), a, "Exception");
      PBT_CHECK(!e.isFatal(), show(a) << " says it is fatal");
      text(e.getMessage(), a, "message");
      Exception copy(e);
      text(copy.what(), a, "copy");
      if (a.given >= 3) PBT_CHECK(e.getExitCode() == a.code, show(a) << ": exit code " << e.getExitCode());
    }
    PBT_CHECK(caught, show(a) << " cannot be caught as Exception");
    caught = false;
    try {
      raise(a);
    } catch (const std::exception &e) {
      caught = true;
      text(e.what(), a, "std::exception");
    }
    PBT_CHECK(caught, show(a) << " cannot be caught as std::exception");
    caught = false;
    try {
      raise(a);
    } catch (const OutOfBoundException &e) {
      caught = a.kind == BOUND;
      text(e.what(), a, "OutOfBoundException");
    } catch (const ProtocolException &e) {
      caught = a.kind == PROTOCOL;
      text(e.what(), a, "ProtocolException");
    } catch (const Exception &e) {
      caught = a.kind == PLAIN;
      text(e.what(), a, "Exception");
    }
    PBT_CHECK(caught, show(a) << " is caught as something else");
    c.label(kKind[a.kind]);
    if (a.msg.empty()) c.label("no message");
    if (a.msg.size() > 200) c.label("long message");
  }
  // earlier ones still have their text
  for (auto &k : kept) try {
      std::rethrow_exception(k.second);
    } catch (const std::exception &e) {
      text(e.what(), k.first, "std::exception, later");
    }
  if (n >= 2) c.nontrivial();
  c.count("exceptions", n);
}

// Exceptions whose text, fatality and status are set afterwards
void settings(Ctx &c) {
  struct Held {
    std::unique_ptr<Exception> e;
    std::string msg;
    bool fatal;
    int code;
  };
  std::vector<Held> held;
  size_t n = c.range(1, 14), sets = 0;
  auto judge = [&](const Held &h, const char *when) {
    PBT_CHECK(h.e->what() == h.msg && h.e->getMessage() == h.msg, when << " its text is \"" << hex(std::string(h.e->what()).substr(0, 100)) << "\" instead of \"" << hex(h.msg.substr(0, 100)) << "\"");
    PBT_CHECK(h.e->isFatal() == h.fatal, when << " it says it is " << (h.fatal ? "not fatal" : "fatal"));
    PBT_CHECK(h.e->getExitCode() == h.code, when << " its exit status is " << h.e->getExitCode() << " instead of " << h.code);
  };
  for (size_t k = 0; k < n; k++) {
    size_t op = held.empty() ? 0 : c.weighted({2, 3, 2, 1, 3, 2});
    size_t i = held.empty() ? 0 : c.draw(held.size());
    switch (op) {
      case 0: {
        Args a = args(c, false);
        try {
          raise(a);
        } catch (const OutOfBoundException &e) {
          held.push_back({std::unique_ptr<Exception>(new OutOfBoundException(e)), a.msg.empty() ? explanation() : a.msg, false, 1});
        } catch (const ProtocolException &e) {
          held.push_back({std::unique_ptr<Exception>(new ProtocolException(e)), a.msg, false, a.code});
        } catch (const Exception &e) {
          held.push_back({std::unique_ptr<Exception>(new Exception(e)), a.msg, false, a.code});
        }
        PBT_NOTE(c, show(a));
        i = held.size() - 1;
        break;
      }
      case 1:
        held[i].msg = message(c);
        held[i].e->setMessage(held[i].msg);
        PBT_NOTE(c, "message of " << i << " set, " << held[i].msg.size() << " bytes");
        break;
      case 2:
        held[i].fatal = c.coin();
        held[i].e->setFatal(held[i].fatal);
        PBT_NOTE(c, "fatality of " << i << " set to " << held[i].fatal);
        break;
      case 3:
        held[i].fatal = true;
        held[i].e->setFatal();
        PBT_NOTE(c, i << " set fatal");
        break;
      case 4:
        held[i].code = status(c, true);
        held[i].e->setExitCode(held[i].code);
        PBT_NOTE(c, "exit status of " << i << " set to " << held[i].code);
        break;
      default: {
        size_t j = c.draw(held.size());
        *held[i].e = *held[j].e;
        held[i].msg = std::string(held[j].msg);
        held[i].fatal = held[j].fatal;
        held[i].code = held[j].code;
        PBT_NOTE(c, i << " assigned from " << j);
      }
    }
    sets += op > 0;
    for (auto &h : held) judge(h, "after these settings");
  }
  c.count("settings", sets);
  if (sets >= 2) c.nontrivial();
}

void fatal(Ctx &c) {
  Args a = args(c, true);
  int by = (int) c.draw(4);
  PBT_NOTE(c, show(a) << ", handler " << by);
  ForkResult r = forked([&](std::string &) {
    try {
      raise(a);
    } catch (const OutOfBoundException &) {
      if (by == 0) throw;
    } catch (const ProtocolException &) {
      if (by == 0) throw;
    } catch (const Exception &) {
      if (by == 0) throw;
    } catch (const std::exception &) {
      if (by == 1) throw;
    } catch (...) {
    }
  });
  PBT_CHECK(!r.returned && !r.threw, show(a) << " could be caught");
  PBT_CHECK(r.exited && r.code == a.code, show(a) << " ended the program with " << (r.exited ? "status " : "signal ") << (r.exited ? r.code : r.sig));
  std::string want = a.kind == BOUND && a.msg.empty() ? explanation() : a.msg;
  PBT_CHECK(r.err.find(want) != std::string::npos, show(a) << ": standard error does not hold the message: " << hex(r.err.substr(0, 300)));
  PBT_CHECK(!r.err.empty(), show(a) << ": nothing on standard error");
  c.label(kKind[a.kind]);
  if (a.code == 0) c.label("code 0");
  if (a.code > 127) c.label("code above 127");
  if (a.msg.empty()) c.label("no message");
  if (a.msg.size() > 200) c.label("long message");
  c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C16",
    "quiet: 1-4 non-fatal exceptions of the three kinds, built with 0-3 of their arguments, messages of 0-20000 bytes of any value but NUL, exit statuses of any number, thrown and "
    "caught as their own and every base class, copied and rethrown later. fatal: one fatal exception with any exit status 0-255 thrown inside a "
    "catch-everything handler in a child process whose exit status and standard error are checked. settings: up to 14 settings of text, fatality and status, and assignments, of exceptions already built, all questions asked after each. Non-trivial: two exceptions, two settings or a fatal one.",
    {{"quiet", quiet, 40000, 1000000, 20}, {"settings", settings, 20000, 400000, 20}, {"fatal", fatal, 3000, 60000, 20}}};
