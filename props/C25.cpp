// C25: running out of memory gives no wrong result.
#include "work.hpp"

#include <algorithm>
#include <cstring>
#include <dlfcn.h>
#include <elf.h>
#include <fstream>
#include <new>

using namespace proto;

namespace {

// The allocation that fails, counted among those made while armed: throwing
// operator new, and what the library's own functions ask of non-throwing new
// and malloc.  NTL ends the program by itself when its own allocations (malloc,
// non-throwing new) fail, so these are left alone.
thread_local bool armed = false;
uint64_t allocations = 0;
uint64_t failFrom = 0, failTo = 0;  // 0: none

bool fails() {
  uint64_t k = __atomic_add_fetch(&allocations, 1, __ATOMIC_RELAXED);
  return k >= failFrom && k < failTo;
}

// Functions of this program that are not NTL's, Crypto++'s or the standard
// library's, from the symbols of its file.  For this property nothing is
// inlined, so a return address names the function that asks for memory.
struct Functions {
  std::vector<std::pair<uintptr_t, uintptr_t>> ours;  // begin, end
  Functions() {
    std::ifstream f("/proc/self/exe", std::ios::binary);
    std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    Elf64_Ehdr h;
    if (d.size() < sizeof h) return;
    memcpy(&h, d.data(), sizeof h);
    uintptr_t base = 0;
    if (h.e_type == ET_DYN) {
      Dl_info i;
      if (dladdr((void *) &fails, &i)) base = (uintptr_t) i.dli_fbase;
    }
    auto section = [&](size_t i) {
      Elf64_Shdr s;
      memcpy(&s, d.data() + h.e_shoff + i * h.e_shentsize, sizeof s);
      return s;
    };
    for (size_t i = 0; i < h.e_shnum; i++) {
      Elf64_Shdr s = section(i);
      if (s.sh_type != SHT_SYMTAB) continue;
      Elf64_Shdr names = section(s.sh_link);
      for (size_t k = 0; k < s.sh_size / sizeof(Elf64_Sym); k++) {
        Elf64_Sym y;
        memcpy(&y, d.data() + s.sh_offset + k * sizeof y, sizeof y);
        if (ELF64_ST_TYPE(y.st_info) != STT_FUNC || y.st_size == 0) continue;
        const char *n = d.data() + names.sh_offset + y.st_name;
        if (strncmp(n, "_Z", 2)) continue;
        static const char *const others[] = {"_ZN3NTL", "_ZNK3NTL", "_ZSt", "_ZNSt", "_ZNKSt", "_ZN9__gnu_cxx", "_ZNK9__gnu_cxx", "_ZN8CryptoPP", "_ZNK8CryptoPP", "_Zn", "_Zd"};
        bool other = false;
        for (const char *o : others) other |= strncmp(n, o, strlen(o)) == 0;
        if (!other) ours.emplace_back(base + y.st_value, base + y.st_value + y.st_size);
      }
    }
    std::sort(ours.begin(), ours.end());
  }
  bool has(const void *a) const {
    uintptr_t x = (uintptr_t) a - 1;
    auto i = std::upper_bound(ours.begin(), ours.end(), std::make_pair(x, ~(uintptr_t) 0));
    return i != ours.begin() && x < (--i)->second;
  }
};
const Functions &functions() {
  static const Functions f;
  return f;
}

// May the allocation asked for at this address fail, and does it?
bool failsAt(const void *caller) {
  if (!armed) return false;
  armed = false;
  bool r = functions().has(caller) && fails();
  armed = true;
  return r;
}

void *allocate(std::size_t n);

}  // namespace

// The linker directs all of this program's calls here (not those of libraries)
extern "C" {
void *__real_malloc(size_t n);
void *__real_calloc(size_t k, size_t n);
void *__real_realloc(void *p, size_t n);
void *__wrap_malloc(size_t n) { return failsAt(__builtin_return_address(0)) ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t k, size_t n) { return failsAt(__builtin_return_address(0)) ? nullptr : __real_calloc(k, n); }
void *__wrap_realloc(void *p, size_t n) { return failsAt(__builtin_return_address(0)) ? nullptr : __real_realloc(p, n); }
}

namespace {

void *allocate(std::size_t n) {
  if (armed && fails()) throw std::bad_alloc();
  void *p = __real_malloc(n ? n : 1);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}

}  // namespace

void *operator new(std::size_t n) { return allocate(n); }
void *operator new[](std::size_t n) { return allocate(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return failsAt(__builtin_return_address(0)) ? nullptr : __real_malloc(n ? n : 1); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return failsAt(__builtin_return_address(0)) ? nullptr : __real_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

namespace {

// Steps are repeated once memory is available again
struct Repeat : Relay {
  std::ostringstream &o;
  size_t repeated = 0;
  explicit Repeat(std::ostringstream &o) : o(o) {}
  void run(const std::function<void()> &f) override {
    bool was = armed;
    armed = false;
    std::string before = o.str();
    armed = was;
    try {
      f();
      return;
    } catch (std::bad_alloc &) {
      armed = false;
    }
    repeated++;
    o.clear();
    o.str(before);
    o.seekp(0, std::ios::end);
    f();
  }
};

std::string perform(const Work &w, bool repeat, bool arm, size_t *repeated = nullptr) {
  std::ostringstream o;
  o.imbue(std::locale::classic());
  o.exceptions(std::ios::badbit);
  Repeat r(o);
  struct Guard {
    ~Guard() {
      relay = nullptr;
      armed = false;
    }
  } guard;
  relay = repeat ? &r : nullptr;
  armed = arm;
  try {
    w(o);
  } catch (CheckFailed &) {
    throw;
  } catch (std::bad_alloc &) {
    throw;
  } catch (std::exception &e) {
    armed = false;
    o << "exception " << e.what();
  }
  armed = false;
  if (repeated) *repeated = r.repeated;
  return o.str();
}

void shortage(Ctx &c) {
  uint64_t ambient = c.u64();
  reseedAmbient(ambient);
  ZZ p = gen::prime(c, c.range(64, 160));
  ZZ_p::init(p);
  std::string name;
  Work w = work(c, p, c.draw(KINDS), name);
  PBT_NOTE(c, name << " modulo " << p);
  c.label(name);
  std::string want = perform(w, false, false);
  allocations = failFrom = failTo = 0;
  std::string same = perform(w, false, true);
  uint64_t total = allocations;
  PBT_CHECK(same == want, name << " gives another result the second time");
  if (total == 0) throw Discard();
  size_t tries = total <= 8 ? (size_t) total : 6;
  for (size_t i = 0; i < tries; i++) {
    uint64_t from = total <= 8 ? i + 1 : 1 + c.draw(total), n = c.chance(1, 3) ? 1ull << 40 : c.chance(1, 4) ? c.range(2, 4) : 1;
    bool repeat = c.coin() && (name == "Murmur" || name.find("SHA") == 0 || name.find("generator") != std::string::npos);
    PBT_NOTE(c, "of " << total << " allocations, number " << from << (n == 1 ? " fails" : n > 4 ? " and all after it fail" : " and some after it fail") << (repeat ? "; steps are repeated" : ""));
    ForkResult r = forked([&](std::string &report) {
      allocations = 0;
      failFrom = from;
      failTo = from + n;
      size_t repeated = 0;
      std::string got;
      try {
        got = perform(w, repeat, true, &repeated);
        report = repeated ? "R" : "N";
      } catch (std::bad_alloc &) {
        report = "T";
      }
      armed = false;
      report += got;
      if (report[0] != 'N') {
        // everything works again
        ZZ_p::init(p);
        std::string again = perform(w, false, false);
        if (again != want) report = "A" + again;
      }
    });
    std::ostringstream where;
    where << name << ", where of " << total << " allocations number " << from << (n == 1 ? " fails, " : n > 4 ? " and all after it fail, " : " and some after it fail, ");
    if (r.exited && !r.returned && !r.threw) {
      PBT_CHECK(r.code == 2, where.str() << "ends the process with status " << r.code << ": " << r.err.substr(0, 600));
      PBT_CHECK(!r.err.empty(), where.str() << "ends the process without saying why");
      c.label("process ends in order");
      continue;
    }
    PBT_CHECK(r.exited, where.str() << "kills the process with signal " << r.sig << ": " << r.err.substr(0, 600));
    PBT_CHECK(!r.threw, where.str() << "leaves by another exception: " << r.report);
    PBT_CHECK(!r.report.empty(), where.str() << "gives no report");
    char kind = r.report[0];
    std::string got = r.report.substr(1);
    PBT_CHECK(kind != 'A', where.str() << "makes later work give other results: " << got.substr(0, 200) << " instead of " << want.substr(0, 200));
    if (kind == 'T') {
      c.label("std::bad_alloc");
      continue;
    }
    c.label(kind == 'R' ? "repeated" : "goes on");
    if (got != want) {
      size_t k = 0;
      while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
      size_t at = k < 40 ? 0 : k - 40;
      PBT_FAIL(where.str() << (kind == 'R' ? "gives a wrong result when what ran out of memory is repeated: ..." : "gives a wrong result: ...") << got.substr(at, 160) << " instead of ..." << want.substr(at, 160));
    }
  }
  c.count("failures injected", tries);
  c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C25",
    "A piece of work (of those of C21) in a process of its own, in which one chosen allocation by operator new (or several from it on, or all) fails.  The process must end "
    "with status 2 and a message, or std::bad_alloc must come out, after which everything can be destroyed and the same work done again gives the right result, or (also when "
    "hashing or generating that ran out of memory is repeated on the same object) the result must be right; nothing else may happen.  Every case in which something is allocated is non-trivial.",
    {{"shortage", shortage, 2500, 60000, 120}}};
