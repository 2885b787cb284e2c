// C12: the polynomial batch finds exactly the padded roots.
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include "zzppoly.h"
#include <algorithm>
#include <memory>
#include <set>

using namespace pbt;
using NTL::ZZ;
using NTL::ZZ_p;

namespace {

struct Poly {
  ZZ lead;
  std::vector<ZZ> roots;             // with repetitions
  std::vector<std::vector<ZZ>> irr;  // (x - a)^2 - b with b a non-residue
  size_t degree() const { return roots.size() + 2 * irr.size(); }
  ZZ at(const ZZ &x, const ZZ &p) const {
    ZZ v = lead * ref::evalRoots(roots, x, p) % p;
    for (auto &q : irr) v = v * (ref::evalPoly(q, x, p)) % p;
    return v;
  }
};

struct Field {
  ZZ p;
  size_t pad;
};

ZZ root(Ctx &c, const Field &f) {
  size_t top = (size_t) NTL::NumBits(f.p);
  ZZ r;
  switch (c.weighted({5, 2, 2, 1, 2})) {
    case 0:  // an element with its padding
      r = gen::natural(c, f.pad < top ? top - f.pad : 1) * ref::pow2(f.pad);
      break;
    case 1:  // one zero short
      r = gen::natural(c, f.pad < top ? top - f.pad : 1) * ref::pow2(f.pad);
      if (f.pad > 0) r += ref::pow2(f.pad - 1);
      break;
    case 2: r = gen::below(c, f.p); break;
    case 3: r = 0; break;
    default: r = f.p - ZZ(1) - ZZ((long) c.draw(4)); break;
  }
  return r % f.p;
}

Poly poly(Ctx &c, const Field &f, size_t maxDegree) {
  Poly q;
  q.lead = c.coin() ? ZZ(1) : 1 + gen::below(c, f.p - 1);
  size_t d = c.weighted({1, 6}) == 0 ? c.draw(2) : c.range(1, maxDegree);
  d = std::min(d, maxDegree);
  while (q.degree() < d) {
    if (d - q.degree() >= 2 && c.chance(1, 5)) {
      ZZ a = gen::below(c, f.p), b = gen::below(c, f.p);
      for (int i = 0; i < 200 && NTL::Jacobi(b, f.p) != -1; i++) b = (b + 1) % f.p;
      if (NTL::Jacobi(b, f.p) != -1) throw Discard();
      // x^2 - 2 a x + a^2 - b
      q.irr.push_back({((a * a - b) % f.p + f.p) % f.p, (f.p - 2 * a % f.p) % f.p, ZZ(1)});
      continue;
    }
    ZZ r = root(c, f);
    size_t mult = c.chance(1, 5) ? c.range(2, 5) : 1;
    for (size_t i = 0; i < mult && q.degree() < d; i++) q.roots.push_back(r);
  }
  return q;
}

std::vector<ZZ> wanted(const Poly &q, const Field &f) {
  std::set<ZZ> s;
  for (auto &r : q.roots)
    if (NTL::IsZero(r) || r % ref::pow2(f.pad) == 0) s.insert(r / ref::pow2(f.pad));
  return std::vector<ZZ>(s.begin(), s.end());
}

struct Batch {
  std::vector<Poly> polys;
  NTL::vec_ZZ_p x;
  std::unique_ptr<NTL::vec_ZZ_p[]> y;
};

void evaluate(Batch &b, const Field &f) {
  for (size_t j = 0; j < b.polys.size(); j++) {
    b.y[j].SetLength(b.x.length());
    for (long i = 0; i < b.x.length(); i++) conv(b.y[j][i], b.polys[j].at(rep(b.x[i]), f.p));
  }
}

Batch batch(Ctx &c, const Field &f, size_t maxDegree) {
  Batch b;
  size_t n = c.weighted({1, 8, 1}) == 0 ? 0 : c.range(1, 6);
  size_t deg = 0;
  for (size_t i = 0; i < n; i++) {
    b.polys.push_back(poly(c, f, maxDegree));
    deg = std::max(deg, b.polys[i].degree());
  }
  size_t pts = deg + 1 + (c.coin() ? c.draw(4) : 0);
  if (ZZ((long) pts) > f.p) pts = (size_t) NTL::to_long(f.p);
  std::set<ZZ> used;
  int how = (int) c.weighted({2, 1, 1});
  b.x.SetLength((long) pts);
  for (size_t i = 0; i < pts; i++) {
    ZZ v = how == 0 ? ZZ((long) i) + 1 : how == 1 ? ZZ(2 * (long) i) : gen::below(c, f.p);
    v %= f.p;
    while (used.count(v)) v = (v + 1) % f.p;
    used.insert(v);
    conv(b.x[(long) i], v);
  }
  b.y.reset(new NTL::vec_ZZ_p[n ? n : 1]);
  evaluate(b, f);
  return b;
}

// Other polynomials and points in the same memory
void rewrite(Ctx &c, const Field &f, Batch &b, size_t maxDegree) {
  size_t pts = (size_t) b.x.length(), changed = 0, moved = 0;
  for (auto &q : b.polys)
    if (c.coin()) q = poly(c, f, std::min(maxDegree, pts - 1)), changed++;
  if (ZZ((long) pts) < f.p && c.coin()) {
    std::set<ZZ> used;
    for (size_t i = 0; i < pts; i++) used.insert(rep(b.x[(long) i]));
    size_t i = c.coin() ? pts - 1 : c.draw(pts);
    ZZ v = gen::below(c, f.p);
    while (used.count(v)) v = (v + 1) % f.p;
    conv(b.x[(long) i], v);
    moved++;
  }
  evaluate(b, f);
  PBT_NOTE(c, changed << " of " << b.polys.size() << " polynomials" << (moved ? " and a point" : "") << " replaced in place");
  if (changed + moved) c.label("replaced in place");
}

void judge(const NTL::vec_ZZ &got, const Batch &b, const Field &f, const std::string &how) {
  size_t at = 0;
  std::ostringstream all;
  all << got;
  for (size_t j = 0; j < b.polys.size(); j++) {
    std::vector<ZZ> w = wanted(b.polys[j], f);
    PBT_CHECK(at + w.size() <= (size_t) got.length(), how << ": " << got.length() << " elements reported, polynomial " << j << " has elements " << at << " to "
                                                          << at + w.size() << ": " << all.str());
    std::vector<ZZ> g;
    for (size_t i = 0; i < w.size(); i++) g.push_back(got[(long) (at + i)]);
    std::sort(g.begin(), g.end());
    for (size_t i = 0; i < w.size(); i++)
      PBT_CHECK(g[i] == w[i], how << ": polynomial " << j << " should give " << w[i] << " (" << i << " of " << w.size() << " in order), there is " << g[i]
                                  << "; all: " << all.str());
    at += w.size();
  }
  PBT_CHECK(at == (size_t) got.length(), how << ": " << got.length() << " elements reported instead of " << at << ": " << all.str());
}

// Large degrees and many polynomials
void large(Ctx &c) {
  Field f;
  f.p = gen::prime(c, c.range(64, 100));
  ZZ_p::init(f.p);
  f.pad = c.range(44, 50);
  ZZpPolynomials z(f.pad);
  size_t rounds = c.range(1, 2);
  for (size_t k = 0; k < rounds; k++) {
    bool many = c.coin();
    size_t n = many ? c.range(100, 400) : c.range(1, 3), deg = many ? c.range(1, 6) : c.range(100, 280);
    Batch b;
    uint64_t s = c.u64();
    for (size_t j = 0; j < n; j++) {
      Poly q;
      q.lead = c.coin() ? ZZ(1) : 1 + gen::below(c, f.p - 1);
      size_t d = splitmix(s) % 4 ? deg : splitmix(s) % (deg + 1);
      for (size_t i = 0; i < d; i++) {
        ZZ r = ref::fromLE(std::to_string(splitmix(s))) % f.p;
        if (splitmix(s) % 3 == 0) r = (r % ref::pow2(14)) * ref::pow2(f.pad) % f.p;
        q.roots.push_back(r);
        if (i + 1 < d && splitmix(s) % 16 == 0) q.roots.push_back(r), i++;
      }
      b.polys.push_back(q);
    }
    size_t pts = deg + 1 + c.draw(3);
    b.x.SetLength((long) pts);
    for (size_t i = 0; i < pts; i++) conv(b.x[(long) i], (long) i + 1);
    b.y.reset(new NTL::vec_ZZ_p[n]);
    for (size_t j = 0; j < n; j++) {
      b.y[j].SetLength((long) pts);
      for (size_t i = 0; i < pts; i++) conv(b.y[j][(long) i], b.polys[j].at(rep(b.x[(long) i]), f.p));
    }
    PolynomialFactoringAlgorithm pfa = deg < 50 && c.coin() ? PFA_BERLEKAMP : PFA_CANZASS;
    std::ostringstream how;
    how << "round " << k << ", " << n << " polynomials of degree up to " << deg << ", " << (pfa == PFA_BERLEKAMP ? "Berlekamp" : "Cantor-Zassenhaus");
    PBT_NOTE(c, how.str());
    judge(z.findIntersection(b.x, b.y.get(), n, pfa), b, f, how.str());
    c.label(many ? "more than 100 polynomials" : "degree of 100 or more");
    if (n > 256) c.label("more than 256 polynomials");
    if (deg > 256) c.label("degree beyond 256");
    c.count("polynomials", n);
  }
  c.nontrivial();
}

// Work begun on an object and not carried through
void abandon(Ctx &c, ZZpPolynomials &z, Batch &b) {
  size_t n = b.polys.size(), how = c.draw(4);
  z.interpolate(b.x, b.y.get(), n, how & 1);
  if (how & 2) z.makeMonic(), z.factorise(c.coin() ? PFA_BERLEKAMP : PFA_CANZASS);
  PBT_CHECK(z.size() == n, "size() is " << z.size() << " after interpolating " << n << " polynomials");
  PBT_NOTE(c, n << " polynomials interpolated" << (how & 3 ? ", made monic" : "") << (how & 2 ? ", factorised" : "") << " and left");
  c.label("work left off");
}

void history(Ctx &c) {
  Field f;
  switch (c.weighted({2, 2, 2})) {
    case 0: f.p = gen::prime(c, c.range(2, 16)); break;
    case 1: f.p = gen::prime(c, c.range(17, 90)); break;
    default: f.p = gen::prime(c, c.range(91, 260)); break;
  }
  if (f.p < 3) f.p = 3;
  ZZ_p::init(f.p);
  size_t top = (size_t) NTL::NumBits(f.p);
  switch (c.weighted({1, 4, 1})) {
    case 0: f.pad = 0; break;
    case 1: f.pad = c.range(1, top - 1); break;
    default: f.pad = top + c.draw(5); break;
  }
  PBT_NOTE(c, "modulo " << f.p << ", padding " << f.pad);
  ZZpPolynomials z(f.pad);
  PBT_CHECK(z.getPadsize() == f.pad, "getPadsize() is " << z.getPadsize());
  std::vector<Batch> bs;
  size_t maxDegree = top > 120 ? 7 : 11;
  if (f.p < 20) maxDegree = std::min(maxDegree, (size_t) NTL::to_long(f.p) - 1);  // degree + 1 points are needed
  size_t nops = c.range(1, 5);
  bool found = false, rejected = false, multiple = false, irr = false;
  size_t lastN = 0, sizes = 0;
  for (size_t k = 0; k < nops; k++) {
    if (bs.empty() || c.chance(2, 3)) bs.push_back(batch(c, f, maxDegree));
    Batch &b = bs[c.coin() ? bs.size() - 1 : c.draw(bs.size())];
    if (k > 0 && c.chance(1, 4)) rewrite(c, f, b, maxDegree);
    size_t n = b.polys.size();
    PolynomialFactoringAlgorithm pfa = c.coin() ? PFA_BERLEKAMP : PFA_CANZASS;
    int way = (int) c.draw(4);
    NTL::vec_ZZ_p x0 = b.x;
    std::ostringstream how;
    how << "step " << k << ", " << n << " polynomials, " << (pfa == PFA_BERLEKAMP ? "Berlekamp" : "Cantor-Zassenhaus") << ", way " << way;
    PBT_NOTE(c, how.str());
    for (size_t j = 0; j < n; j++) {
      std::ostringstream o;
      for (auto &r : b.polys[j].roots) o << r << " ";
      PBT_NOTE(c, "  " << b.polys[j].lead << " * roots " << o.str() << "and " << b.polys[j].irr.size() << " irreducible squares, " << b.x.length() << " points");
    }
    if (c.chance(1, 12)) {
      size_t t = c.draw(9);
      z.useThreads(t);
      PBT_NOTE(c, t << " threads asked for");
      c.label("threads asked for");
    }
    if (c.chance(1, 4)) abandon(c, z, bs[c.coin() ? bs.size() - 1 : c.draw(bs.size())]);
    NTL::vec_ZZ got;
    switch (way) {
      case 0:
      case 1:
        got = z.findIntersection(b.x, b.y.get(), n, pfa);
        break;
      case 2:
        z.interpolate(b.x, b.y.get(), n);
        z.factorise(pfa);
        got = z.findIntersection();
        break;
      default:
        z.interpolate(b.x, b.y.get(), n, false);
        z.makeMonic();
        z.factorise(pfa);
        got = z.findIntersection();
    }
    judge(got, b, f, how.str());
    PBT_CHECK(z.size() == n, how.str() << ": size() is " << z.size());
    PBT_CHECK(b.x == x0, how.str() << ": the points were changed");
    if (c.coin()) judge(z.findIntersection(), b, f, how.str() + ", asked again");
    if (n > 0 && c.chance(1, 4)) {
      pfa = pfa == PFA_BERLEKAMP ? PFA_CANZASS : PFA_BERLEKAMP;
      z.factorise(pfa);
      judge(z.findIntersection(), b, f, how.str() + ", then the other algorithm");
    }
    for (auto &q : b.polys) {
      size_t w = wanted(q, f).size();
      found |= w > 0;
      std::set<ZZ> d(q.roots.begin(), q.roots.end());
      rejected |= d.size() > w;
      multiple |= d.size() < q.roots.size();
      irr |= !q.irr.empty();
      if (q.degree() == 0) c.label("constant polynomial");
      if (d.count(ZZ(0))) c.label("root zero");
      if (q.lead != 1) c.label("not monic");
      c.count("polynomials");
    }
    if (k > 0 && n != lastN) sizes++;
    lastN = n;
    c.label(way < 2 ? "one call" : "step by step");
  }
  if (multiple) c.label("multiple roots");
  if (irr) c.label("irreducible factors");
  if (sizes) c.label("other number of polynomials");
  if (nops > 1) c.label("object reused");
  if (found && rejected) c.nontrivial();
}

// One object used for batches over one field after another
void fields(Ctx &c) {
  size_t pad = c.range(1, 40), rounds = c.range(2, 5), switches = 0;
  std::vector<Field> fs;
  for (size_t i = c.range(2, 3); i > 0; i--) {
    Field f;
    f.p = gen::prime(c, c.range(2, 260));
    if (f.p < 3) f.p = 3;
    f.pad = pad;
    fs.push_back(f);
  }
  ZZ_p::init(fs[0].p);
  ZZpPolynomials z(pad);
  size_t now = 0;
  for (size_t k = 0; k < rounds; k++) {
    size_t g = c.draw(fs.size());
    Field &f = fs[g];
    ZZ_p::init(f.p);
    if (k > 0 && g != now) switches++;
    now = g;
    size_t maxDegree = f.p < 20 ? (size_t) NTL::to_long(f.p) - 1 : 6;
    Batch b = batch(c, f, std::min(maxDegree, (size_t) 6));
    size_t n = b.polys.size();
    PolynomialFactoringAlgorithm pfa = c.coin() ? PFA_BERLEKAMP : PFA_CANZASS;
    std::ostringstream how;
    how << "round " << k << ", field " << f.p << ", " << n << " polynomials, " << (pfa == PFA_BERLEKAMP ? "Berlekamp" : "Cantor-Zassenhaus");
    if (c.chance(1, 4)) abandon(c, z, b);
    switch (c.draw(3)) {
      case 0:
        PBT_NOTE(c, how.str() << ", step by step");
        z.interpolate(b.x, b.y.get(), n);
        z.factorise(pfa);
        judge(z.findIntersection(), b, f, how.str());
        break;
      default:
        PBT_NOTE(c, how.str());
        judge(z.findIntersection(b.x, b.y.get(), n, pfa), b, f, how.str());
    }
    c.count("polynomials", n);
  }
  if (switches) {
    c.label("object used over several fields");
    c.nontrivial();
  }
}

// More polynomials than a 16-bit count can hold, of degree one
void marathon(Ctx &c) {
  Field f;
  f.p = gen::prime(c, c.range(40, 90));
  ZZ_p::init(f.p);
  f.pad = c.range(8, 24);
  ZZpPolynomials z(f.pad);
  uint64_t s = c.u64();
  size_t n = 65600 + c.draw(500);
  Batch b;
  b.x.SetLength(2);
  b.x[0] = 1;
  b.x[1] = 2;
  b.y.reset(new NTL::vec_ZZ_p[n]);
  for (size_t j = 0; j < n; j++) {
    Poly q;
    q.lead = 1;
    ZZ r = ref::fromLE(std::to_string(splitmix(s))) % f.p;
    if (j < 8 || j + 8 >= n || j / 8 == 8191 || splitmix(s) % 32 == 0) r = (r % ref::pow2(14)) * ref::pow2(f.pad) % f.p;
    q.roots.push_back(r);
    b.y[j].SetLength(2);
    for (long i = 0; i < 2; i++) conv(b.y[j][i], q.at(rep(b.x[i]), f.p));
    b.polys.push_back(q);
  }
  PBT_NOTE(c, n << " polynomials of degree one modulo " << f.p);
  judge(z.findIntersection(b.x, b.y.get(), n, c.coin() ? PFA_BERLEKAMP : PFA_CANZASS), b, f, "one call");
  PBT_CHECK(z.size() == n, "size() is " << z.size());
  c.label("more than 65536 polynomials");
  c.count("polynomials", n);
  c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C12",
    "1-5 rounds on one object over a prime field of 2 to 260 bits (odd p), each with 0-6 polynomials of degree 0-11 built from known roots "
    "(padded, one zero short of the padding, zero, near the modulus, uniform; multiplicities 1-5), irreducible quadratics and a leading "
    "coefficient, given by their values at distinct points, some replaced in place later; one call or interpolate / make monic / factorise / find, both algorithms; the "
    "elements reported compared per polynomial with the set computed from the known roots. large: up to 400 polynomials, or degrees up to 280. marathon: more than 65536 polynomials of degree one. fields: one object over several moduli. Non-trivial: some root reported and some "
    "rejected.",
    {{"history", history, 8000, 200000, 60}, {"large", large, 48, 1200, 300}, {"fields", fields, 3000, 60000, 60}, {"marathon", marathon, 1, 6, 300}}};
