// C11: the field pseudo-random function reduces the integer one.
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include "zzpprf.h"
#include <map>
#include <memory>

using namespace pbt;
using NTL::ZZ;
using NTL::ZZ_p;

namespace {

ZZ want(const ZZ &p, const ZZ &seed, uint64_t ix, size_t bits) {
  size_t nb = (size_t) NTL::NumBits(p);
  if (bits == 0 || bits > nb) bits = nb;
  return ref::prf(seed, ix, bits) % p;
}

uint64_t index(Ctx &c) {
  switch (c.weighted({3, 2, 2})) {
    case 0: return c.draw(300);
    case 1: return gen::wide(c, 300);
    default: return (1ull << c.draw(64)) + c.draw(3) - 1;
  }
}

ZZ modulus(Ctx &c) {
  if (c.chance(1, 150)) {
    c.label("a modulus of more than 700 bits");
    return gen::modulus(c, 701, 20000);
  }
  switch (c.weighted({3, 1, 1})) {
    case 0: return gen::modulus(c, 2, 700);
    case 1: return ZZ((long) c.range(2, 300));
    default: {
      ZZ v = ref::pow2(c.range(1, 400)) + ZZ((long) c.draw(3)) - 1;
      return v < 2 ? ZZ(2) : v;
    }
  }
}

struct Auto : ZZpPRF {
  ZZ mine;
  Auto(const ZZ &p, const ZZ &s, ZZPRF *g) : ZZpPRF(p, g), mine(s) {}
  ZZ_p randomSeed() override {
    ZZ_p r;
    conv(r, mine);
    return r;
  }
};

void history(Ctx &c) {
  struct Gen {
    std::unique_ptr<Auto> g;
    ZZ p;
    bool moved;  // given another modulus: an own seed may belong to the old one
  };
  std::vector<std::unique_ptr<ZZPRF>> base;
  std::vector<Gen> gens;
  std::vector<ZZ> mods;
  mods.push_back(modulus(c));
  size_t nops = c.chance(1, 150) ? c.range(280, 700) : c.range(2, 18), vals = 0, shared = 0, destroyed = 0, wide = 0;
  std::vector<std::pair<ZZ, uint64_t>> past;
  for (size_t k = 0; k < nops; k++) {
    size_t op = gens.empty() ? 1 : c.weighted({8, 3, 2, 2, 2, 1, 1});
    switch (op) {
      case 0: {  // use
        size_t i = c.draw(gens.size());
        Gen &g = gens[i];
        ZZ_p::init(g.p);
        ZZ s;
        uint64_t ix;
        if (!past.empty() && c.chance(1, 3)) {
          std::tie(s, ix) = past[c.draw(past.size())];
          s %= g.p;
        } else {
          s = gen::below(c, g.p);
          ix = index(c);
          past.emplace_back(s, ix);
        }
        size_t nb = (size_t) NTL::NumBits(g.p), b;
        switch (c.weighted({3, 3, 2, 1})) {
          case 0: b = 0; break;
          case 1: b = c.range(1, nb); break;
          case 2: b = nb + c.draw(4) - (nb > 1 ? 1 : 0); break;
          default: b = gen::wide(c, nb + 2); break;
        }
        ZZ_p e;
        conv(e, s);
        bool own = c.chance(1, 6) && !g.moved;
        ZZ_p v;
        PseudoRandom<ZZ_p, ZZ_p> &face = *g.g;
        if (own) {
          s = g.g->mine % g.p;
          v = b == 0 && c.coin() ? face.generate((size_t) ix) : face.generate((size_t) ix, b);
          c.label("own seed");
        } else {
          v = c.coin() ? face.generate(e, ix, b) : b == 0 ? g.g->generate(e, ix) : g.g->generate(e, ix, b);
        }
        ZZ w = want(g.p, s, ix, b);
        PBT_NOTE(c, "generator " << i << " modulo " << g.p << (own ? " own" : "") << " seed " << s << " index " << ix << " bits " << b << " = " << v);
        PBT_CHECK(rep(v) == w, "modulo " << g.p << " seed " << s << " index " << ix << " bits " << b << " is " << v << ", expected " << w);
        PBT_CHECK(g.g->getModulo() == g.p, "getModulo() is " << g.g->getModulo());
        vals++;
        if (b > nb) wide++;
        if (ref::prf(s, ix, b == 0 || b > nb ? nb : b) >= g.p) c.label("reduced");
        break;
      }
      case 1: {  // new generator
        if (gens.size() > 4) break;
        if (c.chance(1, 3)) mods.push_back(modulus(c));
        const ZZ &p = mods[c.draw(mods.size())];
        ZZPRF *b = nullptr;
        if (!base.empty() && c.chance(2, 3)) {
          b = base[c.draw(base.size())].get();
          shared++;
        }
        ZZ_p::init(p);
        ZZ mine = gen::below(c, p);
        gens.push_back({std::unique_ptr<Auto>(new Auto(p, mine, b)), p, false});
        PBT_NOTE(c, "generator " << gens.size() - 1 << " modulo " << p << (b ? " from an integer generator" : ""));
        break;
      }
      case 2:  // new integer generator, perhaps used
        base.emplace_back(new ZZPRF);
        PBT_NOTE(c, "integer generator " << base.size() - 1);
        /* fallthrough */
      case 3: {  // use one
        if (base.empty()) break;
        size_t i = c.draw(base.size());
        ZZ s = gen::natural(c, c.range(1, 300));
        uint64_t ix = index(c);
        size_t b = c.range(1, 600);
        ZZ v = base[i]->generate(s, ix, b);
        PBT_NOTE(c, "integer generator " << i << " seed " << s << " index " << ix << " bits " << b);
        PBT_CHECK(v == ref::prf(s, ix, b), "integer generator: seed " << s << " index " << ix << " bits " << b << " is " << v);
        vals++;
        break;
      }
      case 4: {  // destroy a generator or an integer generator
        size_t i = c.draw(gens.size() + base.size());
        if (i < gens.size()) {
          gens.erase(gens.begin() + (long) i);
          PBT_NOTE(c, "generator " << i << " destroyed");
        } else {
          base.erase(base.begin() + (long) (i - gens.size()));
          PBT_NOTE(c, "integer generator " << i - gens.size() << " destroyed");
        }
        destroyed++;
        break;
      }
      case 5: {  // another modulus
        size_t i = c.draw(gens.size());
        gens[i].p = mods[c.draw(mods.size())];
        gens[i].moved = true;
        gens[i].g->setModulo(gens[i].p);
        PBT_NOTE(c, "generator " << i << " now modulo " << gens[i].p);
        break;
      }
      default: {  // copy of a generator
        if (gens.size() > 4) break;
        size_t i = c.draw(gens.size());
        gens.push_back({std::unique_ptr<Auto>(new Auto(*gens[i].g)), gens[i].p, gens[i].moved});
        PBT_NOTE(c, "generator " << gens.size() - 1 << " copied from " << i);
        c.label("copied");
      }
    }
  }
  if (shared) c.label("shared integer generator");
  if (shared && destroyed) c.label("shared and destroyed");
  if (wide) c.label("more bits than the modulus");
  c.count("values", vals);
  if (vals >= 2) c.nontrivial();
}

// Generators that choose their own seed: one each, kept
void own(Ctx &c) {
  reseedAmbient(c.u64());
  ZZ p = c.coin() ? gen::prime(c, c.range(64, 300)) : gen::natural(c, c.range(64, 500)) + ref::pow2(64);
  ZZ_p::init(p);
  size_t n = c.range(2, 4), steps = c.range(2, 12);
  std::vector<std::unique_ptr<ZZpPRF>> gs;
  std::vector<std::map<std::pair<uint64_t, size_t>, ZZ>> seen(n);
  ZZPRF base;
  for (size_t i = 0; i < n; i++) gs.emplace_back(new ZZpPRF(p, c.chance(1, 3) ? &base : nullptr));
  size_t nb = (size_t) NTL::NumBits(p), again = 0;
  std::vector<std::pair<uint64_t, size_t>> asked;
  for (size_t k = 0; k < steps; k++) {
    if (asked.empty() || c.coin()) asked.emplace_back(index(c), c.coin() ? 0 : c.range(64, nb));
    auto q = asked[c.draw(asked.size())];
    for (size_t i = 0; i < n; i++) {
      if (c.chance(1, 4)) continue;
      PseudoRandom<ZZ_p, ZZ_p> &face = *gs[i];
      ZZ v = rep(q.second ? face.generate((size_t) q.first, q.second) : face.generate((size_t) q.first));
      PBT_NOTE(c, "generator " << i << " modulo " << p << " own seed index " << q.first << " bits " << q.second << " = " << v);
      auto x = seen[i].emplace(q, v);
      PBT_CHECK(x.first->second == v, "own seed, index " << q.first << ", " << q.second << " bits: " << v << ", earlier " << x.first->second);
      again += !x.second;
      for (size_t j = 0; j < n; j++)
        if (j != i && seen[j].count(q)) PBT_CHECK(seen[j][q] != v, "two generators' own seeds give the same value at index " << q.first << " (" << q.second << " bits): " << v);
    }
  }
  if (again) c.nontrivial();
}

}  // namespace

const Property pbt::property = {
    "C11",
    "Histories of 2-18 (1 in 150: up to 700) operations: field generators (modulus 2 to 700, rarely 20000, bits, any, including powers of two and their neighbours) built alone or "
    "from existing integer generators, copied, given another modulus, used with seeds of the field or their own seed, 64-bit indices and any "
    "number of bits, and destroyed in any order together with the integer generators; every value compared with the independent chain "
    "reduced modulo the field. own: 2-4 generators over a modulus of more than 64 bits that choose their own seeds, each of which must be kept and be its own. Non-trivial: at least two values in the history, or a value asked for again.",
    {{"history", history, 150000, 1500000, 30}, {"own", own, 3000, 60000, 30}}};
