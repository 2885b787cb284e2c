// Independent reference implementations: nothing here comes from /repo.
#pragma once
#include <NTL/ZZ.h>
#include <cstdint>
#include <string>
#include <vector>

namespace ref {
std::string sha1(const std::string &m);
std::string sha256(const std::string &m);
std::string murmur3_x64_128(const std::string &m, uint32_t seed);

std::string decimal(const NTL::ZZ &z);
NTL::ZZ fromLE(const std::string &s);            // little-endian natural
std::string toLE(const NTL::ZZ &z);              // minimal length, empty for zero
NTL::ZZ pow2(size_t n);
// SHA-1 chain pseudo-random natural (bits >= 1)
NTL::ZZ prf(const NTL::ZZ &seed, uint64_t index, size_t bits);
// polynomials modulo p, lowest coefficient first
NTL::ZZ evalPoly(const std::vector<NTL::ZZ> &f, const NTL::ZZ &x, const NTL::ZZ &p);
NTL::ZZ evalRoots(const std::vector<NTL::ZZ> &roots, const NTL::ZZ &x, const NTL::ZZ &p);
std::vector<NTL::ZZ> mulPoly(const std::vector<NTL::ZZ> &f, const std::vector<NTL::ZZ> &g, const NTL::ZZ &p);
NTL::ZZ trailingZeros(const NTL::ZZ &z);
}  // namespace ref
