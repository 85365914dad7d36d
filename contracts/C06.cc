// Contracts of HashCombine.
#include <cstdint>
#include <initializer_list>
#include <string>
#include <string_view>
#include <functional>

#include "rst/stl/hash.h"
#include "verif.h"

using rst::HashCombine;

namespace {
// A type whose std::hash is any value at all.
struct K { size_t h; };
}  // namespace
namespace std {
template <>
struct hash<K> {
  size_t operator()(const K& k) const { return k.h; }
};
}  // namespace std

namespace {
[[maybe_unused]] size_t Any(const char* n) { return verif::any<size_t>(n); }
}  // namespace

HARNESS(Empty) { verif_check(HashCombine({}) == 0, "empty list gives 0"); }

HARNESS(One) {
  const K k{Any("hash")};
  verif_check(HashCombine({k}) == k.h, "one element gives its hash");
  const int i = verif::any<int>("int");
  verif_check(HashCombine({i}) == std::hash<int>()(i), "std::hash of int");
  bool b = verif::any<bool>("bool");
  verif_check(HashCombine({b}) == std::hash<bool>()(b), "std::hash of bool");
}

// A second hash to compare with |k|: any other one.  When running on the real code the random choice is helped to near
// misses: one bit or a few bits apart, and the value that the inverse of the documented mixing gives for the same result
// (which finds a collision wherever the code departs from that mixing for some values only).
namespace {
#ifdef VERIF_SYMBOLIC
K Other(size_t, const char* name, size_t, size_t, bool) { return K{Any(name)}; }
#else
size_t Mix(size_t k) { const size_t m = 0xc6a4a7935bd1e995; k *= m; k ^= k >> 47; return k * m; }
size_t Inverse(size_t a) { size_t x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
size_t Unmix(size_t k) { const size_t i = Inverse(0xc6a4a7935bd1e995); k *= i; k ^= k >> 47; return k * i; }
K Other(size_t k, const char* name, size_t fixed, size_t result, bool first) {
  const size_t v = Any(name);
  const size_t before = (result - 0xe6546b64) * Inverse(0xc6a4a7935bd1e995);
  switch (verif::any<uint8_t>("how") % 8) {
    case 0: return K{k ^ (size_t{1} << v % 64)};
    case 1: return K{k + (size_t{1} << v % 64)};
    case 2: return K{k ^ (size_t{1} << v % 64) ^ (size_t{1} << v / 64 % 64)};
    case 3: return K{k ^ (~size_t{0} << v % 64)};
    case 4: return K{first ? before ^ Mix(fixed) : Unmix(before ^ fixed)};
    case 5: return K{Unmix(Mix(k) ^ (size_t{1} << v % 64) ^ (size_t{1} << v / 64 % 64))};
    case 6: return K{Inverse(0xc6a4a7935bd1e995) * ((0xc6a4a7935bd1e995 * k) ^ (size_t{1} << v % 64) ^ (size_t{1} << v / 64 % 64))};
    default: return K{v};
  }
}
#endif
}  // namespace

// The step of the fold, as seen through two-element lists: Step(h, k).
// It is injective in either argument.
HARNESS(StepInjectiveInSecond) {
  const K h{Any("h")}, k{Any("k")};
  const size_t r = HashCombine({h, k});
  const K l = Other(k.h, "other k", h.h, r, false);
  verif_assume(k.h != l.h);
  verif_check(r != HashCombine({h, l}), "different last hashes never collide");
}
HARNESS(StepInjectiveInFirst) {
  const K h{Any("h")}, k{Any("k")};
  const size_t r = HashCombine({h, k});
  const K g = Other(h.h, "other h", k.h, r, true);
  verif_assume(h.h != g.h);
  verif_check(r != HashCombine({g, k}), "different earlier hashes never collide");
}

// For lists of any length: HashCombine is the left fold of the two-element combination.
#include <cstring>
extern "C" {
size_t verif_words(size_t stride, const char* name, const void** p);
size_t verif_word(size_t k);
void verif_fold(size_t h, size_t k, size_t step);
size_t verif_folded();
}
using rst::internal::Hash;
struct Words {
  const Hash* p;
  size_t n;
  std::initializer_list<Hash> list() const {
    struct { const Hash* p; size_t n; } l{p, n};
    std::initializer_list<Hash> r;
    static_assert(sizeof r == sizeof l);
    std::memcpy(static_cast<void*>(&r), &l, sizeof r);
    return r;
  }
};
#ifdef VERIF_SYMBOLIC
static Words AnyWords(const char* name) {
  const void* p = nullptr;
  const size_t n = verif_words(sizeof(Hash), name, &p);
  return {static_cast<const Hash*>(p), n};
}
#else
#include <vector>
static std::vector<size_t> words;
static std::vector<Hash> hashes;
static Words AnyWords(const char* name) {
  hashes.~vector();
  new (&hashes) std::vector<Hash>();
  words.clear();
  const size_t n = verif::any<uint32_t>(name) % 9;
  hashes.reserve(n);
  for (size_t i = 0; i < n; i++) {
    words.push_back(verif::any<size_t>("hash"));
    hashes.emplace_back(K{words.back()});
  }
  return {hashes.data(), n};
}
size_t verif_word(size_t k) { return words[k]; }
void verif_fold(size_t, size_t, size_t) {}
size_t verif_folded() {
  size_t r = words[0];
  for (size_t i = 1; i < words.size(); i++) r = HashCombine({K{r}, K{words[i]}});
  return r;
}
#endif
HARNESS(Fold) {
  const Words w = AnyWords("hashes");
  const K h{Any("h")}, k{Any("k")};
  verif_fold(h.h, k.h, HashCombine({h, k}));
  const size_t r = HashCombine(w.list());
  if (w.n == 0) {
    verif_check(r == 0, "an empty list gives 0");
    return;
  }
  verif_check(r == verif_folded(), "the result is the left fold of the two-element combination over the hashes, in order");
}
// Hashes of the library's usual element types are the elements' std::hash.
HARNESS(ElementHash) {
  const size_t a = Any("a");
  K k{a};
  const K ck{a};
  verif_check(Hash(k).hash() == a && Hash(ck).hash() == a && Hash(K{a}).hash() == a, "the hash of an element is its std::hash");
  const int i = verif::any<int>("i");
  verif_check(HashCombine({i, ck}) == HashCombine({K{std::hash<int>()(i)}, k}), "elements of different types");
}
