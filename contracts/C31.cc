// Contracts of Type, Reversed, the container algorithms, VectorBuilder and StringResizeUninitialized.
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

#include "rst/stl/algorithm.h"
#include "rst/stl/resize_uninitialized.h"
#include "rst/stl/reversed.h"
#include "rst/stl/vector_builder.h"
#include "rst/type/type.h"
#include "verif.h"

// ---- Type
namespace {
template <class T>
void Compare(const T a, const T b) {
  using S = rst::Type<class SomeTag, T>;
  const S x(a), y(b);
  verif_check((x == y) == (a == b), "==");
  verif_check((x != y) == (a != b), "!=");
  verif_check((x < y) == (a < b), "<");
  verif_check((x <= y) == (a <= b), "<=");
  verif_check((x > y) == (a > b), ">");
  verif_check((x >= y) == (a >= b), ">=");
}
int copies = 0, moves = 0, live = 0;
struct Counted {
  explicit Counted(int v) : v(v) { live++; }
  Counted(const Counted& o) : v(o.v) { copies++; live++; }
  Counted(Counted&& o) noexcept : v(o.v) { o.v = -1; moves++; live++; }
  Counted& operator=(const Counted& o) { v = o.v; copies++; return *this; }
  Counted& operator=(Counted&& o) noexcept { v = o.v; if (this != &o) o.v = -1; moves++; return *this; }
  ~Counted() { live--; }
  int v;
};
struct Hashed { size_t h; };
}  // namespace
namespace std {
template <> struct hash<Hashed> { size_t operator()(const Hashed& k) const { return k.h; } };
}
HARNESS(TypeInt) {
  const int a = verif::any<int>("a"), b = verif_native() && verif_rand() % 3 == 0 ? a : verif::any<int>("b");
  Compare<int>(a, b);
  Compare<unsigned>(static_cast<unsigned>(a), static_cast<unsigned>(b));
  Compare<bool>(a & 1, b & 1);
  verif_cover("done");
}
HARNESS(TypeDouble) {
  // Includes not-a-number, which no comparison but != accepts.
  const double a = verif::any<double>("a"), b = verif_native() && verif_rand() % 3 == 0 ? a : verif::any<double>("b");
  Compare<double>(a, b);
  verif_cover("done");
}
HARNESS(TypeString) {
  const std::string a(verif::any_bytes("a")), b(verif::any_bytes("b"));
  using S = rst::Type<class SomeTag, std::string>;
  const S x(a);
  S y(b);
  verif_check((x == y) == (a == b), "==");
  verif_check((x != y) == (a != b), "!=");
  verif_check(x.value() == a && static_cast<std::string>(y) == b, "the value is kept");
  y = x;
  verif_check(y.value() == a && x.value() == a, "and copied");
}
HARNESS(TypeKeeps) {
  copies = moves = live = 0;
  const int v = verif::any<int>("v"), w = verif::any<int>("w");
  {
    using S = rst::Type<class SomeTag, Counted>;
    Counted c(v);
    S a(c);
    verif_check(a.value().v == v && c.v == v && moves == 0, "constructed from a copy");
    S b{Counted(w)};
    verif_check(b.value().v == w && copies == 1, "constructed by a move");
    S d(a), e(std::move(b));
    verif_check(d.value().v == v && a.value().v == v && e.value().v == w, "copied and moved");
    d = e;
    verif_check(d.value().v == w && e.value().v == w, "copy assignment");
    a = std::move(d);
    verif_check(a.value().v == w, "move assignment");
    verif_check(static_cast<Counted>(a).v == w && a.value().v == w, "conversion");
    verif_check(&a.value() == &static_cast<const S&>(a).value(), "the value itself");
  }
  verif_check(live == 0, "nothing else stays");
}
HARNESS(TypeHash) {
  const size_t h = verif::any<size_t>("hash");
  using S = rst::Type<class SomeTag, Hashed>;
  verif_check(std::hash<S>()(S(Hashed{h})) == h, "the hash is the underlying hash");
  using I = rst::Type<class OtherTag, int>;
  const int i = verif::any<int>("i");
  verif_check(std::hash<I>()(I(i)) == std::hash<int>()(i), "the hash of an integer");
}

// ---- Reversed, for containers of any size
namespace {
struct Span {
  char* p;
  size_t n;
  char* begin() { return p; }
  char* end() { return p + n; }
  const char* begin() const { return p; }
  const char* end() const { return p + n; }
  auto rbegin() { return std::reverse_iterator<char*>(end()); }
  auto rend() { return std::reverse_iterator<char*>(begin()); }
  auto rbegin() const { return std::reverse_iterator<const char*>(end()); }
  auto rend() const { return std::reverse_iterator<const char*>(begin()); }
};
Span AnySpan(const char* name) {
  const auto t = verif::any_bytes(name);
  return {const_cast<char*>(t.data()), t.size()};
}
}  // namespace
HARNESS(ReversedSpan) {
  Span s = AnySpan("items");
  const Span& c = s;
  const auto r = rst::Reversed(s);
  const auto rc = rst::Reversed(c);
  verif_check(static_cast<size_t>(r.end() - r.begin()) == s.n && static_cast<size_t>(rc.end() - rc.begin()) == s.n, "as many elements");
  verif_check((r.begin() == r.end()) == (s.n == 0), "empty when the container is");
  if (s.n == 0) return;
  verif_check(&*r.begin() == s.p + s.n - 1, "starts at the last element");
  size_t i = verif::any<size_t>("i");
  if (verif_native()) i %= s.n;
  verif_assume(i < s.n);
  verif_check(&*(r.begin() + static_cast<ptrdiff_t>(i)) == s.p + s.n - 1 - i, "visits the element itself, back to front");
  verif_check(&*(rc.begin() + static_cast<ptrdiff_t>(i)) == s.p + s.n - 1 - i, "the same for a constant container");
  auto it = r.begin() + static_cast<ptrdiff_t>(i);
  ++it;
  verif_check((it == r.end()) == (i == s.n - 1), "ends after the first element");
}
HARNESS(ReversedStd) {
  int a[3] = {verif::any<int>("a"), verif::any<int>("b"), verif::any<int>("c")};
  size_t k = 3;
  for (int& x : rst::Reversed(a)) verif_check(&x == &a[--k], "arrays back to front");
  verif_check(k == 0, "every element of an array");
  std::vector<int> v;
  v.push_back(a[0]);
  v.push_back(a[1]);
  k = 2;
  for (const int& x : rst::Reversed(static_cast<const std::vector<int>&>(v))) verif_check(&x == &v[--k], "vectors back to front");
  verif_check(k == 0, "every element of a vector");
}

// ---- Container algorithms
extern "C" {
// The last call of a std algorithm: its name and whether its range, function
// object (by its id) and result were these.
bool verif_called(const char* name, const char* first, const char* last, int id);
const char* verif_result_ptr();
bool verif_result_bool();
}
namespace {
struct Less {
  int id;
  bool operator()(char a, char b) const { return ((a >> 1) & 15) < ((b >> 1) & 15); }
};
struct IsKey {
  int id;
  bool operator()(char a) const { return ((a ^ id) & 7) == 0; }
};
struct Bits {
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  int id;
  uint64_t s;
  uint64_t operator()() { return s = s * 6364136223846793005ull + 1442695040888963407ull, s ^ (s >> 29); }
};
#ifndef VERIF_SYMBOLIC
std::string before;
void Before(const Span& s) { before.assign(s.p, s.n); }
std::string Now(const Span& s) { return std::string(s.p, s.n); }
#else
void Before(const Span&) {}
#endif
}  // namespace

HARNESS(Sort) {
  Span s = AnySpan("items");
  const int id = verif::any<int>("id");
  Before(s);
  rst::c_sort(s, Less{id});
#ifdef VERIF_SYMBOLIC
  verif_check(verif_called("sort|stable_sort", s.begin(), s.end(), id), "the whole container is sorted by the comparison");
#else
  std::string w = before, n = Now(s);
  verif_check(std::is_sorted(n.begin(), n.end(), Less{id}), "the whole container is sorted by the comparison");
  std::sort(w.begin(), w.end());
  std::sort(n.begin(), n.end());
  verif_check(w == n, "a permutation");
#endif
}
HARNESS(SortPlain) {
  Span s = AnySpan("items");
  Before(s);
  rst::c_sort(s);
#ifdef VERIF_SYMBOLIC
  verif_check(verif_called("sort|stable_sort", s.begin(), s.end(), -1), "the whole container is sorted by <");
#else
  std::sort(before.begin(), before.end());
  verif_check(before == Now(s), "the whole container is sorted by <");
#endif
}
HARNESS(StableSort) {
  Span s = AnySpan("items");
  const int id = verif::any<int>("id");
  Before(s);
  rst::c_stable_sort(s, Less{id});
#ifdef VERIF_SYMBOLIC
  verif_check(verif_called("stable_sort", s.begin(), s.end(), id), "the whole container is stably sorted by the comparison");
#else
  std::stable_sort(before.begin(), before.end(), Less{id});
  verif_check(before == Now(s), "the whole container is stably sorted by the comparison");
#endif
}
HARNESS(StableSortPlain) {
  Span s = AnySpan("items");
  Before(s);
  rst::c_stable_sort(s);
#ifdef VERIF_SYMBOLIC
  verif_check(verif_called("stable_sort", s.begin(), s.end(), -1), "the whole container is stably sorted by <");
#else
  std::stable_sort(before.begin(), before.end());
  verif_check(before == Now(s), "the whole container is stably sorted by <");
#endif
}
HARNESS(FindIf) {
  Span s = AnySpan("items");
  const int id = verif::any<int>("id");
  char* const r = rst::c_find_if(s, IsKey{id});
#ifdef VERIF_SYMBOLIC
  verif_check(verif_called("find_if", s.begin(), s.end(), id) && r == verif_result_ptr(), "the first match in the whole container");
#else
  verif_check(r == std::find_if(s.begin(), s.end(), IsKey{id}), "the first match in the whole container");
#endif
}
HARNESS(PushHeap) {
  Span s = AnySpan("items");
  if (verif_native() && s.n > 0) std::make_heap(s.p, s.p + s.n - 1, Less{0});
  if (s.n == 0) return;
  const int id = verif::any<int>("id");
  Before(s);
  rst::c_push_heap(s, Less{id});
#ifdef VERIF_SYMBOLIC
  verif_check(verif_called("push_heap", s.begin(), s.end(), id), "the last element joins the heap of the others");
#else
  std::push_heap(before.begin(), before.end(), Less{id});
  verif_check(before == Now(s), "the last element joins the heap of the others");
#endif
}
HARNESS(PopHeap) {
  Span s = AnySpan("items");
  if (verif_native()) std::make_heap(s.p, s.p + s.n, Less{0});
  if (s.n == 0) return;
  const int id = verif::any<int>("id");
  Before(s);
  rst::c_pop_heap(s, Less{id});
#ifdef VERIF_SYMBOLIC
  verif_check(verif_called("pop_heap", s.begin(), s.end(), id), "the first element of the heap goes to the end");
#else
  std::pop_heap(before.begin(), before.end(), Less{id});
  verif_check(before == Now(s), "the first element of the heap goes to the end");
#endif
}
HARNESS(IsSorted) {
  Span s = AnySpan("items");
  if (verif_native() && verif_rand() % 2) std::sort(s.p, s.p + s.n - (verif_rand() % 2 && s.n ? 1 : 0), Less{0});
  const int id = verif::any<int>("id");
  const bool r = rst::c_is_sorted(static_cast<const Span&>(s), Less{id});
#ifdef VERIF_SYMBOLIC
  verif_check(verif_called("is_sorted", s.begin(), s.end(), id) && r == verif_result_bool(), "whether the whole container is sorted");
#else
  verif_check(r == std::is_sorted(s.begin(), s.end(), Less{id}), "whether the whole container is sorted");
#endif
}
HARNESS(Shuffle) {
  Span s = AnySpan("items");
  Bits g{verif::any<int>("id"), 1};
  Before(s);
  rst::c_shuffle(s, g);
#ifdef VERIF_SYMBOLIC
  verif_check(verif_called("shuffle", s.begin(), s.end(), g.id), "the whole container is shuffled by the generator");
#else
  Bits h{g.id, 1};
  std::shuffle(before.begin(), before.end(), h);
  verif_check(before == Now(s) && h.s == g.s, "the whole container is shuffled by the generator");
#endif
}

// ---- VectorBuilder
namespace {
struct Item {
  Item(int a, std::unique_ptr<int> p) : a(a), p(std::move(p)) { live++; }
  Item(Item&& o) noexcept : a(o.a), p(std::move(o.p)) { o.a = -1; live++; }
  Item(const Item&) = delete;
  ~Item() { live--; }
  int a;
  std::unique_ptr<int> p;
};
}  // namespace
HARNESS(Builder) {
  live = 0;
  int v[4];
  for (int& x : v) x = verif::any<int>("v");
  const unsigned n = verif::choice(5, "n");
  {
    rst::VectorBuilder<Item> b;
    for (unsigned i = 0; i < n; i++) {
      auto&& same = std::move(b).emplace_back(v[i], std::make_unique<int>(v[i]));
      verif_check(&same == &b, "the builder itself is returned");
    }
    const std::vector<Item> r = std::move(b).Build();
    verif_check(r.size() == n, "as many elements as given");
    for (unsigned i = 0; i < n; i++) verif_check(r[i].a == v[i] && r[i].p != nullptr && *r[i].p == v[i], "the elements in order");
    verif_check(live == static_cast<int>(n), "each element once");
  }
  verif_check(live == 0, "and destroyed once");
}
HARNESS(BuilderChain) {
  const int a = verif::any<int>("a"), b = verif::any<int>("b"), c = verif::any<int>("c");
  const std::vector<std::unique_ptr<int>> v =
      rst::VectorBuilder<std::unique_ptr<int>>().emplace_back(std::make_unique<int>(a)).emplace_back(std::make_unique<int>(b)).emplace_back().emplace_back(std::make_unique<int>(c)).Build();
  verif_check(v.size() == 4, "as many elements as given");
  verif_check(*v[0] == a && *v[1] == b && v[2] == nullptr && *v[3] == c, "the elements in order");
}

// ---- StringResizeUninitialized
HARNESS(Resize) {
  const auto t = verif::any_bytes("text");
  std::string s(t);
  size_t n = verif::any<size_t>("new size"), i = verif::any<size_t>("position");
  if (verif_native()) n %= 100, i %= t.size() + 1;
  verif_assume(n < (1ull << 40));
  if (verif::any<bool>("not null")) rst::StringResizeUninitialized(rst::NotNull<std::string*>(&s), n);
  else rst::StringResizeUninitialized(&s, n);
  verif_check(s.size() == n, "the requested size");
  if (i < n && i < t.size()) verif_check(s[i] == t[i], "the old prefix is kept");
  verif_check(s.data()[n] == 0, "still a string");
}
