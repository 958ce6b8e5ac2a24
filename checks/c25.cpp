// C25: integer powers, index sort, tensor combination
#include <algorithm>
#include <array>
#include <complex>
#include <cstdint>
#include <limits>

#include "gen.hpp"
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/recursive_combine.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
using namespace gen;
namespace alg = bezman::utils::algorithms;

const char* const kRule =
    "an integer power (15 integral types, base over the whole range of the type, "
    "any exponent with representable result, 0 to the power 0 = 1) against 128-bit "
    "arithmetic; or a list of 0-400 values (bytes, numbers incl. infinities and "
    "signed zeros, strings, bools, a type with operator< only) from few or many "
    "distinct ones against insertion by (value, index); or 1-5 factor lists of "
    "lengths 0-8 (integers, doubles, complex numbers, differentiation types) "
    "against the explicit multi-index loop; non-trivial: exponent >= 2 and |base| "
    ">= 2, list longer than 16 with ties, at least two factor lists longer than 1";

using Wide = __int128;
std::string text128(Wide x) {
  if (x == 0) return "0";
  const bool neg = x < 0;
  std::string r;
  while (x != 0) {
    const int d = static_cast<int>(x % 10);
    r.insert(r.begin(), static_cast<char>('0' + (d < 0 ? -d : d)));
    x /= 10;
  }
  return neg ? "-" + r : r;
}
template <class T>
void power(Case& c, const char* name) {
  constexpr Wide lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  // base: small, any, near the limits, near an integer root of the limit
  Wide base = 0;
  switch (c.draw(5)) {
    case 0:
      base = c.around(12);
      break;
    case 1:
      base = lo + static_cast<Wide>((static_cast<unsigned __int128>(hi - lo)) & c.draw(~0ull));
      break;
    case 2:
      base = c.chance(1, 2) ? hi - static_cast<Wide>(c.draw(3)) : lo + static_cast<Wide>(c.draw(3));
      break;
    default: {
      const long e = c.range(2, 12);
      const auto root = static_cast<Wide>(std::pow(static_cast<double>(hi), 1. / static_cast<double>(e)));
      base = root + c.around(2);
      if (c.chance(1, 2)) base = -base;
    }
  }
  if (base < lo) base = lo == 0 ? -base : lo;
  if (base > hi) base = hi;
  // representable exponents
  Wide last = 0, v = 1;
  const bool trivial = base == 0 || base == 1 || base == -1;
  if (trivial)
    last = std::min<Wide>(hi, 1000);
  else
    while (last < hi) {
      Wide n = 0;
      if (__builtin_mul_overflow(v, base, &n) || n < lo || n > hi) break;
      v = n;
      last++;
    }
  Wide e = 0;
  switch (c.draw(3)) {
    case 0:
      e = last;
      break;
    case 1:
      e = static_cast<Wide>(c.draw(static_cast<uint64_t>(last) + 1));
      break;
    default:
      e = static_cast<Wide>(c.draw(static_cast<uint64_t>(std::min<Wide>(last, 4)) + 1));
  }
  if (trivial && c.chance(1, 8)) e = hi;
  Wide want = 1;
  if (e <= 1000)
    for (Wide k = 0; k < e; k++) want *= base;
  else
    want = base == -1 && e % 2 == 0 ? 1 : base;
  const std::string w = pbt::str(text128(base), " to the power ", text128(e), " in ", name);
  c.note(w);
  c.label(std::string("power in ") + name);
  if (e >= 2 && !trivial) c.nontrivial();
  const T b = static_cast<T>(base), p = static_cast<T>(e);
  const T got = alg::IntPower(b, p);
  PBT_CHECK(static_cast<Wide>(got) == want, w, " is ", text128(got), " instead of ", text128(want));
  PBT_CHECK(static_cast<Wide>(b) == base && static_cast<Wide>(p) == e, w, ": arguments changed");
}
static_assert(alg::IntPower(3, 4) == 81 && alg::IntPower<long>(-2, 63) == std::numeric_limits<long>::min(),
              "integer powers are constant expressions");

struct Ordered {  // nothing but an order
  int key;
  bool operator<(const Ordered& o) const { return key < o.key; }
};
template <class T, class F>
void sort(Case& c, F make, const char* name) {
  static const size_t limits[] = {4, 20, 60, 400};
  size_t n = c.draw(limits[c.draw(4)] + 1);
  uint64_t distinct = c.chance(1, 2) ? 1 + c.draw(6) : 1 + c.draw(1000);
  vector<T> v;
  const size_t order = c.draw(8);  // mostly any
  if (c.chance(1, 150)) {          // a long list
    n = 400 + c.draw(c.chance(1, 10) ? 70000 : 3000);
    if (c.chance(1, 2)) distinct = 100000;
    const uint64_t seed = c.draw(~0ull);
    while (v.size() < n) v.push_back(make(pbt::mix(seed + v.size()) % distinct));
    c.label("sort of a long list");
  } else
    while (v.size() < n) v.push_back(make(c.draw(distinct)));
  // sorted, reversed, two sorted runs, one entry out of order
  if (order >= 4 && n) {
    c.label(order == 4 ? "sort of a sorted list" : order == 5 ? "sort of a reversed list"
            : order == 6 ? "sort of two sorted runs" : "sort of a nearly sorted list");
    std::stable_sort(v.begin(), v.end());
    if (order == 5) std::reverse(v.begin(), v.end());
    if (order == 6) std::rotate(v.begin(), v.begin() + static_cast<long>(c.draw(n)), v.end());
    if (order == 7) {
      const size_t a = c.draw(n), b = c.draw(n);
      const T tmp = v[a];
      v[a] = v[b];
      v[b] = tmp;
    }
  }
  const vector<T> copy = v;
  // expected: position = number of smaller ones plus equal ones before
  vector<size_t> want(n);
  bool ties = false;
  if (n <= 400) {
    for (size_t i = 0; i < n; i++) {
      size_t pos = 0;
      for (size_t k = 0; k < n; k++)
        if (copy[k] < copy[i])
          pos++;
        else if (!(copy[i] < copy[k]) && k < i)
          pos++, ties = true;
      want[pos] = i;
    }
  } else {
    for (size_t i = 0; i < n; i++) want[i] = i;
    std::sort(want.begin(), want.end(), [&](size_t a, size_t b) {
      if (copy[a] < copy[b]) return true;
      if (copy[b] < copy[a]) return false;
      return a < b;
    });
    for (size_t i = 1; i < n && !ties; i++) ties = !(copy[want[i - 1]] < copy[want[i]]);
  }
  c.label(std::string("sort of ") + name);
  c.note("sort of ", n, " ", name, " from ", distinct, " distinct ones");
  if (n > 16 && ties) c.nontrivial();
  const auto got = alg::IndexListSort(v);
  PBT_CHECK(got.size() == n, "sort of ", n, " ", name, " returns ", got.size(), " indices");
  for (size_t i = 0; i < n; i++)
    PBT_CHECK(got[i] == want[i], "sort of ", n, " ", name, ": index ", i, " is ", got[i], " instead of ", want[i]);
  for (size_t i = 0; i < n; i++)
    PBT_CHECK(!(v[i] < copy[i]) && !(copy[i] < v[i]), "sort changed entry ", i, " of the list");
}
using AD = bezman::utils::computational_differentiation::AlgoDiffType<double, 2>;
template <class T>
vector<Q> parts(const T& x) {
  if constexpr (std::is_same_v<T, AD>)
    return {Q(x.GetValue()), Q(x.GetDerivatives()[0]), Q(x.GetDerivatives()[1])};
  else if constexpr (std::is_same_v<T, std::complex<double>>)
    return {Q(x.real()), Q(x.imag())};
  else {
    Q q(static_cast<double>(x));
    q.v = static_cast<ref::f128>(x);
    q.m = q.v < 0 ? -q.v : q.v;
    return {q};
  }
}
/// Rounding unit of a product
template <class T>
ref::f128 unit() {
  if constexpr (std::is_integral_v<T>)
    return 0;
  else if constexpr (std::is_floating_point_v<T>)
    return static_cast<ref::f128>(std::numeric_limits<T>::epsilon());
  else
    return static_cast<ref::f128>(0x1p-52);
}
/// products of the parts
template <class T>
vector<Q> times(const vector<Q>& a, const vector<Q>& b) {
  if constexpr (std::is_same_v<T, AD>)
    return {a[0] * b[0], a[0] * b[1] + a[1] * b[0], a[0] * b[2] + a[2] * b[0]};
  else if constexpr (std::is_same_v<T, std::complex<double>>)
    return {a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]};
  else
    return {a[0] * b[0]};
}
/// Products below the normal numbers are not exact
template <class T>
ref::f128 floor_of() {
  if constexpr (std::is_same_v<T, float>) return static_cast<ref::f128>(1e-37);
  return std::is_integral_v<T> ? 0 : static_cast<ref::f128>(1e-250);
}
template <size_t N, class T, class F>
void combine(Case& c, F make, const char* name) {
  std::array<vector<T>, N> f;
  size_t total = 1, longer = 0;
  const size_t limit = c.chance(1, 400) ? 80000 : 1500;
  for (auto& l : f) {
    size_t n = c.chance(1, 40) ? 0 : 1 + c.draw(c.chance(1, 4) ? 8 : 3);
    if (c.chance(1, 60)) n = 1 + c.draw(300);
    if (total * std::max<size_t>(n, 1) > limit) n = 1;
    total *= n;
    longer += n > 1;
    while (l.size() < n) l.push_back(make());
  }
  const auto copy = f;
  c.label("combination of " + std::to_string(N));
  c.label(std::string("combination of ") + name);
  if (total == 0) c.label("combination with an empty list");
  if (c.verbose) {
    std::string s;
    for (auto& l : f) s += " " + std::to_string(l.size());
    c.note("combination of lists of", s, " ", name);
  }
  if (longer >= 2 && total) c.nontrivial();
  if (total > 1500) c.label("combination with many products");
  const vector<T> got = alg::RecursiveCombine(f);
  PBT_CHECK(got.size() == total, "combination returns ", got.size(), " products instead of ", total);
  for (size_t i = 0; i < total; i++) {
    size_t r = i;
    vector<Q> want;
    for (size_t k = 0; k < N; k++) {
      const auto x = parts(copy[k][r % copy[k].size()]);
      r /= copy[k].size();
      want = k ? times<T>(want, x) : x;
    }
    const auto g = parts(got[i]);
    for (size_t k = 0; k < g.size(); k++)
      PBT_CHECK(ref::absq(g[k].v - want[k].v) <= 32 * unit<T>() * want[k].m + floor_of<T>(), "combination of ", N, " lists of ", name,
                ": product ", i, " (part ", k, ") is ", ref::dbl(g[k]), " instead of ", ref::dbl(want[k]));
  }
  for (size_t k = 0; k < N; k++)
    for (size_t i = 0; i < copy[k].size(); i++)
      for (size_t p = 0; p < parts(f[k][i]).size(); p++)
        PBT_CHECK(parts(f[k][i])[p].v == parts(copy[k][i])[p].v, "combination changed factor ", i, " of list ", k);
}
template <size_t N>
void any_combine(Case& c) {
  auto v = values(c, false);
  switch (c.draw(6)) {
    case 4: {
      Values w{};
      w.style = static_cast<int>(c.draw(kMantissa + 1));
      return combine<N, float>(c, [&] { return static_cast<float>(value(c, w)); }, "floats");
    }
    case 5:
      return combine<N, long double>(c, [&] { return static_cast<long double>(value(c, v)) / 3.L; }, "long doubles");
    case 0:
      return combine<N, double>(c, [&] { return value(c, v); }, "doubles");
    case 1:
      return combine<N, long>(c, [&] { return c.around(50); }, "integers");
    case 2:
      return combine<N, std::complex<double>>(
          c, [&] { const double re = value(c, v); return std::complex<double>(re, value(c, v)); }, "complex numbers");
    default:
      return combine<N, AD>(
          c,
          [&] {
            AD a(value(c, v), static_cast<size_t>(c.draw(2)));
            return c.chance(1, 2) ? a * 2. + AD(1., 0) : a;
          },
          "differentiation types");
  }
}
void property(Case& c) {
  switch (c.draw(3)) {
    case 0:
      switch (c.draw(15)) {
#define POWER(i, T) \
  case i:           \
    return power<T>(c, #T);
        POWER(0, int) POWER(1, unsigned) POWER(2, long) POWER(3, unsigned long) POWER(4, long long)
        POWER(5, unsigned long long) POWER(6, short) POWER(7, unsigned short) POWER(8, signed char)
        POWER(9, unsigned char) POWER(10, char) POWER(11, bool) POWER(12, wchar_t) POWER(13, char16_t)
        default:
          return power<char32_t>(c, "char32_t");
      }
    case 1:
      switch (c.draw(7)) {
        case 0:
          return sort<int>(c, [](uint64_t k) { return static_cast<int>((k * 2654435761u) % 2001) - 1000; }, "ints");
        case 1:
          return sort<double>(
              c,
              [](uint64_t k) {
                switch (k % 11) {
                  case 0:
                    return 0.;
                  case 1:
                    return -0.;
                  case 2:
                    return std::numeric_limits<double>::infinity();
                  case 3:
                    return -std::numeric_limits<double>::infinity();
                  case 4:
                    return std::numeric_limits<double>::denorm_min();
                  default:
                    return std::sin(static_cast<double>(k)) * std::pow(10., static_cast<double>(k % 60) - 30);
                }
              },
              "doubles");
        case 2:
          return sort<unsigned char>(c, [](uint64_t k) { return static_cast<unsigned char>(k * 37); }, "bytes");
        case 3:
          return sort<std::string>(
              c, [](uint64_t k) { return std::string(k % 4, 'a') + std::to_string((k * 7) % 50); }, "strings");
        case 4:
          return sort<bool>(c, [](uint64_t k) { return k % 2 == 1; }, "bools");
        case 5:
          return sort<uint64_t>(
              c, [](uint64_t k) { return k % 3 ? pbt::mix(k) : k; }, "64-bit numbers");
        default:
          return sort<Ordered>(c, [](uint64_t k) { return Ordered{static_cast<int>(k * 31 % 97)}; }, "ordered objects");
      }
    default:
      switch (c.draw(8)) {
        case 5:
          return any_combine<6>(c);
        case 6:
          return any_combine<7>(c);
        case 7:
          return any_combine<9>(c);
        case 0:
          return any_combine<1>(c);
        case 1:
          return any_combine<2>(c);
        case 2:
          return any_combine<3>(c);
        case 3:
          return any_combine<4>(c);
        default:
          return any_combine<5>(c);
      }
  }
}
