// C17: binomial coefficients and Bernstein polynomials
#include <algorithm>
#include "gen.hpp"
#include "bezman/src/utils/algorithms/bernstein_polynomial.hpp"
using namespace gen;

const char* const kRule =
    "builds with the maxima 1, 2, 7, 30, 45, 62 and 68: a complete row of "
    "binomial coefficients per case (all rows are reached) in exact integer "
    "arithmetic; Bernstein polynomials of one degree below the maximum and "
    "their derivatives of one order up to degree + 3 or far above, in float, double or long "
    "double at up to 3 parameters; non-trivial: degree >= 2 (>= the largest one "
    "of the build if that is smaller)";

/// All Bernstein polynomials of one degree and derivative order by definition
static vector<Q> definition(size_t p, ref::f128 t, size_t k) {
  vector<Q> r(p + 1);
  if (k > p) return r;
  const size_t q = p - k;
  vector<ref::f128> low(q + 1), u(q + 1, 1);
  ref::f128 a = 1;
  for (size_t i = 1; i <= q; i++) u[i] = u[i - 1] * (1 - t);
  for (size_t i = 0; i <= q; i++, a *= t) low[i] = ref::choose(q, i) * a * u[q - i];
  const ref::f128 f = ref::falling(p, k);
  for (size_t i = 0; i <= p; i++)
    for (size_t j = 0; j <= std::min(i, k); j++)
      if (i - j <= q) {
        const ref::f128 b = f * ref::choose(k, j) * low[i - j];
        r[i] = r[i] + Q{(k - j) % 2 ? -b : b, ref::absq(b)};
      }
  return r;
}

template <class T>
void bernstein(Case& c, const char* type, double scale) {
  constexpr bool single = std::is_same_v<T, float>;
  using BP = bezman::utils::algorithms::BernsteinPolynomial<T>;
  const size_t p = c.draw(
      single ? std::min<size_t>(MAX_BINOMIAL_DEGREE, c.chance(1, 2) ? 30 : 11) : MAX_BINOMIAL_DEGREE);
  // coefficients have to be in the range of floats
  size_t k = c.chance(1, 2) || (single && p > 10) ? c.draw(std::min<size_t>(p, 4) + 1) : c.draw(p + 4);
  if (c.chance(1, 40)) {
    static const size_t far[] = {70, 100, 1000, 1ull << 31, 1ull << 32, ~0ull >> 1, ~0ull - 1, ~0ull};
    k = far[c.draw(8)];
  }
  if (p >= 2 || p + 1 == MAX_BINOMIAL_DEGREE) c.nontrivial();
  c.label(type);
  c.label(k == 0 ? "order 0" : k <= p ? "order up to degree" : "order above degree");
  if (p + 1 == MAX_BINOMIAL_DEGREE) c.label("largest degree of the build");
  for (size_t e = 1 + c.draw(3); e-- > 0;) {
    const T t = static_cast<T>(param(c));
    c.note(type, " degree ", p, " order ", k, " at ", t);
    const auto check = [&](const std::vector<T>& got, size_t order, const char* f) {
      PBT_CHECK(got.size() == p + 1, f, " of degree ", p, " order ", order,
                " gives ", got.size(), " entries");
      const auto all = definition(p, ref::f128(t), order);
      for (size_t i = 0; i <= p; i++) {
        const auto& want = all[i];
        // intermediate powers of t may leave the range of normal numbers
        const ref::f128 least =
            ref::f128(single ? 1e-38 : 1e-270) * ref::choose(p, p / 2) * (order > p ? 1 : ref::falling(p, order));
        const ref::f128 err = ref::absq(ref::f128(got[i]) - want.v);
        PBT_CHECK(got[i] - got[i] == 0 &&
                      err <= ref::f128(4096 * scale) * ref::f128(0x1p-53) * want.m +
                                 least,
                  f, "<", type, "> of degree ", p, " order ", order, " at ", t,
                  ": entry ", i, " is ", got[i], " instead of ", ref::dbl(want));
        if (order > p) PBT_CHECK(got[i] == 0, "derivative of order ", order,
                                 " of degree ", p, " is not zero");
      }
    };
    check(BP::Evaluate(p, t), 0, "Evaluate");
    check(BP::EvaluateDerivative(p, t, k), k, "EvaluateDerivative");
    check(BP::EvaluateDerivative(p, t, 0), 0, "EvaluateDerivative");
  }
}

void property(Case& c) {
  using bezman::utils::FastBinomialCoefficient;
  const unsigned n = static_cast<unsigned>(c.draw(MAX_BINOMIAL_DEGREE));
  c.note("row ", n, " of ", MAX_BINOMIAL_DEGREE);
  // independent of the reference model: product formula in exact integers
  unsigned __int128 b = 1;
  for (unsigned i = 0; i <= n; i++) {
    const auto got = FastBinomialCoefficient::choose(n, i);
    PBT_CHECK(static_cast<unsigned __int128>(got) == b, n, " over ", i, " is ", got);
    PBT_CHECK(ref::f128(got) == ref::choose(n, i), n, " over ", i, " is ", got);
    b = b * (n - i) / (i + 1);
  }
  switch (c.draw(5)) {
    case 0: return bernstein<float>(c, "float", 0x1p29);
    case 1: return bernstein<long double>(c, "long double", 0x1p-9);
    default: return bernstein<double>(c, "double", 1);
  }
}
