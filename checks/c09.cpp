// C09: products and powers of polynomial splines
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "two polynomial splines with degrees that add up to less than the "
    "configured maximum: scalar*scalar, scalar*vector, vector*scalar, dot "
    "product, self product; powers 0-7 (low degrees: up to 69) of scalar splines, power of a vector "
    "spline (must throw); non-trivial: both factors of positive degree or a "
    "power >= 2";

constexpr size_t kMax = MAX_BINOMIAL_DEGREE - 1;

vector<size_t> fitting(Case& c, const vector<size_t>& a, size_t points) {
  auto d = degrees(c, a.size(), kMax, points);
  for (size_t i = 0; i < a.size(); i++) d[i] = std::min(d[i], kMax - a[i]);
  return d;
}

template <size_t PD, class PA, class PB>
void product(Case& c) {
  const auto a = spline(c, shape(c, PD, kMax, 40, 8), ncoord<PA>(), false);
  const auto b = spline(c, fitting(c, a.deg, 40), ncoord<PB>(), false);
  describe(c, a);
  c.note("a: ", text(a));
  c.note("b: ", text(b));
  size_t ma = 0, mb = 0;
  for (auto d : a.deg) ma = std::max(ma, d);
  for (auto d : b.deg) mb = std::max(mb, d);
  if (ma && mb) c.nontrivial();
  const auto x = poly<PD, PA>(a);
  const auto y = poly<PD, PB>(b);
  const auto z = x * y;
  // (vectors with one coordinate: dot product, a scalar spline)
  const RS want = ref::mul(a, b);
  using Result = std::decay_t<decltype(z.GetControlPoints()[0])>;
  static_assert(std::is_same_v<Result, decltype(PA{} * PB{})>);
  check_poly<PD, Result>(z, want, "product");
  check_same(x, a, "left operand");
  check_same(y, b, "right operand");
  const auto t = params(c, PD);
  const auto va = ref::eval(a, toq(t)), vb = ref::eval(b, toq(t));
  vector<Q> v(want.nc);
  if (va.size() == vb.size()) {
    for (size_t k = 0; k < va.size(); k++) v[0] = v[0] + va[k] * vb[k];
  } else {
    for (size_t k = 0; k < v.size(); k++)
      v[k] = va[va.size() == 1 ? 0 : k] * vb[vb.size() == 1 ? 0 : k];
  }
  check_value(z.Evaluate(pt<PD>(t)), v, "value of the product at " + text(t));
}

template <size_t PD>
void power(Case& c) {
  // high powers of low degrees
  const bool high = c.chance(1, 6);
  const auto deg = high ? degrees(c, PD, 2, 8) : degrees(c, PD, 14, 24);
  size_t mx = 0, points = 1;
  for (auto d : deg) mx = std::max(mx, d);
  size_t n = high ? c.draw(kMax + 8) : c.draw(8);
  while (n * mx > kMax) n--;
  for (;; n--) {
    points = 1;
    for (auto d : deg) points *= d * n + 1;
    if (points <= 400) break;
  }
  const auto a = spline(c, deg, 1, false);
  // all powers have to be representable
  double span = 1;
  for (const auto& p : a.cp)
    if (p.v != 0) span = std::max(span, std::abs(std::log10(std::abs(ref::dbl(p)))));
  while (n > 7 && span * n > 200) n--;
  describe(c, a);
  c.note("a: ", text(a), " to the power ", n);
  c.label(n > 16 ? std::string("power above 16") : pbt::str("power ", n));
  if (n >= 2 && mx > 0) c.nontrivial();
  const auto x = poly<PD, double>(a);
  RS want;
  want.deg.assign(PD, 0);
  want.cp.emplace_back(1.);
  for (size_t i = 0; i < n; i++) want = ref::mul(want, a);
  const auto z = x.RaisePower(n);
  check_poly<PD, double>(z, want, pbt::str("power ", n), 16384);
  check_same(x, a, "operand");
  const auto t = params(c, PD);
  Q v(1.);
  for (size_t i = 0; i < n; i++) v = v * ref::eval(a, toq(t))[0];
  check_value(z.Evaluate(pt<PD>(t)), {v}, "value of the power at " + text(t),
              16384);
}

template <size_t PD, class P>
void vector_power(Case& c) {
  quiet();
  const auto a = spline(c, degrees(c, PD, 5, 40), ncoord<P>(), false);
  const auto x = poly<PD, P>(a);
  const size_t n = c.draw(5);
  c.note("power ", n, " of the vector spline ", text(a));
  c.label("power of a vector spline");
  bool thrown = false;
  try {
    auto z = x.RaisePower(n);
  } catch (const std::exception&) {
    thrown = true;
  }
  PBT_CHECK(thrown, "power ", n, " of a vector spline is not rejected");
  check_same(x, a, "operand");
}

void property(Case& c) {
#ifdef PBT_HIGH
  switch (c.draw(11)) {
    case 0:
      return product<5, double, double>(c);
    case 1:
      return product<6, double, Pt<2>>(c);
    case 2:
      return product<4, Pt<3>, double>(c);
    case 3:
      return product<1, Pt<9>, Pt<9>>(c);
    case 4:
      return product<2, Pt<5>, Pt<5>>(c);
    case 5:
      return product<3, Pt<6>, double>(c);
    case 6:
      return product<4, Pt<2>, Pt<2>>(c);
    case 7:
      return product<2, Pt<1>, Pt<1>>(c);
    case 8:
      return power<4>(c);
    case 9:
      return power<5>(c);
    default:
      return c.chance(1, 2) ? vector_power<1, Pt<1>>(c)
                            : vector_power<4, Pt<7>>(c);
  }
#endif
  switch (c.draw(14)) {
    case 0:
      return product<1, double, double>(c);
    case 1:
      return product<1, double, Pt<2>>(c);
    case 2:
      return product<2, Pt<3>, double>(c);
    case 3:
      return product<2, double, double>(c);
    case 4:
      return product<2, Pt<2>, Pt<2>>(c);
    case 5:
      return product<3, Pt<3>, Pt<3>>(c);
    case 6:
      return product<3, double, Pt<3>>(c);
    case 7:
      return product<1, Pt<4>, Pt<4>>(c);
    case 8:
      return product<4, double, double>(c);
    case 9:
      return power<1>(c);
    case 10:
      return power<2>(c);
    case 11:
      return power<3>(c);
    case 12:
      return power<1>(c);
    default:
      return c.chance(1, 2) ? vector_power<1, Pt<2>>(c)
                            : vector_power<2, Pt<3>>(c);
  }
}
