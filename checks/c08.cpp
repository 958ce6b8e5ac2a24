// C08: sums and differences of polynomial splines
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "two polynomial splines of the same parametric dimension (1-6) with "
    "independent degrees per direction; binary and in-place sum and "
    "difference, also with itself and chained; non-trivial: the degrees differ "
    "in some direction";

template <size_t PD, class P>
void run(Case& c) {
  const auto a = spline(c, shape(c, PD, 20, 60, 12, 0, 300), ncoord<P>(), false);
  auto db = c.chance(1, 4) ? a.deg : shape(c, PD, 20, 60, 12, 0, 300);
  // sums of opposite sizes per direction
  size_t total = 1;
  for (size_t d = 0; d < PD; d++) total *= std::max(a.deg[d], db[d]) + 1;
  if (total > (a.size() > 60 ? 2000 : 600)) db = a.deg;
  const auto b = spline(c, db, ncoord<P>(), false);
  describe(c, a);
  c.note("a: ", text(a));
  c.note("b: ", text(b));
  if (a.deg != db) c.nontrivial();
  bool below = false, above = false;
  for (size_t d = 0; d < PD; d++) {
    below |= a.deg[d] < db[d];
    above |= a.deg[d] > db[d];
  }
  c.label(below ? above ? "degrees mixed" : "left lower"
                : above ? "left higher" : "equal degrees");
  const auto x = poly<PD, P>(a), y = poly<PD, P>(b);
  const auto sum = ref::add(a, b, false), difference = ref::add(a, b, true);
  switch (c.draw(4)) {
    case 0:
      check_poly<PD, P>(x + y, sum, "a + b");
      check_poly<PD, P>(x - y, difference, "a - b");
      break;
    case 1: {
      auto z = x;
      auto& r = (z += y);
      PBT_CHECK(&r == &z, "+= does not return the spline");
      check_poly<PD, P>(z, sum, "a += b");
      z -= y;
      check_poly<PD, P>(z, ref::add(sum, b, true), "(a += b) -= b");
      break;
    }
    case 2: {
      auto z = x;
      auto& r = (z -= y);
      PBT_CHECK(&r == &z, "-= does not return the spline");
      check_poly<PD, P>(z, difference, "a -= b");
      z += y;
      check_poly<PD, P>(z, ref::add(difference, b, false), "(a -= b) += b");
      break;
    }
    default: {
      c.label("self");
      auto z = x;
      z += z;
      check_poly<PD, P>(z, ref::add(a, a, false), "a += a");
      check_poly<PD, P>(x + x, ref::add(a, a, false), "a + a");
      check_poly<PD, P>(x - x, ref::add(a, a, true), "a - a");
      z = x;
      z -= z;
      check_poly<PD, P>(z, ref::add(a, a, true), "a -= a");
      z = x;
      z = z + y;
      check_poly<PD, P>(z, sum, "a = a + b");
    }
  }
  check_same(x, a, "left operand");
  check_same(y, b, "right operand");
  const auto t = params(c, PD);
  c.note("at ", text(t));
  const auto va = ref::eval(a, toq(t)), vb = ref::eval(b, toq(t));
  vector<Q> plus, minus;
  for (size_t k = 0; k < va.size(); k++) {
    plus.push_back(va[k] + vb[k]);
    minus.push_back(va[k] - vb[k]);
  }
  check_value((x + y).Evaluate(pt<PD>(t)), plus, "value of a + b");
  check_value((x - y).Evaluate(pt<PD>(t)), minus, "value of a - b");
}

/// Splines over different scalar types
template <size_t PD, class A, class B>
void mixed(Case& c) {
  const auto da = degrees(c, PD, 12, 60), db = degrees(c, PD, 12, 60);
  auto a = spline(c, da, 1, false), b = spline(c, db, 1, false);
  const auto narrow = [](RS& s) {
    for (auto& x : s.cp) {
      const double v = ref::dbl(x);
      x = Q(std::abs(v) > 1e30 ? 1. : std::abs(v) < 1e-30 ? 0. : static_cast<double>(static_cast<float>(v)));
    }
  };
  narrow(a);
  narrow(b);
  c.note("a: ", text(a));
  c.note("b: ", text(b));
  c.label("different scalar types");
  if (da != db) c.nontrivial();
  const auto make = [](const RS& s, auto zero) {
    using T = decltype(zero);
    vector<T> p;
    for (auto& x : s.cp) p.push_back(static_cast<T>(ref::dbl(x)));
    return bezman::BezierSpline<PD, T, T>(arr<PD>(s.deg), p);
  };
  const auto x = make(a, A{});
  const auto y = make(b, B{});
  constexpr bool single = std::is_same_v<A, float> || std::is_same_v<B, float>;
  const auto check = [&](const auto& got, const RS& want, const std::string& w) {
    static_assert(std::is_same_v<std::decay_t<decltype(got.GetControlPoints()[0])>, decltype(A{} + B{})>);
    PBT_CHECK(vec(got.GetDegrees()) == want.deg && got.GetControlPoints().size() == want.size(), w, ": shape");
    for (size_t i = 0; i < want.size(); i++)
      PBT_CHECK(ref::near(static_cast<double>(got.GetControlPoints()[i]), want.at(i, 0), single ? 0x1p29 * 64 : 256), w,
                ": control point ", i, " is ", got.GetControlPoints()[i], " instead of ", ref::dbl(want.at(i, 0)));
  };
  check(x + y, ref::add(a, b, false), "a + b");
  check(y + x, ref::add(b, a, false), "b + a");
  check(x - y, ref::add(a, b, true), "a - b");
  check(y - x, ref::add(b, a, true), "b - a");
  for (size_t i = 0; i < a.size(); i++)
    PBT_CHECK(static_cast<double>(x.GetControlPoints()[i]) == ref::dbl(a.at(i, 0)), "left operand changed");
  for (size_t i = 0; i < b.size(); i++)
    PBT_CHECK(static_cast<double>(y.GetControlPoints()[i]) == ref::dbl(b.at(i, 0)), "right operand changed");
}

void property(Case& c) {
  if (c.chance(1, 12)) {
    if (c.chance(1, 2)) return c.chance(1, 2) ? mixed<1, float, double>(c) : mixed<2, double, float>(c);
    return c.chance(1, 2) ? mixed<1, double, long double>(c) : mixed<3, float, long double>(c);
  }
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<2>>, Kind<4, double>>(
      c, [&](auto k) { run<decltype(k)::pd, typename decltype(k)::P_>(c); });
}
