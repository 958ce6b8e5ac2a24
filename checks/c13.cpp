// C13: inner splines outside the unit cube are rejected
#include "compose.hpp"
using namespace gen;

const char* const kRule =
    "inner spline with control points in the unit cube (boundary included), of "
    "which none or 1-3 coordinates are moved outside by an amount from one unit "
    "in the last place to 1e6; FitsIntoUnitCube, and composition, sensitivity "
    "and list composition (offending spline anywhere in the list) with an outer "
    "spline have to accept or throw accordingly; non-trivial: at least one "
    "coordinate outside";

template <class F>
bool throws(F f) {
  try {
    f();
    return false;
  } catch (const std::exception&) {
    return true;
  }
}

/// Moves coordinates outside. Returns whether it did
inline bool spoil(Case& c, RS& s) {
  const size_t n = c.draw(2) ? 1 + c.draw(3) : 0;
  for (size_t k = 0; k < n; k++) {
    const size_t i = c.draw(s.size()), j = c.draw(s.nc);
    // Dividing by a power of two is exact, so any step outside is seen
    if (k == 0 && s.rational() && c.draw(2)) {
      const double w_ = std::ldexp(1., static_cast<int>(c.range(-3, 3)));
      s.w[i] = Q(w_);
      for (size_t l = 0; l < s.nc; l++)
        if (w_ < ref::dbl(s.at(i, l))) s.at(i, l) = s.w[i];
    }
    const double w = s.rational() ? ref::dbl(s.w[i]) : 1.;
    int exponent;
    const bool exact =
        !s.rational() || (std::frexp(w, &exponent) == .5 && w >= 0x1p-10);
    double x;
    switch (c.draw(7)) {
      case 0: x = 2; break;
      case 1: x = -1; break;
      case 2: x = exact ? std::nextafter(1., 2.) : 1 + 0x1p-45; break;
      case 3: x = -1e-300; break;
      case 6: x = exact ? -0x1p-1060 : -0x1p-1000; break;
      case 4: x = 1 + std::pow(10., -static_cast<double>(c.range(-6, 12))); break;
      default: x = -std::pow(10., -static_cast<double>(c.range(-6, 300)));
    }
    s.at(i, j) = Q(x * w);
    c.label(i == 0 ? "first control point outside"
            : i + 1 == s.size() ? "last control point outside"
                                : "inner control point outside");
    c.label(x > 1 ? "above one" : "below zero");
  }
  return n > 0;
}

template <class K, bool RO, bool RI>
void run(Case& c) {
  constexpr size_t PO = K::outer, PI = K::inner;
  using P = typename K::P_;
  using QI = typename K::Q_;
  const auto d = compose_degrees(c, PO, PI, 40, 12);
  const auto o = spline(c, d.outer, ncoord<P>(), RO, false);
  auto i = unit_spline(c, d.inner, PO, RI);
  const bool out = spoil(c, i);
  c.note("outer: ", text(o));
  c.note("inner: ", text(i), out ? " does not fit" : " fits");
  if (out) c.nontrivial();
  const auto outer = lib<PO, P, RO>(o);
  const auto inner = lib<PI, QI, RI>(i);
  PBT_CHECK(inner.FitsIntoUnitCube() == !out, "FitsIntoUnitCube is ", out,
            " for a spline that does ", out ? "not " : "", "fit");
  switch (c.draw(3)) {
    case 0:
      c.label("composition");
      PBT_CHECK(throws([&] { (void)outer.Compose(inner); }) == out,
                "composition with a spline that does ", out ? "not " : "",
                "fit was ", out ? "accepted" : "rejected");
      break;
    case 1:
      c.label("sensitivity");
      PBT_CHECK(throws([&] { (void)outer.ComposeSensitivity(inner); }) == out,
                "sensitivities for a spline that does ", out ? "not " : "",
                "fit were ", out ? "computed" : "refused");
      break;
    default:
      if constexpr (!RO) {
        c.label("list");
        vector<std::decay_t<decltype(inner)>> group;
        const size_t longer = d.sum <= 6 && c.chance(1, 30) ? 30 : 3;
        const size_t before = c.draw(longer), after = c.draw(longer);
        for (size_t k = 0; k < before + 1 + after; k++)
          group.push_back(k == before
                              ? inner
                              : lib<PI, QI, RI>(unit_spline(c, d.inner, PO, RI)));
        PBT_CHECK(throws([&] { (void)outer.Compose(group); }) == out,
                  "list composition with a spline that does ", out ? "not " : "",
                  "fit at position ", before, " of ", group.size(), " was ",
                  out ? "accepted" : "rejected");
        check_same(group[before], i, "inner spline of a list");
      }
  }
  check_same(inner, i, "inner spline");
  check_same(outer, o, "outer spline");
}

/// Splines far larger than those that can be composed
template <size_t PD, class P, bool R>
void large(Case& c) {
  vector<size_t> deg;
  for (size_t d = 0; d < PD; d++) deg.push_back(c.draw(PD == 1 ? 500 : 20));
  auto s = unit_spline(c, deg, ncoord<P>(), R);
  const bool out = spoil(c, s);
  c.note("degrees ", text(deg), R ? " rational" : "", out ? " does not fit" : " fits");
  c.label("large spline");
  if (out) c.nontrivial();
  const auto x = lib<PD, P, R>(s);
  PBT_CHECK(x.FitsIntoUnitCube() == !out, "FitsIntoUnitCube is ", out, " for a spline of ", s.size(),
            " control points that does ", out ? "not " : "", "fit");
  check_same(x, s, "large spline");
}

void property(Case& c) {
  quiet();
  if (c.chance(1, 16)) {
    switch (c.draw(6)) {
      case 0: return large<1, double, false>(c);
      case 1: return large<1, double, true>(c);
      case 2: return large<2, double, false>(c);
      case 3: return large<1, Pt<3>, false>(c);
      case 4: return large<2, Pt<2>, true>(c);
      default: return large<2, Pt<5>, false>(c);
    }
  }
  kinds(c, [&](auto ro, auto ri) {
    pick_pair(c, [&](auto k) {
      run<decltype(k), decltype(ro)::value, decltype(ri)::value>(c);
    });
  });
}
