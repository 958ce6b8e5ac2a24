// C03: evaluation of rational splines
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "a rational spline per case (parametric dimension 1-6, scalar or 1-9 "
    "coordinates, degrees up to 29 / 61, positive weights: equal, integer, uniform, "
    "nearly equal, spread over 7 and up to 60 decades, common powers of two) built by one of five constructions, "
    "evaluated by every overload at 1-4 parameters, also after scaling "
    "numerator and weights by a common factor; non-trivial: unequal weights "
    "and an interior parameter";

template <size_t PD, class P, class S>
P eval_variadic(const S& s, const Pt<PD>& t, bool forward) {
  return variadic<PD>(s, t, [forward](const auto& q, auto... x) {
    return forward ? q.ForwardEvaluate(x...) : q.Evaluate(x...);
  });
}

template <size_t PD, class P>
void run(Case& c) {
  const auto deg = shape(c, PD, kMaxDegree, 160, 8, 80000);
  RS r;
  r.deg = deg;
  r.nc = ncoord<P>();
  const size_t n = r.size();
  auto v = values(c);
  auto w = weights(c, n);
  if (n > 1 && c.chance(1, 8)) {
    c.label("weights of very different magnitude");
    const int64_t spread = c.chance(1, 2) ? 45 : 90;
    for (size_t i = 0; i < n; i++)
      if (n < 8 || c.chance(1, 2)) w[i] = std::ldexp(w[i], c.around(spread));
  }
  vector<P> plain(n), weighted(n);
  vector<double> lo(r.nc, 1e300), hi(r.nc, -1e300);
  const int construction = static_cast<int>(c.draw(5));
  const bool from_polynomial = construction == 4;
  for (size_t i = 0; i < n; i++)
    for (size_t k = 0; k < r.nc; k++) {
      const double x = value(c, v);
      coord(plain[i], k) = x;
      coord(weighted[i], k) = x * w[i];
      lo[k] = std::min(lo[k], x);
      hi[k] = std::max(hi[k], x);
      r.cp.emplace_back(from_polynomial ? x : x * w[i]);
    }
  r.w = toq(from_polynomial ? vector<double>(n, 1.) : w);
  describe(c, r);
  c.label(pbt::str("construction", construction));
  c.note("construction ", construction, ": ", text(r));
  const auto a = arr<PD>(deg);
  Rat<PD, P> s;
  switch (construction) {
    case 0:
      s = Rat<PD, P>(a, plain, w);
      break;
    case 1:
      s = Rat<PD, P>(Poly<PD, P>(a, weighted), Poly<PD, double>(a, w));
      break;
    case 2: {
      Rat<PD, P> u(a);
      for (size_t i = 0; i < n; i++) {
        u.GetWeights()[i] = w[i];
        u.GetWeightedControlPoints()[i] = weighted[i];
      }
      s = u;
      break;
    }
    case 3: {
      Rat<PD, P> u;
      u.UpdateDegrees(a);
      u.GetWeights() = w;
      u.GetWeightedControlPoints() = weighted;
      s = u;
      break;
    }
    default:
      s = Rat<PD, P>(Poly<PD, P>(a, plain));
  }
  bool unequal = false;
  for (auto x : w) unequal |= x != w[0];
  const size_t m = 1 + c.draw(4);
  for (size_t k = 0; k < m; k++) {
    const auto t = params(c, PD);
    c.note("at ", text(t));
    bool interior = true;
    for (auto x : t) interior &= x > 0 && x < 1;
    if (unequal && !from_polynomial && interior && n > 1) c.nontrivial();
    const auto want = ref::eval(r, toq(t));
    const auto p = pt<PD>(t);
    const P got = s.Evaluate(p);
    check_value(got, want, "Evaluate");
    check_value(s.ForwardEvaluate(p), want, "ForwardEvaluate");
    check_value(eval_variadic<PD, P>(s, p, false), want, "Evaluate(...)");
    check_value(eval_variadic<PD, P>(s, p, true), want, "ForwardEvaluate(...)");
    for (size_t q = 0; q < r.nc; q++) {
      const double tol = 1e-12 * std::max(std::fabs(lo[q]), std::fabs(hi[q]));
      PBT_CHECK(coord(got, q) >= lo[q] - tol && coord(got, q) <= hi[q] + tol,
                "value ", coord(got, q), " leaves the bounding box [", lo[q],
                ", ", hi[q], "] in coordinate ", q);
    }
    if (from_polynomial) {
      const Poly<PD, P> original(a, plain);
      check_value(original.Evaluate(p), want, "original polynomial");
    }
  }
  check_same(s, r, "spline after evaluation");
  // common factor
  const double f = std::pow(10., c.around(6)) * (1 + unit53(c));
  for (auto& x : s.GetWeights()) x *= f;
  for (auto& x : s.GetWeightedControlPoints())
    for (size_t q = 0; q < r.nc; q++) coord(x, q) *= f;
  const auto t = params(c, PD);
  c.note("scaled by ", f, " at ", text(t));
  const auto want = ref::eval(r, toq(t));
  check_value(s.Evaluate(pt<PD>(t)), want, "Evaluate after common scaling");
  check_value(s.ForwardEvaluate(pt<PD>(t)), want,
              "ForwardEvaluate after common scaling");
}

void property(Case& c) {
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<1>>, Kind<3, Pt<3>>, Kind<4, Pt<4>>>(
      c, [&](auto k) { run<decltype(k)::pd, typename decltype(k)::P_>(c); });
}
