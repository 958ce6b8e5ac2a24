// C01: evaluation of polynomial splines, de Casteljau and explicit basis
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "1-3 polynomial splines per case (parametric dimension 1-6, scalar or 1-9 "
    "coordinates, degrees up to 29 / 61, up to 80000 control points), each evaluated at 1-4 parameters of the "
    "closed unit cube by every evaluation overload; non-trivial: some degree "
    ">= 2 and an interior parameter";

template <size_t PD, class P, class S>
P eval_variadic(const S& s, const Pt<PD>& t, bool forward) {
  return variadic<PD>(s, t, [forward](const auto& q, auto... x) {
    return forward ? q.ForwardEvaluate(x...) : q.Evaluate(x...);
  });
}

template <size_t PD, class P>
void run(Case& c) {
  const size_t n = 1 + c.draw(3);
  vector<RS> ref_splines;
  vector<Poly<PD, P>> splines;
  for (size_t i = 0; i < n; i++) {
    auto deg = shape(c, PD, kMaxDegree, 160, 8, 80000);
    // often: the same shape with other control points
    if (i > 0 && c.chance(1, 3)) deg = ref_splines[0].deg;
    ref_splines.push_back(spline(c, deg, ncoord<P>(), false));
    splines.push_back(poly<PD, P>(ref_splines.back()));
    describe(c, ref_splines.back());
    c.note("spline ", i, ": ", text(ref_splines.back()));
  }
  vector<double> last;
  const size_t m = 1 + c.draw(6);
  for (size_t k = 0; k < m; k++) {
    const size_t i = c.draw(n);
    const RS& r = ref_splines[i];
    auto t = params(c, PD);
    if (!last.empty() && c.chance(1, 4)) t = last;  // same place again
    last = t;
    c.note("spline ", i, " at ", text(t));
    bool interior = true, corner = true;
    for (auto x : t) interior &= x > 0 && x < 1, corner &= x == 0 || x == 1;
    size_t mx = 0;
    for (auto d : r.deg) mx = std::max(mx, d);
    if (mx >= 2 && interior) c.nontrivial();
    if (corner) c.label("corner");
    const auto want = ref::eval(r, toq(t));
    const auto p = pt<PD>(t);
    check_value(splines[i].Evaluate(p), want, "Evaluate");
    check_value(splines[i].ForwardEvaluate(p), want, "ForwardEvaluate");
    check_value(eval_variadic<PD, P>(splines[i], p, false), want,
                "Evaluate(coordinates)");
    check_value(eval_variadic<PD, P>(splines[i], p, true), want,
                "ForwardEvaluate(coordinates)");
    if (corner) {
      // the control point of the corner itself
      vector<size_t> idx(PD);
      for (size_t d = 0; d < PD; d++) idx[d] = t[d] == 1 ? r.deg[d] : 0;
      const size_t f = ref::flat_index(r.deg, idx);
      vector<Q> cp;
      for (size_t q = 0; q < r.nc; q++) cp.push_back(r.at(f, q));
      check_value(splines[i].Evaluate(p), cp, "Evaluate in a corner");
      check_value(splines[i].ForwardEvaluate(p), cp,
                  "ForwardEvaluate in a corner");
    }
  }
  for (size_t i = 0; i < n; i++)
    check_same(splines[i], ref_splines[i], "spline after evaluation");
}

void property(Case& c) {
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<1>>, Kind<3, Pt<3>>, Kind<4, double>, Kind<4, Pt<4>>>(
      c, [&](auto k) { run<decltype(k)::pd, typename decltype(k)::P_>(c); });
}
