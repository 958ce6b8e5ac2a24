// C06: derivatives of rational splines
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "a rational spline per case (parametric dimension 1-6, any positive "
    "weights) and a combination of orders per direction (also above the "
    "degree): pointwise derivative, derivatives of the rational basis "
    "functions (total order <= 9, for curves <= 26) and values of the closed form (total order "
    "<= 3) against the Leibniz recursion in binary128; non-trivial: total "
    "order >= 2 with unequal weights";

template <size_t PD, class P>
void run(Case& c) {
  const bool closed_form = c.chance(1, 2);
  const auto r =
      spline(c, closed_form ? degrees(c, PD, 4, 20) : shape(c, PD, 12, 60, 4),
             ncoord<P>(), true);
  describe(c, r);
  c.note(text(r));
  const auto s = rat<PD, P>(r);
  vector<size_t> k(PD, 0);
  const bool high = !closed_form && r.size() <= 30 && c.chance(1, 12);
  // Orders whose binomial coefficients need many digits
  const bool huge = high && PD == 1 && c.chance(2, 3);
  const size_t limit = huge ? 26 : high ? 9 : 4;
  size_t total = 0, budget = closed_form ? 3 : huge ? 26 : high ? 9 : 6;
  bool above = false;
  const size_t first = c.draw(PD);
  for (size_t j = 0; j < PD; j++) {
    const size_t d = (first + j) % PD;
    k[d] = c.draw(std::min<size_t>(budget, limit) + 1);
    if (closed_form) {  // degrees double with every order
      size_t mx = 1;
      for (auto x : r.deg) mx = std::max(mx, x);
      while (k[d] > 0 && (mx << (total + k[d])) > 28) k[d]--;
    }
    budget -= k[d];
    total += k[d];
    above |= k[d] > r.deg[d];
  }
  bool unequal = false;
  for (auto& x : r.w) unequal |= x.v != r.w[0].v;
  if (total >= 2 && unequal) c.nontrivial();
  if (above) c.label("order above degree");
  c.label(total > 9 ? std::string("total order above 9")
                    : pbt::str("total order ", total));
  const auto a = arr<PD>(k);
  c.note("orders ", text(k));
  std::vector<Rat<PD, P>> closed;
  RS num, den;
  if (closed_form) {
    c.label("closed form");
    closed.push_back(s.DerivativeWRTParametricDimension(a));
    check_shape(closed[0].GetNumeratorSpline(), vec(closed[0].GetDegrees()),
                "numerator of the derivative");
    check_shape(closed[0].GetWeightFunctionSpline(),
                vec(closed[0].GetDegrees()), "denominator of the derivative");
    // the quotient rule on the coefficients, for the size of the summands
    num = ref::numerator(r);
    den = ref::denominator(r);
    for (size_t d = 0; d < PD; d++)
      for (size_t o = 0; o < k[d]; o++) {
        vector<size_t> one(PD, 0);
        one[d] = 1;
        num = ref::add(ref::mul(ref::diff(num, one), den),
                       ref::mul(ref::diff(den, one), num), true);
        den = ref::mul(den, den);
      }
  }
  for (size_t e = 1 + c.draw(3); e-- > 0;) {
    const auto t = params(c, PD);
    c.note("at ", text(t));
    const auto p = pt<PD>(t);
    const auto want = ref::deriv(r, toq(t), k);
    check_value(s.EvaluateDerivative(p, a), want,
                "EvaluateDerivative " + text(k) + " at " + text(t), 65536);
    check_list(s.BasisFunctionsDerivatives(p, a),
               ref::basis_deriv(r, toq(t), k, true),
               "BasisFunctionsDerivatives " + text(k) + " at " + text(t),
               65536);
    if (closed_form) {
      auto tolerant = want;
      const auto n = ref::eval(num, toq(t));
      const auto d = ref::eval(den, toq(t));
      for (size_t q = 0; q < want.size(); q++)
        tolerant[q].m = std::max<ref::f128>(want[q].m, (n[q] / d[0]).m);
      check_values(closed[0], r, t, tolerant, "closed form " + text(k), 16384);
      check_value(closed[0].Evaluate(p), tolerant,
                  "value of the closed form " + text(k) + " at " + text(t),
                  16384);
    }
  }
  check_same(s, r, "spline after differentiation");
}

void property(Case& c) {
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<2>>>(
      c, [&](auto k) { run<decltype(k)::pd, typename decltype(k)::P_>(c); });
}
