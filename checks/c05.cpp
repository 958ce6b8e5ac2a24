// C05: derivatives of polynomial splines
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "a polynomial spline per case (parametric dimension 1-6, degrees up to 29 / 61) "
    "and 1-3 combinations of orders per direction (0 up to degree + 3, rarely far above): closed "
    "form, pointwise derivative and derivatives of the basis functions against "
    "the definition; non-trivial: total order >= 2 and not vanishing";

template <size_t PD, class P>
void run(Case& c) {
  const auto r = spline(c, shape(c, PD, kMaxDegree, 120, 8), ncoord<P>(), false);
  describe(c, r);
  c.note(text(r));
  const auto s = poly<PD, P>(r);
  const size_t m = 1 + c.draw(3);
  for (size_t q = 0; q < m; q++) {
    vector<size_t> k(PD);
    size_t total = 0;
    bool above = false;
    for (size_t d = 0; d < PD; d++) {
      k[d] = c.chance(1, 8) ? c.draw(r.deg[d] + 4)
                            : c.draw(std::min<size_t>(r.deg[d] + 2, 4));
      if (c.chance(1, 150)) {  // far above the degree
        static const size_t far[] = {40, 100, 1000, 1ull << 31, 1ull << 32, ~0ull >> 1, ~0ull - 1, ~0ull};
        k[d] = far[c.draw(8)] + r.deg[d] % 2;
        if (k[d] < 40) k[d] = ~0ull;
        c.label("order far above degree");
      }
      total += std::min<size_t>(k[d], 100);
      above |= k[d] > r.deg[d];
    }
    if (total >= 2 && !above) c.nontrivial();
    if (above) c.label("order above degree");
    if (total == 0) c.label("order zero");
    const auto a = arr<PD>(k);
    c.note("orders ", text(k));
    const auto closed = s.DerivativeWRTParametricDimension(a);
    const RS want = ref::diff(r, k);
    check_poly<PD, P>(closed, want, "closed form " + text(k));
    for (size_t e = 1 + c.draw(2); e-- > 0;) {
      const auto t = params(c, PD);
      c.note("at ", text(t));
      const auto value = ref::deriv(r, toq(t), k);
      const auto p = pt<PD>(t);
      check_value(s.EvaluateDerivative(p, a), value,
                  "EvaluateDerivative " + text(k) + " at " + text(t));
      check_value(closed.Evaluate(p), value,
                  "value of the closed form " + text(k) + " at " + text(t));
      const auto basis = ref::basis(r.deg, toq(t), k, true);
      check_list(s.BasisFunctionsDerivatives(p, a), basis,
                 "BasisFunctionsDerivatives " + text(k) + " at " + text(t));
      const auto contributions = s.BasisFunctionsDerivativeContributions(p, a);
      for (size_t d = 0; d < PD; d++) {
        vector<Q> u;
        for (size_t j = 0; j <= r.deg[d]; j++)
          u.push_back(ref::bernstein(r.deg[d], j, t[d], k[d]));
        check_list(contributions[d], u,
                   pbt::str("derivative contributions of direction ", d,
                            " order ", k[d], " at ", t[d]));
      }
    }
  }
  check_same(s, r, "spline after differentiation");
}

void property(Case& c) {
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<1>>, Kind<3, Pt<3>>, Kind<4, double>>(
      c, [&](auto k) { run<decltype(k)::pd, typename decltype(k)::P_>(c); });
}
