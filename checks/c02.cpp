// C02: lists of basis functions
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "1-2 splines per case (polynomial or rational, parametric dimension 1-6, "
    "degrees up to 29 / 61, any positive weights), basis functions and "
    "per-direction contributions at 1-5 parameters of the closed unit cube "
    "through every overload; non-trivial: >= 3 basis functions and an interior "
    "parameter";

void check_partition(const vector<double>& b, const std::string& what) {
  double sum = 0;
  for (size_t i = 0; i < b.size(); i++) {
    PBT_CHECK(b[i] >= 0, what, ": entry ", i, " is negative: ", b[i]);
    sum += b[i];
  }
  PBT_CHECK(std::fabs(sum - 1) <= 1e-12, what, ": sums to ", sum);
}

template <size_t PD, class P, bool R>
void run(Case& c) {
  const size_t n = 1 + c.draw(2);
  vector<RS> refs;
  vector<std::conditional_t<R, Rat<PD, P>, Poly<PD, P>>> splines;
  for (size_t i = 0; i < n; i++) {
    auto deg = shape(c, PD, kMaxDegree, 160, 8, 80000);
    if (i > 0 && c.chance(1, 3)) {
      // same number of control points, other distribution of the degrees
      deg = refs[0].deg;
      std::rotate(deg.begin(), deg.begin() + 1, deg.end());
    }
    refs.push_back(spline(c, deg, ncoord<P>(), R));
    splines.push_back(lib<PD, P, R>(refs.back()));
    describe(c, refs.back());
    c.note("spline ", i, ": ", text(refs.back()));
  }
  c.label(R ? "rational" : "polynomial");
  const size_t m = 1 + c.draw(5);
  const vector<size_t> zero(PD, 0);
  for (size_t k = 0; k < m; k++) {
    const size_t i = c.draw(n);
    const RS& r = refs[i];
    const auto& s = splines[i];
    const auto t = params(c, PD);
    c.note("spline ", i, " at ", text(t));
    bool interior = true;
    for (auto x : t) interior &= x > 0 && x < 1;
    if (r.size() >= 3 && interior) c.nontrivial();
    const auto p = pt<PD>(t);
    const auto want = ref::basis_deriv(r, toq(t), zero, true);
    const auto b1 = s.BasisFunctions(p);
    const auto b2 = variadic<PD>(
        s, p, [](const auto& q, auto... x) { return q.BasisFunctions(x...); });
    check_list(b1, want, "BasisFunctions");
    check_list(b2, want, "BasisFunctions(coordinates)");
    check_partition(b1, "BasisFunctions");
    const auto c1 = s.BasisFunctionContributions(p);
    const auto c2 = variadic<PD>(s, p, [](const auto& q, auto... x) {
      return q.BasisFunctionContributions(x...);
    });
    for (size_t d = 0; d < PD; d++) {
      vector<Q> u;
      for (size_t j = 0; j <= r.deg[d]; j++)
        u.push_back(ref::bernstein(r.deg[d], j, t[d]));
      check_list(c1[d], u, pbt::str("contributions of direction ", d));
      check_list(c2[d], u, pbt::str("contributions(coordinates) ", d));
      check_partition(c1[d], pbt::str("contributions of direction ", d));
    }
    if constexpr (R) {
      const auto uw = ref::basis_deriv(r, toq(t), zero, false);
      check_list(s.UnweightedBasisFunctions(p), uw, "UnweightedBasisFunctions");
      check_list(variadic<PD>(s, p,
                              [](const auto& q, auto... x) {
                                return q.UnweightedBasisFunctions(x...);
                              }),
                 uw, "UnweightedBasisFunctions(coordinates)");
    }
  }
  for (size_t i = 0; i < n; i++)
    check_same(splines[i], refs[i], "spline after evaluation");
}

template <class K>
struct Wrap {};
void property(Case& c) {
  const bool rational = c.chance(1, 2);
  pick<Kind<1, double>, Kind<1, Pt<3>>, Kind<2, Pt<2>>, Kind<2, double>,
       Kind<3, Pt<3>>, Kind<4, Pt<1>>>(c, [&](auto k) {
    constexpr size_t pd = decltype(k)::pd;
    using P = typename decltype(k)::P_;
    if (rational)
      run<pd, P, true>(c);
    else
      run<pd, P, false>(c);
  });
}
