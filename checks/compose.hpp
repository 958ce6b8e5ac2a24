// Shared by the checks of compositions
#ifndef VERIF_CHECKS_COMPOSE_HPP
#define VERIF_CHECKS_COMPOSE_HPP
#include "gen.hpp"
namespace gen {
#ifndef MAX_BINOMIAL_DEGREE
#error "expected the default of the library"
#endif
struct Degrees {
  vector<size_t> outer, inner;
  size_t sum{0};
};
/// Degrees with a result of at most `points` control points and within the
/// table of binomial coefficients
inline Degrees compose_degrees(Case& c, size_t po, size_t pi, size_t points,
                               size_t outer_points) {
  Degrees r;
  const size_t max_degree = MAX_BINOMIAL_DEGREE - 1;
  r.outer = degrees(c, po, 12, outer_points);
  size_t lim = 1;
  const size_t max_sum = std::min<size_t>(max_degree, points - 1);
  do {
    r.sum = 0;
    for (auto d : r.outer) r.sum += d;
    if (r.sum <= max_sum) break;
    for (auto& d : r.outer)
      if (d > 1) d--;
  } while (true);
  r.inner.assign(pi, 0);
  size_t total = 1;
  const size_t first = c.draw(pi);
  for (size_t k = 0; k < pi; k++) {
    const size_t d = (first + k) % pi;
    if (r.sum == 0)
      lim = 4;
    else
      lim = std::min(max_degree, points / total ? points / total - 1 : 0) / r.sum;
    const size_t small = std::min<size_t>(lim, 3);
    r.inner[d] = c.chance(1, 5) ? c.draw(lim + 1) : c.draw(small + 1);
    total *= r.inner[d] * r.sum + 1;
  }
  return r;
}
/// Value of the inner spline; exact up to binary128
inline vector<Q> exact_value(const RS& s, const vector<double>& t) {
  auto v = ref::eval(s, toq(t));
  for (auto& x : v) x.m = 1 + ref::absq(x.v);
  return v;
}
template <class F>
void kinds(Case& c, F f) {
  const size_t k = c.draw(4);
  c.label(k == 0 ? "polynomial of polynomial" : k == 1 ? "polynomial of rational"
          : k == 2 ? "rational of polynomial" : "rational of rational");
  using T = std::true_type;
  using N = std::false_type;
  if (k == 0) f(N{}, N{});
  else if (k == 1) f(N{}, T{});
  else if (k == 2) f(T{}, N{});
  else f(T{}, T{});
}
using Pairs = int;
template <class F>
void pick_pair(Case& c, F f) {
  pick<Pair<1, 1, double, double>, Pair<1, 2, Pt<2>, double>,
       Pair<1, 1, Pt<3>, Pt<1>>, Pair<2, 1, Pt<2>>, Pair<2, 2, double>,
       Pair<2, 3, Pt<3>>, Pair<3, 1, double>, Pair<3, 2, Pt<2>>,
       Pair<3, 3, Pt<3>>>(c, f);
}
}  // namespace gen
#endif
