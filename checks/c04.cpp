// C04: degree elevation
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "a spline per case (polynomial or rational, parametric dimension 1-6), "
    "1-8 elevations along random directions, checked after every step against "
    "the unique Bernstein coefficients and, in another order of directions, "
    "against itself; non-trivial: >= 2 elevations of a spline with some degree "
    ">= 1";

template <size_t PD, class P, bool R>
void run(Case& c) {
  auto r = spline(c, shape(c, PD, 20, 60, 12, 20000, 300), ncoord<P>(), R);
  describe(c, r);
  c.label(R ? "rational" : "polynomial");
  c.note(text(r));
  auto s = lib<PD, P, R>(r);
  const auto s0 = s;
  const RS r0 = r;
  vector<size_t> dirs;
  const size_t n = 1 + c.draw(8);
  size_t mx = 0;
  for (auto d : r.deg) mx = std::max(mx, d);
  if (n >= 2 && mx >= 1) c.nontrivial();
  for (size_t k = 0; k < n; k++) {
    const size_t dir = c.draw(PD);
    if (r.size() > 400 && k >= 2) break;
    dirs.push_back(dir);
    c.note("elevate along ", dir);
    auto& ret = s.OrderElevateAlongParametricDimension(dir);
    PBT_CHECK(&ret == &s, "elevation does not return the spline itself");
    r = ref::elevate(r, dir);
    check_spline(s, r, pbt::str("after elevation ", k, " along ", dir));
    if (c.chance(1, 3)) {
      const auto t = params(c, PD);
      check_value(s.Evaluate(pt<PD>(t)), ref::eval(r0, toq(t)),
                  "value after elevation at " + text(t));
    }
  }
  // other order of directions
  auto u = s0;
  auto other = dirs;
  for (size_t k = other.size(); k > 1; k--)
    std::swap(other[k - 1], other[c.draw(k)]);
  for (auto d : other) u.OrderElevateAlongParametricDimension(d);
  check_spline(u, r, "elevations in another order");
  // a copy is not affected
  check_same(s0, r0, "copy of the spline");
}

void property(Case& c) {
  const bool rational = c.chance(1, 2);
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<2>>, Kind<4, double>>(c, [&](auto k) {
    constexpr size_t pd = decltype(k)::pd;
    using P = typename decltype(k)::P_;
    if (rational)
      run<pd, P, true>(c);
    else
      run<pd, P, false>(c);
  });
}
