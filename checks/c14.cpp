// C14: sensitivities of compositions
#include "compose.hpp"
using namespace gen;

const char* const kRule =
    "outer and inner spline as for compositions; every entry of the list of "
    "sensitivities evaluated at 1-3 parameters against the (rational) basis "
    "function of the reference at the value of the inner reference spline, "
    "their sum against one, their combination with the outer control points "
    "against the composed value; non-trivial: sum of outer degrees >= 2 and an "
    "inner degree >= 1";

template <class K, bool RO, bool RI>
void run(Case& c) {
  constexpr size_t PO = K::outer, PI = K::inner;
  using P = typename K::P_;
  using QI = typename K::Q_;
  const auto d = compose_degrees(c, PO, PI, 100, 30);
  const auto o = spline(c, d.outer, ncoord<P>(), RO);
  const auto i = unit_spline(c, d.inner, PO, RI);
  describe(c, o);
  c.note("outer: ", text(o));
  c.note("inner: ", text(i));
  c.label("inner pd" + std::to_string(PI));
  size_t top = 0;
  for (auto x : d.inner) top = std::max(top, x);
  if (d.sum >= 2 && top >= 1) c.nontrivial();
  const auto outer = lib<PO, P, RO>(o);
  const auto inner = lib<PI, QI, RI>(i);
  const auto got = outer.ComposeSensitivity(inner);
  PBT_CHECK(got.size() == o.size(), "there are ", got.size(),
            " sensitivities for ", o.size(), " control points");
  for (auto& g : got)
    if constexpr (!RO && !RI) {
      vector<size_t> want = d.inner;
      for (auto& x : want) x *= d.sum;
      check_shape(g, want, "sensitivity");
    }
  for (size_t e = 1 + c.draw(3); e-- > 0;) {
    const auto t = params(c, PI);
    c.note("at ", text(t));
    const auto x = exact_value(i, t);
    const auto want = ref::basis_deriv(o, x, vector<size_t>(PO, 0));
    const auto value = ref::eval(o, x);
    Q sum;
    vector<Q> combined(o.nc);
    for (size_t k = 0; k < o.size(); k++) {
      const RS g = read(got[k]);
      const auto v = ref::eval(g, toq(t));
      PBT_CHECK(ref::near(ref::dbl(v[0]), want[k], 1 << 14), "sensitivity ", k,
                " of ", o.size(), " at ", text(t), " is ", ref::dbl(v[0]),
                " but should be ", ref::dbl(want[k]));
      sum = sum + v[0];
      for (size_t j = 0; j < o.nc; j++) {
        const Q p = RO ? o.at(k, j) / o.w[k] : o.at(k, j);
        combined[j] = combined[j] + v[0] * p;
      }
    }
    PBT_CHECK(ref::near(ref::dbl(sum), Q{1, 1}, 1 << 16),
              "the sensitivities sum to ", ref::dbl(sum));
    for (size_t j = 0; j < o.nc; j++)
      PBT_CHECK(ref::near(ref::dbl(combined[j]), value[j], 1 << 16),
                "the sensitivities combine to ", ref::dbl(combined[j]),
                " instead of ", ref::dbl(value[j]));
  }
  check_same(inner, i, "inner spline");
  check_same(outer, o, "outer spline");
}

void property(Case& c) {
  quiet();
  kinds(c, [&](auto ro, auto ri) {
    pick_pair(c, [&](auto k) {
      run<decltype(k), decltype(ro)::value, decltype(ri)::value>(c);
    });
  });
}
