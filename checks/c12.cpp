// C12: composition is functional composition
#include "compose.hpp"
using namespace gen;

const char* const kRule =
    "outer and inner spline (parametric dimensions 1-5 each, both polynomial or "
    "rational), inner one with control points in the unit cube incl. its "
    "boundary, composition degrees up to the size of the binomial table; "
    "composition and list composition evaluated at 1-3 parameters against the "
    "outer reference spline at the value of the inner reference spline; "
    "non-trivial: sum of outer degrees >= 2 and an inner degree >= 1";

template <class K, bool RO, bool RI>
void run(Case& c) {
  constexpr size_t PO = K::outer, PI = K::inner;
  using P = typename K::P_;
  using QI = typename K::Q_;
  const auto d = compose_degrees(c, PO, PI, 130, 40);
  const auto o = spline(c, d.outer, ncoord<P>(), RO);
  describe(c, o);
  c.note("outer: ", text(o));
  c.label("inner pd" + std::to_string(PI));
  size_t top = 0;
  for (auto x : d.inner) top = std::max(top, x);
  if (d.sum >= 2 && top >= 1) c.nontrivial();
  c.label(d.sum * top > 10 ? "degree of the result>10" : "degree of the result<=10");
  vector<size_t> want = d.inner;
  for (auto& x : want) x *= d.sum;
  const auto outer = lib<PO, P, RO>(o);
  const auto judge = [&](const auto& got, const RS& inner, const std::string& what) {
    if (!(RO && RI)) check_shape(got, want, what);
    for (size_t e = 1 + c.draw(3); e-- > 0;) {
      const auto t = params(c, PI);
      c.note("at ", text(t));
      const auto value = ref::eval(o, exact_value(inner, t));
      check_values(got, o, t, value, what, 1 << 14);
      check_value(got.Evaluate(pt<PI>(t)), value, what + " (Evaluate)", 1 << 15);
    }
  };
  bool list = false;
  if constexpr (!RO) list = c.chance(1, 5);
  if (!list) {
    const auto i = unit_spline(c, d.inner, PO, RI);
    c.note("inner: ", text(i));
    const auto inner = lib<PI, QI, RI>(i);
    judge(outer.Compose(inner), i, "composition");
    check_same(inner, i, "inner spline");
  } else if constexpr (!RO) {
    c.label("list");
    const size_t n = d.sum <= 6 && c.chance(1, 40) ? 4 + c.draw(30) : c.draw(4);
    if (n > 3) c.label("long list");
    vector<RS> in;
    vector<std::decay_t<decltype(lib<PI, QI, RI>(o))>> group;
    for (size_t k = 0; k < n; k++) {
      // lists may have different degrees
      vector<size_t> e = d.inner;
      for (auto& x : e) x = c.chance(1, 3) ? x / 2 : x;
      in.push_back(unit_spline(c, e, PO, RI));
      c.note("inner ", k, ": ", text(in.back()));
      group.push_back(lib<PI, QI, RI>(in.back()));
    }
    const auto got = outer.Compose(group);
    PBT_CHECK(got.size() == n, "list composition has ", got.size(),
              " entries instead of ", n);
    for (size_t k = 0; k < n; k++) {
      want = in[k].deg;
      for (auto& x : want) x *= d.sum;
      judge(got[k], in[k], pbt::str("list composition, entry ", k));
      check_same(group[k], in[k], "inner spline of a list");
    }
  }
  check_same(outer, o, "outer spline");
}

void property(Case& c) {
  quiet();
  kinds(c, [&](auto ro, auto ri) {
    pick_pair(c, [&](auto k) {
      run<decltype(k), decltype(ro)::value, decltype(ri)::value>(c);
    });
  });
}
