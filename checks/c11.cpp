// C11: arithmetic of rational splines
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "two rational splines of the same parametric dimension (1-6) whose weight "
    "functions are identical, identical after elevation, proportional, equal "
    "up to 1 ulp / 1e-9, or unrelated, with equal or different degrees; sum, "
    "difference, product (binary, in-place, with itself) compared as values; "
    "non-trivial: different weight functions with unequal weights";

template <size_t PD, class P>
void run(Case& c) {
  RS a = spline(c, shape(c, PD, 6, 30, 6), ncoord<P>(), true);
  RS b;
  const int relation = static_cast<int>(c.draw(6));
  const char* names[] = {"identical weights", "proportional weights",
                         "weights within ulps", "weights within 1e-9",
                         "unrelated weights", "weights of other degree"};
  c.label(names[relation]);
  if (relation <= 4) {
    b = spline(c, a.deg, ncoord<P>(), true);
    const double f = relation == 1 ? std::pow(10., c.around(4)) : 1;
    for (size_t i = 0; i < b.size() && relation < 4; i++) {
      double w = ref::dbl(a.w[i]) * f;
      if (relation == 2 && c.chance(1, 2)) w = std::nextafter(w, 2 * w);
      if (relation == 3 && c.chance(1, 2)) w *= 1 + 1e-9;
      b.w[i] = Q(w);
    }
  } else {
    b = spline(c, degrees(c, PD, 6, 30), ncoord<P>(), true);
  }
  size_t points = 1;
  for (size_t d = 0; d < PD; d++) points *= a.deg[d] + b.deg[d] + 1;
  if (points > 500) {
    b = spline(c, vector<size_t>(PD, 1), ncoord<P>(), true);
  }
  describe(c, a);
  c.note("a: ", text(a));
  c.note("b: ", text(b));
  bool unequal = false, identical = a.deg == b.deg;
  for (auto& x : a.w) unequal |= x.v != a.w[0].v;
  if (identical)
    for (size_t i = 0; i < a.w.size(); i++) identical &= a.w[i].v == b.w[i].v;
  if (!identical && unequal) c.nontrivial();
  const auto x = rat<PD, P>(a), y = rat<PD, P>(b);

  auto values_of = [&](const vector<double>& t, int op, const RS& u,
                       const RS& v) {
    const auto p = ref::eval(u, toq(t)), q = ref::eval(v, toq(t));
    vector<Q> r;
    if (op == 2) {
      Q dot;
      for (size_t k = 0; k < p.size(); k++) dot = dot + p[k] * q[k];
      return vector<Q>{dot};
    }
    for (size_t k = 0; k < p.size(); k++)
      r.push_back(op == 0 ? p[k] + q[k] : p[k] - q[k]);
    return r;
  };
  auto check = [&](const auto& got, int op, const RS& u, const RS& v,
                   const std::string& what) {
    // numerator and weight function stay compatible
    check_shape(got.GetNumeratorSpline(), vec(got.GetDegrees()),
                what + " numerator");
    check_shape(got.GetWeightFunctionSpline(), vec(got.GetDegrees()),
                what + " weight function");
    for (int e = 0; e < 2; e++) {
      const auto t = params(c, PD);
      check_values(got, u, t, values_of(t, op, u, v), what, 65536);
      if (e == 0)
        check_value(got.Evaluate(pt<PD>(t)), values_of(t, op, u, v),
                    "Evaluate of " + what + " at " + text(t), 65536);
    }
  };
  switch (c.draw(6)) {
    case 0: {
      const auto z = x + y;
      check(z, 0, a, b, "a + b");
      if (identical) check_shape(z, a.deg, "sum of equal weight functions");
      break;
    }
    case 1: {
      const auto z = x - y;
      check(z, 1, a, b, "a - b");
      if (identical) check_shape(z, a.deg, "difference of equal weights");
      break;
    }
    case 2: {
      auto z = x;
      auto& r = (z += y);
      PBT_CHECK(&r == &z, "+= does not return the spline");
      check(z, 0, a, b, "a += b");
      if (identical) check_shape(z, a.deg, "sum of equal weight functions");
      break;
    }
    case 3: {
      auto z = x;
      auto& r = (z -= y);
      PBT_CHECK(&r == &z, "-= does not return the spline");
      check(z, 1, a, b, "a -= b");
      if (identical) check_shape(z, a.deg, "difference of equal weights");
      break;
    }
    case 4:
      check(x * y, 2, a, b, "a * b");
      break;
    default: {
      c.label("self");
      check(x + x, 0, a, a, "a + a");
      check(x - x, 1, a, a, "a - a");
      check(x * x, 2, a, a, "a * a");
      auto z = x;
      z += z;
      check(z, 0, a, a, "a += a");
      check_shape(z, a.deg, "a += a");
      z = x;
      z -= z;
      check(z, 1, a, a, "a -= a");
      z = x;
      z = z + y;
      check(z, 0, a, b, "a = a + b");
    }
  }
  check_same(x, a, "left operand");
  check_same(y, b, "right operand");
}

template <size_t PD, class P>
void scalar_times_vector(Case& c) {
  const RS a = spline(c, degrees(c, PD, 6, 30), 1, true);
  const RS b = spline(c, degrees(c, PD, 6, 30), ncoord<P>(), true);
  c.label("scalar times vector");
  c.note("a: ", text(a));
  c.note("b: ", text(b));
  c.nontrivial();
  const auto z = rat<PD, double>(a) * rat<PD, P>(b);
  const auto t = params(c, PD);
  const auto p = ref::eval(a, toq(t)), q = ref::eval(b, toq(t));
  vector<Q> want;
  for (auto& x : q) want.push_back(p[0] * x);
  check_values(z, b, t, want, "scalar * vector", 65536);
}

void property(Case& c) {
  if (c.chance(1, 12))
    return c.chance(1, 2) ? scalar_times_vector<1, Pt<2>>(c)
                          : scalar_times_vector<2, Pt<3>>(c);
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<2>>>(
      c, [&](auto k) { run<decltype(k)::pd, typename decltype(k)::P_>(c); });
}
