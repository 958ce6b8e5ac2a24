// C24: differentiation types flow through spline operations
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "compose.hpp"
using namespace gen;
using ref::D;

const char* const kRule =
    "polynomial and rational splines (parametric dimension 1-4, scalar or "
    "vector-valued) of differentiation types with two or five variables: every control "
    "point coordinate, weight, parameter, split plane, factor is inactive, one of "
    "the variables or has a random gradient; evaluation, derivatives, basis "
    "functions, elevation, splits, derivative splines, arithmetic, products, "
    "powers, (sensitivities of) compositions, coordinate extraction, corners, unit "
    "cube, products, sums, differences and compositions with splines of doubles against the "
    "reference model in (value, derivative) numbers, one direction at a time; "
    "non-trivial: degree >= 1 and at least two active inputs";

#ifdef PBT_HIGH
constexpr size_t NV = 5;
#else
constexpr size_t NV = 2;
#endif
using AD = bezman::utils::computational_differentiation::AlgoDiffType<double, NV>;
template <size_t N>
using APt = bezman::Point<N, AD>;
using DS = ref::Spline<D>;

template <class P>
constexpr size_t nco() {
  if constexpr (std::is_same_v<P, AD>)
    return 1;
  else
    return P::kSpatialDimension;
}
template <class P>
auto& co(P& p, size_t k) {
  if constexpr (std::is_same_v<std::remove_const_t<P>, AD>) {
    (void)k;
    return p;
  } else {
    return p[k];
  }
}
/// The same quantity in all directions
struct Num {
  D d[NV];
};
Num lift_num(const AD& a) {
  Num n;
  const auto g = a.GetDerivatives();
  for (size_t j = 0; j < NV; j++) n.d[j] = D(Q(a.GetValue()), Q(g[j]));
  return n;
}
int active = 0;
AD make(Case& c, double v) {
  switch (c.draw(4)) {
    case 0:
      return AD(v);
    case 1:
    case 2:
      active++;
      return AD(v, static_cast<size_t>(c.draw(NV)));
    default: {
      AD x(v);
      active++;
      for (size_t j = 0; j < NV; j++)
        x += AD(0., j) * (c.chance(1, 2) ? static_cast<double>(c.around(4)) : sunit53(c) * 2);
      return x;
    }
  }
}
void judge(const AD& got, const Num& want, const std::string& w, double K = 1 << 14) {
  const auto g = got.GetDerivatives();
  for (size_t j = 0; j < NV; j++) {
    PBT_CHECK(ref::near(got.GetValue(), want.d[j].v, K), w, ": value is ", got.GetValue(), " instead of ",
              ref::dbl(want.d[j].v), " (magnitude ", static_cast<double>(want.d[j].v.m), ")");
    PBT_CHECK(ref::near(g[j], want.d[j].d, K), w, ": derivative ", j, " is ", g[j], " instead of ",
              ref::dbl(want.d[j].d), " (magnitude ", static_cast<double>(want.d[j].d.m), ")");
  }
}
/// Models of a spline, one per direction
struct Model {
  DS s[NV];
  template <class F>
  Model map(F f) const {
    Model r;
    for (size_t j = 0; j < NV; j++) r.s[j] = f(s[j], j);
    return r;
  }
  size_t size() const { return s[0].size(); }
};
using NumList = vector<Num>;
template <class F>
NumList each(F f) {
  NumList r;
  for (size_t j = 0; j < NV; j++) {
    const vector<D> v = f(j);
    r.resize(v.size());
    for (size_t i = 0; i < v.size(); i++) r[i].d[j] = v[i];
  }
  return r;
}
template <class P>
void judge_point(const P& got, const NumList& want, const std::string& w, double K = 1 << 14) {
  for (size_t k = 0; k < nco<P>(); k++) judge(co(got, k), want[k], w + " coordinate " + std::to_string(k), K);
}
template <size_t PD, class P>
Model read_ad(const bezman::BezierSpline<PD, P, AD>& s) {
  Model m;
  for (size_t j = 0; j < NV; j++) {
    m.s[j].deg = vec(s.GetDegrees());
    m.s[j].nc = nco<P>();
    for (auto& p : s.GetControlPoints())
      for (size_t k = 0; k < nco<P>(); k++) m.s[j].cp.push_back(lift_num(co(p, k)).d[j]);
  }
  return m;
}
template <size_t PD, class P>
Model read_ad(const bezman::RationalBezierSpline<PD, P, AD>& s) {
  Model m = read_ad(s.GetNumeratorSpline());
  for (size_t j = 0; j < NV; j++)
    for (auto& x : s.GetWeights()) m.s[j].w.push_back(lift_num(x).d[j]);
  return m;
}
template <size_t PD, class P>
void judge_spline(const bezman::BezierSpline<PD, P, AD>& got, const Model& want, const std::string& w,
                  double K = 1 << 14) {
  check_shape(got, want.s[0].deg, w);
  PBT_CHECK(got.GetControlPoints().size() == want.size(), w, ": number of control points");
  for (size_t i = 0; i < want.size(); i++)
    for (size_t k = 0; k < nco<P>(); k++) {
      Num n;
      for (size_t j = 0; j < NV; j++) n.d[j] = want.s[j].at(i, k);
      judge(co(got.GetControlPoints()[i], k), n, pbt::str(w, ": control point ", i, " coordinate ", k), K);
    }
}
template <size_t PD, class P>
void judge_spline(const bezman::RationalBezierSpline<PD, P, AD>& got, const Model& want, const std::string& w,
                  double K = 1 << 14) {
  judge_spline(got.GetNumeratorSpline(), want.map([](const DS& s, size_t) { return ref::numerator(s); }),
               w + ": numerator", K);
  judge_spline(got.GetWeightFunctionSpline(), want.map([](const DS& s, size_t) { return ref::denominator(s); }),
               w + ": weight function", K);
}
/// Values of a returned spline
template <class S>
void judge_values(const S& got, const vector<double>& t, const NumList& want, const std::string& w,
                  double K = 1 << 15) {
  const Model m = read_ad(got);
  PBT_CHECK(m.s[0].cp.size() == m.s[0].size() * m.s[0].nc, w, ": inconsistent number of control points");
  const vector<D> p(t.begin(), t.end());
  const auto have = each([&](size_t j) { return ref::eval(m.s[j], p); });
  for (size_t k = 0; k < want.size(); k++)
    for (size_t j = 0; j < NV; j++) {
      PBT_CHECK(ref::near(ref::dbl(have[k].d[j].v), want[k].d[j].v, K), w, " at ", text(t), ": coordinate ", k, " is ",
                ref::dbl(have[k].d[j].v), " instead of ", ref::dbl(want[k].d[j].v));
      // weights cancel out, but with rounding errors of this magnitude
      Q wd = want[k].d[j].d;
      if (m.s[0].rational()) wd.m = std::max(wd.m, have[k].d[j].d.m);
      PBT_CHECK(ref::near(ref::dbl(have[k].d[j].d), wd, K), w, " at ", text(t), ": coordinate ", k,
                " derivative ", j, " is ", ref::dbl(have[k].d[j].d), " instead of ", ref::dbl(want[k].d[j].d),
                " (magnitude ", static_cast<double>(want[k].d[j].d.m), ")");
    }
}

template <size_t PD, class P, bool R>
using Lib = std::conditional_t<R, bezman::RationalBezierSpline<PD, P, AD>, bezman::BezierSpline<PD, P, AD>>;

template <size_t PD, class P, bool R>
struct Subject {
  Model m;
  Lib<PD, P, R> s;
};
/// unit: control points inside of the unit cube
template <size_t PD, class P, bool R>
Subject<PD, P, R> subject(Case& c, const vector<size_t>& deg, bool unit = false) {
  Subject<PD, P, R> r;
  RS v = unit ? unit_spline(c, deg, nco<P>(), false) : spline(c, deg, nco<P>(), false, false);
  const size_t n = v.size();
  vector<P> points(n);
  for (size_t i = 0; i < n; i++)
    for (size_t k = 0; k < nco<P>(); k++) co(points[i], k) = make(c, ref::dbl(v.at(i, k)));
  if constexpr (R) {
    const auto wv = weights(c, n, false);
    vector<AD> w;
    for (auto x : wv) w.push_back(make(c, x));
    r.s = Lib<PD, P, R>(arr<PD>(deg), points, w);
    for (size_t j = 0; j < NV; j++) {
      DS& s = r.m.s[j];
      s.deg = deg;
      s.nc = nco<P>();
      for (size_t i = 0; i < n; i++) {
        s.w.push_back(lift_num(w[i]).d[j]);
        for (size_t k = 0; k < s.nc; k++) s.cp.push_back(lift_num(co(points[i], k)).d[j] * s.w[i]);
      }
    }
    judge_spline(r.s, r.m, "constructed spline", 8);
  } else {
    r.s = Lib<PD, P, R>(arr<PD>(deg), points);
  }
  // the inputs as they are
  r.m = read_ad(r.s);
  c.note(R ? "rational " : "polynomial ", text(deg));
  return r;
}
template <class S>
void unchanged(const S& s, const Model& m, const std::string& w) {
  const Model n = read_ad(s);
  for (size_t j = 0; j < NV; j++) {
    PBT_CHECK(n.s[j].deg == m.s[j].deg && n.s[j].cp.size() == m.s[j].cp.size(), w, ": operand changed its shape");
    for (size_t i = 0; i < m.s[j].cp.size(); i++)
      PBT_CHECK(n.s[j].cp[i].v.v == m.s[j].cp[i].v.v && n.s[j].cp[i].d.v == m.s[j].cp[i].d.v, w,
                ": operand changed in value ", i);
    for (size_t i = 0; i < m.s[j].w.size(); i++)
      PBT_CHECK(n.s[j].w[i].v.v == m.s[j].w[i].v.v && n.s[j].w[i].d.v == m.s[j].w[i].d.v, w,
                ": operand changed in weight ", i);
  }
}
double inner_value(Case& c) {
  const double x = c.chance(1, 2) ? unit53(c) : static_cast<double>(c.range(1, 7)) / 8;
  return x > 0 ? x : .5;
}
/// Values of numerator / weight as lists of all directions
NumList value_at(const Model& m, const vector<double>& t) {
  const vector<D> p(t.begin(), t.end());
  return each([&](size_t j) { return ref::eval(m.s[j], p); });
}
NumList combine(const NumList& a, const NumList& b, bool minus) {
  NumList r(a);
  for (size_t k = 0; k < a.size(); k++)
    for (size_t j = 0; j < NV; j++) r[k].d[j] = minus ? a[k].d[j] - b[k].d[j] : a[k].d[j] + b[k].d[j];
  return r;
}

template <size_t PD, class P, bool R, bool RI, size_t PI, class IP = APt<PD>>
void compose(Case& c) {
  const auto d = compose_degrees(c, PD, PI, 40, 16);
  auto o = subject<PD, P, R>(c, d.outer);
  auto i = subject<PI, IP, RI>(c, d.inner, true);
  if constexpr (std::is_same_v<IP, AD>) c.label("scalar inner spline");
  c.label(R ? RI ? "rational of rational" : "rational of polynomial" : RI ? "polynomial of rational" : "polynomial of polynomial");
  if (d.sum >= 1 && active >= 2) c.nontrivial();
  // value of the inner one in all directions, exact in binary128
  const auto t = params(c, PI);
  const auto x = each([&](size_t j) {
    auto v = ref::eval(i.m.s[j], vector<D>(t.begin(), t.end()));
    for (auto& y : v) y.v.m = 1 + ref::absq(y.v.v);
    return v;
  });
  const auto at = [&](size_t j) {
    vector<D> r;
    for (auto& y : x) r.push_back(y.d[j]);
    return r;
  };
  if (!i.s.FitsIntoUnitCube()) return;  // rounding of the weights
  if (c.chance(1, 2)) {
    c.label("composition");
    const auto got = o.s.Compose(i.s);
    auto want = each([&](size_t j) { return ref::eval(o.m.s[j], at(j)); });
    judge_values(got, t, want, "composition", 1 << 16);
  } else {
    c.label("composition sensitivity");
    const auto got = o.s.ComposeSensitivity(i.s);
    PBT_CHECK(got.size() == o.m.size(), "number of sensitivities");
    auto want = each([&](size_t j) { return ref::basis_deriv(o.m.s[j], at(j), vector<size_t>(PD, 0)); });
    for (size_t k = 0; k < got.size(); k++)
      judge_values(got[k], t, {want[k]}, pbt::str("composition sensitivity ", k), 1 << 16);
  }
  unchanged(o.s, o.m, "outer spline");
  unchanged(i.s, i.m, "inner spline");
}

/// Spline of doubles as a model without derivatives
Model constant_model(const RS& r) {
  Model m;
  for (size_t j = 0; j < NV; j++) {
    m.s[j].deg = r.deg;
    m.s[j].nc = r.nc;
    for (auto& x : r.cp) m.s[j].cp.push_back(D(x));
    for (auto& x : r.w) m.s[j].w.push_back(D(x));
  }
  return m;
}
/// Outer splines of differentiation types, inner ones of doubles
template <size_t PD, class P, bool R, bool RI, size_t PI, class IP = Pt<PD>>
void compose_plain(Case& c) {
  const auto d = compose_degrees(c, PD, PI, 40, 16);
  auto o = subject<PD, P, R>(c, d.outer);
  const RS ir = unit_spline(c, d.inner, PD, RI);
  const auto i = lib<PI, IP, RI>(ir);
  if (!i.FitsIntoUnitCube()) return;
  if (d.sum >= 1 && active >= 2) c.nontrivial();
  const auto t = params(c, PI);
  const auto x = exact_value(ir, t);
  const vector<D> at(x.begin(), x.end());
  judge_values(o.s.Compose(i), t, each([&](size_t j) { return ref::eval(o.m.s[j], at); }),
               "composition with a spline of doubles", 1 << 16);
  if constexpr (!R && !RI) {
    if (c.chance(1, 3)) {
      const auto got = o.s.ComposeSensitivity(i);
      PBT_CHECK(got.size() == o.m.size(), "number of sensitivities");
      const auto want = each([&](size_t j) { return ref::basis_deriv(o.m.s[j], at, vector<size_t>(PD, 0)); });
      for (size_t k = 0; k < got.size(); k++)
        judge_values(got[k], t, {want[k]}, pbt::str("sensitivity ", k, " with a spline of doubles"), 1 << 16);
    }
  }
  unchanged(o.s, o.m, "outer spline");
  check_same(i, ir, "inner spline");
}

template <size_t PD, class P, bool R>
void run(Case& c) {
  constexpr size_t nc = nco<P>();
  active = 0;
  const size_t op = c.draw(15);
  if (op == 11) {
    // compositions
    const bool ri = c.chance(1, 2);
    if constexpr (PD == 1) {
      if (c.chance(1, 3)) return ri ? compose<PD, P, R, true, 1, AD>(c) : compose<PD, P, R, false, 1, AD>(c);
      return ri ? compose<PD, P, R, true, 2>(c) : compose<PD, P, R, false, 2>(c);
    } else
      return ri ? compose<PD, P, R, true, 1>(c) : compose<PD, P, R, false, 1>(c);
  }
  if (op == 14 && c.chance(1, 3)) {
    c.label("composition with a spline of doubles");
    constexpr size_t PI = PD == 1 ? 2 : 1;
    if constexpr (PD == 1) {
      if (c.chance(1, 3)) return compose_plain<PD, P, R, false, PI, double>(c);
    }
    if constexpr (R) {
      return c.chance(1, 2) ? compose_plain<PD, P, R, true, PI>(c) : compose_plain<PD, P, R, false, PI>(c);
    } else {
      return compose_plain<PD, P, R, false, PI>(c);
    }
  }
  const auto deg = degrees(c, PD, 8, 40);
  auto x = subject<PD, P, R>(c, deg);
  size_t top = 0;
  for (auto d : deg) top = std::max(top, d);
  c.label("pd" + std::to_string(PD));
  c.label(R ? "rational" : "polynomial");
  // parameters
  bezman::Point<PD, AD> p;
  vector<double> t = params(c, PD);
  for (size_t d = 0; d < PD; d++) p[d] = make(c, t[d]);
  const auto pd = [&](size_t j) {
    vector<D> r;
    for (size_t d = 0; d < PD; d++) r.push_back(lift_num(p[d]).d[j]);
    return r;
  };
  const auto show = [&](const char* name) {
    c.label(name);
    c.note(name, " at ", text(t));
  };
  vector<size_t> orders(PD);
  for (auto& o : orders) o = c.draw(3);
  const size_t dir = c.draw(PD);
  switch (op) {
    case 0: {
      show("evaluation");
      const auto want = each([&](size_t j) { return ref::eval(x.m.s[j], pd(j)); });
      judge_point(x.s.Evaluate(p), want, "evaluation at " + text(t));
      judge_point(x.s.ForwardEvaluate(p), want, "forward evaluation at " + text(t));
      break;
    }
    case 1: {
      show("evaluated derivative");
      judge_point(x.s.EvaluateDerivative(p, arr<PD>(orders)),
                  each([&](size_t j) { return ref::deriv(x.m.s[j], pd(j), orders); }),
                  "derivative " + text(orders) + " at " + text(t), 1 << 16);
      break;
    }
    case 2: {
      show("basis functions");
      const auto got = x.s.BasisFunctions(p);
      const auto want = each([&](size_t j) { return ref::basis_deriv(x.m.s[j], pd(j), vector<size_t>(PD, 0)); });
      PBT_CHECK(got.size() == want.size(), "number of basis functions");
      for (size_t i = 0; i < got.size(); i++) judge(got[i], want[i], pbt::str("basis function ", i, " at ", text(t)));
      const auto each_direction = x.s.BasisFunctionContributions(p);
      for (size_t d = 0; d < PD; d++) {
        const auto wb = each([&](size_t j) {
          DS line;
          line.deg = {deg[d]};
          return ref::basis_deriv(line, vector<D>{pd(j)[d]}, vector<size_t>(1, 0));
        });
        PBT_CHECK(each_direction[d].size() == wb.size(), "number of contributions of direction ", d);
        for (size_t i = 0; i < wb.size(); i++)
          judge(each_direction[d][i], wb[i], pbt::str("contribution ", i, " of direction ", d, " at ", text(t)));
      }
      const auto gd = x.s.BasisFunctionsDerivatives(p, arr<PD>(orders));
      const auto wd = each([&](size_t j) { return ref::basis_deriv(x.m.s[j], pd(j), orders); });
      PBT_CHECK(gd.size() == wd.size(), "number of basis functions");
      for (size_t i = 0; i < gd.size(); i++)
        judge(gd[i], wd[i], pbt::str("basis function ", i, " derivative ", text(orders), " at ", text(t)), 1 << 16);
      break;
    }
    case 3: {
      show("elevation");
      auto s = x.s;
      s.OrderElevateAlongParametricDimension(dir);
      judge_spline(s, x.m.map([&](const DS& m, size_t) { return ref::elevate(m, dir); }), "elevation");
      break;
    }
    case 4: {
      show("split");
      vector<AD> planes;
      vector<double> v;
      for (size_t n = 1 + c.draw(3); n-- > 0;) v.push_back(inner_value(c));
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
      for (auto a : v) planes.push_back(make(c, a));
      const auto got = planes.size() == 1 && c.chance(1, 2) ? x.s.SplitAtPosition(planes[0], dir) : x.s.SplitAtPosition(planes, dir);
      PBT_CHECK(got.size() == planes.size() + 1, "number of pieces");
      // the positions are products of relative ones: the same number, but with
      // the magnitude of the terms that cancel out in its derivatives
      vector<Num> position(planes.size());
      for (size_t k = planes.size(); k-- > 0;)
        for (size_t j = 0; j < NV; j++) {
          const D a = lift_num(planes[k]).d[j];
          position[k].d[j] = k + 1 == planes.size() ? a : a / lift_num(planes[k + 1]).d[j] * position[k + 1].d[j];
        }
      for (size_t k = 0; k < got.size(); k++)
        judge_spline(got[k], x.m.map([&](const DS& m, size_t j) {
          return ref::split(m, dir, k ? position[k - 1].d[j] : D(0.),
                            k < planes.size() ? position[k].d[j] : D(1.));
        }),
                     pbt::str("split at ", text(v), ": piece ", k), 1 << 16);
      break;
    }
    case 5: {
      show("derivative spline");
      if constexpr (R) {
        size_t total = 0;
        for (auto& o : orders)
          if ((total += o) > 2) total -= o, o = 0;
        for (size_t d = 0; d < PD; d++)
          if (deg[d] * (size_t{1} << total) >= MAX_BINOMIAL_DEGREE || x.m.size() > 20) return;
        const auto got = x.s.DerivativeWRTParametricDimension(arr<PD>(orders));
        const vector<D> q(t.begin(), t.end());
        auto want = each([&](size_t j) { return ref::deriv(x.m.s[j], q, orders); });
        judge_values(got, t, want, "derivative spline " + text(orders), 1 << 17);
      } else {
        const auto got = x.s.DerivativeWRTParametricDimension(arr<PD>(orders));
        judge_spline(got, x.m.map([&](const DS& m, size_t) { return ref::diff(m, orders); }),
                     "derivative spline " + text(orders));
      }
      break;
    }
    case 6: {
      show("sum of splines");
      const bool minus = c.chance(1, 2), inplace = c.chance(1, 2);
      auto y = subject<PD, P, R>(c, degrees(c, PD, R ? 3 : 8, R ? 12 : 40));
      if (R && x.m.size() > 20) return;
      if constexpr (R)
        if (c.chance(1, 3)) y.s = x.s, y.m = x.m;
      auto s = x.s;
      if (inplace) {
        if (minus)
          s -= y.s;
        else
          s += y.s;
      }
      const auto got = inplace ? s : minus ? x.s - y.s : x.s + y.s;
      const std::string w = pbt::str(minus ? "difference" : "sum", inplace ? " in place" : "");
      if constexpr (R) {
        auto a = value_at(x.m, t), b = value_at(y.m, t);
        judge_values(got, t, combine(a, b, minus), w, 1 << 16);
      } else {
        Model want;
        for (size_t j = 0; j < NV; j++) want.s[j] = ref::add(x.m.s[j], y.m.s[j], minus);
        judge_spline(got, want, w);
      }
      unchanged(y.s, y.m, w);
      break;
    }
    case 7: {
      show("product of splines");
      if (R && x.m.size() > 20) return;
      const auto dy = degrees(c, PD, R ? 3 : 6, R ? 12 : 20);
      const auto with = [&](auto y) {
        const auto got = x.s * y.s;
        NumList want;
        const auto a = value_at(x.m, t), b = value_at(y.m, t);
        if (a.size() == b.size()) {
          want.resize(1);
          for (size_t k = 0; k < a.size(); k++)
            for (size_t j = 0; j < NV; j++)
              want[0].d[j] = k ? want[0].d[j] + a[k].d[j] * b[k].d[j] : a[k].d[j] * b[k].d[j];
        } else {
          const auto& big = a.size() > b.size() ? a : b;
          const auto& one = a.size() > b.size() ? b : a;
          want = big;
          for (auto& e : want)
            for (size_t j = 0; j < NV; j++) e.d[j] = e.d[j] * one[0].d[j];
        }
        judge_values(got, t, want, "product", 1 << 16);
        unchanged(y.s, y.m, "product");
      };
      // vector by scalar and scalar product
      if (c.chance(1, 2))
        with(subject<PD, AD, R>(c, dy));
      else
        with(subject<PD, P, R>(c, dy));
      break;
    }
    case 8: {
      show("arithmetic with scalars and points");
      // values that are neutral, but depend on a variable
      const AD f = make(c, c.chance(1, 2) ? static_cast<double>(c.around(2)) : sunit53(c) * 4);
      P shift;
      const bool zero = c.chance(1, 3);
      for (size_t k = 0; k < nc; k++)
        co(shift, k) = make(c, zero ? 0. : c.chance(1, 4) ? static_cast<double>(c.around(2)) : sunit53(c) * 4);
      const auto a = value_at(x.m, t);
      const Num fn = lift_num(f);
      const auto want = [&](auto rule) {
        NumList r(a);
        for (size_t k = 0; k < nc; k++)
          for (size_t j = 0; j < NV; j++) r[k].d[j] = rule(a[k].d[j], lift_num(co(shift, k)).d[j], fn.d[j]);
        return r;
      };
      auto s = x.s;
      const size_t kind = c.draw(10);
      const std::string w = pbt::str("arithmetic operation ", kind);
      using I = const D&;
      switch (kind) {
        case 0:
          judge_values(x.s * f, t, want([](I u, I, I g) { return u * g; }), w);
          break;
        case 1:
          judge_values(f * x.s, t, want([](I u, I, I g) { return u * g; }), w);
          break;
        case 2:
          s *= f;
          judge_values(s, t, want([](I u, I, I g) { return u * g; }), w);
          break;
        case 3:
          judge_values(x.s + shift, t, want([](I u, I h, I) { return u + h; }), w);
          break;
        case 4:
          judge_values(x.s - shift, t, want([](I u, I h, I) { return u - h; }), w);
          break;
        case 5:
          s += shift;
          judge_values(s, t, want([](I u, I h, I) { return u + h; }), w);
          break;
        case 6:
          s -= shift;
          judge_values(s, t, want([](I u, I h, I) { return u - h; }), w);
          break;
        case 7:
          judge_values(shift + x.s, t, want([](I u, I h, I) { return u + h; }), w);
          break;
        case 8:
          if constexpr (!R) judge_values(shift - x.s, t, want([](I u, I h, I) { return h - u; }), w);
          break;
        default:
          judge_values(-x.s, t, want([](I u, I, I) { return -u; }), w);
      }
      break;
    }
    case 9: {
      bool extract = R || !std::is_same_v<P, AD> || c.chance(1, 3);
      if constexpr (!R && std::is_same_v<P, AD>) if (!extract) {
        show("power");
        size_t k = c.draw(4);
        while (k > 1 && (top * k >= MAX_BINOMIAL_DEGREE || x.m.size() * k > 60)) k--;
        auto v = value_at(x.m, t);
        NumList want(1);
        for (size_t j = 0; j < NV; j++) {
          want[0].d[j] = D(1.);
          for (size_t e = 0; e < k; e++) want[0].d[j] = want[0].d[j] * v[0].d[j];
        }
        judge_values(x.s.RaisePower(k), t, want, pbt::str("power ", k), 1 << 16);
      }
      if (extract) {
        show("extraction of a coordinate");
        const size_t k = c.draw(nc);
        judge_spline(x.s.ExtractDimension(k), x.m.map([&](const DS& m, size_t) {
          DS r;
          r.deg = m.deg;
          for (size_t i = 0; i < m.size(); i++) r.cp.push_back(m.at(i, k));
          return r;
        }),
                     "coordinate", 0);
      }
      break;
    }
    case 12: {
      {
        show("corners");
        const auto point = [&](size_t i, size_t k, size_t j) {
          const DS& m = x.m.s[j];
          return R ? m.at(i, k) / m.w[i] : m.at(i, k);
        };
        const auto hi = x.s.MaximumCorner(), lo = x.s.MinimumCorner();
        for (size_t k = 0; k < nc; k++)
          for (int up = 0; up < 2; up++) {
            const AD& got = up ? co(hi, k) : co(lo, k);
            ref::f128 most = point(0, k, 0).v.v;
            for (size_t i = 0; i < x.m.size(); i++) {
              const ref::f128 v = point(i, k, 0).v.v;
              most = up ? std::max(most, v) : std::min(most, v);
            }
            // of one of the extreme control points
            bool found = false;
            const double K = R ? 256 : 0;
            for (size_t i = 0; i < x.m.size() && !found; i++) {
              found = ref::absq(point(i, k, 0).v.v - most) <= ref::f128(K * 0x1p-53) * ref::absq(most) &&
                      ref::near(got.GetValue(), point(i, k, 0).v, K);
              for (size_t j = 0; j < NV; j++) found = found && ref::near(got.GetDerivatives()[j], point(i, k, j).d, K);
            }
            PBT_CHECK(found, up ? "maximum" : "minimum", " corner, coordinate ", k, ": ", got, " derivatives ",
                      got.GetDerivatives()[0], " ... are not those of an extreme control point (",
                      static_cast<double>(most), ")");
          }
        if constexpr (!R) {
          auto s = x.s;
          s.FitIntoUnitCube();
          PBT_CHECK(s.GetDegrees() == x.s.GetDegrees(), "fitted spline has other degrees");
          for (size_t i = 0; i < x.m.size(); i++)
            for (size_t k = 0; k < nc; k++) {
              Num want;
              for (size_t j = 0; j < NV; j++) {
                const D top_ = lift_num(co(hi, k)).d[j], low = lift_num(co(lo, k)).d[j], extent = top_ - low;
                const D from_low = x.m.s[j].at(i, k) - low;
                want.d[j] = extent.v.v == 0 ? from_low : from_low / extent;
              }
              judge(co(s.GetControlPoints()[i], k), want, pbt::str("fitted control point ", i, " coordinate ", k), 1 << 10);
            }
        }
      }
      break;
    }
    case 13:
    case 14: {
      const auto dy = degrees(c, PD, R ? 3 : 6, R ? 12 : 20);
      if (R && x.m.size() > 20) return;
      if (!R && std::is_same_v<P, AD> && c.chance(1, 3)) {
        show("sum and difference with a spline of doubles");
        if constexpr (!R && std::is_same_v<P, AD>) {
          const RS yr = spline(c, dy, 1, false, false);
          const auto y = poly<PD, double>(yr);
          const Model ym = constant_model(yr);
          Model want;
          for (size_t j = 0; j < NV; j++) want.s[j] = ref::add(x.m.s[j], ym.s[j], true);
          judge_spline(x.s - y, want, "difference with a spline of doubles");
          const auto of = [&](bool left, bool minus) {
            Model m;
            for (size_t j = 0; j < NV; j++)
              m.s[j] = left ? ref::add(ym.s[j], x.m.s[j], minus) : ref::add(x.m.s[j], ym.s[j], minus);
            return m;
          };
          switch (c.draw(3)) {
            case 0: judge_spline(x.s + y, of(false, false), "sum with a spline of doubles"); break;
            case 1: judge_spline(y + x.s, of(true, false), "spline of doubles plus"); break;
            default: judge_spline(y - x.s, of(true, true), "spline of doubles minus");
          }
          check_same(y, yr, "spline of doubles");
        }
        break;
      }
      show("product with a spline of doubles");
      const auto with = [&](const auto& y, const RS& yr) {
        const Model ym = constant_model(yr);
        const auto a = value_at(x.m, t), b = value_at(ym, t);
        NumList want(a.size() == b.size() ? 1 : a.size());
        for (size_t k = 0; k < a.size(); k++)
          for (size_t j = 0; j < NV; j++) {
            const D f = a[k].d[j] * b[b.size() == 1 ? 0 : k].d[j];
            if (a.size() == b.size())
              want[0].d[j] = k ? want[0].d[j] + f : f;
            else
              want[k].d[j] = f;
          }
        judge_values(x.s * y, t, want, "product with a spline of doubles", 1 << 16);
        judge_values(y * x.s, t, want, "product of a spline of doubles", 1 << 16);
        check_same(y, yr, "spline of doubles");
      };
      if constexpr (!std::is_same_v<P, AD>) {
        if (c.chance(1, 2)) {
          const RS yr = spline(c, dy, nc, R, false);
          with(lib<PD, Pt<nc>, R>(yr), yr);
          break;
        }
      }
      if constexpr (std::is_same_v<P, AD>) {
        const RS yr = spline(c, dy, 1, R, false);
        with(lib<PD, double, R>(yr), yr);
      }
      break;
    }
    default: {
      if (R && c.chance(1, 3)) {
        show("promotion to a rational spline");
        if constexpr (R) {
          const auto q = subject<PD, P, false>(c, deg);
          const Lib<PD, P, true> promoted(q.s);
          judge_spline(promoted, q.m.map([](DS m, size_t) {
            m.w.assign(m.size(), D(1.));
            return m;
          }),
                       "promoted spline", 0);
          unchanged(q.s, q.m, "promotion");
        }
      } else if constexpr (!R) {
        show("transposition and scaling");
        P a, b;
        for (size_t k = 0; k < nc; k++) co(a, k) = make(c, sunit53(c) * 4), co(b, k) = make(c, sunit53(c) * 4);
        auto s = x.s;
        if constexpr (!std::is_same_v<P, AD>) {
          s.TransposeAndScale(a, b);
          auto v = value_at(x.m, t);
          for (size_t k = 0; k < nc; k++)
            for (size_t j = 0; j < NV; j++)
              v[k].d[j] = (v[k].d[j] + lift_num(co(a, k)).d[j]) * lift_num(co(b, k)).d[j];
          judge_values(s, t, v, "transposed and scaled spline");
        }
      } else {
        show("control points of a rational spline");
        const size_t i = c.draw(x.m.size());
        NumList want(nc);
        for (size_t k = 0; k < nc; k++)
          for (size_t j = 0; j < NV; j++) want[k].d[j] = x.m.s[j].at(i, k) / x.m.s[j].w[i];
        judge_point(x.s.ControlPoint(arr<PD>(ref::multi_index(deg, i))), want, "control point");
      }
    }
  }
  unchanged(x.s, x.m, "operation");
  if (top >= 1 && active >= 2) c.nontrivial();
}
void property(Case& c) {
  quiet();
  const bool r = c.chance(1, 2);
#ifdef PBT_HIGH
  using Kinds = List<Kind<1, APt<5>>, Kind<2, APt<2>>, Kind<4, AD>>;
#else
  using Kinds = List<Kind<1, AD>, Kind<1, APt<2>>, Kind<2, AD>, Kind<3, APt<2>>>;
#endif
  pick_of(c, Kinds{}, [&](auto k) {
    using K = decltype(k);
    if (r)
      run<K::pd, typename K::P_, true>(c);
    else
      run<K::pd, typename K::P_, false>(c);
  });
}
