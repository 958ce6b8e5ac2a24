// C28: splines over float and long double
#include "compose.hpp"
using namespace gen;

const char* const kRule =
    "a polynomial or rational spline (parametric dimension 1-3, scalar or 2-4 "
    "coordinates) over float or long double, one group of operations: values and "
    "basis functions on every path, derivatives, elevation, splits, arithmetic, "
    "products of mixed scalar types, affine operations, powers, composition and "
    "its sensitivities, corners and fitting; the result against the binary128 "
    "reference within a bound in units of the scalar type itself (2^-24, 2^-64); "
    "non-trivial: some degree >= 2";

using f128 = __float128;
template <class S>
constexpr const char* name() {
  return std::is_same_v<S, float> ? "float" : std::is_same_v<S, double> ? "double" : "long double";
}
template <class S>
f128 unit() {
  return f128(std::numeric_limits<S>::epsilon()) / 2;
}
template <class S>
Q exact(S x) {
  const f128 v = static_cast<f128>(x);
  return Q{v, ref::absq(v)};
}
template <class S>
bool close(S got, const Q& want, double K) {
  if (!(got - got == 0)) return false;
  // below: the range of float
  return ref::absq(f128(got) - want.v) <= f128(K) * unit<S>() * want.m + f128(1e-30);
}
/// The numbers carry all bits of the type
template <class S>
S number_of(Case& c, int style) {
  switch (style) {
    case 0:
      return static_cast<S>(c.around(4));
    case 1:
      return static_cast<S>(c.around(40)) / 16;
    default: {
      const uint64_t k = c.draw(~0ull);
      const S x = static_cast<S>(k >> 1) * static_cast<S>(0x1p-63L);
      return k & 1 ? -x : x;
    }
  }
}
template <class S>
S param_of(Case& c) {
  switch (c.draw(8)) {
    case 0:
      return S(.5);
    case 1:
      return S(0);
    case 2:
      return S(1);
    case 3:
      return static_cast<S>(c.range(1, 9)) / 10;
    default:
      return static_cast<S>(c.draw(~0ull) >> 1) * static_cast<S>(0x1p-63L);
  }
}
template <class S>
vector<Q> exacts(const vector<S>& v) {
  vector<Q> r;
  for (auto x : v) r.push_back(exact(x));
  return r;
}
template <class S>
RS some(Case& c, const vector<size_t>& deg, size_t nc, bool rational, bool in_cube = false) {
  RS r;
  r.deg = deg;
  r.nc = nc;
  const int style = static_cast<int>(c.draw(4));
  const int weighting = static_cast<int>(c.draw(3));
  const size_t n = r.size();
  for (size_t i = 0; i < n; i++) {
    S w = 1;
    if (rational) {
      if (weighting == 1) w = static_cast<S>(c.range(1, 4));
      if (weighting == 2) w = S(1) + param_of<S>(c);
      r.w.push_back(exact(w));
    }
    for (size_t k = 0; k < nc; k++) {
      S x = in_cube ? param_of<S>(c) : number_of<S>(c, style);
      // rounding to the type must not leave the cube
      if (in_cube && rational && weighting == 2) x = S(.125) + x * S(.75);
      r.cp.push_back(exact(static_cast<S>(x * w)));
    }
  }
  return r;
}
template <class S, size_t PD, class P>
bezman::BezierSpline<PD, P, S> poly_of(const RS& r) {
  vector<P> p(r.size());
  for (size_t i = 0; i < r.size(); i++)
    for (size_t k = 0; k < r.nc; k++) coord(p[i], k) = static_cast<S>(r.at(i, k).v);
  return {arr<PD>(r.deg), p};
}
template <class S, size_t PD, class P, bool R>
auto lib_of(const RS& r) {
  if constexpr (R)
    return bezman::RationalBezierSpline<PD, P, S>(poly_of<S, PD, P>(ref::numerator(r)),
                                                   poly_of<S, PD, S>(ref::denominator(r)));
  else
    return poly_of<S, PD, P>(r);
}
template <size_t PD, class P, class S>
RS read_of(const bezman::BezierSpline<PD, P, S>& s) {
  RS r;
  r.deg = vec(s.GetDegrees());
  r.nc = ncoord<P>();
  for (auto& p : s.GetControlPoints())
    for (size_t k = 0; k < r.nc; k++) r.cp.push_back(exact(coord(p, k)));
  return r;
}
template <size_t PD, class P, class S>
RS read_of(const bezman::RationalBezierSpline<PD, P, S>& s) {
  RS r = read_of(s.GetNumeratorSpline());
  for (auto& x : s.GetWeights()) r.w.push_back(exact(x));
  return r;
}
template <class P>
void value_is(const P& got, const vector<Q>& want, const std::string& what, double K) {
  for (size_t k = 0; k < ncoord<P>(); k++)
    PBT_CHECK(close(coord(got, k), want[k], K), what, ": coordinate ", k, " is ", coord(got, k), " but should be ",
              static_cast<long double>(want[k].v), " (magnitude ", static_cast<long double>(want[k].m), ")");
}
template <class S>
void list_is(const vector<S>& got, const vector<Q>& want, const std::string& what, double K) {
  PBT_CHECK(got.size() == want.size(), what, ": has ", got.size(), " entries instead of ", want.size());
  for (size_t i = 0; i < got.size(); i++)
    PBT_CHECK(close(got[i], want[i], K), what, ": entry ", i, " is ", got[i], " but should be ",
              static_cast<long double>(want[i].v));
}
template <class S>
void model_is(const RS& got, const RS& want, const std::string& what, double K) {
  PBT_CHECK(got.deg == want.deg, what, ": has degrees ", text(got.deg), " instead of ", text(want.deg));
  PBT_CHECK(got.cp.size() == want.cp.size() && got.w.size() == want.w.size(), what, ": number of control points");
  for (size_t i = 0; i < got.cp.size(); i++)
    PBT_CHECK(close(static_cast<S>(got.cp[i].v), want.cp[i], K), what, ": number ", i, " is ", ref::dbl(got.cp[i]),
              " but should be ", ref::dbl(want.cp[i]));
  for (size_t i = 0; i < got.w.size(); i++)
    PBT_CHECK(close(static_cast<S>(got.w[i].v), want.w[i], K), what, ": weight ", i, " is ", ref::dbl(got.w[i]),
              " but should be ", ref::dbl(want.w[i]));
}
void unchanged(const RS& now, const RS& before, const std::string& what) {
  bool same = now.deg == before.deg && now.cp.size() == before.cp.size() && now.w.size() == before.w.size();
  for (size_t i = 0; same && i < now.cp.size(); i++) same = now.cp[i].v == before.cp[i].v;
  for (size_t i = 0; same && i < now.w.size(); i++) same = now.w[i].v == before.w[i].v;
  PBT_CHECK(same, what, " changed");
}

template <class S, size_t PD, class P, bool R>
struct Run {
  Case& c;
  using Par = bezman::Point<PD, S>;
  const double K = 128;
  RS m;
  vector<S> t;
  std::string at;

  static Par point_of(const vector<S>& v) {
    Par p;
    for (size_t i = 0; i < PD; i++) p[i] = v[i];
    return p;
  }
  vector<S> parameters() {
    vector<S> r(PD);
    for (auto& x : r) x = param_of<S>(c);
    return r;
  }
  /// a result by its values
  template <class B>
  void values(const B& got, const vector<S>& x, const vector<Q>& want, const std::string& what, double K2) {
    const RS g = read_of(got);
    PBT_CHECK(g.cp.size() == g.size() * g.nc, what, ": number of control points");
    const auto v = ref::eval(g, exacts(x));
    for (size_t k = 0; k < want.size(); k++)
      PBT_CHECK(ref::absq(v[k].v - want[k].v) <= f128(K2) * unit<S>() * want[k].m + f128(1e-30), what, ": coordinate ", k,
                " is ", static_cast<long double>(v[k].v), " but should be ", static_cast<long double>(want[k].v));
  }
  void operator()() {
    const size_t op = c.draw(11);
    static const char* const names[] = {"evaluation", "derivatives", "elevation", "splits", "sums", "products",
                                        "affine", "powers", "composition", "corners", "extraction"};
    c.label(names[op]);
    c.label(name<S>());
    c.label(R ? "rational" : "polynomial");
    c.label("pd" + std::to_string(PD));
    const size_t points = op == 5 || op == 4 ? 16 : op == 8 ? 9 : 40;
    m = some<S>(c, degrees(c, PD, op == 8 ? 3 : 12, points), ncoord<P>(), R);
    c.note(name<S>(), " ", names[op], ": ", text(m));
    for (auto d : m.deg)
      if (d >= 2) c.nontrivial();
    const auto s = lib_of<S, PD, P, R>(m);
    t = parameters();
    for (auto x : t) at += pbt::str(" ", x);
    c.note("at", at);
    switch (op) {
      case 0: evaluation(s); break;
      case 1: derivatives(s); break;
      case 2: elevation(s); break;
      case 3: splits(s); break;
      case 4: sums(s); break;
      case 5: products(s); break;
      case 6: affine(s); break;
      case 7: power(); break;
      case 8: composition(s); break;
      case 9: corners(); break;
      default: {
        const size_t k = c.draw(m.nc);
        if constexpr (ncoord<P>() > 1) value_is(s.ExtractDimension(k).Evaluate(point_of(t)), {ref::eval(ref::numerator(m), exacts(t))[k]}, "extracted", K);
      }
    }
    unchanged(read_of(s), m, "operand");
  }
  template <class B>
  void evaluation(const B& s) {
    const auto x = exacts(t);
    const auto want = ref::eval(m, x);
    value_is(s.Evaluate(point_of(t)), want, "Evaluate", K);
    value_is(s.ForwardEvaluate(point_of(t)), want, "ForwardEvaluate", K);
    const vector<size_t> zero(PD, 0);
    list_is(s.BasisFunctions(point_of(t)), ref::basis_deriv(m, x, zero, true), "BasisFunctions", K);
    const auto b = s.BasisFunctionContributions(point_of(t));
    for (size_t d = 0; d < PD; d++) {
      vector<Q> u;
      for (size_t j = 0; j <= m.deg[d]; j++) u.push_back(ref::bernstein(m.deg[d], j, x[d].v));
      list_is(b[d], u, "BasisFunctionContributions", K);
    }
    if constexpr (R)
      list_is(s.UnweightedBasisFunctions(point_of(t)), ref::basis_deriv(m, x, zero, false), "UnweightedBasisFunctions", K);
  }
  template <class B>
  void derivatives(const B& s) {
    vector<size_t> k(PD);
    size_t total = 0;
    for (auto& o : k) {
      o = c.draw(R ? 3 : 4);
      if (R && total + o > 3) o = 0;
      total += o;
    }
    c.note("orders ", text(k));
    const auto want = ref::deriv(m, exacts(t), k);
    value_is(s.EvaluateDerivative(point_of(t), arr<PD>(k)), want, "EvaluateDerivative", 2 * K);
    list_is(s.BasisFunctionsDerivatives(point_of(t), arr<PD>(k)), ref::basis_deriv(m, exacts(t), k, true),
            "BasisFunctionsDerivatives", 2 * K);
    if constexpr (!R)
      model_is<S>(read_of(s.DerivativeWRTParametricDimension(arr<PD>(k))), ref::diff(m, k), "derivative", K);
    else if (total <= 2 && m.size() <= 9 && (*std::max_element(m.deg.begin(), m.deg.end()) << total) <= kMaxDegree)
      values(s.DerivativeWRTParametricDimension(arr<PD>(k)), t, want, "derivative", 16 * K);
  }
  template <class B>
  void elevation(B s) {
    RS want = m;
    for (size_t n = 1 + c.draw(4); n-- > 0;) {
      const size_t dir = c.draw(PD);
      if (want.deg[dir] > 20) break;
      s.OrderElevateAlongParametricDimension(dir);
      want = ref::elevate(want, dir);
    }
    model_is<S>(read_of(s), want, "elevated spline", K);
  }
  template <class B>
  void splits(const B& s) {
    vector<S> planes;
    for (size_t n = c.draw(5); n-- > 0;) {
      const S x = param_of<S>(c);
      if (x > 0 && x < 1) planes.push_back(x);
    }
    std::sort(planes.begin(), planes.end());
    planes.erase(std::unique(planes.begin(), planes.end()), planes.end());
    const size_t dir = c.draw(PD);
    const auto pieces = planes.size() == 1 && c.chance(1, 2) ? s.SplitAtPosition(planes[0], dir) : s.SplitAtPosition(planes, dir);
    PBT_CHECK(pieces.size() == planes.size() + 1, pieces.size(), " pieces");
    for (size_t i = 0; i < pieces.size(); i++) {
      const Q a = i == 0 ? Q(0.) : exact(planes[i - 1]), b = i == planes.size() ? Q(1.) : exact(planes[i]);
      model_is<S>(read_of(pieces[i]), ref::split(m, dir, a, b), pbt::str("piece ", i), K);
    }
  }
  static vector<Q> sum(vector<Q> a, const vector<Q>& b, bool minus) {
    for (size_t k = 0; k < a.size(); k++) a[k] = minus ? a[k] - b[k] : a[k] + b[k];
    return a;
  }
  template <class B>
  void sums(const B& s) {
    RS o = c.chance(1, 4) ? m : some<S>(c, degrees(c, PD, 6, 16), ncoord<P>(), R);
    if (R && c.chance(1, 3) && o.deg == m.deg) o.w = m.w;
    c.note("and ", text(o));
    const auto g = lib_of<S, PD, P, R>(o);
    const bool minus = c.chance(1, 2);
    auto got = minus ? s - g : s + g;
    if (c.chance(1, 2)) {
      got = s;
      if (minus) got -= g;
      else got += g;
    }
    const auto x = exacts(t);
    values(got, t, sum(ref::eval(m, x), ref::eval(o, x), minus), minus ? "difference" : "sum", 2 * K);
    if constexpr (!R) model_is<S>(read_of(got), ref::add(m, o, minus), minus ? "difference" : "sum", K);
    unchanged(read_of(g), o, "right operand");
  }
  static vector<Q> times(const vector<Q>& a, const vector<Q>& b) {
    if (a.size() == b.size()) {
      Q d;
      for (size_t k = 0; k < a.size(); k++) d = d + a[k] * b[k];
      return {d};
    }
    vector<Q> r = a.size() > b.size() ? a : b;
    for (auto& x : r) x = x * (a.size() > b.size() ? b[0] : a[0]);
    return r;
  }
  template <class B>
  void products(const B& s) {
    const auto x = exacts(t);
    const auto go = [&](const RS& o, const auto& g) {
      c.note("times ", text(o));
      const auto want = times(ref::eval(m, x), ref::eval(o, x));
      values(s * g, t, want, "product", 2 * K);
      values(g * s, t, want, "product (other order)", 2 * K);
      if constexpr (!R) model_is<S>(read_of(s * g), ref::mul(m, o), "product", K);
      unchanged(read_of(g), o, "right operand");
    };
    const auto deg = degrees(c, PD, 6, 16);
    switch (c.draw(3)) {
      case 0: {
        const RS o = some<S>(c, deg, ncoord<P>(), R);
        return go(o, lib_of<S, PD, P, R>(o));
      }
      case 1: {
        const RS o = some<S>(c, deg, 1, R);
        return go(o, lib_of<S, PD, S, R>(o));
      }
      default: {
        // another scalar type: as accurate as the less accurate one
        c.label("mixed scalar types");
        using T = double;
        const RS o = some<T>(c, deg, 1, R);
        c.note("times (double) ", text(o));
        const auto g = lib_of<T, PD, T, R>(o);
        const auto want = times(ref::eval(m, x), ref::eval(o, x));
        const double f = std::is_same_v<S, long double> ? 0x1p11 : 1;
        values(s * g, t, want, "mixed product", 2 * K * f);
        values(g * s, t, want, "mixed product (other order)", 2 * K * f);
        unchanged(read_of(g), o, "right operand");
      }
    }
  }
  template <class B>
  void affine(B s) {
    const auto before = s;
    vector<Q> want = ref::eval(m, exacts(t));
    P shift{};
    vector<Q> sq;
    for (size_t k = 0; k < m.nc; k++) {
      coord(shift, k) = number_of<S>(c, 2);
      sq.push_back(exact(coord(shift, k)));
    }
    const S f = number_of<S>(c, 2);
    const auto scale = [&](const Q& q) {
      for (auto& v : want) v = v * q;
    };
    switch (c.draw(8)) {
      case 0: s += shift; want = sum(want, sq, false); break;
      case 1: s -= shift; want = sum(want, sq, true); break;
      case 2: s *= f; scale(exact(f)); break;
      case 3: s = f * before; scale(exact(f)); break;
      case 4: s = before * f; scale(exact(f)); break;
      case 5: s = -before; scale(Q(-1.)); break;
      case 6:
        if constexpr (R) s = before - shift, want = sum(want, sq, true);
        else s = shift - before, scale(Q(-1.)), want = sum(want, sq, false);
        break;
      default: s = shift + before; want = sum(want, sq, false);
    }
    values(s, t, want, "affine operation", K);
    unchanged(read_of(before), m, "operand");
  }
  void power() {
    if constexpr (!R) {
      const RS o = some<S>(c, degrees(c, PD, 5, 16), 1, false);
      size_t top = 0, n = c.draw(6);
      for (auto d : o.deg) top = std::max(top, d);
      while (n * top > kMaxDegree) n--;
      c.note("power ", n, " of ", text(o));
      RS want;
      want.deg.assign(PD, 0);
      want.cp.emplace_back(1.);
      for (size_t i = 0; i < n; i++) want = ref::mul(want, o);
      model_is<S>(read_of(poly_of<S, PD, S>(o).RaisePower(n)), want, pbt::str("power ", n), 2 * K);
    }
  }
  template <class B>
  void composition(const B& s) {
    const bool ri = c.chance(1, 2);
    size_t total = 0;
    for (auto d : m.deg) total += d;
    const RS i = some<S>(c, {c.draw(total > 4 ? 3 : 5)}, PD, ri, true);
    c.note("inner ", text(i));
    const S u = param_of<S>(c);
    auto x = ref::eval(i, exacts(vector<S>{u}));
    for (auto& v : x) v.m = 1 + ref::absq(v.v);
    const auto go = [&](const auto& g) {
      PBT_CHECK(g.FitsIntoUnitCube(), "the inner spline does not fit");
      values(s.Compose(g), {u}, ref::eval(m, x), "composition", 2 * K);
      const auto sens = s.ComposeSensitivity(g);
      const auto want = ref::basis_deriv(m, x, vector<size_t>(PD, 0));
      PBT_CHECK(sens.size() == want.size(), "number of sensitivities");
      for (size_t k = 0; k < want.size(); k++) values(sens[k], {u}, {want[k]}, pbt::str("sensitivity ", k), 2 * K);
      unchanged(read_of(g), i, "inner spline");
    };
    if constexpr (PD == 1) {
      if (ri) go(lib_of<S, 1, S, true>(i));
      else go(lib_of<S, 1, S, false>(i));
    } else {
      using QI = bezman::Point<PD, S>;
      if (ri) go(lib_of<S, 1, QI, true>(i));
      else go(lib_of<S, 1, QI, false>(i));
    }
  }
  void corners() {
    if constexpr (!R) {
      auto s = poly_of<S, PD, P>(m);
      const auto lo = s.MinimumCorner(), hi = s.MaximumCorner();
      bool flat = false;
      vector<f128> a(m.nc), b(m.nc);
      for (size_t k = 0; k < m.nc; k++) {
        a[k] = b[k] = m.at(0, k).v;
        for (size_t i = 0; i < m.size(); i++) a[k] = std::min(a[k], m.at(i, k).v), b[k] = std::max(b[k], m.at(i, k).v);
        PBT_CHECK(f128(coord(lo, k)) == a[k] && f128(coord(hi, k)) == b[k], "corners of coordinate ", k);
        flat |= a[k] == b[k];
      }
      if (flat) return;
      s.FitIntoUnitCube();
      const RS g = read_of(s);
      PBT_CHECK(s.FitsIntoUnitCube(), "a fitted spline does not fit");
      for (size_t i = 0; i < m.size(); i++)
        for (size_t k = 0; k < m.nc; k++) {
          const f128 want = (m.at(i, k).v - a[k]) / (b[k] - a[k]);
          PBT_CHECK(ref::absq(g.at(i, k).v - want) <= 16 * unit<S>(), "fitted control point ", i, " coordinate ", k, " is ",
                    ref::dbl(g.at(i, k)), " but should be ", static_cast<double>(want));
        }
    }
  }
};

template <class S>
void typed(Case& c) {
  const bool r = c.chance(1, 2);
  const auto go = [&](auto k) {
    constexpr size_t pd = decltype(k)::pd;
    using P = typename decltype(k)::P_;
    if (r) Run<S, pd, P, true>{c, 128, {}, {}, {}}();
    else Run<S, pd, P, false>{c, 128, {}, {}, {}}();
  };
  pick_of(c, List<Kind<1, S>, Kind<1, bezman::Point<2, S>>, Kind<2, bezman::Point<3, S>>, Kind<3, bezman::Point<4, S>>>{}, go);
}
void property(Case& c) {
  quiet();
  if (c.chance(1, 3)) typed<float>(c);
  else typed<long double>(c);
}
