// Generators of splines, parameters, weights; conversions between the library
// types and the reference model.
#ifndef VERIF_ENGINE_GEN_HPP
#define VERIF_ENGINE_GEN_HPP
#include <array>
#include <cmath>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "pbt.hpp"
#include "ref.hpp"

namespace gen {
using pbt::Case;
using ref::Q;
using std::size_t;
using std::vector;
using RS = ref::Spline<Q>;
template <size_t N>
using Pt = bezman::Point<N, double>;
template <size_t PD, class P>
using Poly = bezman::BezierSpline<PD, P, double>;
template <size_t PD, class P>
using Rat = bezman::RationalBezierSpline<PD, P, double>;

// ------------------------------------------------------- points and scalars
template <class P>
constexpr size_t ncoord() {
  if constexpr (std::is_arithmetic_v<P>)
    return 1;
  else
    return P::kSpatialDimension;
}
template <class P>
auto& coord(P& p, size_t c) {
  if constexpr (std::is_arithmetic_v<std::remove_const_t<P>>) {
    (void)c;
    return p;
  } else {
    return p[c];
  }
}

// ------------------------------------------------------------------ numbers
inline double unit53(Case& c) {
  return static_cast<double>(c.draw(1ull << 53)) * 0x1p-53;
}
/// Uniform in (-1, 1)
inline double sunit53(Case& c) {
  const uint64_t k = c.draw(1ull << 54);
  const double x = static_cast<double>(k >> 1) * 0x1p-53;
  return k & 1 ? -x : x;
}
enum Style { kInts, kDyadic, kMantissa, kScaled, kWide, kStyles };
struct Values {
  int style;
  double scale{1};
  double last{0};
};
inline Values values(Case& c, bool wide = true) {
  Values v{};
  v.style = static_cast<int>(c.draw(wide ? kStyles : kScaled));
  if (v.style == kScaled) v.scale = std::pow(10., c.around(12));
  return v;
}
inline double value(Case& c, Values& v) {
  double x = 0;
  switch (c.draw(12)) {
    case 10:
      x = v.last;
      break;
    case 11:
      x = c.chance(1, 2) ? -0.0 : 0.0;
      break;
    default:
      switch (v.style) {
        case kInts:
          x = static_cast<double>(c.around(4));
          break;
        case kDyadic:
          x = static_cast<double>(c.around(32)) / 16;
          break;
        case kMantissa:
        case kScaled:
          x = sunit53(c) * v.scale;
          break;
        default:
          x = sunit53(c) * std::pow(10., c.around(6));
      }
  }
  v.last = x;
  return x;
}
inline double number(Case& c) {
  auto v = values(c);
  v.last = 1;
  return value(c, v);
}
/// Parameter in [0, 1]
inline double param(Case& c) {
  switch (c.draw(10)) {
    case 0:
      return 0.5;
    case 1:
      return 0;
    case 2:
      return 1;
    case 3:
      return static_cast<double>(c.range(0, 8)) / 8;
    case 4:
      return std::pow(10., -static_cast<double>(c.range(1, 16)));
    case 5:
      return 1 - std::pow(10., -static_cast<double>(c.range(1, 16)));
    default:
      return unit53(c);
  }
}
inline vector<double> params(Case& c, size_t n) {
  vector<double> r(n);
  for (auto& x : r) x = param(c);
  return r;
}
inline vector<Q> toq(const vector<double>& v) {
  return vector<Q>(v.begin(), v.end());
}
enum WeightStyle {
  kOnes, kConstant, kIntegers, kUniform, kNearlyOne, kWideWeights, kWeightStyles
};
inline vector<double> weights(Case& c, size_t n, bool wide = true) {
  vector<double> w(n, 1.);
  const int style =
      static_cast<int>(c.draw(wide ? kWeightStyles : kWideWeights));
  const double base = .25 + unit53(c) * 4;
  for (auto& x : w) switch (style) {
      case kOnes:
        break;
      case kConstant:
        x = base;
        break;
      case kIntegers:
        x = static_cast<double>(c.range(1, 4));
        break;
      case kUniform:
        x = .5 + 1.5 * unit53(c);
        break;
      case kNearlyOne:
        x = 1 + (c.chance(1, 2) ? 1e-9 : 1e-13) * static_cast<double>(c.range(0, 4));
        break;
      default:
        x = (1 + unit53(c)) * std::pow(10., c.around(3));
    }
  // sometimes all of them small or large (powers of two: quotients stay exact)
  if (c.chance(1, 6)) {
    const double f = std::ldexp(1., static_cast<int>(c.around(30)));
    for (auto& x : w) x *= f;
  }
  return w;
}

// ------------------------------------------------------------------ degrees
/// Degrees with at most `max_points` control points and `max_deg` each
inline vector<size_t> degrees(Case& c, size_t pd, size_t max_deg,
                              size_t max_points) {
  vector<size_t> d(pd, 0);
  size_t total = 1;
  // a random direction may get a large degree
  const size_t first = c.draw(pd);
  for (size_t k = 0; k < pd; k++) {
    const size_t dir = (first + k) % pd;
    const size_t lim =
        std::min<size_t>(max_deg, max_points / total ? max_points / total - 1 : 0);
    const size_t small = std::min<size_t>(lim, 4);
    d[dir] = c.chance(1, 6) ? c.draw(lim + 1) : c.draw(small + 1);
    total *= d[dir] + 1;
  }
  return d;
}

/// Usually small degrees; sometimes about `factor` times as many control points
/// and, if `huge` is given, rarely about that many
inline vector<size_t> shape(Case& c, size_t pd, size_t max_deg, size_t points,
                            size_t factor = 8, size_t huge = 0,
                            size_t big_deg = 0) {
  const size_t k = c.draw(4096);
  if (k < 4064) return degrees(c, pd, max_deg, points);
  double left = static_cast<double>(
      k == 4095 && huge ? huge : points * (1 + c.draw(factor)));
  vector<size_t> d(pd, 0);
  const size_t first = c.draw(pd);
  for (size_t j = 0; j < pd; j++) {
    const double x = std::pow(left, 1. / static_cast<double>(pd - j));
    size_t n = static_cast<size_t>(x + (j + 1 < pd ? x * .5 * (unit53(c) - .5) : 0) + 1e-6);
    n = std::min(std::max<size_t>(n, 1), std::max(max_deg, big_deg) + 1);
    d[(first + j) % pd] = n - 1;
    left /= static_cast<double>(n);
  }
  return d;
}
constexpr size_t kMaxDegree = MAX_BINOMIAL_DEGREE - 1;

// ------------------------------------------------------------------ splines
/// Values of big splines come from one choice, not from one choice each
inline double cheap(uint64_t seed, size_t i) {
  return static_cast<double>(static_cast<int64_t>(pbt::mix(seed + i)) >> 10) * 0x1p-53;
}
inline void describe_size(Case& c, size_t n) {
  if (n > 65536) c.label("points>65536");
  else if (n > 256) c.label("points>256");
}
inline RS spline(Case& c, const vector<size_t>& deg, size_t nc, bool rational,
                 bool wide = true) {
  RS s;
  s.deg = deg;
  s.nc = nc;
  const size_t n = s.size();
  describe_size(c, n);
  if (n > 500) {
    const uint64_t seed = c.draw(1ull << 32) << 30;
    for (size_t i = 0; i < n; i++) {
      const double w = rational ? 1 + .9 * cheap(~seed, i) : 1;
      if (rational) s.w.emplace_back(w);
      for (size_t k = 0; k < nc; k++) s.cp.emplace_back(cheap(seed, i * nc + k) * w);
    }
    return s;
  }
  auto v = values(c, wide);
  vector<double> w(n, 1.);
  if (rational) w = weights(c, n, wide);
  for (size_t i = 0; i < n; i++)
    for (size_t k = 0; k < nc; k++) s.cp.emplace_back(value(c, v) * w[i]);
  if (rational) s.w.assign(w.begin(), w.end());
  return s;
}
/// Spline with (projected) control points in the unit cube
inline RS unit_spline(Case& c, const vector<size_t>& deg, size_t nc,
                      bool rational) {
  RS s;
  s.deg = deg;
  s.nc = nc;
  const size_t n = s.size();
  vector<double> w(n, 1.);
  if (rational) w = weights(c, n, false);
  for (size_t i = 0; i < n; i++)
    for (size_t k = 0; k < nc; k++) s.cp.emplace_back(param(c) * w[i]);
  if (rational) s.w.assign(w.begin(), w.end());
  return s;
}
inline std::string text(const vector<size_t>& d) {
  std::string r = "(";
  for (size_t i = 0; i < d.size(); i++)
    r += (i ? "," : "") + std::to_string(d[i]);
  return r + ")";
}
inline std::string text(const vector<double>& d) {
  std::ostringstream r;
  r << std::setprecision(17) << "(";
  for (size_t i = 0; i < d.size(); i++) r << (i ? ", " : "") << d[i];
  r << ")";
  return r.str();
}
inline std::string text(const RS& s) {
  std::ostringstream r;
  r << std::setprecision(17) << (s.rational() ? "rational" : "polynomial")
    << " degrees " << text(s.deg)
    << (s.rational() ? " weighted control points" : " control points");
  for (size_t i = 0; i < s.size() && i < 40; i++) {
    r << " [";
    for (size_t k = 0; k < s.nc; k++)
      r << (k ? "," : "") << ref::dbl(s.at(i, k));
    r << "]";
    if (s.rational()) r << "w" << ref::dbl(s.w[i]);
  }
  return r.str();
}
inline void describe(Case& c, const RS& s) {
  c.label("pd" + std::to_string(s.pd()));
  c.label("coords" + std::to_string(s.nc));
  size_t mx = 0, mn = 99;
  for (auto d : s.deg) mx = std::max(mx, d), mn = std::min(mn, d);
  c.label(mx == 0 ? "maxdeg0" : mx <= 4 ? "maxdeg1-4" : mx <= 10 ? "maxdeg5-10" : "maxdeg>10");
  if (mn == 0) c.label("has degree 0");
}

template <size_t N>
std::array<size_t, N> arr(const vector<size_t>& v) {
  std::array<size_t, N> a{};
  for (size_t i = 0; i < N; i++) a[i] = v[i];
  return a;
}
template <size_t N>
vector<size_t> vec(const std::array<size_t, N>& a) {
  return vector<size_t>(a.begin(), a.end());
}
template <size_t N>
Pt<N> pt(const vector<double>& v) {
  Pt<N> p;
  for (size_t i = 0; i < N; i++) p[i] = v[i];
  return p;
}
template <class P>
vector<P> points(const RS& s) {
  vector<P> r(s.size());
  for (size_t i = 0; i < r.size(); i++)
    for (size_t k = 0; k < s.nc; k++) coord(r[i], k) = ref::dbl(s.at(i, k));
  return r;
}
inline vector<double> weight_vector(const RS& s) {
  vector<double> r;
  for (auto& x : s.w) r.push_back(ref::dbl(x));
  return r;
}
template <size_t PD, class P>
Poly<PD, P> poly(const RS& s) {
  return Poly<PD, P>(arr<PD>(s.deg), points<P>(s));
}
/// From numerator and weight function: exact
template <size_t PD, class P>
Rat<PD, P> rat(const RS& s) {
  return Rat<PD, P>(Poly<PD, P>(arr<PD>(s.deg), points<P>(s)),
                    Poly<PD, double>(arr<PD>(s.deg), weight_vector(s)));
}
template <size_t PD, class P, bool R>
auto lib(const RS& s) {
  if constexpr (R)
    return rat<PD, P>(s);
  else
    return poly<PD, P>(s);
}

// -------------------------------------------------------------- comparisons
template <class P>
void check_value(const P& got, const vector<Q>& want, const std::string& what,
                 double K = 4096) {
  for (size_t k = 0; k < ncoord<P>(); k++)
    PBT_CHECK(ref::near(coord(got, k), want[k], K), what, ": coordinate ", k,
              " is ", coord(got, k), " but should be ", ref::dbl(want[k]),
              " (magnitude ", static_cast<double>(want[k].m), ")");
}
inline void check_list(const vector<double>& got, const vector<Q>& want,
                       const std::string& what, double K = 4096) {
  PBT_CHECK(got.size() == want.size(), what, ": has ", got.size(),
            " entries instead of ", want.size());
  for (size_t i = 0; i < got.size(); i++)
    PBT_CHECK(ref::near(got[i], want[i], K), what, ": entry ", i, " is ",
              got[i], " but should be ", ref::dbl(want[i]), " (magnitude ",
              static_cast<double>(want[i].m), ")");
}
/// Degrees, control point count and flat list of a library spline
template <class B>
void check_shape(const B& got, const vector<size_t>& deg,
                 const std::string& what) {
  const auto d = vec(got.GetDegrees());
  PBT_CHECK(d == deg, what, ": has degrees ", text(d), " instead of ",
            text(deg));
  size_t n = 1;
  for (auto x : deg) n *= x + 1;
  PBT_CHECK(got.GetNumberOfControlPoints() == n, what, ": reports ",
            got.GetNumberOfControlPoints(), " control points instead of ", n);
}
template <size_t PD, class P>
void check_poly(const Poly<PD, P>& got, const RS& want, const std::string& what,
                double K = 4096) {
  check_shape(got, want.deg, what);
  PBT_CHECK(got.GetControlPoints().size() == want.size(), what, ": lists ",
            got.GetControlPoints().size(), " control points instead of ",
            want.size());
  for (size_t i = 0; i < want.size(); i++)
    for (size_t k = 0; k < want.nc; k++)
      PBT_CHECK(ref::near(coord(got.GetControlPoints()[i], k), want.at(i, k), K),
                what, ": control point ", i, " coordinate ", k, " is ",
                coord(got.GetControlPoints()[i], k), " but should be ",
                ref::dbl(want.at(i, k)), " (magnitude ",
                static_cast<double>(want.at(i, k).m), ")");
}
template <size_t PD, class P>
void check_rat(const Rat<PD, P>& got, const RS& want, const std::string& what,
               double K = 4096) {
  check_shape(got, want.deg, what);
  check_poly<PD, P>(got.GetNumeratorSpline(), ref::numerator(want),
                    what + " numerator", K);
  check_poly<PD, double>(got.GetWeightFunctionSpline(), ref::denominator(want),
                         what + " weight function", K);
}
template <size_t PD, class P>
void check_spline(const Poly<PD, P>& got, const RS& want,
                  const std::string& what, double K = 4096) {
  check_poly<PD, P>(got, want, what, K);
}
template <size_t PD, class P>
void check_spline(const Rat<PD, P>& got, const RS& want,
                  const std::string& what, double K = 4096) {
  check_rat<PD, P>(got, want, what, K);
}
/// Bitwise equality (operands that must not change)
inline bool same(double a, double b) {
  return a == b && std::signbit(a) == std::signbit(b);
}
template <size_t PD, class P>
void check_same(const Poly<PD, P>& got, const RS& want,
                const std::string& what) {
  check_shape(got, want.deg, what);
  const auto& g = got.GetControlPoints();
  PBT_CHECK(g.size() == want.size(), what, ": number of control points changed");
  for (size_t i = 0; i < g.size(); i++)
    for (size_t k = 0; k < want.nc; k++)
      PBT_CHECK(same(coord(g[i], k), ref::dbl(want.at(i, k))) ||
                    (coord(g[i], k) == 0 && want.at(i, k).v == 0),
                what, ": control point ", i, " coordinate ", k,
                " changed from ", ref::dbl(want.at(i, k)), " to ",
                coord(g[i], k));
}
template <size_t PD, class P>
void check_same(const Rat<PD, P>& got, const RS& want,
                const std::string& what) {
  check_shape(got, want.deg, what);
  check_same(got.GetNumeratorSpline(), ref::numerator(want),
             what + " numerator");
  check_same(got.GetWeightFunctionSpline(), ref::denominator(want),
             what + " weight function");
}
/// Reads a library spline into the reference model
template <size_t PD, class P>
RS read(const Poly<PD, P>& s) {
  RS r;
  r.deg = vec(s.GetDegrees());
  r.nc = ncoord<P>();
  for (auto& p : s.GetControlPoints())
    for (size_t k = 0; k < r.nc; k++) r.cp.emplace_back(coord(p, k));
  return r;
}
template <size_t PD, class P>
RS read(const Rat<PD, P>& s) {
  RS r = read(s.GetNumeratorSpline());
  for (auto& x : s.GetWeights()) r.w.emplace_back(x);
  return r;
}
/// Values of a library result (e.g. a composition) at a parameter. The result
/// is evaluated by the reference from its control points.
template <class B>
void check_values(const B& got, const RS& want_like, const vector<double>& t,
                  const vector<Q>& want, const std::string& what,
                  double K = 4096) {
  (void)want_like;
  const RS g = read(got);
  PBT_CHECK(g.cp.size() == g.size() * g.nc, what,
            ": inconsistent number of control points");
  const auto v = ref::eval(g, toq(t));
  for (size_t k = 0; k < want.size(); k++) {
    const Q w{want[k].v, want[k].m};
    PBT_CHECK(ref::near(ref::dbl(v[k]), w, K), what, " at ", text(t),
              ": coordinate ", k, " is ", ref::dbl(v[k]), " but should be ",
              ref::dbl(w), " (magnitude ", static_cast<double>(w.m), ")");
  }
}

template <size_t N, class P>
struct Kind {
  static constexpr size_t pd = N;
  using P_ = P;
};
/// Outer and inner parametric dimension, point type of the outer and inner one
template <size_t O, size_t I, class P, class QI = Pt<O>>
struct Pair {
  static constexpr size_t outer = O, inner = I;
  using P_ = P;
  using Q_ = QI;
};
template <class... K>
struct List {};
template <class... K, class F>
void pick_of(Case& c, List<K...>, F f) {
  const size_t k = c.draw(sizeof...(K));
  size_t i = 0;
  ((i++ == k ? (void)f(K{}) : void()), ...);
}
#ifdef PBT_HIGH
/// Higher dimensions than the usual ones
template <class K>
struct Higher;
template <size_t N, class P>
struct Higher<Kind<N, P>> {
  using type = List<Kind<5, double>, Kind<6, Pt<2>>, Kind<1, Pt<9>>,
                    Kind<2, Pt<5>>, Kind<3, Pt<6>>>;
};
template <size_t O, size_t I, class P, class QI>
struct Higher<Pair<O, I, P, QI>> {
  using type = List<Pair<4, 1, double>, Pair<5, 2, Pt<2>>, Pair<1, 4, Pt<6>, double>,
                    Pair<4, 4, Pt<1>>, Pair<2, 5, double>>;
};
#endif
/// Calls f(kind) for one of the given kinds (PBT_HIGH: of higher dimensions)
template <class K0, class... K, class F>
void pick(Case& c, F f) {
#ifdef PBT_HIGH
  pick_of(c, typename Higher<K0>::type{}, f);
#else
  pick_of(c, List<K0, K...>{}, f);
#endif
}
/// f(object, coordinates of t...)
template <size_t PD, class F, class S, size_t... I>
auto variadic_(const S& s, const Pt<PD>& t, F f, std::index_sequence<I...>) {
  return f(s, t[I]...);
}
template <size_t PD, class F, class S>
auto variadic(const S& s, const Pt<PD>& t, F f) {
  return variadic_<PD>(s, t, f, std::make_index_sequence<PD>{});
}
inline void quiet() {
  static const bool once = [] {
    bezman::utils::Logger::SetOutputLevel(0u);
    return true;
  }();
  (void)once;
}
}  // namespace gen
#endif
