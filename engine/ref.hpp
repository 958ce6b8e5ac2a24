// Reference model of (rational) Bezier splines.
//
// Written from the mathematical definitions only, in binary128, with no code
// shared with the library under test.  Parametric and physical dimensions are
// run-time values.  Every number is a Q: value and magnitude, the latter being
// the size of the expression if nothing in it cancelled out; rounding errors of
// a backward stable double computation are a small multiple of eps * magnitude.
#ifndef VERIF_ENGINE_REF_HPP
#define VERIF_ENGINE_REF_HPP
#include <array>
#include <cmath>
#include <cstddef>
#include <vector>

namespace ref {
using f128 = __float128;
using std::size_t;
using std::vector;

inline f128 absq(f128 a) { return a < 0 ? -a : a; }

struct Q {
  f128 v{0};
  f128 m{0};
  Q() = default;
  Q(double x) : v(x), m(absq(v)) {}
  Q(f128 v_, f128 m_) : v(v_), m(m_) {}
};
inline Q operator+(const Q& a, const Q& b) { return {a.v + b.v, a.m + b.m}; }
inline Q operator-(const Q& a, const Q& b) { return {a.v - b.v, a.m + b.m}; }
inline Q operator-(const Q& a) { return {-a.v, a.m}; }
inline Q operator*(const Q& a, const Q& b) { return {a.v * b.v, a.m * b.m}; }
inline Q operator/(const Q& a, const Q& b) {
  const f128 d = absq(b.v);
  return {a.v / b.v, a.m / d + absq(a.v) * b.m / (d * d)};
}
/// value and one directional derivative
struct D {
  Q v, d;
  D() = default;
  D(double x) : v(x) {}
  D(const Q& v_) : v(v_) {}
  D(const Q& v_, const Q& d_) : v(v_), d(d_) {}
};
inline D operator+(const D& a, const D& b) { return {a.v + b.v, a.d + b.d}; }
inline D operator-(const D& a, const D& b) { return {a.v - b.v, a.d - b.d}; }
inline D operator-(const D& a) { return {-a.v, -a.d}; }
inline D operator*(const D& a, const D& b) {
  return {a.v * b.v, a.d * b.v + a.v * b.d};
}
inline D operator/(const D& a, const D& b) {
  return {a.v / b.v, a.d / b.v - a.v * b.d / (b.v * b.v)};
}

/// Is the double a correct rounding of r, up to K units of 2^-53 * magnitude
inline bool near(double got, const Q& r, double K = 4096) {
  if (!(got - got == 0)) return false;
  return absq(f128(got) - r.v) <= f128(K) * f128(0x1p-53) * r.m + f128(1e-250);
}
inline double dbl(const Q& q) { return static_cast<double>(q.v); }

f128 choose(size_t n, size_t k);
f128 falling(size_t n, size_t k);
f128 ipow(f128 b, size_t e);

/// k-th derivative of the Bernstein polynomial; exact argument, or one rounded
/// to binary128
Q bernstein(size_t p, size_t i, f128 t, size_t k = 0, bool rounded = false);
/// Argument that carries an error itself
Q bernstein_inexact(size_t p, size_t i, const Q& t, size_t k = 0);

/// Parameter of an evaluation: `exact` ones are doubles (magnitude = absolute
/// value) without error, or binary128 results (any other magnitude)
template <class T>
T basis_1d(size_t p, size_t i, const T& t, size_t k, bool exact);

/// (Rational) Bezier spline. For rational splines cp are the weighted control
/// points (the numerator).
template <class T>
struct Spline {
  vector<size_t> deg;
  size_t nc{1};    // number of coordinates per control point
  vector<T> cp;    // [control point * nc + coordinate], first direction fastest
  vector<T> w;     // empty: polynomial

  size_t pd() const { return deg.size(); }
  size_t size() const;
  bool rational() const { return !w.empty(); }
  const T& at(size_t i, size_t c) const { return cp[i * nc + c]; }
  T& at(size_t i, size_t c) { return cp[i * nc + c]; }
};

vector<size_t> multi_index(const vector<size_t>& deg, size_t i);
size_t flat_index(const vector<size_t>& deg, const vector<size_t>& idx);

/// Derivative of the tensor-product basis functions (unweighted, polynomial)
template <class T>
vector<T> basis(const vector<size_t>& deg, const vector<T>& t,
                const vector<size_t>& orders, bool exact);
/// Mixed derivative of the values (quotient for rational splines)
template <class T>
vector<T> deriv(const Spline<T>& s, const vector<T>& t,
                const vector<size_t>& orders, bool exact = true);
template <class T>
vector<T> eval(const Spline<T>& s, const vector<T>& t, bool exact = true);
/// Derivatives of the rational basis functions w_i N_i / W; with
/// `weighted = false` of N_i / W.  Polynomial splines: N_i
template <class T>
vector<T> basis_deriv(const Spline<T>& s, const vector<T>& t,
                      const vector<size_t>& orders, bool weighted = true,
                      bool exact = true);

template <class T>
Spline<T> elevate(const Spline<T>& s, size_t dir);
template <class T>
Spline<T> diff(const Spline<T>& s, const vector<size_t>& orders);  // poly
template <class T>
Spline<T> split(const Spline<T>& s, size_t dir, const T& a, const T& b);
/// sum of polynomial splines in the larger degrees
template <class T>
Spline<T> add(Spline<T> a, Spline<T> b, bool subtract);
/// product of polynomial splines; dot product if both have the same number of
/// coordinates, otherwise one of them is a scalar
template <class T>
Spline<T> mul(const Spline<T>& a, const Spline<T>& b);
template <class T>
Spline<T> numerator(const Spline<T>& s);
template <class T>
Spline<T> denominator(const Spline<T>& s);

Spline<D> lift(const Spline<Q>& s);
}  // namespace ref
#endif
