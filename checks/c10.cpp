// C10: affine operations, aliasing
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "a spline per case (polynomial or rational, dimension 1-6) and a history of 1-6 affine "
    "operations (scaling, shifting, negation, extraction of a coordinate; all "
    "operand orders, binary and in-place), where the operand is a fresh number "
    "or a reference into the spline's own control points, coordinates or "
    "weights; non-trivial: an operand from the own data, or a rational spline "
    "with unequal weights";

template <size_t PD, class P, bool R>
struct Run {
  using S = std::conditional_t<R, Rat<PD, P>, Poly<PD, P>>;
  Case& c;
  RS r;
  S s;
  explicit Run(Case& c_) : c(c_) {}

  static const vector<P>& points_of(const S& s) {
    if constexpr (R)
      return s.GetWeightedControlPoints();
    else
      return s.GetControlPoints();
  }
  static vector<P>& points_of(S& s) {
    if constexpr (R)
      return s.GetWeightedControlPoints();
    else
      return s.GetControlPoints();
  }
  RS scaled(const RS& a, double f) {
    RS x(a);
    for (auto& q : x.cp) q = q * Q(f);
    return x;
  }
  RS shifted(const RS& a, const vector<double>& p, bool minus) {
    RS x(a);
    for (size_t i = 0; i < x.size(); i++)
      for (size_t k = 0; k < x.nc; k++) {
        Q d(p[k]);
        if (R) d = d * a.w[i];
        x.at(i, k) = minus ? x.at(i, k) - d : x.at(i, k) + d;
      }
    return x;
  }
  RS negated(const RS& a) {
    RS x(a);
    for (auto& q : x.cp) q = -q;
    return x;
  }
  void check(const S& got, const RS& want, const std::string& what) {
    if constexpr (!R) {
      check_poly<PD, P>(got, want, what);
    } else {
      check_shape(got, want.deg, what);
      for (int e = 0; e < 2; e++) {
        const auto t = params(c, PD);
        check_values(got, want, t, ref::eval(want, toq(t)), what, 65536);
      }
    }
  }
  static vector<double> list(const P& p) {
    vector<double> v;
    for (size_t k = 0; k < ncoord<P>(); k++) v.push_back(coord(p, k));
    return v;
  }
  void go() {
    r = spline(c, shape(c, PD, 8, 40, 12, 5000), ncoord<P>(), R);
    describe(c, r);
    c.label(R ? "rational" : "polynomial");
    c.note(text(r));
    s = lib<PD, P, R>(r);
    if (R)
      for (auto& x : r.w)
        if (x.v != r.w[0].v) c.nontrivial();
    const size_t n = 1 + c.draw(6);
    for (size_t i = 0; i < n; i++) step();
  }
  void step() {
    const RS before = r;
    const S copy = s;
    const bool own = c.chance(1, 2);
    const size_t at = c.draw(points_of(s).size());
    const size_t k = c.draw(ncoord<P>());
    P fresh{};
    auto vv = values(c, false);
    for (size_t q = 0; q < ncoord<P>(); q++) coord(fresh, q) = value(c, vv);
    double number = value(c, vv);
    if (number == 0 && c.chance(3, 4)) number = 1.5;
    const int op = static_cast<int>(c.draw(12));
    c.note("operation ", op, own ? " with the own point " : " with ",
           own ? pbt::str(at, " coordinate ", k)
               : text(list(fresh)) + " / " + pbt::str(number));
    if (own) c.label("own data"), c.nontrivial();
    switch (op) {
      case 0:
      case 1: {  // *=
        S* result = nullptr;
        double f = number;
        if (own) {
          if constexpr (R) {
            if (c.chance(1, 2)) {
              f = s.GetWeights()[at];
              result = &(s *= s.GetWeights()[at]);
            }
          }
          if (!result) {
            f = coord(points_of(s)[at], k);
            result = &(s *= coord(points_of(s)[at], k));
          }
        } else {
          result = &(s *= number);
        }
        PBT_CHECK(result == &s, "*= does not return the spline");
        r = scaled(r, f);
        check(s, r, pbt::str("s *= ", f));
        break;
      }
      case 2: {  // s * f, f * s
        const double f = own ? coord(points_of(s)[at], k) : number;
        const auto& operand = own ? coord(points_of(s)[at], k) : number;
        check(s * operand, scaled(r, f), pbt::str("s * ", f));
        check(operand * s, scaled(r, f), pbt::str(f, " * s"));
        break;
      }
      case 3:
      case 4: {  // +=
        const P p = own ? points_of(s)[at] : fresh;
        S& result = own ? (s += points_of(s)[at]) : (s += fresh);
        PBT_CHECK(&result == &s, "+= does not return the spline");
        r = shifted(r, list(p), false);
        check(s, r, "s += " + text(list(p)));
        break;
      }
      case 5:
      case 6: {  // -=
        const P p = own ? points_of(s)[at] : fresh;
        S& result = own ? (s -= points_of(s)[at]) : (s -= fresh);
        PBT_CHECK(&result == &s, "-= does not return the spline");
        r = shifted(r, list(p), true);
        check(s, r, "s -= " + text(list(p)));
        break;
      }
      case 7: {
        const P& p = own ? points_of(s)[at] : fresh;
        check(s + p, shifted(r, list(p), false), "s + " + text(list(p)));
        check(p + s, shifted(r, list(p), false), text(list(p)) + " + s");
        break;
      }
      case 8: {
        const P& p = own ? points_of(s)[at] : fresh;
        check(s - p, shifted(r, list(p), true), "s - " + text(list(p)));
        if constexpr (!R)
          check(p - s, negated(shifted(r, list(p), true)),
                text(list(p)) + " - s");
        break;
      }
      case 9:
        check(-s, negated(r), "-s");
        break;
      case 10:
        s = -s;
        r = negated(r);
        check(s, r, "s = -s");
        return;
      default:
        if constexpr (!std::is_arithmetic_v<P>) {
          const auto e = s.ExtractDimension(k);
          RS want = ref::numerator(r);
          want.nc = 1;
          want.cp.clear();
          for (size_t i = 0; i < r.size(); i++) want.cp.push_back(r.at(i, k));
          check_poly<PD, double>(e, want, pbt::str("coordinate ", k));
          c.label("extraction");
        }
    }
    const bool in_place = op <= 1 || (op >= 3 && op <= 6);
    if (!in_place) check_same_objects(s, copy, "operand of a binary operation");
    // the history continues from the actual numbers
    r = read(s);
    (void)before;
  }
  void check_same_objects(const S& a, const S& b, const std::string& what) {
    check_same(a, read(b), what);
  }
};

void property(Case& c) {
  const bool rational = c.chance(1, 2);
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<2>>, Kind<2, Pt<1>>>(c, [&](auto k) {
    constexpr size_t pd = decltype(k)::pd;
    using P = typename decltype(k)::P_;
    if (rational)
      Run<pd, P, true>(c).go();
    else
      Run<pd, P, false>(c).go();
  });
}
