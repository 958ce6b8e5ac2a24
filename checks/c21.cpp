// C21: points
#include <cstdlib>

#include <limits>

#include "gen.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
using namespace gen;

const char* const kRule =
    "one or two points of dimension 1-9, 12, 17, 33 (float, double, long double or "
    "int coordinates, products also of different types) and a scalar, also one of the own coordinates: up "
    "to 6 operations (binary, in place, norms, text output), every one compared "
    "coordinate by coordinate with the definition, operands must not change; "
    "non-trivial: dimension >= 2 and all coordinates different";

using V = long double;
template <class P>
vector<V> values_of(const P& p) {
  vector<V> r;
  for (size_t k = 0; k < P::kSpatialDimension; k++) r.push_back(static_cast<V>(p[k]));
  return r;
}
Q exactly(V x) {
  const auto f = static_cast<ref::f128>(x);
  return Q{f, ref::absq(f)};
}
/// Result of at most K roundings in its type
template <class T>
bool close(const T& got, const Q& want, double K) {
  ref::f128 unit = 0;
  if constexpr (!std::is_integral_v<T>)
    unit = static_cast<ref::f128>(std::numeric_limits<T>::epsilon()) / 2 * static_cast<ref::f128>(K) * want.m +
           static_cast<ref::f128>(std::numeric_limits<T>::min());
  return ref::absq(static_cast<ref::f128>(got) - want.v) <= unit;
}
using AD = bezman::utils::computational_differentiation::AlgoDiffType<double, 2>;
template <size_t N, class T>
void run(Case& c) {
  using P = bezman::Point<N, T>;
  constexpr bool single = std::is_same_v<T, float>, integral = std::is_integral_v<T>;
  constexpr double K = 16;
  auto v = values(c, false);
  const auto coordinate = [&] {
    if (integral) return static_cast<T>(c.around(c.chance(1, 2) ? 4 : 1000));
    const double x = c.chance(1, 3) ? number(c) / (single ? 1e3 : 1) : value(c, v);
    return static_cast<T>(static_cast<T>(x) / (std::is_same_v<T, long double> ? 3 : 1));
  };
  const auto point = [&] {
    P p{};
    for (size_t k = 0; k < N; k++) {
      p[k] = coordinate();
      if (std::abs(static_cast<double>(p[k])) > (single ? 1e10 : 1e60)) p[k] = 1;
      if (std::abs(static_cast<double>(p[k])) < (single ? 1e-10 : 1e-60)) p[k] = 0;
    }
    return p;
  };
  const auto same_point = [&](const P& p, const vector<V>& want, const std::string& w) {
    for (size_t k = 0; k < N; k++)
      PBT_CHECK(static_cast<V>(p[k]) == want[k], w, " changed in coordinate ", k,
                " from ", want[k], " to ", p[k]);
  };
  const auto check = [&](const P& got, const vector<Q>& want, const std::string& w) {
    for (size_t k = 0; k < N; k++)
      PBT_CHECK(close(got[k], want[k], K), w, ": coordinate ",
                k, " is ", got[k], " instead of ", ref::dbl(want[k]));
  };
  const auto quotient = [](Q p, Q q) {
    if (!integral) return p / q;
    return Q(static_cast<double>(static_cast<long>(p.v) / static_cast<long>(q.v)));
  };
  c.label("dimension " + std::to_string(N));
  c.label(integral ? "int" : single ? "float" : std::is_same_v<T, double> ? "double" : "long double");
  P a = point();
  const P b = point();
  {
    std::set<double> d;
    for (size_t k = 0; k < N; k++) d.insert(static_cast<double>(a[k]));
    if (N >= 2 && d.size() == N) c.nontrivial();
  }
  const auto zero = P{};
  same_point(zero, vector<V>(N, 0.), "empty point");
  for (size_t s = 1 + c.draw(6); s-- > 0;) {
    const auto x = values_of(a), y = values_of(b);
    bool ok = true;
    for (auto q : x)
      ok = ok && std::abs(q) < (integral ? 1e4 : single ? 1e12 : 1e80) &&
           (q == 0 || std::abs(q) > (single ? 1e-12 : 1e-80));
    if (!ok) break;
    vector<Q> want(N);
    const auto each = [&](auto f) {
      for (size_t k = 0; k < N; k++) want[k] = f(exactly(x[k]), exactly(y[k]));
    };
    // scalar, perhaps one of the coordinates
    const size_t own = c.draw(N);
    const bool alias = c.chance(1, 3);
    T scalar = coordinate();
    if (std::abs(static_cast<double>(scalar)) > (single ? 1e4 : 1e20) ||
        std::abs(static_cast<double>(scalar)) < (single ? 1e-4 : 1e-20))
      scalar = 2;
    const V sv = static_cast<V>(alias ? a[own] : scalar);
    const Q q = exactly(sv);
    const int op = static_cast<int>(c.draw(16));
    const auto show = [](const vector<V>& l) { return text(vector<double>(l.begin(), l.end())); };
    const std::string w = pbt::str("a = ", show(x), " b = ", show(y), " s = ", sv,
                                   alias ? " (coordinate of a)" : "", " operation ", op);
    c.note(w);
    if (alias) c.label("scalar is an own coordinate");
    P r{};
    switch (op) {
      case 0:
        each([](Q p, Q o) { return p + o; });
        check(a + b, want, w + " a + b");
        break;
      case 1:
        each([](Q p, Q o) { return p - o; });
        check(a - b, want, w + " a - b");
        break;
      case 2:
        each([](Q p, Q) { return -p; });
        check(-a, want, w + " -a");
        break;
      case 3:
        each([&](Q p, Q) { return p * q; });
        check(alias ? a * a[own] : a * scalar, want, w + " a * s");
        check(alias ? a[own] * a : scalar * a, want, w + " s * a");
        break;
      case 4:
        if (sv == 0) break;
        each([&](Q p, Q) { return quotient(p, q); });
        check(alias ? a / a[own] : a / scalar, want, w + " a / s");
        break;
      case 5: {
        bool fine = !integral;
        for (auto e : x) fine = fine && e != 0;
        if (!fine) break;
        using L = std::conditional_t<std::is_same_v<T, long double>, long double, double>;
        const L left = alias ? static_cast<L>(a[own]) : static_cast<L>(scalar);
        each([&](Q p, Q) { return exactly(left) / p; });
        if constexpr (!integral) check(left / a, want, w + " s / a");
        break;
      }
      case 6: {
        Q sum;
        for (size_t k = 0; k < N; k++) sum = sum + exactly(x[k]) * exactly(y[k]);
        PBT_CHECK(close(a * b, sum, K * N), w, ": dot product is ",
                  a * b, " instead of ", ref::dbl(sum));
        Q square;
        for (size_t k = 0; k < N; k++) square = square + exactly(x[k]) * exactly(x[k]);
        PBT_CHECK(close(a * a, square, K * N), w,
                  ": dot product with itself is ", a * a);
        break;
      }
      case 7: {
        Q square;
        for (size_t k = 0; k < N; k++) square = square + exactly(x[k]) * exactly(x[k]);
        PBT_CHECK(close(a.SquaredEuclidianNorm(), square, K * N),
                  w, ": squared norm is ", a.SquaredEuclidianNorm());
        if constexpr (!integral) {
          const long double n = sqrtl(static_cast<long double>(square.v));
          PBT_CHECK(close(a.EuclidianNorm(), Q{n, n}, K * N), w, ": norm is ", a.EuclidianNorm(),
                    " instead of ", n);
        }
        break;
      }
      case 8: {
        // products of points of different types
        bezman::Point<N, float> f{};
        bezman::Point<N, int> i{};
        Q of, oi;
        for (size_t k = 0; k < N; k++) {
          i[k] = static_cast<int>(c.around(20));
          f[k] = static_cast<float>(c.around(20)) / 8;
          oi = oi + exactly(x[k]) * Q(static_cast<double>(i[k]));
          of = of + exactly(x[k]) * Q(static_cast<double>(f[k]));
        }
        PBT_CHECK(close(a * f, of, K * N), w, ": product with ",
                  "a float point is ", a * f, " instead of ", ref::dbl(of));
        PBT_CHECK(close(a * i, oi, K * N), w, ": product with ",
                  "an integer point is ", a * i, " instead of ", ref::dbl(oi));
        PBT_CHECK(close(i * a, oi, K * N), w, ": product of ",
                  "an integer point is ", i * a, " instead of ", ref::dbl(oi));
        if constexpr (std::is_same_v<T, double>) {
          bezman::Point<N, long double> l{};
          bezman::Point<N, AD> d{};
          Q ol, od[3];
          for (size_t k = 0; k < N; k++) {
            l[k] = static_cast<long double>(c.around(20)) / 3;
            ol = ol + exactly(x[k]) * exactly(l[k]);
            const double part[3] = {static_cast<double>(c.around(9)), static_cast<double>(c.around(9)) / 4,
                                    static_cast<double>(c.around(9))};
            d[k] = AD(part[0], 0) * 1. - AD(0., 0) + AD(0., 0) * part[1] + AD(0., 1) * part[2];
            for (size_t m = 0; m < 3; m++) od[m] = od[m] + exactly(x[k]) * Q(part[m]);
          }
          PBT_CHECK(close(a * l, ol, K * N), w, ": product with a long double point is ", a * l);
          PBT_CHECK(close(l * a, ol, K * N), w, ": product of a long double point is ", l * a);
          const AD one = a * d, two = d * a;
          for (const AD* r2 : {&one, &two})
            PBT_CHECK(close(r2->GetValue(), od[0], K * N) && close(r2->GetDerivatives()[0], od[1], K * N) &&
                          close(r2->GetDerivatives()[1], od[2], K * N),
                      w, ": product with a point of differentiation types is ", *r2);
          // norms of a point of differentiation types
          Q square2, slope[2];
          for (size_t k = 0; k < N; k++) {
            const double v0 = d[k].GetValue();
            square2 = square2 + Q(v0) * Q(v0);
            for (size_t m = 0; m < 2; m++) slope[m] = slope[m] + Q(v0) * Q(d[k].GetDerivatives()[m]);
          }
          const AD sq = d.SquaredEuclidianNorm();
          PBT_CHECK(close(sq.GetValue(), square2, K * N) && close(sq.GetDerivatives()[0], slope[0] * Q(2.), K * N) &&
                        close(sq.GetDerivatives()[1], slope[1] * Q(2.), K * N),
                    w, ": squared norm of a point of differentiation types is ", sq);
          if (square2.v > 0) {
            const Q n2 = exactly(sqrtl(static_cast<long double>(square2.v)));
            const AD got = d.EuclidianNorm();
            PBT_CHECK(close(got.GetValue(), n2, K * N) && close(got.GetDerivatives()[0], slope[0] / n2, 2 * K * N) &&
                          close(got.GetDerivatives()[1], slope[1] / n2, 2 * K * N),
                      w, ": norm of a point of differentiation types is ", got);
          }
        }
        break;
      }
      case 9: {
        const int precision = static_cast<int>(c.range(1, 16));
        std::ostringstream streamed;
        streamed << a;
        const auto parse = [&](const std::string& s, int digits) {
          vector<double> r2;
          const char* p = s.c_str();
          while (*p) {
            char* e = nullptr;
            if ((*p >= '0' && *p <= '9') || ((*p == '-' || *p == '.') && p[1])) {
              const double d = std::strtod(p, &e);
              if (e != p) {
                r2.push_back(d);
                p = e;
                continue;
              }
            }
            p++;
          }
          PBT_CHECK(r2.size() == N, w, ": the text \"", s, "\" has ", r2.size(),
                    " numbers instead of ", N);
          for (size_t k = 0; k < N; k++)
            PBT_CHECK(std::abs(static_cast<V>(r2[k]) - x[k]) <=
                          std::abs(x[k]) * std::pow(10., 1 - digits),
                      w, ": the text \"", s, "\" has ", r2[k], " for coordinate ", k);
        };
        parse(a.toString(precision), precision);
        parse(a.toString(), 6);
        parse(streamed.str(), 6);
        c.label("text");
        break;
      }
      // in place
      case 10: {
        each([](Q p, Q o) { return p + o; });
        auto& back = (a += b);
        PBT_CHECK(&back == &a, w, ": += returns another point");
        check(a, want, w + " a += b");
        break;
      }
      case 11: {
        each([](Q p, Q o) { return p - o; });
        auto& back = (a -= b);
        PBT_CHECK(&back == &a, w, ": -= returns another point");
        check(a, want, w + " a -= b");
        break;
      }
      case 12: {
        each([&](Q p, Q) { return p * q; });
        auto& back = alias ? a *= a[own] : a *= scalar;
        PBT_CHECK(&back == &a, w, ": *= returns another point");
        check(a, want, w + " a *= s");
        break;
      }
      case 13: {
        if (sv == 0) break;
        each([&](Q p, Q) { return quotient(p, q); });
        auto& back = alias ? a /= a[own] : a /= scalar;
        PBT_CHECK(&back == &a, w, ": /= returns another point");
        check(a, want, w + " a /= s");
        break;
      }
      case 14:
        if (c.chance(1, 2)) {
          each([](Q p, Q) { return p + p; });
          check(a + a, want, w + " a + a");
          a += a;
        } else {
          for (auto& e : want) e = Q(0.);
          check(a - a, want, w + " a - a");
          a -= a;
        }
        check(a, want, w + " in place with itself");
        c.label("with itself");
        break;
      default: {
        const P copy(a);
        r = b;
        a = r;
        same_point(a, y, w + " assignment");
        same_point(copy, x, "copy");
      }
    }
    if (op < 10) same_point(a, x, w + ": a");
    same_point(b, y, w + ": b");
  }
  if constexpr (!integral) {
    if (c.chance(1, 20)) {  // divisors whose inverse is out of range
      c.label("subnormal divisor");
      const T d = std::numeric_limits<T>::denorm_min() * static_cast<T>(1 + c.draw(1000));
      P p{};
      vector<V> k(N);
      for (size_t j = 0; j < N; j++) {
        k[j] = static_cast<V>(c.around(1000));
        p[j] = d * static_cast<T>(k[j]);
      }
      same_point(p / d, k, "quotient by a subnormal number");
      p /= d;
      same_point(p, k, "point divided by a subnormal number");
    }
  }
  if constexpr (N == 3) {
    const P p(static_cast<T>(1), static_cast<T>(-2), static_cast<T>(3));
    same_point(p, {1, -2, 3}, "constructed point");
  }
}

void property(Case& c) {
  switch (c.draw(20)) {
    case 0: return run<1, double>(c);
    case 1: return run<2, double>(c);
    case 2: return run<3, double>(c);
    case 3: return run<4, double>(c);
    case 4: return run<5, double>(c);
    case 5: return run<2, float>(c);
    case 6: return run<3, float>(c);
    case 7: return run<5, float>(c);
    case 8: return run<6, double>(c);
    case 9: return run<7, double>(c);
    case 10: return run<8, double>(c);
    case 11: return run<9, float>(c);
    case 12: return run<12, double>(c);
    case 13: return run<17, double>(c);
    case 14: return run<33, double>(c);
    case 15: return run<1, long double>(c);
    case 16: return run<3, long double>(c);
    case 17: return run<2, int>(c);
    case 18: return run<3, int>(c);
    default: return run<8, int>(c);
  }
}
