// Operations on const splines, and helpers, with results as lists of numbers
// (C29, C30)
#ifndef VERIF_CHECKS_OPERATIONS_HPP
#define VERIF_CHECKS_OPERATIONS_HPP
#include <functional>
#include <memory>

#include "ad.hpp"
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/base64.hpp"
#include "compose.hpp"
using namespace gen;

using Result = vector<double>;
struct Operation {
  std::string what;
  std::function<Result()> run;
};

inline void put(Result& r, double x) { r.push_back(x); }
inline void put(Result& r, const vector<double>& v) { r.insert(r.end(), v.begin(), v.end()); }
template <size_t N>
void put(Result& r, const Pt<N>& p) {
  for (size_t k = 0; k < N; k++) r.push_back(p[k]);
}
template <class T>
void put(Result& r, const bezman::utils::computational_differentiation::AlgoDiffType<T, 2>& x) {
  r.push_back(x.GetValue());
  for (auto d : x.GetDerivatives()) r.push_back(d);
}
template <size_t PD, class P, class S>
void put(Result& r, const bezman::BezierSpline<PD, P, S>& s) {
  for (auto d : s.GetDegrees()) r.push_back(static_cast<double>(d));
  for (auto& p : s.GetControlPoints()) put(r, p);
}
template <size_t PD, class P, class S>
void put(Result& r, const bezman::RationalBezierSpline<PD, P, S>& s) {
  put(r, s.GetNumeratorSpline());
  put(r, s.GetWeightFunctionSpline());
}
template <class T>
void put_all(Result& r, const T& list) {
  r.push_back(static_cast<double>(list.size()));
  for (auto& x : list) put(r, x);
}
/// Around the operation itself (C30 counts allocations there)
struct Hooks {
  static inline void (*start)() = nullptr;
  static inline void (*stop)() = nullptr;
  /// texts of the exceptions of this thread (C29)
  static inline thread_local vector<std::string>* rejected = nullptr;
};
template <class F>
std::function<Result()> guarded(F f) {
  return [f]() {
    Result r;
    if (Hooks::start) r.reserve(20000);
    try {
      struct Counted {
        Counted() {
          if (Hooks::start) Hooks::start();
        }
        ~Counted() {
          if (Hooks::stop) Hooks::stop();
        }
      } counted;
      f(r);
    } catch (const std::bad_alloc&) {
      throw;
    } catch (const std::exception& e) {
      r.push_back(-1e300);
      if (Hooks::rejected) Hooks::rejected->push_back(e.what());
      for (const char* p = e.what(); *p; p++) r.push_back(*p);
    }
    return r;
  };
}
inline bool bitwise(const Result& a, const Result& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!same(a[i], b[i]) && !(a[i] != a[i] && b[i] != b[i])) return false;
  return true;
}

/// One operation on a spline
template <size_t PD, class P, bool R, class S>
Operation on(Case& c, const S& s, const RS& m, size_t number) {
  const auto t = pt<PD>(params(c, PD));
  std::array<size_t, PD> o{};
  o[c.draw(PD)] = c.draw(3);
  const size_t dir = c.draw(PD), n = c.draw(4);
  const double x = static_cast<double>(c.range(1, 15)) / 16;
  const size_t op = c.draw(14);
  static const char* const names[] = {"Evaluate", "ForwardEvaluate", "BasisFunctions", "EvaluateDerivative",
                                      "BasisFunctionsDerivatives", "derivative", "split", "elevation", "sum",
                                      "product", "affine", "composition", "sensitivities", "rejected request"};
  Operation r;
  r.what = pbt::str(names[op], " of spline ", number);
  const size_t inner_degree = 1 + c.draw(2);
  switch (op) {
    case 0: r.run = guarded([&s, t](Result& q) { put(q, s.Evaluate(t)); }); break;
    case 1: r.run = guarded([&s, t](Result& q) { put(q, s.ForwardEvaluate(t)); }); break;
    case 2:
      r.run = guarded([&s, t](Result& q) {
        put(q, s.BasisFunctions(t));
        for (auto& v : s.BasisFunctionContributions(t)) put(q, v);
      });
      break;
    case 3: r.run = guarded([&s, t, o](Result& q) { put(q, s.EvaluateDerivative(t, o)); }); break;
    case 4: r.run = guarded([&s, t, o](Result& q) { put(q, s.BasisFunctionsDerivatives(t, o)); }); break;
    case 5:
      if (R) o[0] = o[0] > 1 ? 1 : o[0];
      r.run = guarded([&s, o](Result& q) { put(q, s.DerivativeWRTParametricDimension(o)); });
      break;
    case 6: r.run = guarded([&s, x, dir](Result& q) { put_all(q, s.SplitAtPosition({x / 2, x}, dir)); }); break;
    case 7:
      r.run = guarded([&s, dir, n](Result& q) {
        auto copy = s;
        for (size_t k = 0; k < n; k++) copy.OrderElevateAlongParametricDimension(dir);
        put(q, copy);
      });
      break;
    case 8: r.run = guarded([&s](Result& q) { put(q, s + s); put(q, s - s); }); break;
    case 9: r.run = guarded([&s](Result& q) { put(q, s * s); }); break;
    case 10:
      r.run = guarded([&s, x](Result& q) {
        auto copy = s;
        copy *= x;
        copy += copy.GetNumberOfControlPoints() > 0 ? s.Evaluate(Pt<PD>{}) : P{};
        put(q, copy);
        put(q, -(x * s));
      });
      break;
    case 11:
    case 12: {
      using QI = std::conditional_t<PD == 1, double, Pt<PD>>;
      const bool ri = c.chance(1, 2);
      size_t sum = 0;
      for (auto d : m.deg) sum += d;
      const RS i = unit_spline(c, {sum > 5 ? 1 : inner_degree}, PD, ri);
      const bool sens = op == 12;
      const auto go = [&](auto g) {
        r.run = guarded([&s, g, sens](Result& q) {
          if (sens)
            put_all(q, s.ComposeSensitivity(g));
          else
            put(q, s.Compose(g));
        });
      };
      if (ri) go(rat<1, QI>(i));
      else go(poly<1, QI>(i));
      break;
    }
    default:
      r.run = guarded([&s, n](Result& q) {
        if (n == 0) put_all(q, s.SplitAtPosition(1.5));
        else if (n == 1) put_all(q, s.SplitAtPosition({.5, .25}));
        else put(q, s.ExtractDimension(1000 + n));
      });
  }
  return r;
}
/// Operations without a spline
inline Operation helper(Case& c) {
  Operation r;
  const size_t n = c.draw(20), k = c.draw(6);
  switch (c.draw(5)) {
    case 0: {
      vector<double> v(n);
      for (auto& x : v) x = number(c);
      r.what = "Base64";
      r.run = guarded([v](Result& q) {
        const auto text = bezman::utils::Base64::Encode(v);
        for (char ch : text) q.push_back(ch);
        put(q, bezman::utils::Base64::Decode<double>(text));
        // as points
        vector<Pt<2>> p(v.size() / 2);
        for (size_t i = 0; i < p.size(); i++) p[i] = Pt<2>{v[2 * i], v[2 * i + 1]};
        put_all(q, bezman::utils::Base64::Decode<Pt<2>>(bezman::utils::Base64::Encode(p)));
      });
      break;
    }
    case 1: {
      vector<int> v(n);
      for (auto& x : v) x = static_cast<int>(c.draw(5));
      r.what = "sort";
      r.run = guarded([v](Result& q) {
        for (auto i : bezman::utils::algorithms::IndexListSort(v)) q.push_back(static_cast<double>(i));
      });
      break;
    }
    case 2:
      r.what = "IntPower";
      r.run = guarded([n, k](Result& q) { q.push_back(static_cast<double>(bezman::utils::algorithms::IntPower(static_cast<long>(n), static_cast<long>(k)))); });
      break;
    case 3:
      r.what = "binomials";
      r.run = guarded([n, k](Result& q) {
        for (unsigned i = 0; i <= n; i++)
          q.push_back(static_cast<double>(bezman::utils::FastBinomialCoefficient::choose(static_cast<unsigned>(n), i)));
        put(q, bezman::utils::algorithms::BernsteinPolynomial<double>::Evaluate(n, .125 * static_cast<double>(k)));
        put(q, bezman::utils::algorithms::BernsteinPolynomial<double>::EvaluateDerivative(n, .125 * static_cast<double>(k), 1));
      });
      break;
    default: {
      using AD = bezman::utils::computational_differentiation::AlgoDiffType<double, 2>;
      const double x = .25 + unit53(c), y = .25 + unit53(c);
      r.what = "differentiation";
      r.run = guarded([x, y](Result& q) {
        const AD a(x, 0), b(y, 1);
        put(q, sin(a * b) / exp(b) + sqrt(a) - pow(b, 3.));
        using PA = bezman::Point<2, AD>;
        const bezman::BezierSpline<1, PA, AD> s({2}, {PA{a, b}, PA{b, a}, PA{a * b, a}});
        const auto p = s.Evaluate(bezman::Point<1, AD>{a});
        put(q, p[0]);
        put(q, p[1]);
      });
    }
  }
  return r;
}

struct Shared {
  virtual ~Shared() = default;
  virtual Operation operation(Case& c, size_t number) const = 0;
  virtual void check(const std::string& what) const = 0;
};
template <size_t PD, class P, bool R>
struct SharedOf : Shared {
  RS m;
  decltype(lib<PD, P, R>(RS{})) s;
  explicit SharedOf(const RS& m_) : m(m_), s(lib<PD, P, R>(m_)) {}
  Operation operation(Case& c, size_t number) const override { return on<PD, P, R>(c, s, m, number); }
  void check(const std::string& what) const override { check_same(s, m, what); }
};

inline std::unique_ptr<Shared> shared_spline(Case& c, size_t number) {
  std::unique_ptr<Shared> result;
  const auto make = [&](auto k, auto r) {
    constexpr size_t PD = decltype(k)::pd;
    using P = typename decltype(k)::P_;
    constexpr bool R = decltype(r)::value;
    const RS m = spline(c, degrees(c, PD, R ? 4 : 8, R ? 9 : 20), ncoord<P>(), R, false);
    c.note("spline ", number, ": ", text(m));
    result = std::make_unique<SharedOf<PD, P, R>>(m);
  };
  switch (c.draw(5)) {
    case 0: make(Kind<1, double>{}, std::false_type{}); break;
    case 1: make(Kind<1, Pt<2>>{}, std::true_type{}); break;
    case 2: make(Kind<2, Pt<3>>{}, std::false_type{}); break;
    case 3: make(Kind<2, double>{}, std::true_type{}); break;
    default: make(Kind<3, Pt<2>>{}, std::false_type{});
  }
  return result;
}

#endif
