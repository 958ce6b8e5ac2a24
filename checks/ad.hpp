// Random programs over differentiation types. Every single operation is judged
// against the exact rule applied to the operands as they are (values, both
// gradients and mixed second derivatives), so no error accumulates.
#ifndef VERIF_CHECKS_AD_HPP
#define VERIF_CHECKS_AD_HPP
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "gen.hpp"
namespace ad {
using gen::Case;
using ref::f128;
using ref::Q;
using std::size_t;
using std::vector;
template <class S, size_t N = 0>
using AD = bezman::utils::computational_differentiation::AlgoDiffType<S, N>;

/// value, gradient (outer directions), gradient (inner directions), mixed
struct Jet {
  Q v;
  vector<Q> g, h;
  vector<vector<Q>> m;
  Jet() = default;
  Jet(const Q& x, size_t outer, size_t inner)
      : v(x), g(outer), h(inner), m(outer, vector<Q>(inner)) {}
};

using L = long double;
inline Q exactly(L x) { return {f128(x), f128(fabsl(x))}; }
inline Q q(L v, L m) { return {f128(v), f128(m)}; }
/// Derivatives 0..2 of a function; magnitude = condition with respect to a
struct F {
  Q d[3];
};
inline F from(L a, L f0, L f1, L f2, L f3) {
  const auto c = [&](L x, L next) { return q(x, fabsl(x) + fabsl(next * a)); };
  return {{c(f0, f1), c(f1, f2), c(f2, f3)}};
}
enum Unary {
  kNeg, kAbs, kExp, kLog, kLog10, kSqrt, kSin, kCos, kTan, kAsin, kAcos, kAtan,
  kUnaries
};
inline const char* const kUnaryName[] = {"-",   "abs",  "exp",  "log",
                                         "log10", "sqrt", "sin", "cos",
                                         "tan", "asin", "acos", "atan"};
inline bool domain(int op, L a) {
  switch (op) {
    case kAbs: return a != 0;
    case kExp: return std::abs(a) < 600;
    case kLog:
    case kLog10:
    case kSqrt: return a > 1e-60L;
    case kSin:
    case kCos: return std::abs(a) < 1e8;
    case kTan: return std::abs(a) < 1e6 && std::abs(std::cos(a)) > 1e-5;
    case kAsin:
    case kAcos: return std::abs(a) < 1;
    default: return true;
  }
}
inline F unary(int op, L a) {
  switch (op) {
    case kNeg: return from(a, -a, -1, 0, 0);
    case kAbs: return from(a, fabsl(a), a > 0 ? 1 : -1, 0, 0);
    case kExp: return from(a, expl(a), expl(a), expl(a), expl(a));
    case kLog: return from(a, logl(a), 1 / a, -1 / (a * a), 2 / (a * a * a));
    case kLog10: {
      const L k = 1 / logl(10.L);
      return from(a, log10l(a), k / a, -k / (a * a), 2 * k / (a * a * a));
    }
    case kSqrt: {
      const L r = sqrtl(a);
      return from(a, r, .5L / r, -.25L / (r * a), .375L / (r * a * a));
    }
    case kSin: return from(a, sinl(a), cosl(a), -sinl(a), cosl(a));
    case kCos: return from(a, cosl(a), -sinl(a), -cosl(a), sinl(a));
    case kTan: {
      const L t = tanl(a), s = 1 + t * t;
      return from(a, t, s, 2 * t * s, 2 * s * s + 4 * t * t * s);
    }
    case kAsin:
    case kAcos: {
      const L s = 1 - a * a, r = sqrtl(s), f1 = 1 / r, f2 = a / (s * r),
              f3 = (1 + 2 * a * a) / (s * s * r);
      return op == kAsin ? from(a, asinl(a), f1, f2, f3)
                         : from(a, acosl(a), -f1, -f2, -f3);
    }
    default: {
      const L s = 1 + a * a;
      return from(a, atanl(a), 1 / s, -2 * a / (s * s),
                  (6 * a * a - 2) / (s * s * s));
    }
  }
}
inline Jet apply(const F& f, const Jet& a) {
  Jet r(f.d[0], a.g.size(), a.h.size());
  for (size_t i = 0; i < a.g.size(); i++) r.g[i] = f.d[1] * a.g[i];
  for (size_t j = 0; j < a.h.size(); j++) r.h[j] = f.d[1] * a.h[j];
  for (size_t i = 0; i < a.g.size(); i++)
    for (size_t j = 0; j < a.h.size(); j++)
      r.m[i][j] = f.d[2] * a.g[i] * a.h[j] + f.d[1] * a.m[i][j];
  return r;
}
enum Binary { kAdd, kSub, kMul, kDiv, kPow, kBinaries };
inline const char* const kBinaryName[] = {"+", "-", "*", "/", "pow"};
/// partial derivatives f, fa, fb, faa, fab, fbb
struct B {
  Q f, a, b, aa, ab, bb;
};
inline B binary(int op, L x, L y) {
  const Q a = exactly(x), b = exactly(y), one(1.), zero;
  switch (op) {
    case kAdd: return {a + b, one, one, zero, zero, zero};
    case kSub: return {a - b, one, -one, zero, zero, zero};
    case kMul: return {a * b, b, a, zero, one, zero};
    case kDiv: {
      const Q r = one / b;
      return {a * r, r, -(a * r * r), zero, -(r * r), Q(2.) * a * r * r * r};
    }
    default: {
      const L X = x, Y = y;
      // integer powers of non-positive bases
      if (!(x > 0)) {
        const L f = powl(X, Y), fa = y == 0 ? 0 : Y * powl(X, Y - 1),
                faa = y == 0 || y == 1 ? 0 : Y * (Y - 1) * powl(X, Y - 2);
        return {q(f, fabsl(f)), q(fa, fabsl(fa)), zero, q(faa, fabsl(faa)), zero, zero};
      }
      const L l = logl(X), f = powl(X, Y), k = 1 + fabsl(Y * l);
      const auto t = [&](L v, L m) { return q(v, fabsl(m) * k); };
      return {t(f, f), t(Y * f / X, Y * f / X), t(l * f, (fabsl(l) + 1e-3L) * f),
              t(Y * (Y - 1) * f / (X * X), Y * (fabsl(Y) + 1) * f / (X * X)),
              t((1 + Y * l) * f / X, (1 + fabsl(Y * l)) * f / X),
              t(l * l * f, (l * l + 1e-3L) * f)};
    }
  }
}
inline Jet apply(const B& f, const Jet& a, const Jet& b) {
  Jet r(f.f, a.g.size(), a.h.size());
  for (size_t i = 0; i < a.g.size(); i++) r.g[i] = f.a * a.g[i] + f.b * b.g[i];
  for (size_t j = 0; j < a.h.size(); j++) r.h[j] = f.a * a.h[j] + f.b * b.h[j];
  for (size_t i = 0; i < a.g.size(); i++)
    for (size_t j = 0; j < a.h.size(); j++)
      r.m[i][j] = f.aa * a.g[i] * a.h[j] +
                  f.ab * (a.g[i] * b.h[j] + b.g[i] * a.h[j]) +
                  f.bb * b.g[i] * b.h[j] + f.a * a.m[i][j] + f.b * b.m[i][j];
  return r;
}
inline bool moderate(const Q& x, double limit = 1e60) {
  // magnitudes count: intermediate results must stay in range as well
  return x.m == 0 || (x.m < limit && (x.v == 0 || ref::absq(x.v) > 1 / limit));
}
inline bool moderate(const Jet& j, double limit = 1e60) {
  if (!moderate(j.v, limit)) return false;
  for (auto& x : j.g)
    if (!moderate(x, limit)) return false;
  for (auto& x : j.h)
    if (!moderate(x, limit)) return false;
  for (auto& r : j.m)
    for (auto& x : r)
      if (!moderate(x, limit)) return false;
  return true;
}
/// First order and nested types
template <class T>
struct Access;
template <class S, size_t N>
struct Access<AD<S, N>> {
  using Base = S;
  static Jet read(const AD<S, N>& x) {
    const auto d = x.GetDerivatives();
    Jet r(exactly(x.GetValue()), d.size(), 0);
    for (size_t i = 0; i < d.size(); i++) r.g[i] = exactly(d[i]);
    return r;
  }
};
template <size_t N, size_t M>
struct Access<AD<AD<double, M>, N>> {
  using Base = double;
  static Jet read(const AD<AD<double, M>, N>& x) {
    const auto v = x.GetValue();
    const auto d = x.GetDerivatives();
    const auto h = v.GetDerivatives();
    Jet r(Q(v.GetValue()), d.size(), h.size());
    for (size_t j = 0; j < h.size(); j++) r.h[j] = Q(h[j]);
    for (size_t i = 0; i < d.size(); i++) {
      r.g[i] = Q(d[i].GetValue());
      const auto e = d[i].GetDerivatives();
      PBT_CHECK(e.size() == h.size(), "inner derivatives of different number");
      for (size_t j = 0; j < e.size(); j++) r.m[i][j] = Q(e[j]);
    }
    return r;
  }
};
template <class T>
Jet read(const T& x) {
  return Access<T>::read(x);
}
inline std::string text(const Jet& j) {
  std::string r = pbt::str(ref::dbl(j.v), " gradient (");
  for (auto& x : j.g) r += pbt::str(" ", ref::dbl(x));
  r += " )";
  if (!j.h.empty()) {
    r += " inner gradient (";
    for (auto& x : j.h) r += pbt::str(" ", ref::dbl(x));
    r += " ) second derivatives (";
    for (auto& y : j.m)
      for (auto& x : y) r += pbt::str(" ", ref::dbl(x));
    r += " )";
  }
  return r;
}
inline void judge(const Jet& got, const Jet& want, const std::string& what, double K = 1024) {
  const auto bad = [&](const std::string& part, const Q& g, const Q& w) {
    pbt::fail(what + ": " + part +
              pbt::str(" is ", ref::dbl(g), " but should be ", ref::dbl(w),
                       "; got ", text(got), " want ", text(want)));
  };
  if (got.g.size() != want.g.size() || got.h.size() != want.h.size())
    pbt::fail(what + ": wrong number of derivatives");
  if (!ref::near(ref::dbl(got.v), want.v, K)) bad("value", got.v, want.v);
  for (size_t i = 0; i < got.g.size(); i++)
    if (!ref::near(ref::dbl(got.g[i]), want.g[i], K))
      bad(pbt::str("derivative ", i), got.g[i], want.g[i]);
  for (size_t i = 0; i < got.h.size(); i++)
    if (!ref::near(ref::dbl(got.h[i]), want.h[i], K))
      bad(pbt::str("inner derivative ", i), got.h[i], want.h[i]);
  for (size_t i = 0; i < got.m.size(); i++)
    for (size_t j = 0; j < got.h.size(); j++)
      if (!ref::near(ref::dbl(got.m[i][j]), want.m[i][j], K))
        bad(pbt::str("second derivative ", i, ",", j), got.m[i][j], want.m[i][j]);
}
inline bool identical(const Jet& a, const Jet& b) {
  const auto eq = [](const Q& x, const Q& y) { return x.v == y.v; };
  bool r = eq(a.v, b.v) && a.g.size() == b.g.size() && a.h.size() == b.h.size();
  for (size_t i = 0; r && i < a.g.size(); i++) r = eq(a.g[i], b.g[i]);
  for (size_t i = 0; r && i < a.h.size(); i++) r = eq(a.h[i], b.h[i]);
  for (size_t i = 0; r && i < a.m.size(); i++)
    for (size_t j = 0; r && j < a.h.size(); j++) r = eq(a.m[i][j], b.m[i][j]);
  return r;
}
inline double plain(Case& c) {
  switch (c.draw(8)) {
    case 0: return static_cast<double>(c.around(3));
    case 1: return static_cast<double>(c.around(16)) / 8;
    case 2: return gen::unit53(c);
    case 3: return gen::sunit53(c) * 3;
    case 4: return gen::sunit53(c) * 50;
    case 5: return c.chance(1, 2) ? 1. : -1.;
    case 6: return gen::unit53(c) * std::pow(10., c.around(4));
    default: return .5 + gen::unit53(c);
  }
}
template <class T>
T call(int op, const T& a) {
  switch (op) {
    case kNeg: return -a;
    case kAbs: return abs(a);
    case kExp: return exp(a);
    case kLog: return log(a);
    case kLog10: return log10(a);
    case kSqrt: return sqrt(a);
    case kSin: return sin(a);
    case kCos: return cos(a);
    case kTan: return tan(a);
    case kAsin: return asin(a);
    case kAcos: return acos(a);
    default: return atan(a);
  }
}

/// One random program. `S` is the scalar type of the operations with scalars.
template <class T, class S>
struct Program {
  Case& c;
  vector<T> pool;
  vector<Jet> state;       // as read after the last step
  size_t outer, inner;
  vector<double> active;   // plain values of the variables
  size_t operations{0}, mixing{0};
  bool nested{inner > 0};
  bool negative_powers{inner == 0};
  using Base = typename Access<T>::Base;
  static constexpr bool kSingle = std::is_same_v<Base, float>;
  /// units of 2^-53
  static constexpr double kUnits = kSingle ? 1024 * 0x1p29 : 1024;

  bool extreme{false};  // numbers whose squares are not representable

  double limit() const { return extreme ? (kSingle ? 1e36 : 1e280) : kSingle ? 1e12 : 1e60; }
  /// a number of the scalar type
  double plain() {
    const double x =
        extreme && c.draw(3) > 0
            ? gen::sunit53(c) * std::pow(10., c.around(kSingle ? 30 : 250))
            : ad::plain(c);
    return kSingle ? static_cast<double>(static_cast<float>(x)) : x;
  }

  static L number(const Q& x) { return static_cast<L>(x.v); }
  void add(const T& x) {
    pool.push_back(x);
    state.push_back(read(x));
  }
  void unchanged(size_t except, const std::string& what) {
    for (size_t i = 0; i < pool.size(); i++)
      if (i != except)
        PBT_CHECK(identical(read(pool[i]), state[i]), what,
                  ": changed another variable, number ", i, " from ",
                  text(state[i]), " to ", text(read(pool[i])));
  }
  size_t pick() { return c.chance(1, 3) ? pool.size() - 1 : c.draw(pool.size()); }
  void store(const T& x, const std::string& what) {
    unchanged(pool.size(), what);
    if (pool.size() < 12 || c.chance(1, 2)) {
      add(x);
    } else {
      const size_t i = c.draw(pool.size());
      pool[i] = x;
      state[i] = read(x);
    }
  }
  void comparisons(const T& a, const T& b, L x, L y, const S& s,
                   const std::string& what) {
    const auto t = [&](bool got, bool want, const char* rel) {
      PBT_CHECK(got == want, what, ": comparison ", rel, " of ", x, " and ", y,
                " is ", got);
    };
    t(a < b, x < y, "a < b");
    t(a <= b, x <= y, "a <= b");
    t(a > b, x > y, "a > b");
    t(a >= b, x >= y, "a >= b");
    t(a == b, x == y, "a == b");
    t(a != b, x != y, "a != b");
    // s is the scalar of value y
    t(a < s, x < y, "a < scalar");
    t(a <= s, x <= y, "a <= scalar");
    t(a > s, x > y, "a > scalar");
    t(a >= s, x >= y, "a >= scalar");
    t(a == s, x == y, "a == scalar");
    t(a != s, x != y, "a != scalar");
    t(s < a, y < x, "scalar < a");
    t(s <= a, y <= x, "scalar <= a");
    t(s > a, y > x, "scalar > a");
    t(s >= a, y >= x, "scalar >= a");
    t(s == a, y == x, "scalar == a");
    t(s != a, y != x, "scalar != a");
  }
  /// scalar operand and its jet
  template <class MakeScalar>
  void step(MakeScalar make_scalar) {
    const int kind = static_cast<int>(c.draw(10));
    if (kind < 3) {  // unary
      const size_t i = pick();
      const int op = static_cast<int>(c.draw(kUnaries));
      if (!domain(op, number(state[i].v)) || (extreme && op > kAbs)) return;
      const Jet want = apply(unary(op, number(state[i].v)), state[i]);
      if (!moderate(want, limit())) return;
      const std::string what = pbt::str(kUnaryName[op], "(", text(state[i]), ")");
      c.note(what);
      c.label(kUnaryName[op]);
      const T r = call(op, pool[i]);
      judge(read(r), want, what, kUnits);
      operations++;
      if (op > kAbs) mixing++;
      store(r, what);
    } else if (kind < 9) {  // binary
      const int op = static_cast<int>(c.draw(extreme ? kPow : kBinaries));
      const size_t i = pick();
      // 0: variables, 1: scalar right, 2: scalar left
      const int form = static_cast<int>(c.draw(3));
      const size_t k = c.chance(1, 4) ? i : pick();
      S s{};
      Jet js(Q(0.), outer, inner);
      if (form != 0) {
        double x = plain();
        if (op == kPow && c.chance(1, 2)) x = static_cast<double>(c.around(6));
        s = make_scalar(x, js);
      }
      const Jet left = form == 2 ? js : state[i], right = form == 1 ? js : form == 2 ? state[i] : state[k];
      const L x = number(left.v), y = number(right.v);
      if (op == kDiv && (extreme ? y == 0 : std::abs(y) < 1e-30L)) return;
      if (op == kPow) {
        if (form == 2) return;  // not offered
        const bool integer = y == std::floor(y) && std::abs(y) < 20;
        const bool fine = x > 1e-10 ? std::abs(y) < 20
                          : form == 1 && negative_powers && integer &&
                                (x < -1e-3 || (x == 0 && y >= 0));
        if (!fine) return;
      }
      const Jet want = apply(binary(op, x, y), left, right);
      if (!moderate(want, limit())) return;
      if (op == kDiv && extreme)
        for (auto& d : right.g)
          if (!moderate(d * want.v, limit())) return;
      const bool self = form == 0 && k == i;
      const std::string what =
          pbt::str(self ? "the same operand twice: " : "", "(", text(left), ") ",
                   kBinaryName[op], form == 1 ? " scalar (" : form == 2 ? " variable (" : " (",
                   text(right), ")", form == 2 ? " left operand is a scalar" : "");
      if (self) c.label("same operand twice");
      c.label(pbt::str(kBinaryName[op], form == 0 ? "" : form == 1 ? " scalar" : " from scalar"));
      operations++;
      if (op >= kMul) mixing++;
      const bool in_place = form != 2 && op != kPow && c.chance(1, 2);
      c.note(what, in_place ? " in place" : "");
      if (in_place) {
        c.label("in place");
        T* back = nullptr;
        if (form == 0)
          switch (op) {
            case kAdd: back = &(pool[i] += pool[k]); break;
            case kSub: back = &(pool[i] -= pool[k]); break;
            case kMul: back = &(pool[i] *= pool[k]); break;
            default: back = &(pool[i] /= pool[k]);
          }
        else
          switch (op) {
            case kAdd: back = &(pool[i] += s); break;
            case kSub: back = &(pool[i] -= s); break;
            case kMul: back = &(pool[i] *= s); break;
            default: back = &(pool[i] /= s);
          }
        PBT_CHECK(back == &pool[i], what, ": does not return the variable");
        const Jet got = read(pool[i]);
        judge(got, want, what + " in place", kUnits);
        unchanged(i, what);
        state[i] = got;
      } else {
        const T& a = pool[i];
        const T& b = pool[k];
        const T r = [&]() -> T {
          if (form == 0) switch (op) {
              case kAdd: return a + b;
              case kSub: return a - b;
              case kMul: return a * b;
              case kDiv: return a / b;
              default: return pow(a, b);
            }
          if (form == 1) switch (op) {
              case kAdd: return a + s;
              case kSub: return a - s;
              case kMul: return a * s;
              case kDiv: return a / s;
              default: return pow(a, s);
            }
          switch (op) {
            case kAdd: return s + a;
            case kSub: return s - a;
            case kMul: return s * a;
            default: return s / a;
          }
        }();
        judge(read(r), want, what, kUnits);
        store(r, what);
      }
    } else {
      const size_t i = pick(), k = pick();
      Jet js(Q(0.), outer, inner);
      const L y = number(state[k].v);
      const S s = make_scalar(y, js);
      c.label("comparisons");
      comparisons(pool[i], pool[k], number(state[i].v), y, s,
                  pbt::str("variables ", i, " and ", k));
      comparisons(pool[i], pool[i], number(state[i].v), number(state[i].v),
                  make_scalar(number(state[i].v), js), "a variable with itself");
      const L own = number(state[i].v), sign = c.chance(1, 2) ? 1 : -1;
      L z = y + 1e-9 * static_cast<double>(c.around(3));
      switch (c.draw(4)) {
        case 0:
          z = static_cast<L>(std::nextafter(static_cast<Base>(own), static_cast<Base>(sign * 1e37L)));
          break;
        case 1:
          z = sign * (kSingle ? 1e37 : 1e300);
          break;
        case 2:
          z = sign * (kSingle ? 1e-37 : 1e-300);
          break;
        default:
          break;
      }
      z = static_cast<L>(static_cast<Base>(z));
      T other = pool[i];
      other *= make_scalar(0., js);
      other += make_scalar(z, js);
      comparisons(pool[i], other, own, z, make_scalar(z, js), "close values");
      unchanged(pool.size(), "comparisons");
    }
  }
};
}  // namespace ad
#endif
