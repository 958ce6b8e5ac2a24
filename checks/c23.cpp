// C23: histories of mixed operations
#include <tuple>

#include "compose.hpp"
using namespace gen;
using ref::f128;

const char* const kRule =
    "a pool of 16 splines (two of each kind: parametric dimension 1-2, scalar or "
    "vector-valued, polynomial or rational) and a history of 1-16 operations "
    "(construction, copies, assignments, swaps, elevation, binary and in-place "
    "arithmetic with shared operands, products, powers, derivatives, splits, "
    "compositions (rejected ones too), coordinate extraction, fits, writes "
    "through accessors, changes of the degrees, read-only calls, comparisons); "
    "every result against a reference model of the pool, all other splines "
    "bitwise unchanged, all splines against the model at the end; non-trivial: "
    "at least 3 modifying operations";

using V2 = Pt<2>;
template <size_t N, class P, bool R>
struct T {
  static constexpr size_t pd = N;
  static constexpr bool rational = R;
  using P_ = P;
  using S = std::conditional_t<R, Rat<N, P>, Poly<N, P>>;
};
constexpr size_t kHighestDegree = 12, kMaxPoints = 36;

RS join(const RS& n, const RS& d) {
  RS r(n);
  r.w = d.cp;
  return r;
}
RS same_degrees(RS a, const vector<size_t>& deg) {
  for (size_t d = 0; d < deg.size(); d++)
    while (a.deg[d] < deg[d]) a = ref::elevate(a, d);
  return a;
}
bool fine(const vector<size_t>& deg) {
  size_t n = 1;
  for (auto d : deg) {
    if (d > kHighestDegree) return false;
    n *= d + 1;
  }
  return n <= kMaxPoints;
}
vector<size_t> plus(vector<size_t> a, const vector<size_t>& b) {
  for (size_t k = 0; k < a.size(); k++) a[k] += b[k];
  return a;
}
vector<size_t> larger(vector<size_t> a, const vector<size_t>& b) {
  for (size_t k = 0; k < a.size(); k++) a[k] = std::max(a[k], b[k]);
  return a;
}
RS multiplied(const RS& a, const RS& b) {
  if (!a.rational()) return ref::mul(a, b);
  return join(ref::mul(ref::numerator(a), ref::numerator(b)), ref::mul(ref::denominator(a), ref::denominator(b)));
}
/// `shared`: the weights are the same
RS added(const RS& a, const RS& b, bool minus, bool shared) {
  if (!a.rational()) return ref::add(a, b, minus);
  const RS na = ref::numerator(a), nb = ref::numerator(b), da = ref::denominator(a), db = ref::denominator(b);
  if (shared) return join(ref::add(na, nb, minus), da);
  return join(ref::add(ref::mul(na, db), ref::mul(nb, da), minus), ref::mul(da, db));
}
RS differentiated(const RS& a, size_t dir) {
  vector<size_t> o(a.pd(), 0);
  o[dir] = 1;
  if (!a.rational()) return ref::diff(a, o);
  const RS n = ref::numerator(a), d = ref::denominator(a);
  const RS num = ref::add(ref::mul(ref::diff(n, o), d), ref::mul(n, ref::diff(d, o)), true);
  const RS den = ref::mul(d, d);
  return join(same_degrees(num, den.deg), den);
}
/// sum_I C_I prod_k B_ik(g_k), with g = n / d in homogeneous form
RS composed(const RS& f, const RS& g) {
  const RS n = ref::numerator(g), d = ref::denominator(g);
  vector<vector<RS>> b(f.pd());
  RS one;
  one.deg.assign(g.pd(), 0);
  one.cp.assign(1, Q(1.));
  for (size_t k = 0; k < f.pd(); k++) {
    RS x(d);
    for (size_t i = 0; i < x.size(); i++) x.cp[i] = n.at(i, k);
    const RS y = ref::add(d, x, true);
    vector<RS> px{one}, py{one};
    for (size_t i = 0; i < f.deg[k]; i++) {
      px.push_back(ref::mul(px.back(), x));
      py.push_back(ref::mul(py.back(), y));
    }
    for (size_t i = 0; i <= f.deg[k]; i++) {
      RS z = ref::mul(px[i], py[f.deg[k] - i]);
      const f128 c = ref::choose(f.deg[k], i);
      for (auto& q : z.cp) q = Q{c, c} * q;
      b[k].push_back(z);
    }
  }
  RS num, den;
  size_t sum = 0;
  for (size_t i = 0; i < f.size(); i++) {
    const auto idx = ref::multi_index(f.deg, i);
    RS z = one;
    for (size_t k = 0; k < f.pd(); k++) z = ref::mul(z, b[k][idx[k]]);
    RS v(z);
    v.nc = f.nc;
    v.cp.clear();
    for (size_t j = 0; j < z.size(); j++)
      for (size_t k = 0; k < f.nc; k++) v.cp.push_back(z.cp[j] * f.at(i, k));
    num = i ? ref::add(num, v, false) : v;
    if (f.rational()) {
      for (auto& q : z.cp) q = q * f.w[i];
      den = i ? ref::add(den, z, false) : z;
    }
  }
  if (!f.rational()) {
    if (!g.rational()) return num;
    for (auto x : f.deg) sum += x;
    den = one;
    for (size_t k = 0; k < sum; k++) den = ref::mul(den, d);
  }
  return join(num, den);
}

template <class K>
struct Slot {
  typename K::S lib;
  RS model, before;
  double tol{4096};
};
template <class S>
bool same_bits(const S& s, const RS& want) {
  const RS r = read(s);
  if (r.deg != want.deg || r.cp.size() != want.cp.size() || r.w.size() != want.w.size()) return false;
  for (size_t i = 0; i < r.cp.size(); i++)
    if (!same(ref::dbl(r.cp[i]), ref::dbl(want.cp[i]))) return false;
  for (size_t i = 0; i < r.w.size(); i++)
    if (!same(ref::dbl(r.w[i]), ref::dbl(want.w[i]))) return false;
  return s.GetNumberOfControlPoints() == want.size();
}

struct World {
  Case& c;
  using All = std::tuple<T<1, double, false>, T<1, V2, false>, T<2, double, false>, T<2, V2, false>,
                         T<1, double, true>, T<1, V2, true>, T<2, double, true>, T<2, V2, true>>;
  template <class K>
  using Slots = std::array<Slot<K>, 2>;
  std::tuple<Slots<T<1, double, false>>, Slots<T<1, V2, false>>, Slots<T<2, double, false>>, Slots<T<2, V2, false>>,
             Slots<T<1, double, true>>, Slots<T<1, V2, true>>, Slots<T<2, double, true>>, Slots<T<2, V2, true>>>
      pool;
  std::string what;
  const void* target{nullptr};
  size_t modified{0};

  explicit World(Case& c_) : c(c_) {}
  template <class K>
  Slots<K>& slots() {
    return std::get<Slots<K>>(pool);
  }
  template <class K>
  Slot<K>& any() {
    return slots<K>()[c.draw(2)];
  }
  template <class K>
  static constexpr size_t number() {
    size_t r = 0, i = 0;
    std::apply([&](auto... k) { ((std::is_same_v<decltype(k), K> ? void(r = i) : void(), i++), ...); }, All{});
    return r;
  }
  template <class K>
  std::string name(Slot<K>& s) {
    return std::string(K::rational ? "R" : "P") + std::to_string(K::pd) + (ncoord<typename K::P_>() == 1 ? "s" : "v") +
           std::to_string(&s - &slots<K>()[0]);
  }
  template <class F>
  void each(F f) {
    std::apply([&](auto&... k) { ((f(k[0]), f(k[1])), ...); }, pool);
  }

  template <class K>
  RS fresh() {
    auto deg = degrees(c, K::pd, 5, 12);
    if (c.chance(2, 5)) return unit_spline(c, deg, ncoord<typename K::P_>(), K::rational);
    return spline(c, deg, ncoord<typename K::P_>(), K::rational, false);
  }
  template <class K>
  void take(Slot<K>& s, const RS& m) {
    s.model = m;
    s.tol = 4096;
  }
  template <class K>
  void construct(Slot<K>& s, bool first = false) {
    const RS m = fresh<K>();
    const size_t how = first ? 0 : c.draw(4);
    using S = typename K::S;
    using P = typename K::P_;
    if (how == 0) {
      s.lib = lib<K::pd, P, K::rational>(m);
    } else if (how == 1) {
      // degrees first, then one by one
      S x(arr<K::pd>(m.deg));
      write(x, m);
      s.lib = x;
    } else if (how == 2) {
      // a spline of other degrees that is brought to size
      s.lib.UpdateDegrees(arr<K::pd>(m.deg));
      write(s.lib, m);
    } else {
      const S x = lib<K::pd, P, K::rational>(m);
      s.lib = S(x);
    }
    take(s, m);
    what = "construction";
    c.note("  ", name(s), " = ", text(m), " (", how, ")");
  }
  template <class S>
  static void write(S& x, const RS& m) {
    for (size_t i = 0; i < m.size(); i++) {
      const auto idx = arr<S::kParametricDimensions>(ref::multi_index(m.deg, i));
      if constexpr (requires_weight<S>::value) {
        for (size_t k = 0; k < m.nc; k++) coord(x.WeightedControlPoint(idx), k) = ref::dbl(m.at(i, k));
        x.Weight(idx) = ref::dbl(m.w[i]);
      } else {
        for (size_t k = 0; k < m.nc; k++) coord(x.ControlPoint(idx), k) = ref::dbl(m.at(i, k));
      }
    }
  }
  template <class S, class = void>
  struct requires_weight : std::false_type {};
  template <class S>
  struct requires_weight<S, std::void_t<decltype(std::declval<S&>().GetWeights())>> : std::true_type {};

  void snapshot() {
    each([](auto& s) { s.before = read(s.lib); });
  }
  void frames() {
    each([&](auto& s) {
      if (&s == target) return;
      PBT_CHECK(same_bits(s.lib, s.before), what, ": also changes ", name(s), " to ", text(read(s.lib)));
    });
  }
  template <class K>
  void check(Slot<K>& s, size_t n = 1) {
    const std::string w = what + ", " + name(s);
    PBT_CHECK(vec(s.lib.GetDegrees()).size() == K::pd, w);
    const RS now = read(s.lib);
    PBT_CHECK(now.cp.size() == now.size() * now.nc && s.lib.GetNumberOfControlPoints() == now.size(), w,
              ": number of control points does not fit degrees ", text(now.deg));
    if constexpr (K::rational) {
      PBT_CHECK(now.w.size() == now.size(), w, ": number of weights");
      PBT_CHECK(s.lib.GetWeightFunctionSpline().GetDegrees() == s.lib.GetDegrees() &&
                    s.lib.GetWeightFunctionSpline().GetNumberOfControlPoints() == now.size(),
                w, ": weight function of other degrees");
    } else {
      check_poly<K::pd, typename K::P_>(s.lib, s.model, w, s.tol);
    }
    const auto last = vec(s.lib.LocalToGlobalIndex(now.size() - 1));
    PBT_CHECK(last == now.deg, w, ": index of the last control point");
    PBT_CHECK(s.lib.GlobalToLocalIndex(arr<K::pd>(now.deg)) == now.size() - 1, w, ": position of the last control point");
    for (size_t k = 0; k < n; k++) {
      const auto t = params(c, K::pd);
      const auto want = ref::eval(s.model, toq(t));
      check_values(s.lib, s.model, t, want, w, s.tol);
      // twice the magnitude for the rounding of the evaluation
      check_value(s.lib.Evaluate(pt<K::pd>(t)), want, w + " evaluated at " + text(t), s.tol + 65536);
      check_value(s.lib.ForwardEvaluate(pt<K::pd>(t)), want, w + " evaluated (explicit) at " + text(t), s.tol + 65536);
    }
  }
  /// Has the model become useless (or too large)?
  template <class K>
  bool spent(const Slot<K>& s) {
    if (!fine(s.model.deg) || !fine(vec(s.lib.GetDegrees()))) return true;
    f128 v = 0, m = 0, lo = 1, hi = 1, wm = 0;
    for (auto& x : s.model.cp) v = std::max(v, ref::absq(x.v)), m = std::max(m, x.m);
    for (size_t i = 0; i < s.model.w.size(); i++) {
      const auto& x = s.model.w[i];
      lo = i ? std::min(lo, x.v) : x.v;
      hi = i ? std::max(hi, x.v) : x.v;
      wm = std::max(wm, x.m);
    }
    if (lo <= 0 || hi > 1e4 * lo || wm > 1e4 * hi) return true;
    return s.tol > 1e7 || m > 1e40 || (v != 0 && v < 1e-60) || m > 1e4 * v + 1e-30;
  }
  template <class K, class S>
  void store(Slot<K>& s, const S& x, const RS& m, double tol) {
    s.lib = x;
    s.model = m;
    s.tol = tol + 4096;
  }

  // ------------------------------------------------------------- operations
  template <class K>
  bool step(Slot<K>& s) {
    constexpr size_t pd = K::pd;
    constexpr bool R = K::rational;
    using P = typename K::P_;
    using S = typename K::S;
    constexpr size_t nc = ncoord<P>();
    constexpr bool scalar = nc == 1;
    using KS = T<pd, double, R>;
    target = &s;
    switch (c.draw(20)) {
      case 0:
        construct(s);
        return true;
      case 1: {
        Slot<K>& x = any<K>();
        const size_t how = c.draw(4);
        what = "copy";
        c.note("  ", name(s), " = ", name(x), " (", how, ")");
        const RS m = x.model;
        const double tol = x.tol;
        if (how == 0)
          s.lib = x.lib;
        else if (how == 1) {
          const S copy(x.lib);
          s.lib = copy;
        } else if (how == 2)
          s.lib = S(x.lib);
        else {
          S copy = x.lib;
          std::swap(s.lib, copy);
          PBT_CHECK(same_bits(copy, s.before), "swap lost ", name(s));
        }
        PBT_CHECK(same_bits(s.lib, x.before), what, " of ", name(x), " differs: ", text(read(s.lib)));
        s.model = m;
        s.tol = tol;
        return true;
      }
      case 2: {
        const size_t dir = c.draw(pd), n = 1 + c.draw(2);
        what = "elevation";
        c.note("  elevate ", name(s), " along ", dir, " ", n, " times");
        for (size_t k = 0; k < n; k++) {
          if (!fine(plus(s.model.deg, arrange(pd, dir)))) break;
          auto& r = s.lib.OrderElevateAlongParametricDimension(dir);
          PBT_CHECK(&r == &s.lib, "elevation does not return the spline itself");
          s.model = ref::elevate(s.model, dir);
          s.tol += 4096;
        }
        return true;
      }
      case 3:
      case 4:
      case 5: {
        // sums, also with itself or assigned to an operand
        Slot<K>&x = any<K>(), &y = any<K>();
        const bool minus = c.chance(1, 2), in_place = c.chance(1, 2);
        Slot<K>& a = in_place ? s : x;
        const bool shared = R && a.model.deg == y.model.deg && weights_of(a.before) == weights_of(y.before);
        const auto deg = !R || shared ? larger(a.model.deg, y.model.deg) : plus(a.model.deg, y.model.deg);
        if (!fine(deg)) return false;
        const RS m = added(a.model, y.model, minus, shared);
        const double tol = a.tol + y.tol;
        what = in_place ? "in-place sum" : "sum";
        c.note("  ", name(s), in_place ? " " : " = ", in_place ? "" : name(x), minus ? "-" : "+", in_place ? "= " : " ",
               name(y));
        if (in_place) {
          if (minus)
            s.lib -= y.lib;
          else
            s.lib += y.lib;
        } else if (minus)
          s.lib = x.lib - y.lib;
        else
          s.lib = x.lib + y.lib;
        s.model = m;
        s.tol = tol + 4096;
        return true;
      }
      case 6:
      case 7: {
        what = "product";
        if constexpr (scalar) {
          if (c.chance(1, 2)) {
            // dot product
            using KV = T<pd, V2, R>;
            Slot<KV>&x = any<KV>(), &y = any<KV>();
            if (!fine(plus(x.model.deg, y.model.deg))) return false;
            c.note("  ", name(s), " = ", name(x), " * ", name(y));
            store(s, x.lib * y.lib, multiplied(x.model, y.model), x.tol + y.tol + 16384);
            return true;
          }
        }
        Slot<KS>& x = any<KS>();
        Slot<K>& y = any<K>();
        if (!fine(plus(x.model.deg, y.model.deg))) return false;
        const RS m = multiplied(x.model, y.model);
        const double tol = x.tol + y.tol + 16384;
        if (c.chance(1, 2)) {
          c.note("  ", name(s), " = ", name(x), " * ", name(y));
          store(s, x.lib * y.lib, m, tol);
        } else {
          c.note("  ", name(s), " = ", name(y), " * ", name(x));
          store(s, y.lib * x.lib, m, tol);
        }
        return true;
      }
      case 8:
      case 9: {
        // affine
        Slot<K>& x = any<K>();
        const size_t how = c.draw(8);
        const double a = c.chance(1, 2) ? static_cast<double>(c.around(3)) : sunit53(c) * 2;
        P p{};
        for (size_t k = 0; k < nc; k++) coord(p, k) = sunit53(c);
        what = "affine operation";
        c.note("  ", name(s), " from ", name(x), ", affine operation ", how, ", ", a);
        const auto scale = [](RS m, const Q& f) {
          for (auto& q : m.cp) q = q * f;
          return m;
        };
        const auto shift = [&](RS m, double sign) {
          for (size_t i = 0; i < m.size(); i++)
            for (size_t k = 0; k < nc; k++) {
              Q d(sign * coord(p, k));
              if (R) d = d * m.w[i];
              m.at(i, k) = m.at(i, k) + d;
            }
          return m;
        };
        switch (how) {
          case 0:
            s.lib *= a;
            s.model = scale(s.model, Q(a));
            break;
          case 1:
            s.lib += p;
            s.model = shift(s.model, 1);
            break;
          case 2:
            s.lib -= p;
            s.model = shift(s.model, -1);
            break;
          case 3:
            store(s, x.lib * a, scale(x.model, Q(a)), x.tol);
            break;
          case 4:
            store(s, a * x.lib, scale(x.model, Q(a)), x.tol);
            break;
          case 5:
            store(s, -x.lib, scale(x.model, Q(-1.)), x.tol);
            break;
          case 6:
            store(s, x.lib + p, shift(x.model, 1), x.tol);
            break;
          default:
            if constexpr (R)
              store(s, x.lib - p, shift(x.model, -1), x.tol);
            else
              store(s, p - x.lib, scale(shift(x.model, -1), Q(-1.)), x.tol);
        }
        s.tol += 4096;
        return true;
      }
      case 10: {
        Slot<K>& x = any<K>();
        const size_t dir = c.draw(pd);
        if (R && !fine(plus(x.model.deg, x.model.deg))) return false;
        if (R && x.model.size() > 6) return false;
        what = "derivative";
        c.note("  ", name(s), " = derivative of ", name(x), " along ", dir);
        std::array<size_t, pd> o{};
        o[dir] = 1;
        store(s, x.lib.DerivativeWRTParametricDimension(o), differentiated(x.model, dir), x.tol + 65536);
        return true;
      }
      case 11:
      case 12: {
        Slot<K>& x = any<K>();
        const size_t dir = c.draw(pd), n = 1 + c.draw(3);
        vector<double> planes;
        double last = 0;
        for (size_t k = 0; k < n; k++) {
          last += (1 - last) * (.0625 + .5 * unit53(c));
          planes.push_back(last);
        }
        const size_t piece = c.draw(n + 1);
        what = "split";
        c.note("  ", name(s), " = piece ", piece, " of ", name(x), " split along ", dir, " at ", text(planes));
        const auto all = n == 1 && c.chance(1, 2) ? x.lib.SplitAtPosition(planes[0], dir) : x.lib.SplitAtPosition(planes, dir);
        PBT_CHECK(all.size() == n + 1, what, ": ", all.size(), " pieces");
        const double a = piece ? planes[piece - 1] : 0, b = piece < n ? planes[piece] : 1;
        store(s, all[piece], ref::split(x.model, dir, Q(a), Q(b)), x.tol + 65536);
        return true;
      }
      case 13:
      case 14: {
        // composition of a function of one or two parameters
        const size_t outer = 1 + c.draw(2);
        const bool ro = R && c.chance(1, 2), ri = R && (!ro || c.chance(1, 2));
        const auto go = [&](auto outer_kind, auto inner_kind) {
          using O = decltype(outer_kind);
          using I = decltype(inner_kind);
          if constexpr (R == (O::rational || I::rational)) {
            Slot<O>& f = any<O>();
            Slot<I>& g = any<I>();
            size_t sum = 0;
            for (auto d : f.model.deg) sum += d;
            vector<size_t> deg(g.model.deg);
            for (auto& d : deg) d *= sum;
            if (!fine(deg) || sum * 2 > 14) return false;
            c.note("  ", name(s), " = ", name(f), " of ", name(g));
            bool inside = true, clear = true;
            for (size_t i = 0; i < g.before.size(); i++)
              for (size_t k = 0; k < g.before.nc; k++) {
                const double v = ref::dbl(g.before.at(i, k)), w = g.before.rational() ? ref::dbl(g.before.w[i]) : 1;
                if (!(v >= 0 && v <= w)) {
                  inside = false;
                  if (v > 0 && v < w * (1 + 1e-12)) clear = false;
                }
              }
            if (!inside && clear) {
              what = "rejected composition";
              c.label("rejected composition");
              target = nullptr;
              bool thrown = false;
              try {
                const auto r = f.lib.Compose(g.lib);
                s.lib = r;
              } catch (const std::runtime_error&) {
                thrown = true;
              }
              PBT_CHECK(thrown, "composition of ", name(f), " with ", name(g), " outside the unit cube");
              return true;
            }
            if (!clear) return false;
            what = "composition";
            c.label("composition");
            store(s, f.lib.Compose(g.lib), composed(f.model, g.model), f.tol + g.tol * static_cast<double>(1 + sum) + 262144);
            return true;
          }
          return false;
        };
        const auto with = [&](auto o, auto i) {
          constexpr size_t od = decltype(o)::value;
          constexpr bool inner = decltype(i)::value;
          (void)inner;
          using IP = std::conditional_t<od == 1, double, V2>;
          if (ro && ri) return go(T<od, P, true>{}, T<pd, IP, true>{});
          if (ro) return go(T<od, P, true>{}, T<pd, IP, false>{});
          if (ri) return go(T<od, P, false>{}, T<pd, IP, true>{});
          return go(T<od, P, false>{}, T<pd, IP, false>{});
        };
        if (outer == 1) return with(std::integral_constant<size_t, 1>{}, std::true_type{});
        return with(std::integral_constant<size_t, 2>{}, std::true_type{});
      }
      case 15: {
        if constexpr (scalar && !R) {
          what = "coordinate";
          if (c.chance(1, 4)) {
            Slot<K>& x = any<K>();
            const size_t n = c.draw(4);
            vector<size_t> deg(x.model.deg);
            for (auto& d : deg) d *= n;
            if (!fine(deg)) return false;
            what = "power";
            c.note("  ", name(s), " = ", name(x), " to the power ", n);
            RS m;
            m.deg.assign(pd, 0);
            m.cp.assign(1, Q(1.));
            for (size_t k = 0; k < n; k++) m = ref::mul(m, x.model);
            store(s, x.lib.RaisePower(n), m, x.tol * static_cast<double>(n + 1) + 65536);
            return true;
          }
          const size_t k = c.draw(2);
          const auto go = [&](auto& x) {
            c.note("  ", name(s), " = coordinate ", k, " of ", name(x));
            RS m = ref::numerator(x.model);
            m.nc = 1;
            m.cp.clear();
            for (size_t i = 0; i < x.model.size(); i++) m.cp.push_back(x.model.at(i, k));
            // the degrees of a rational model may be others
            if (m.deg != x.before.deg) return false;
            store(s, x.lib.ExtractDimension(k), m, x.tol);
            return true;
          };
          return c.chance(1, 3) ? numerator_known<T<pd, V2, true>>(k, s) : go(any<T<pd, V2, false>>());
        } else if constexpr (R) {
          // from a polynomial
          Slot<T<pd, P, false>>& x = any<T<pd, P, false>>();
          what = "conversion";
          c.note("  ", name(s), " = rational from ", name(x));
          RS m = x.model;
          m.w.assign(m.size(), Q(1.));
          store(s, S(x.lib), m, x.tol);
          return true;
        } else {
          // fit or transpose and scale
          what = "fit";
          const bool fit = c.chance(1, 2);
          P a{}, b{};
          for (size_t k = 0; k < nc; k++) {
            double lo = ref::dbl(s.before.at(0, k)), hi = lo;
            for (size_t i = 0; i < s.before.size(); i++) {
              lo = std::min(lo, ref::dbl(s.before.at(i, k)));
              hi = std::max(hi, ref::dbl(s.before.at(i, k)));
            }
            if (fit && hi - lo <= 1e-3 * (std::abs(hi) + std::abs(lo))) return false;
            coord(a, k) = lo;
            coord(b, k) = hi;
          }
          c.note("  ", fit ? "fit " : "transpose and scale ", name(s));
          if (fit) {
            auto& r = s.lib.FitIntoUnitCube();
            PBT_CHECK(&r == &s.lib && r.FitsIntoUnitCube(), "fit");
          } else {
            for (size_t k = 0; k < nc; k++) coord(a, k) = sunit53(c);
            P f{};
            for (size_t k = 0; k < nc; k++) coord(f, k) = 1 + unit53(c);
            s.lib.TransposeAndScale(a, f);
            b = f;
          }
          for (size_t i = 0; i < s.model.size(); i++)
            for (size_t k = 0; k < nc; k++)
              s.model.at(i, k) = fit ? (s.model.at(i, k) - Q(coord(a, k))) / (Q(coord(b, k)) - Q(coord(a, k)))
                                     : (s.model.at(i, k) + Q(coord(a, k))) * Q(coord(b, k));
          s.tol += 16384;
          return true;
        }
      }
      case 16: {
        // writes through accessors
        if (read(s.lib).deg != s.model.deg || s.before.size() != s.model.size()) return false;
        const size_t i = c.draw(s.model.size()), k = c.draw(nc), how = c.draw(3);
        const double v = c.chance(1, 2) ? static_cast<double>(c.around(3)) / 2 : sunit53(c);
        const auto idx = arr<pd>(ref::multi_index(s.model.deg, i));
        what = "write";
        if constexpr (R) {
          // the weight function of the model is only known up to scale
          construct_known(s);
          if (i >= s.model.size()) return true;
          const auto id = arr<pd>(ref::multi_index(s.model.deg, i));
          if (how == 0) {
            coord(s.lib.WeightedControlPoint(id), k) = v;
            s.model.at(i, k) = Q(v);
          } else if (how == 1) {
            s.lib.Weight(id) = 1 + std::abs(v);
            s.model.w[i] = Q(1 + std::abs(v));
          } else {
            s.lib.GetWeights()[i] = 1 + std::abs(v);
            coord(s.lib.GetWeightedControlPoints()[i], k) = v;
            s.model.at(i, k) = Q(v);
            s.model.w[i] = Q(1 + std::abs(v));
          }
        } else {
          if (how == 0)
            coord(s.lib.ControlPoint(idx), k) = v;
          else if (how == 1)
            coord(s.lib.GetControlPoints()[i], k) = v;
          else if constexpr (pd == 1)
            coord(s.lib.ControlPoint(idx[0]), k) = v;
          else
            coord(s.lib.ControlPoint(idx[0], idx[1]), k) = v;
          s.model.at(i, k) = Q(v);
        }
        c.note("  ", name(s), " control point ", i, " coordinate ", k, " = ", v, " (", how, ")");
        return true;
      }
      case 17: {
        // comparison
        target = nullptr;
        if constexpr (!R) {
          Slot<K>&x = any<K>(), &y = any<K>();
          what = "comparison";
          c.note("  ", name(x), " == ", name(y));
          const auto equal = [](const RS& a, const RS& b) {
            if (a.deg != b.deg) return false;
            for (size_t i = 0; i < a.cp.size(); i++)
              if (a.cp[i].v != b.cp[i].v) return false;
            return true;
          };
          PBT_CHECK((x.lib == y.lib) == equal(x.before, y.before), name(x), " == ", name(y), " is ", x.lib == y.lib);
          S copy(x.lib);
          PBT_CHECK(copy == x.lib && x.lib == copy, "copy of ", name(x), " is not equal");
          const size_t i = c.draw(x.before.size()), k = c.draw(nc);
          double& v = coord(copy.GetControlPoints()[i], k);
          v = std::nextafter(v, c.chance(1, 2) ? 1e300 : -1e300);
          PBT_CHECK(!(copy == x.lib) && !(x.lib == copy), name(x), " equals a copy with another coordinate ", k,
                    " of control point ", i);
          if (pd > 1) {
            // the same list of control points, other degrees
            auto other = x.before.deg;
            std::swap(other[0], other[pd - 1]);
            const S turned(arr<pd>(other), x.lib.GetControlPoints());
            PBT_CHECK((turned == x.lib) == (other == x.before.deg), name(x), " compared with degrees ", text(other));
          }
          if (c.chance(1, 3)) {
            // lists far longer than those of the pool, that differ in one bit of one entry
            vector<size_t> deg(pd);
            for (size_t d = 0; d < pd; d++) deg[d] = c.draw(pd == 1 ? 400 : pd == 2 ? 24 : 9);
            size_t total = 1;
            for (const size_t d : deg) total *= d + 1;
            S first(arr<pd>(deg));
            auto& list = first.GetControlPoints();
            const double step = 1.0 / double(1 + c.draw(64));
            for (size_t j = 0; j < total; j++)
              for (size_t q = 0; q < nc; q++) coord(list[j], q) = double((j * 7 + q * 3) % 31) * step - 1.0;
            const size_t late = c.chance(1, 2) ? total - 1 - c.draw(total < 8 ? total : 8) : c.draw(total);
            const size_t q = c.draw(nc);
            c.note("  lists of ", total, " points that differ in coordinate ", q, " of entry ", late);
            S second(first);
            PBT_CHECK(first == second && second == first, "copy of a spline of ", total, " points is not equal");
            double& u = coord(second.GetControlPoints()[late], q);
            u = std::nextafter(u, c.chance(1, 2) ? 1e300 : -1e300);
            PBT_CHECK(!(first == second) && !(second == first), "splines of ", total,
                      " points are equal although entry ", late, " differs");
            c.label("comparison of long lists");
          }
        }
        return true;
      }
      default: {
        // nothing may change
        target = nullptr;
        Slot<K>& x = any<K>();
        what = "read-only call";
        const auto t = pt<pd>(params(c, pd));
        c.note("  read ", name(x));
        (void)x.lib.Evaluate(t);
        (void)x.lib.ForwardEvaluate(t);
        (void)x.lib.BasisFunctions(t);
        (void)x.lib.BasisFunctionContributions(t);
        std::array<size_t, pd> o{};
        o[c.draw(pd)] = 1 + c.draw(2);
        (void)x.lib.BasisFunctionsDerivatives(t, o);
        (void)x.lib.EvaluateDerivative(t, o);
        (void)x.lib.MinimumCorner();
        (void)x.lib.MaximumCorner();
        (void)x.lib.FitsIntoUnitCube();
        try {
          (void)x.lib.ExtractDimension(c.draw(4));
        } catch (const std::runtime_error&) {
        }
        try {
          (void)x.lib.SplitAtPosition(vector<double>{.5, .25}, 0);
          pbt::fail("planes in decreasing order");
        } catch (const std::runtime_error&) {
        }
        const size_t dir = c.draw(pd);
        (void)x.lib.SplitAtPosition(.5, dir);
        return true;
      }
    }
  }
  static vector<size_t> arrange(size_t n, size_t dir) {
    vector<size_t> r(n, 0);
    r[dir] = 1;
    return r;
  }
  static vector<double> weights_of(const RS& s) { return weight_vector(s); }
  /// Brings a rational spline back to a known numerator and weight function
  template <class K>
  void construct_known(Slot<K>& s) {
    c.note("  ", name(s), " as it is, as the model");
    s.model = read(s.lib);
    s.tol = 4096;
  }
  template <class KV, class K>
  bool numerator_known(size_t k, Slot<K>& s) {
    Slot<KV>& x = any<KV>();
    c.note("  ", name(s), " = coordinate ", k, " of the numerator of ", name(x));
    RS m = ref::numerator(x.before);
    m.nc = 1;
    m.cp.clear();
    for (size_t i = 0; i < x.before.size(); i++) m.cp.push_back(x.before.at(i, k));
    store(s, x.lib.ExtractDimension(k), m, 4096);
    return true;
  }

  void run() {
    each([&](auto& s) { construct(s, true); });
    const size_t n = 1 + c.draw(16);
    for (size_t i = 0; i < n; i++) {
      snapshot();
      const size_t kind = c.draw(8);
      size_t k = 0;
      bool done = false;
      std::apply(
          [&](auto... t) {
            ((k++ == kind ? (void)(done = one(any<decltype(t)>())) : void()), ...);
          },
          All{});
      if (done && target) modified++;
    }
    target = nullptr;
    what = "end of the history";
    snapshot();
    each([&](auto& s) { check(s); });
    frames();
    if (modified >= 3) c.nontrivial();
  }
  template <class K>
  bool one(Slot<K>& s) {
    what = "operation";
    const bool done = step(s);
    if (!done) {
      target = nullptr;
      return false;
    }
    c.label(what);
    frames();
    if (target) {
      check(s);
      if (spent(s)) {
        c.label("replaced");
        construct(s);
        check(s);
      }
      const void* keep = target;
      snapshot_one(s);
      frames();
      target = keep;
    }
    return true;
  }
  template <class K>
  void snapshot_one(Slot<K>& s) {
    s.before = read(s.lib);
  }
};
void property(Case& c) {
  quiet();
  World w(c);
  w.run();
}
