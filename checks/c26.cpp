// C26: laws between the operations
#include "compose.hpp"
using namespace gen;
using ref::D;

const char* const kRule =
    "one of 18 laws between operations (linearity, product and chain rule, "
    "commuting of derivatives, splits, elevation, arithmetic, composition and "
    "coordinate extraction, distributivity, associativity of products and "
    "compositions, powers) for polynomial or rational splines of parametric "
    "dimension 1-3: both sides are computed by the library as chains of 2-6 "
    "operations and must have the same values at 1-3 parameters, within the "
    "error bound of the expression that the reference evaluates; non-trivial: "
    "some degree >= 2";

using V = vector<Q>;
V operator+(V a, const V& b) {
  for (size_t k = 0; k < a.size(); k++) a[k] = a[k] + b[k];
  return a;
}
V times(const V& a, const V& b) {
  if (a.size() == b.size()) {
    Q s;
    for (size_t k = 0; k < a.size(); k++) s = s + a[k] * b[k];
    return {s};
  }
  V r = a.size() > b.size() ? a : b;
  const Q f = a.size() > b.size() ? b[0] : a[0];
  for (auto& x : r) x = x * f;
  return r;
}
V scaled(V a, const Q& f) {
  for (auto& x : a) x = x * f;
  return a;
}
vector<Q> q(const vector<double>& t) { return toq(t); }
V at(const RS& s, const vector<double>& t) { return ref::eval(s, q(t)); }
vector<D> seeded(const vector<double>& t, size_t dir) {
  vector<D> r(t.begin(), t.end());
  r[dir].d = Q(1.);
  return r;
}
ref::Spline<D> up(const RS& s) { return ref::lift(s); }
/// both sides against the value
template <class L, class R>
void sides(const L& l, const R& r, const vector<double>& t, const V& want, const std::string& w, double K = 1 << 17) {
  const RS none;
  check_values(l, none, t, want, w + ", left side", K);
  check_values(r, none, t, want, w + ", right side", K);
}
/// Value at the value of an inner spline that has been computed itself: rounded
/// relative to the magnitude of its value
V at_inexact(const RS& f, V inner) {
  for (auto& y : inner) y.m = 16 * y.m;
  return ref::eval(f, inner, false);
}
/// The derivative of splines that are results themselves: their control points
/// are rounded relative to their own size
V rough(V want, size_t degree, std::initializer_list<RS> operands) {
  ref::f128 extra = static_cast<ref::f128>(degree);
  for (auto& m : operands) {
    ref::f128 biggest = 0, wmin = 1, wmax = 1;
    for (auto& x : m.cp) biggest = std::max(biggest, ref::absq(x.v));
    for (size_t i = 0; i < m.w.size(); i++) {
      wmin = i ? std::min(wmin, m.w[i].v) : m.w[i].v;
      wmax = i ? std::max(wmax, m.w[i].v) : m.w[i].v;
    }
    extra = extra * biggest / wmin * (wmax / wmin) * (wmax / wmin);
  }
  for (auto& x : want) x.m += extra;
  return want;
}
size_t sum_of(const RS& s) {
  size_t r = 0;
  for (auto x : s.deg) r += x;
  return r;
}
template <size_t PD>
std::array<size_t, PD> unit(size_t dir, size_t n = 1) {
  std::array<size_t, PD> r{};
  r[dir] = n;
  return r;
}
template <class S>
S elevated(S s, size_t dir, size_t n) {
  for (; n > 0; n--) s.OrderElevateAlongParametricDimension(dir);
  return s;
}
double plane(Case& c) {
  const double x = c.chance(1, 2) ? static_cast<double>(c.range(1, 15)) / 16 : unit53(c);
  return x > 0 ? x : .5;
}

template <size_t PD, class P, bool R, class QI>
void run(Case& c) {
  constexpr size_t nc = ncoord<P>();
  // small enough for chains of products and compositions
  const size_t points = R ? 9 : 25, high = R ? 3 : 6;
  const auto some = [&] { return spline(c, degrees(c, PD, high, points), nc, R, false); };
  const RS mf = some();
  const auto f = lib<PD, P, R>(mf);
  size_t top = 0;
  for (auto d : mf.deg) top = std::max(top, d);
  c.label(R ? "rational" : "polynomial");
  c.label("pd" + std::to_string(PD));
  c.note("f: ", text(mf));
  if (top >= 2) c.nontrivial();
  const size_t dir = c.draw(PD);
  const auto d = [&](const auto& s, size_t direction, size_t n = 1) {
    return s.DerivativeWRTParametricDimension(unit<PD>(direction, n));
  };
  const auto t = params(c, PD);
  vector<size_t> o(PD, 0);
  o[dir] = 1;
  static const char* const names[] = {"linearity of the derivative", "product rule", "chain rule",
                                      "derivative of a split", "elevation and derivative", "splits commute",
                                      "derivatives commute", "composition of a sum", "composition of a product",
                                      "associativity of composition", "associativity of products", "distributivity",
                                      "powers", "split of a composition", "elevation in compositions",
                                      "coordinates commute", "sum and difference", "split of sums and products"};
  const size_t law = c.draw(18);
  const std::string w = names[law];
  c.label(w);
  c.note(w, " at ", text(t));
  switch (law) {
    case 0: {
      const RS mg = some();
      const auto g = lib<PD, P, R>(mg);
      const double a = sunit53(c) * 4, b = sunit53(c) * 4;
      if (R && (mf.size() > 6 || mg.size() > 6)) return;
      sides(d(f * a + b * g, dir), d(f, dir) * a + d(g, dir) * b, t,
            rough(scaled(ref::deriv(mf, q(t), o), Q(a)), 8 * (sum_of(mf) + sum_of(mg)), {mf}) +
                rough(scaled(ref::deriv(mg, q(t), o), Q(b)), 8 * (sum_of(mf) + sum_of(mg)), {mg}), w);
      break;
    }
    case 1: {
      const bool scalar = c.chance(1, 2);
      const auto go = [&](const RS& mg, const auto& g) {
        if (R && (mf.size() > 6 || mg.size() > 6)) return;
        const auto df = d(f, dir);
        const auto dg = d(g, dir);
        sides(d(f * g, dir), df * g + f * dg, t,
              rough(times(ref::deriv(mf, q(t), o), at(mg, t)) + times(at(mf, t), ref::deriv(mg, q(t), o)),
                    8 * nc * (sum_of(mf) + sum_of(mg)), {mf, mg}), w);
      };
      if (scalar) {
        const RS m = spline(c, degrees(c, PD, high, points), 1, R, false);
        go(m, lib<PD, double, R>(m));
      } else {
        const RS m = some();
        go(m, lib<PD, P, R>(m));
      }
      break;
    }
    case 2: {
      // chain rule, inner spline of two parameters
      size_t sum = 0;
      for (auto x : mf.deg) sum += x;
      const RS mg = unit_spline(c, degrees(c, 2, sum > 3 ? 1 : 2, 6), PD, false);
      const auto g = poly<2, QI>(mg);
      const auto s = params(c, 2);
      const size_t k = c.draw(2);
      c.note("g: ", text(mg), " at ", text(s), " along ", k);
      if (sum * 3 * 2 >= MAX_BINOMIAL_DEGREE || (R && sum > 3)) return;
      const auto left = f.Compose(g).DerivativeWRTParametricDimension(unit<2>(k));
      const auto dg = g.DerivativeWRTParametricDimension(unit<2>(k));
      const auto term = [&](size_t i) {
        const auto outer = d(f, i).Compose(g);
        using S = std::conditional_t<R, Rat<2, double>, Poly<2, double>>;
        return outer * S(dg.ExtractDimension(i));
      };
      auto right = term(0);
      for (size_t i = 1; i < PD; i++) right += term(i);
      const auto v = ref::eval(up(mf), ref::eval(up(mg), seeded(s, k)));
      V want2;
      for (auto& x : v) want2.push_back(x.d);
      V want = rough(want2, 2 * sum * mg.deg[k], {mf});
      sides(left, right, s, want, w, 1 << 19);
      break;
    }
    case 3: {
      const double s = plane(c);
      const size_t other = c.draw(PD);
      c.note("split at ", s, " along ", dir, ", derivative along ", other);
      const auto a = f.SplitAtPosition(s, dir);
      const auto b = d(f, other).SplitAtPosition(s, dir);
      for (size_t k = 0; k < 2; k++) {
        const double len = k ? 1 - s : s;
        auto x = t;
        const Q pos = k ? Q(s) + Q(1. - s) * Q(t[dir]) : Q(s) * Q(t[dir]);
        auto tq = q(t);
        tq[dir] = Q{pos.v, 1 + pos.v};
        vector<size_t> e(PD, 0);
        e[other] = 1;
        const Q factor = other == dir ? Q(len) : Q(1.);
        sides(d(a[k], other), b[k] * (other == dir ? len : 1.), t, scaled(ref::deriv(mf, tq, e), factor), w, 1 << 18);
      }
      break;
    }
    case 4: {
      const size_t along = c.draw(PD), n = 1 + c.draw(2);
      sides(d(elevated(f, along, n), dir), elevated(d(f, dir), along, n), t,
            rough(ref::deriv(mf, q(t), o), sum_of(mf) + n, {mf}), w);
      break;
    }
    case 5: {
      // also with elevation in between
      const double s = plane(c), r = plane(c);
      const size_t other = PD > 2 ? (dir + 1 + c.draw(PD - 1)) % PD : PD - 1 - dir;
      const size_t i = c.draw(2), j = c.draw(2);
      if (other == dir) {
        // the second part of a split at s, split at r
        const auto rest = f.SplitAtPosition(s, dir)[1].SplitAtPosition(r, dir)[0];
        const auto up1 = elevated(f, dir, 1).SplitAtPosition(s, dir)[1].SplitAtPosition(r, dir)[0];
        const Q pos = Q(s) + (Q(1.) - Q(s)) * Q(r) * Q(t[0]);
        sides(rest, up1, t, ref::eval(mf, {Q{pos.v, 1 + pos.v}}), w, 1 << 18);
      } else {
        const auto a = f.SplitAtPosition(s, dir)[i].SplitAtPosition(r, other)[j];
        const auto b = f.SplitAtPosition(r, other)[j].SplitAtPosition(s, dir)[i];
        auto x = q(t);
        const Q p = i ? Q(s) + (Q(1.) - Q(s)) * Q(t[dir]) : Q(s) * Q(t[dir]);
        const Q z = j ? Q(r) + (Q(1.) - Q(r)) * Q(t[other]) : Q(r) * Q(t[other]);
        x[dir] = Q{p.v, 1 + p.v};
        x[other] = Q{z.v, 1 + z.v};
        sides(a, b, t, ref::eval(mf, x), w, 1 << 18);
      }
      break;
    }
    case 6: {
      const size_t other = c.draw(PD);
      if (R && mf.size() > 4) return;
      vector<size_t> e(PD, 0);
      e[dir]++;
      e[other]++;
      const auto a = d(d(f, dir), other);
      sides(a, d(d(f, other), dir), t, ref::deriv(mf, q(t), e), w, 1 << 18);
      const auto b = f.DerivativeWRTParametricDimension(arr<PD>(e));
      sides(a, b, t, ref::deriv(mf, q(t), e), w + " (at once)", 1 << 18);
      PBT_CHECK(f.EvaluateDerivative(pt<PD>(t), arr<PD>(e)) == f.EvaluateDerivative(pt<PD>(t), arr<PD>(e)), w);
      check_value(f.EvaluateDerivative(pt<PD>(t), arr<PD>(e)), ref::deriv(mf, q(t), e), w + " (evaluated)", 1 << 16);
      break;
    }
    case 7:
    case 8: {
      const RS mg = some();
      const auto g = lib<PD, P, R>(mg);
      size_t sum = 0;
      for (size_t k = 0; k < PD; k++) sum += mf.deg[k] + mg.deg[k];
      if (sum > (R ? 6 : 10)) return;
      const RS mh = unit_spline(c, {1 + c.draw(2)}, PD, c.chance(1, 3));
      const auto s = params(c, 1);
      c.note("g: ", text(mg));
      c.note("h: ", text(mh), " at ", text(s));
      const auto x = exact_value(mh, s);
      const auto a = ref::eval(mf, x), b = ref::eval(mg, x);
      const auto go = [&](const auto& h) {
        if (law == 7)
          sides((f + g).Compose(h), f.Compose(h) + g.Compose(h), s, a + b, w, 1 << 19);
        else
          sides((f * g).Compose(h), f.Compose(h) * g.Compose(h), s, times(a, b), w, 1 << 19);
      };
      if (mh.rational())
        go(rat<1, QI>(mh));
      else
        go(poly<1, QI>(mh));
      break;
    }
    case 9: {
      // f o (g o h) = (f o g) o h, one or both inner ones rational
      size_t sum = 0;
      for (auto e : mf.deg) sum += e;
      if (sum > 3) return;
      // strictly inside, so that rounding can not leave the cube
      const bool rg = c.chance(1, 3), rh = c.chance(1, 3);
      const size_t dg = 1 + c.draw(sum > 2 ? 1 : 2), dh = 1 + c.draw(2);
      RS mg = unit_spline(c, {dg}, PD, rg), mh = unit_spline(c, {dh}, 1, rh);
      const auto shrink = [](RS& m) {
        for (size_t i = 0; i < m.size(); i++)
          for (size_t k = 0; k < m.nc; k++) {
            const double wi = m.rational() ? ref::dbl(m.w[i]) : 1;
            m.at(i, k) = Q(ref::dbl(m.at(i, k)) * .875 + .0625 * wi);
          }
      };
      shrink(mg);
      shrink(mh);
      const auto s = params(c, 1);
      c.note("g: ", text(mg));
      c.note("h: ", text(mh), " at ", text(s));
      if (sum * dg * dh * (rg ? 2 : 1) >= MAX_BINOMIAL_DEGREE) return;
      const auto want = at_inexact(mf, at_inexact(mg, ref::eval(mh, q(s))));
      const auto go = [&](const auto& g, const auto& h) {
        const auto gh = g.Compose(h);
        if (!gh.FitsIntoUnitCube()) return;
        sides(f.Compose(g).Compose(h), f.Compose(gh), s, want, w, 1 << 20);
      };
      if (rg)
        rh ? go(rat<1, QI>(mg), rat<1, double>(mh)) : go(rat<1, QI>(mg), poly<1, double>(mh));
      else
        rh ? go(poly<1, QI>(mg), rat<1, double>(mh)) : go(poly<1, QI>(mg), poly<1, double>(mh));
      break;
    }
    case 10: {
      const RS mg = spline(c, degrees(c, PD, high, points), 1, R, false), mh = spline(c, degrees(c, PD, 2, 9), 1, R, false);
      const auto g = lib<PD, double, R>(mg), h = lib<PD, double, R>(mh);
      sides((f * g) * h, f * (g * h), t, times(times(at(mf, t), at(mg, t)), at(mh, t)), w);
      sides((g * f) * h, (h * g) * f, t, times(times(at(mf, t), at(mg, t)), at(mh, t)), w);
      break;
    }
    case 11: {
      const RS mg = spline(c, degrees(c, PD, high, points), 1, R, false), mh = some();
      const auto g = lib<PD, double, R>(mg);
      const auto h = lib<PD, P, R>(mh);
      if (R && mf.size() + mh.size() > 12) return;
      sides(g * (f + h), g * f + g * h, t, times(at(mg, t), at(mf, t)) + times(at(mg, t), at(mh, t)), w);
      const double a = sunit53(c) * 3;
      sides((f - h) * a, f * a - a * h, t, scaled(at(mf, t) + scaled(at(mh, t), Q(-1.)), Q(a)), w);
      break;
    }
    case 12: {
      if constexpr (!R) {
        const RS mg = spline(c, degrees(c, PD, 4, 12), 1, false, false);
        const auto g = poly<PD, double>(mg);
        const size_t n = 1 + c.draw(5);
        size_t high_degree = 0;
        for (auto e : mg.deg) high_degree = std::max(high_degree, e);
        if (high_degree * n >= MAX_BINOMIAL_DEGREE) return;
        auto r = g;
        V want = at(mg, t);
        const V one = want;
        for (size_t k = 1; k < n; k++) {
          r = g * r;
          want = times(want, one);
        }
        c.note("g: ", text(mg), " to the power ", n);
        sides(g.RaisePower(n), r, t, want, w);
        // (g o h)^n = g^n o h
        break;
      } else
        return;
    }
    case 13: {
      size_t sum = 0;
      for (auto e : mf.deg) sum += e;
      const RS mg = unit_spline(c, {1 + c.draw(3)}, PD, c.chance(1, 3));
      if (sum > 8) return;
      const double s = plane(c);
      const auto x = params(c, 1);
      c.note("g: ", text(mg), " split at ", s, " at ", text(x));
      const size_t k = c.draw(2);
      const Q pos = k ? Q(s) + (Q(1.) - Q(s)) * Q(x[0]) : Q(s) * Q(x[0]);
      const auto want = at_inexact(mf, ref::eval(mg, {Q{pos.v, 1 + pos.v}}));
      const auto go = [&](const auto& g) {
        const auto piece = g.SplitAtPosition(s)[k];
        if (!piece.FitsIntoUnitCube()) return;
        sides(f.Compose(g).SplitAtPosition(s)[k], f.Compose(piece), x, want, w, 1 << 19);
      };
      if (mg.rational())
        go(rat<1, QI>(mg));
      else
        go(poly<1, QI>(mg));
      break;
    }
    case 14: {
      size_t sum = 0;
      for (auto e : mf.deg) sum += e;
      if (sum > 6) return;
      const RS mg = unit_spline(c, {1 + c.draw(2)}, PD, c.chance(1, 3));
      const auto x = params(c, 1);
      c.note("g: ", text(mg), " at ", text(x));
      const auto want = at_inexact(mf, ref::eval(mg, q(x)));
      const auto go = [&](const auto& g) {
        const auto ge = elevated(g, 0, 1);
        if (!ge.FitsIntoUnitCube()) return;
        sides(elevated(f, dir, 1).Compose(g), f.Compose(ge), x, want, w, 1 << 19);
      };
      if (mg.rational())
        go(rat<1, QI>(mg));
      else
        go(poly<1, QI>(mg));
      break;
    }
    case 15: {
      if constexpr (!R) {
        const size_t k = c.draw(nc);
        const V want = at(mf, t);
        const double s = plane(c);
        const auto one = f.ExtractDimension(k);
        sides(elevated(one, dir, 1), elevated(f, dir, 1).ExtractDimension(k), t, {want[k]}, w + " (elevation)");
        sides(d(one, dir), d(f, dir).ExtractDimension(k), t, {ref::deriv(mf, q(t), o)[k]}, w + " (derivative)");
        const size_t i = c.draw(2);
        const Q pos = i ? Q(s) + (Q(1.) - Q(s)) * Q(t[dir]) : Q(s) * Q(t[dir]);
        auto x = q(t);
        x[dir] = Q{pos.v, 1 + pos.v};
        sides(one.SplitAtPosition(s, dir)[i], f.SplitAtPosition(s, dir)[i].ExtractDimension(k), t,
              {ref::eval(mf, x)[k]}, w + " (split)", 1 << 18);
        break;
      } else
        return;
    }
    case 16: {
      const RS mg = some();
      const auto g = lib<PD, P, R>(mg);
      if (R && mf.size() + mg.size() > 12) return;
      const V a = at(mf, t), b = at(mg, t);
      const V minus = scaled(b, Q(-1.));
      const bool elevate_one = c.chance(1, 2);
      const auto g2 = elevate_one ? elevated(g, dir, 1) : g;
      sides((f + g) - g2, f + (g2 - g), t, a + b + minus, w, 1 << 17);
      sides(-(f - g), g - f, t, scaled(a, Q(-1.)) + b, w);
      break;
    }
    default: {
      const RS mg = some();
      const auto g = lib<PD, P, R>(mg);
      if (R && mf.size() + mg.size() > 12) return;
      const double s = plane(c);
      const size_t i = c.draw(2);
      const Q pos = i ? Q(s) + (Q(1.) - Q(s)) * Q(t[dir]) : Q(s) * Q(t[dir]);
      auto x = q(t);
      x[dir] = Q{pos.v, 1 + pos.v};
      const auto fs = f.SplitAtPosition(s, dir)[i], gs = g.SplitAtPosition(s, dir)[i];
      const V a = ref::eval(mf, x), b = ref::eval(mg, x);
      sides((f + g).SplitAtPosition(s, dir)[i], fs + gs, t, a + b, w + " (sum)", 1 << 19);
      sides((f * g).SplitAtPosition(s, dir)[i], fs * gs, t, times(a, b), w + " (product)", 1 << 19);
    }
  }
  check_same(f, mf, w + ": operand");
}
void property(Case& c) {
  quiet();
  const bool r = c.chance(1, 2);
#ifdef PBT_HIGH
  if (c.chance(1, 2))
    return r ? run<3, Pt<4>, true, Pt<3>>(c) : run<3, Pt<4>, false, Pt<3>>(c);
  return r ? run<3, double, true, Pt<3>>(c) : run<3, double, false, Pt<3>>(c);
#endif
  switch (c.draw(3)) {
    case 0:
      return r ? run<1, double, true, double>(c) : run<1, double, false, double>(c);
    case 1:
      return r ? run<1, Pt<2>, true, Pt<1>>(c) : run<1, Pt<2>, false, Pt<1>>(c);
    default:
      return r ? run<2, Pt<3>, true, Pt<2>>(c) : run<2, Pt<3>, false, Pt<2>>(c);
  }
}
