// C27: invalid requests
#include <limits>

#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "a polynomial or rational spline (parametric dimension 1-3, scalar or "
    "vector-valued, degrees up to 12) and a history of 1-6 requests, each invalid "
    "or on the valid side of the same limit (split planes at and one ulp beside "
    "0 and 1, unsorted or partly outside lists, coordinate indices from the "
    "dimension up to 2^64-1, powers of vector-valued splines, corners / fits / "
    "compositions of splines without control points, inner splines leaving the "
    "unit cube by one ulp); all operands compared bit by bit after each request, "
    "then evaluated; non-trivial: at least two requests, one of them invalid";

/// The request throws a runtime error with a text
template <class F>
void refused(F f, const std::string& what) {
  std::string text;
  bool thrown = false;
  try {
    f();
  } catch (const std::runtime_error& e) {
    thrown = true;
    text = e.what();
  } catch (const std::exception& e) {
    pbt::fail(what + " throws another exception: " + e.what());
  }
  PBT_CHECK(thrown, what, " does not throw");
  PBT_CHECK(!text.empty(), what, " throws without a message");
}
template <class F>
auto accepted(F f, const std::string& what) {
  try {
    return f();
  } catch (const std::exception& e) {
    pbt::fail(what + " throws: " + e.what());
  }
}

template <size_t PD, class P, bool R>
struct Subject {
  using S = std::conditional_t<R, Rat<PD, P>, Poly<PD, P>>;
  RS model;
  S spline;

  void unchanged(const std::string& w) const { check_same(spline, model, w + ": spline"); }
  void usable(Case& c, const std::string& w) const {
    const auto t = params(c, PD);
    check_value(spline.Evaluate(pt<PD>(t)), ref::eval(model, toq(t)), w + ": afterwards at " + text(t));
  }
};

double outside(Case& c) {
  switch (c.draw(9)) {
    case 0:
      return 0;
    case 1:
      return 1;
    case 2:
      return std::nextafter(1., 2.);
    case 3:
      return -std::numeric_limits<double>::denorm_min();
    case 4:
      return -0.;
    case 5:
      return std::numeric_limits<double>::infinity() * (c.chance(1, 2) ? 1 : -1);
    case 6:
      return -unit53(c);
    case 7:
      return 1 + unit53(c);
    default:
      return (c.chance(1, 2) ? 1 : -1) * std::pow(10., static_cast<double>(c.range(1, 300)));
  }
}
double inside(Case& c) {
  switch (c.draw(6)) {
    case 0:
      return .5;
    case 1:
      return std::nextafter(1., 0.);
    case 2:
      return std::numeric_limits<double>::denorm_min();
    case 3:
      return std::pow(10., -static_cast<double>(c.range(1, 300)));
    default: {
      const double x = unit53(c);
      return x > 0 ? x : .25;
    }
  }
}

template <size_t PD, class P, bool R>
bool request(Case& c, Subject<PD, P, R>& x) {
  using S = typename Subject<PD, P, R>::S;
  constexpr size_t nc = ncoord<P>();
  const bool valid = c.chance(1, 3);
  const std::string v = valid ? "valid " : "invalid ";
  switch (c.draw(6)) {
    case 0: {
      // split at one plane
      const size_t dir = c.draw(PD);
      const double s = valid ? inside(c) : outside(c);
      const std::string w = pbt::str("split at ", s, " along ", dir);
      c.note(w);
      c.label(v + "split");
      if (!valid) {
        refused([&] { x.spline.SplitAtPosition(s, dir); }, w);
        if (dir == 0) refused([&] { x.spline.SplitAtPosition(s); }, w);
      } else {
        const auto got = accepted([&] { return x.spline.SplitAtPosition(s, dir); }, w);
        PBT_CHECK(got.size() == 2, w, " returns ", got.size(), " splines");
      }
      break;
    }
    case 1: {
      // split at a list of planes
      const size_t dir = c.draw(PD);
      vector<double> p;
      for (size_t n = 1 + c.draw(5); n-- > 0;) p.push_back(c.chance(1, 2) ? unit53(c) * .9 + .05 : static_cast<double>(c.range(1, 15)) / 16);
      std::sort(p.begin(), p.end());
      p.erase(std::unique(p.begin(), p.end()), p.end());
      if (valid) {
        if (c.chance(1, 4)) p.clear();
      } else {
        const size_t kind = c.draw(3);
        if (kind == 0 && p.size() > 1)
          // swap two of them
          for (;;) {
            const size_t a = c.draw(p.size() - 1);
            std::swap(p[a], p[a + 1]);
            break;
          }
        else if (kind == 1)
          p.push_back(std::max(1., outside(c)));
        else {
          double s = outside(c);
          if (s > 0) s = -s;
          p.insert(p.begin(), s);
        }
      }
      const std::string w = "split at " + text(p) + " along " + std::to_string(dir);
      c.note(w);
      c.label(v + "list of splits");
      if (!valid)
        refused([&] { x.spline.SplitAtPosition(p, dir); }, w);
      else {
        const auto got = accepted([&] { return x.spline.SplitAtPosition(p, dir); }, w);
        PBT_CHECK(got.size() == p.size() + 1, w, " returns ", got.size(), " splines");
      }
      break;
    }
    case 2: {
      // coordinates
      size_t k = 0;
      if (valid)
        k = c.draw(nc);
      else
        switch (c.draw(5)) {
          case 0:
            k = nc;
            break;
          case 1:
            k = nc + c.draw(8);
            break;
          case 2:
            k = ~size_t{0} - c.draw(3);
            break;
          case 3:
            k = (size_t{1} << c.range(5, 63)) + c.draw(nc);
            break;
          default:
            k = nc + c.draw(~size_t{0} - nc);
        }
      const std::string w = pbt::str("extraction of coordinate ", k, " of ", nc);
      c.note(w);
      c.label(v + "coordinate");
      if (!valid)
        refused([&] { x.spline.ExtractDimension(k); }, w);
      else {
        const auto got = accepted([&] { return x.spline.ExtractDimension(k); }, w);
        RS want;
        want.deg = x.model.deg;
        for (size_t i = 0; i < x.model.size(); i++) want.cp.push_back(x.model.at(i, k));
        check_same(got, want, w);
      }
      break;
    }
    case 3: {
      // powers
      if constexpr (!R) {
        if constexpr (nc > 1 || !std::is_arithmetic_v<P>) {
          const size_t k = c.chance(1, 4) ? c.draw(~size_t{0}) : c.draw(4);
          const std::string w = pbt::str("power ", k, " of a vector-valued spline");
          c.note(w);
          c.label("invalid power");
          refused([&] { x.spline.RaisePower(k); }, w);
        } else {
          size_t k = c.draw(5);
          for (auto d : x.model.deg)
            while (k > 1 && d * k >= MAX_BINOMIAL_DEGREE) k--;
          while (k > 1 && x.model.size() * k > 60) k--;
          const std::string w = pbt::str("power ", k, " of a scalar spline");
          c.note(w);
          c.label("valid power");
          accepted([&] { return x.spline.RaisePower(k); }, w);
          x.unchanged(w);
          return false;
        }
        break;
      }
      [[fallthrough]];
    }
    case 4: {
      // splines without control points
      S empty;
      if (c.chance(1, 3)) {
        S other = x.spline;
        other = empty;  // assigned
        empty = other;
      }
      const size_t op = c.draw(4);
      static const char* const names[] = {"maximum corner", "minimum corner", "unit cube test", "fit into unit cube"};
      const std::string w = std::string(names[op]) + (valid ? " of the spline" : " of a spline without control points");
      c.note(w);
      c.label(v + names[op]);
      const auto ask = [&](auto& s) {
        switch (op) {
          case 0:
            (void)s.MaximumCorner();
            break;
          case 1:
            (void)s.MinimumCorner();
            break;
          case 2:
            (void)s.FitsIntoUnitCube();
            break;
          default:
            if constexpr (R)
              (void)s.FitsIntoUnitCube();
            else
              (void)s.FitIntoUnitCube();
        }
        return 0;
      };
      if (valid) {
        auto copy = x.spline;
        accepted([&] { return ask(copy); }, w);
      } else {
        refused([&] { ask(empty); }, w);
        PBT_CHECK(empty.GetNumberOfControlPoints() == 0, w, " adds control points");
        for (auto d : empty.GetDegrees()) PBT_CHECK(d == 0, w, " changes the degrees");
        // the spline can be used
        empty = x.spline;
        check_same(empty, x.model, w + ": afterwards assigned spline");
        accepted([&] { return ask(empty); }, w + " (after assignment)");
      }
      break;
    }
    default: {
      // compositions: the inner spline may not leave the unit cube
      const bool ir = c.chance(1, 2);
      const size_t degree = 1 + c.draw(2);
      size_t sum = 0, outer_points = x.model.size();
      for (auto d : x.model.deg) sum += d;
      if (sum * degree >= MAX_BINOMIAL_DEGREE || outer_points > 40) return false;
      RS in = unit_spline(c, {degree}, PD, ir);
      double exact = 0;
      if (!valid) {
        const size_t i = c.draw(in.size()), k = c.draw(PD);
        exact = c.chance(1, 2) ? std::nextafter(1., 2.) : -std::numeric_limits<double>::min();
        if (c.chance(1, 2)) exact = outside(c);
        if (!(exact < 0 || exact > 1) || std::abs(exact) > 1e20) exact = 1.5;
        if (ir) {
          // powers of two: quotients stay exact
          const double f = std::ldexp(1., static_cast<int>(c.range(0, 4)));
          for (size_t d = 0; d < PD; d++) in.at(i, d) = Q(.25 * f);
          in.w[i] = Q(f);
          exact *= f;
        }
        in.at(i, k) = Q(exact);
      }
      const bool none = !valid && c.chance(1, 4);
      const std::string w = std::string(c.chance(1, 2) ? "composition" : "composition sensitivity");
      c.note(w, none ? " with an empty spline" : " with ", none ? std::string() : text(in));
      c.label(v + "inner spline");
      const auto ask = [&](const auto& inner) {
        if (w == "composition")
          (void)x.spline.Compose(inner);
        else
          (void)x.spline.ComposeSensitivity(inner);
        return 0;
      };
      const auto go = [&](auto inner) {
        if (valid)
          accepted([&] { return ask(inner); }, w);
        else if (none) {
          const decltype(inner) e;
          refused([&] { ask(e); }, w + " with a spline without control points");
        } else
          refused([&] { ask(inner); }, w + " with an inner spline outside of the unit cube");
        check_same(inner, in, w + ": inner spline");
      };
      using PI = std::conditional_t<PD == 1 && std::is_arithmetic_v<P>, double, Pt<PD>>;
      if (ir)
        go(rat<1, PI>(in));
      else
        go(poly<1, PI>(in));
    }
  }
  x.unchanged(v + "request");
  return !valid;
}

template <size_t PD, class P, bool R>
void run(Case& c) {
  Subject<PD, P, R> x;
  x.model = spline(c, degrees(c, PD, 12, 60), ncoord<P>(), R);
  x.spline = lib<PD, P, R>(x.model);
  describe(c, x.model);
  c.label(R ? "rational" : "polynomial");
  c.note(text(x.model));
  const size_t n = 1 + c.draw(6);
  size_t invalid = 0;
  for (size_t i = 0; i < n; i++) {
    invalid += request(c, x);
    if (c.chance(1, 2)) x.usable(c, "spline");
  }
  x.usable(c, "spline");
  if (n >= 2 && invalid) c.nontrivial();
}
void property(Case& c) {
  quiet();
  const bool r = c.chance(1, 2);
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, Pt<3>>, Kind<2, double>, Kind<3, Pt<1>>>(
      c, [&](auto k) {
        using K = decltype(k);
        if (r)
          run<K::pd, typename K::P_, true>(c);
        else
          run<K::pd, typename K::P_, false>(c);
      });
}
