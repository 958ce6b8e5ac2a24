// C15: corners, fitting into the unit cube, transposing and scaling
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "polynomial or rational spline (dimension 1-6, one-point, flat and negative "
    "ones included): corners against the extremes of the control points, values "
    "between the corners, unit-cube test against its definition; polynomial "
    "ones are then fitted, or transposed and scaled (arguments also taken from "
    "the own control points), once or repeatedly; non-trivial: more than one "
    "control point and some coordinate with extent";

template <size_t PD, class P, bool R>
void run(Case& c) {
  auto r = spline(c, shape(c, PD, 20, 60, 12, 5000), ncoord<P>(), R);
  // flat coordinates, also in the middle of others with extent
  for (size_t k = 0; k < r.nc; k++)
    if (c.chance(1, 5)) {
      const double x = number(c);
      for (size_t i = 0; i < r.size(); i++)
        r.at(i, k) = Q(R ? x * ref::dbl(r.w[i]) : x);
      c.label("flat coordinate");
    }
  // values on either side of zero only
  if (c.chance(1, 4)) {
    const double s = c.chance(1, 2) ? 1 : -1;
    for (auto& x : r.cp) x = Q(s * std::abs(ref::dbl(x)));
    c.label(s > 0 ? "no negative coordinate" : "no positive coordinate");
  }
  // an extent whose square is not representable
  if (!R && c.chance(1, 12)) {
    const size_t k = c.draw(r.nc);
    int most = -2000;
    for (size_t i = 0; i < r.size(); i++) {
      int e = -2000;
      if (r.at(i, k).v != 0) std::frexp(ref::dbl(r.at(i, k)), &e);
      most = std::max(most, e);
    }
    if (most > -2000) {
      const int to = -static_cast<int>(c.range(540, 960));
      double low = 1, high = -1;
      for (size_t i = 0; i < r.size(); i++) {
        const double x = std::ldexp(ref::dbl(r.at(i, k)), to - most);
        r.at(i, k) = Q(x);
        low = i ? std::min(low, x) : x;
        high = i ? std::max(high, x) : x;
      }
      if (high - low < 0x1p-1010)
        for (size_t i = 0; i < r.size(); i++) r.at(i, k) = Q(low);
      c.label("tiny extent");
    }
  }
  describe(c, r);
  c.note(text(r));
  auto s = lib<PD, P, R>(r);
  const auto projected = [&](size_t i, size_t k) {
    return R ? r.at(i, k) / r.w[i] : r.at(i, k);
  };
  vector<Q> lo(r.nc), hi(r.nc);
  const auto extremes = [&] {
    for (size_t k = 0; k < r.nc; k++) {
      lo[k] = hi[k] = projected(0, k);
      for (size_t i = 1; i < r.size(); i++) {
        const Q x = projected(i, k);
        if (x.v < lo[k].v) lo[k] = x;
        if (x.v > hi[k].v) hi[k] = x;
      }
    }
  };
  extremes();
  for (size_t k = 0; k < r.nc; k++)
    if (hi[k].v > lo[k].v && r.size() > 1) c.nontrivial();
  const auto check_corners = [&](const std::string& what) {
    auto mx = s.MaximumCorner(), mn = s.MinimumCorner();
    bool fits = true;
    for (size_t k = 0; k < r.nc; k++) {
      if (R) {
        PBT_CHECK(ref::near(coord(mx, k), hi[k], 16), what, ": maximum of coordinate ",
                  k, " is ", coord(mx, k), " instead of ", ref::dbl(hi[k]));
        PBT_CHECK(ref::near(coord(mn, k), lo[k], 16), what, ": minimum of coordinate ",
                  k, " is ", coord(mn, k), " instead of ", ref::dbl(lo[k]));
      } else {
        PBT_CHECK(coord(mx, k) == ref::dbl(hi[k]), what, ": maximum of coordinate ",
                  k, " is ", coord(mx, k), " instead of ", ref::dbl(hi[k]));
        PBT_CHECK(coord(mn, k) == ref::dbl(lo[k]), what, ": minimum of coordinate ",
                  k, " is ", coord(mn, k), " instead of ", ref::dbl(lo[k]));
      }
      fits = fits && coord(mn, k) >= 0 && coord(mx, k) <= 1;
    }
    PBT_CHECK(s.FitsIntoUnitCube() == fits, what, ": FitsIntoUnitCube is ", !fits);
    const auto t = params(c, PD);
    c.note("at ", text(t));
    auto v = s.Evaluate(pt<PD>(t));
    for (size_t k = 0; k < r.nc; k++) {
      const double slack =
          2048 * 0x1p-53 * std::max(std::abs(coord(mx, k)), std::abs(coord(mn, k)));
      PBT_CHECK(coord(v, k) <= coord(mx, k) + slack &&
                    coord(v, k) >= coord(mn, k) - slack,
                what, ": the value ", coord(v, k), " of coordinate ", k, " at ",
                text(t), " is outside ", coord(mn, k), " .. ", coord(mx, k));
    }
  };
  check_corners("spline");
  check_same(s, r, "spline after queries");
  if constexpr (!R) {
    for (size_t step = c.draw(4); step-- > 0;) {
      RS want = r;
      std::string what;
      if (c.chance(1, 2)) {
        c.label("fit");
        what = "fitted spline";
        for (size_t i = 0; i < r.size(); i++)
          for (size_t k = 0; k < r.nc; k++) {
            want.at(i, k) = r.at(i, k) - lo[k];
            if (hi[k].v > lo[k].v) {
              const Q extent{hi[k].v - lo[k].v, hi[k].v - lo[k].v};
              want.at(i, k) = want.at(i, k) / extent;
            }
          }
        auto& back = s.FitIntoUnitCube();
        PBT_CHECK(&back == &s, "FitIntoUnitCube does not return the spline");
        PBT_CHECK(s.FitsIntoUnitCube(), "a spline that was fitted into the unit ",
                  "cube does not fit: ", text(read(s)));
        const auto got = read(s);
        for (size_t k = 0; k < r.nc; k++) {
          // the extremes are mapped onto the faces of the cube
          double a = 2, b = -2;
          for (size_t i = 0; i < r.size(); i++) {
            a = std::min(a, ref::dbl(got.at(i, k)));
            b = std::max(b, ref::dbl(got.at(i, k)));
          }
          PBT_CHECK(a >= 0 && a <= 0x1p-40, "minimum of the fitted coordinate ", k,
                    " is ", a);
          if (hi[k].v > lo[k].v)
            PBT_CHECK(b <= 1 && b >= 1 - 0x1p-40, "maximum of the fitted coordinate ",
                      k, " is ", b);
        }
      } else {
        what = "transposed and scaled spline";
        c.label("transpose and scale");
        P shift{}, stretch{};
        const size_t from = c.draw(r.size()), to = c.draw(r.size());
        const bool own_shift = c.chance(1, 4), own_stretch = c.chance(1, 4);
        for (size_t k = 0; k < r.nc; k++) {
          coord(shift, k) = own_shift ? ref::dbl(r.at(from, k)) : number(c);
          coord(stretch, k) = own_stretch ? ref::dbl(r.at(to, k))
                              : c.chance(1, 4) ? static_cast<double>(c.around(2))
                                               : number(c);
        }
        if (own_shift || own_stretch) c.label("arguments from the spline");
        for (size_t i = 0; i < r.size(); i++)
          for (size_t k = 0; k < r.nc; k++)
            want.at(i, k) =
                (Q(coord(shift, k)) + r.at(i, k)) * Q(coord(stretch, k));
        const auto f = gen::arr<PD>(ref::multi_index(r.deg, from)),
                   g = gen::arr<PD>(ref::multi_index(r.deg, to));
        auto& back = s.TransposeAndScale(own_shift ? s.ControlPoint(f) : shift,
                                         own_stretch ? s.ControlPoint(g) : stretch);
        PBT_CHECK(&back == &s, "TransposeAndScale does not return the spline");
      }
      check_poly<PD, P>(s, want, what);
      r = read(s);
      for (auto& x : r.cp)
        if (!(std::abs(ref::dbl(x)) < 1e60) ||
            (x.v != 0 && std::abs(ref::dbl(x)) < 1e-60))
          return;
      extremes();
      check_corners(what);
    }
  }
}

void property(Case& c) {
  quiet();
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<1>>, Kind<3, Pt<3>>>(c, [&](auto k) {
    if (c.chance(1, 3))
      run<decltype(k)::pd, typename decltype(k)::P_, true>(c);
    else
      run<decltype(k)::pd, typename decltype(k)::P_, false>(c);
  });
}
