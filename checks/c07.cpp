// C07: splitting
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "a spline per case (polynomial or rational, parametric dimension 1-6), "
    "split at 0-7 (rarely up to 300) increasing planes along a random direction (also planes one "
    "ulp apart or next to 0 and 1), every piece against the blossom; every "
    "fifth case asks for planes outside (0,1) or unsorted; non-trivial: >= 2 "
    "planes and degree >= 1 in the direction";

double inner_plane(Case& c) {
  double x = 0;
  switch (c.draw(6)) {
    case 0:
      x = .5;
      break;
    case 1:
      x = static_cast<double>(c.range(1, 15)) / 16;
      break;
    case 2:
      x = std::pow(10., -static_cast<double>(c.range(1, 17)));
      break;
    case 3:
      x = 1 - std::pow(10., -static_cast<double>(c.range(1, 16)));
      break;
    default:
      x = unit53(c);
  }
  if (x <= 0) x = .25;
  if (x >= 1) x = .75;
  return x;
}

template <size_t PD, class P, bool R>
void run(Case& c) {
  const bool many = c.chance(1, 500);  // many planes
  auto deg = many ? degrees(c, PD, 6, 30) : shape(c, PD, 20, 100, 3, 0, 60);
  const auto r = spline(c, deg, ncoord<P>(), R);
  describe(c, r);
  c.label(R ? "rational" : "polynomial");
  c.note(text(r));
  const auto s = lib<PD, P, R>(r);
  const size_t dir = c.draw(PD);
  vector<double> planes;
  const size_t n = many ? 8 + c.draw(300) : c.draw(8);
  for (size_t i = 0; i < n; i++) {
    double x = inner_plane(c);
    if (!planes.empty() && c.chance(1, 4))
      x = c.chance(1, 2) ? std::nextafter(planes.back(), 1.)
                         : planes.back() * (1 + 1e-9);
    if (x > 0 && x < 1) planes.push_back(x);
  }
  std::sort(planes.begin(), planes.end());
  planes.erase(std::unique(planes.begin(), planes.end()), planes.end());
  c.label(planes.size() > 7 ? "planes >7" : pbt::str("planes ", planes.size()));

  if (c.chance(1, 5)) {
    // invalid requests
    auto bad = planes;
    const int kind = static_cast<int>(c.draw(3));
    if (kind == 0 && bad.size() >= 2 && bad.front() != bad.back()) {
      const size_t i = c.draw(bad.size() - 1);
      std::swap(bad[i], bad[i + 1]);
    } else {
      const double out[] = {1., 0., -1e-300, std::nextafter(1., 2.), -0.5, 1.5,
                            -0.0, 1e300, -std::numeric_limits<double>::infinity(),
                            std::numeric_limits<double>::quiet_NaN()};
      const double x = out[c.draw(kind == 1 ? 9 : 10)];
      bad.push_back(x);
      if (x == x)
        std::sort(bad.begin(), bad.end());
      else
        bad = {x};
    }
    c.note("invalid planes ", text(bad), " along ", dir);
    c.label("invalid");
    bool thrown = false;
    try {
      auto g = s.SplitAtPosition(bad, dir);
    } catch (const std::exception&) {
      thrown = true;
    }
    PBT_CHECK(thrown, "planes ", text(bad), " are not rejected");
    if (bad.size() == 1) {
      thrown = false;
      try {
        auto g = s.SplitAtPosition(bad[0], dir);
      } catch (const std::exception&) {
        thrown = true;
      }
      PBT_CHECK(thrown, "plane ", bad[0], " is not rejected");
    }
    check_same(s, r, "spline after a rejected split");
  }

  c.note("planes ", text(planes), " along ", dir);
  if (planes.size() >= 2 && deg[dir] >= 1) c.nontrivial();
  auto pieces = s.SplitAtPosition(planes, dir);
  if (planes.size() == 1 && c.chance(1, 2)) {
    pieces = dir == 0 && c.chance(1, 2) ? s.SplitAtPosition(planes[0])
                                        : s.SplitAtPosition(planes[0], dir);
    c.label("single plane overload");
  } else if (dir == 0 && c.chance(1, 4)) {
    pieces = s.SplitAtPosition(planes);
  }
  check_same(s, r, "spline after the split");
  PBT_CHECK(pieces.size() == planes.size() + 1, "split at ", planes.size(),
            " planes returns ", pieces.size(), " pieces");
  for (size_t i = 0; i < pieces.size(); i++) {
    const double a = i == 0 ? 0 : planes[i - 1];
    const double b = i == planes.size() ? 1 : planes[i];
    const RS want = ref::split(r, dir, Q(a), Q(b));
    check_spline(pieces[i], want,
                 pbt::str("piece ", i, " of [", a, ", ", b, "] along ", dir));
    if (planes.empty()) check_same(pieces[0], r, "piece of an empty list");
    if (c.chance(1, 4)) {
      auto t = params(c, PD);
      const auto got = pieces[i].Evaluate(pt<PD>(t));
      vector<Q> at = toq(t);
      at[dir] = Q(a) + Q(t[dir]) * (Q(b) - Q(a));
      // rounding of the split position moves points by the size of the line
      auto v = ref::eval(r, at, false);
      const auto w = ref::eval(want, toq(t));
      for (size_t k = 0; k < v.size(); k++)
        v[k].m = std::max(v[k].m, w[k].m);
      check_value(got, v, pbt::str("value of piece ", i, " at ", text(t)));
    }
  }
}

void property(Case& c) {
  quiet();
  const bool rational = c.chance(1, 2);
  pick<Kind<1, double>, Kind<1, Pt<2>>, Kind<2, double>, Kind<2, Pt<3>>,
       Kind<3, Pt<2>>, Kind<4, Pt<1>>>(c, [&](auto k) {
    constexpr size_t pd = decltype(k)::pd;
    using P = typename decltype(k)::P_;
    if (rational)
      run<pd, P, true>(c);
    else
      run<pd, P, false>(c);
  });
}
