// C16: indexing and accessors
#include <utility>

#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "a history of up to 12 steps on two splines of one type (polynomial or "
    "rational, dimension 1-5, up to 3000, rarely 80000 control points): constructions, copies, "
    "assignments, swaps, degree updates, writes through every accessor, "
    "elevations and sums; after every step all accessors are compared for all "
    "(or 60 random) control points with a model that keeps the flat lists; "
    "non-trivial: dimension >= 2, two different positive degrees, at least one "
    "write and one change of the degrees";

struct Model {
  vector<size_t> deg;  // empty: default constructed
  size_t size() const {
    size_t n = 1;
    for (auto d : deg) n *= d + 1;
    return deg.empty() ? 0 : n;
  }
};

/// Variadic calls with mixed index types
template <class F, size_t... I>
decltype(auto) variadic(F f, const vector<size_t>& m, std::index_sequence<I...>,
                        bool mixed) {
  if (mixed)
    return f(static_cast<std::conditional_t<I % 3 == 0, int,
                             std::conditional_t<I % 3 == 1, size_t, unsigned>>>(
        m[I])...);
  return f(static_cast<
           std::conditional_t<I % 2 == 0, size_t, int>>(m[I])...);
}

template <size_t PD, class P, bool R>
struct Run {
  using S = std::conditional_t<R, Rat<PD, P>, Poly<PD, P>>;
  using Ix = std::make_index_sequence<PD>;
  Case& c;
  S s[2];
  vector<size_t> deg[2];       // empty: no control points
  vector<vector<double>> cp[2];  // numerator
  vector<double> w[2];
  bool wrote{false}, changed{false};

  vector<size_t> some_degrees(bool small) {
    if (small) return degrees(c, PD, 6, 60);
    if (c.chance(1, 40)) {
      // more than 16 bit of control points
      c.label("points>65536 possible");
      vector<size_t> d(PD, 0);
      const size_t n = 60000 + c.draw(20000), dir = c.draw(PD);
      const size_t other = PD > 1 ? (dir + 1 + c.draw(PD - 1)) % PD : dir;
      if (other != dir) d[other] = c.draw(300);
      d[dir] = n / (d[other] + 1);
      return d;
    }
    return degrees(c, PD, 200, c.chance(1, 4) ? 3000 : 200);
  }
  static size_t count(const vector<size_t>& d) {
    size_t n = 1;
    for (auto x : d) n *= x + 1;
    return n;
  }
  static const auto& flat(const S& x) {
    if constexpr (R)
      return x.GetWeightedControlPoints();
    else
      return x.GetControlPoints();
  }
  static auto& flat(S& x) {
    if constexpr (R)
      return x.GetWeightedControlPoints();
    else
      return x.GetControlPoints();
  }
  static bool equal(const P& p, const vector<double>& v) {
    for (size_t k = 0; k < ncoord<P>(); k++)
      if (!(coord(p, k) == v[k])) return false;
    return true;
  }
  void adopt(int a) {  // take over the content as it is
    deg[a] = vec(std::as_const(s[a]).GetDegrees());
    cp[a].clear();
    w[a].clear();
    for (const auto& p : flat(std::as_const(s[a]))) {
      vector<double> v;
      for (size_t k = 0; k < ncoord<P>(); k++) v.push_back(coord(p, k));
      cp[a].push_back(v);
    }
    if constexpr (R) w[a] = std::as_const(s[a]).GetWeights();
  }
  void check(int a, const std::string& what) {
    const S& x = s[a];
    S& y = s[a];
    const size_t n = deg[a].empty() ? 0 : count(deg[a]);
    PBT_CHECK(x.GetNumberOfControlPoints() == n, what, ": ",
              x.GetNumberOfControlPoints(), " control points instead of ", n);
    PBT_CHECK(flat(x).size() == n, what, ": flat list of ", flat(x).size(),
              " instead of ", n);
    if constexpr (R)
      PBT_CHECK(x.GetWeights().size() == n, what, ": weight list of ",
                x.GetWeights().size(), " instead of ", n);
    if (n == 0) return;
    PBT_CHECK(vec(x.GetDegrees()) == deg[a] && vec(y.GetDegrees()) == deg[a],
              what, ": degrees ", text(vec(x.GetDegrees())), " instead of ",
              text(deg[a]));
    if constexpr (R) {
      PBT_CHECK(vec(x.GetNumeratorSpline().GetDegrees()) == deg[a] &&
                    vec(x.GetWeightFunctionSpline().GetDegrees()) == deg[a] &&
                    x.GetNumeratorSpline().GetNumberOfControlPoints() == n &&
                    x.GetWeightFunctionSpline().GetNumberOfControlPoints() == n,
                what, ": numerator and weight function have other degrees");
    }
    const bool all = n <= 60;
    for (size_t q = 0; q < (all ? n : 40); q++) {
      const size_t i = all ? q : q == 0 ? n - 1 : c.draw(n);
      const auto m = ref::multi_index(deg[a], i);
      const auto g = arr<PD>(m);
      const std::string at = pbt::str(what, ", degrees ", text(deg[a]), ", index ",
                                      text(m), " (position ", i, "): ");
      const auto maps = [&](const auto& z, const char* part) {
        const auto back = vec(z.LocalToGlobalIndex(i));
        PBT_CHECK(back == m, at, "position is mapped to ", text(back), part);
        PBT_CHECK(z.GlobalToLocalIndex(g) == i, at, "index is mapped to ",
                  z.GlobalToLocalIndex(g), part);
      };
      maps(x, "");
      if constexpr (R) {
        maps(x.GetNumeratorSpline(), " (numerator)");
        maps(x.GetWeightFunctionSpline(), " (weight function)");
      }
      PBT_CHECK(equal(flat(x)[i], cp[a][i]), at, "wrong entry of the flat list");
      if constexpr (R) {
        PBT_CHECK(&x.WeightedControlPoint(g) == &flat(x)[i], at,
                  "WeightedControlPoint(array) const is another point");
        PBT_CHECK(&y.WeightedControlPoint(g) == &flat(x)[i], at,
                  "WeightedControlPoint(array) is another point");
        PBT_CHECK(&x.Weight(g) == &x.GetWeights()[i], at,
                  "Weight(array) const is another weight");
        PBT_CHECK(&y.Weight(g) == &x.GetWeights()[i], at,
                  "Weight(array) is another weight");
        PBT_CHECK(x.GetWeights()[i] == w[a][i], at, "weight is ",
                  x.GetWeights()[i], " instead of ", w[a][i]);
        const bool mixed = i % 2;
        PBT_CHECK(variadic([&](auto... j) { return &x.WeightedControlPoint(j...); },
                           m, Ix{}, mixed) == &flat(x)[i],
                  at, "WeightedControlPoint(indices) const is another point");
        PBT_CHECK(variadic([&](auto... j) { return &y.WeightedControlPoint(j...); },
                           m, Ix{}, mixed) == &flat(x)[i],
                  at, "WeightedControlPoint(indices) is another point");
        PBT_CHECK(variadic([&](auto... j) { return &x.Weight(j...); }, m, Ix{},
                           mixed) == &x.GetWeights()[i],
                  at, "Weight(indices) const is another weight");
        PBT_CHECK(variadic([&](auto... j) { return &y.Weight(j...); }, m, Ix{},
                           mixed) == &x.GetWeights()[i],
                  at, "Weight(indices) is another weight");
        PBT_CHECK(&x.GetNumeratorSpline().ControlPoint(g) == &flat(x)[i], at,
                  "the numerator spline has another point");
        PBT_CHECK(&x.GetWeightFunctionSpline().ControlPoint(g) ==
                      &x.GetWeights()[i],
                  at, "the weight function has another weight");
        if (w[a][i] != 0) {
          vector<Q> want;
          for (auto v : cp[a][i]) want.push_back(Q(v) / Q(w[a][i]));
          check_value(x.ControlPoint(g), want, at + "ControlPoint(array)", 16);
          check_value(variadic([&](auto... j) { return x.ControlPoint(j...); }, m,
                               Ix{}, mixed),
                      want, at + "ControlPoint(indices)", 16);
        }
      } else {
        PBT_CHECK(&x.ControlPoint(g) == &flat(x)[i], at,
                  "ControlPoint(array) const is another point");
        PBT_CHECK(&y.ControlPoint(g) == &flat(x)[i], at,
                  "ControlPoint(array) is another point");
        const bool mixed = i % 2;
        PBT_CHECK(variadic([&](auto... j) { return &x.ControlPoint(j...); }, m,
                           Ix{}, mixed) == &flat(x)[i],
                  at, "ControlPoint(indices) const is another point");
        PBT_CHECK(variadic([&](auto... j) { return &y.ControlPoint(j...); }, m,
                           Ix{}, mixed) == &flat(x)[i],
                  at, "ControlPoint(indices) is another point");
        PBT_CHECK(&flat(y)[i] == &flat(x)[i], at, "flat lists differ");
        PBT_CHECK(&x.control_points[i] == &flat(x)[i], at, "flat lists differ");
      }
    }
  }
  P random_point(vector<double>& v) {
    P p{};
    v.clear();
    for (size_t k = 0; k < ncoord<P>(); k++) {
      coord(p, k) = static_cast<double>(c.around(1000)) / 8;
      v.push_back(coord(p, k));
    }
    return p;
  }
  void construct(int a, bool small) {
    const auto d = some_degrees(small);
    const size_t n = count(d);
    vector<P> p(n);
    vector<vector<double>> v(n);
    vector<double> weights(n, 1.);
    const double x0 = static_cast<double>(c.around(9));
    for (size_t i = 0; i < n; i++)
      for (size_t k = 0; k < ncoord<P>(); k++) {
        coord(p[i], k) = x0 + static_cast<double>(i) + static_cast<double>(k) / 4;
        v[i].push_back(coord(p[i], k));
      }
    for (size_t i = 0; i < n; i++) weights[i] = static_cast<double>(1 + i % 7) / 4;
    changed = changed || (!deg[a].empty() && d != deg[a]);
    const int kind = static_cast<int>(c.draw(R ? 4 : 3));
    c.note("spline ", a, ": construct kind ", kind, " degrees ", text(d));
    if constexpr (R) {
      if (kind == 0) {
        s[a] = S(arr<PD>(d), p, weights);
        for (size_t i = 0; i < n; i++)
          for (auto& x : v[i]) x *= weights[i];
      } else if (kind == 1) {
        s[a] = S(Poly<PD, P>(arr<PD>(d), p), Poly<PD, double>(arr<PD>(d), weights));
      } else if (kind == 2) {
        s[a] = S(Poly<PD, P>(arr<PD>(d), p));
        weights.assign(n, 1.);
      } else {
        s[a] = S(arr<PD>(d));
        adopt(a);
        deg[a] = d;
        return;
      }
    } else {
      if (kind == 0) {
        s[a] = S(arr<PD>(d), p);
      } else if (kind == 1) {
        s[a] = S(arr<PD>(d));
        PBT_CHECK(flat(s[a]).size() == n, "spline of degrees ", text(d), " has ",
                  flat(s[a]).size(), " control points");
        flat(s[a]) = p;
      } else {
        const S z(arr<PD>(d), p);
        s[a] = S(z);
      }
    }
    deg[a] = d;
    cp[a] = v;
    w[a] = weights;
  }
  void write(int a) {
    const size_t i = c.draw(cp[a].size());
    const auto m = ref::multi_index(deg[a], i);
    const auto g = arr<PD>(m);
    const int how = static_cast<int>(c.draw(R ? 6 : 4));
    c.note("spline ", a, ": write ", text(m), " by accessor ", how);
    vector<double> v;
    const P p = random_point(v);
    const double x = static_cast<double>(c.range(1, 40)) / 4;
    wrote = true;
    if constexpr (R) {
      switch (how) {
        case 0: s[a].WeightedControlPoint(g) = p; break;
        case 1:
          variadic([&](auto... j) { return &s[a].WeightedControlPoint(j...); }, m,
                   Ix{}, false)[0] = p;
          break;
        case 2: s[a].GetWeightedControlPoints()[i] = p; break;
        case 3: s[a].Weight(g) = x; break;
        case 4:
          variadic([&](auto... j) { return &s[a].Weight(j...); }, m, Ix{},
                   false)[0] = x;
          break;
        default: s[a].GetWeights()[i] = x;
      }
      if (how < 3) cp[a][i] = v;
      else w[a][i] = x;
    } else {
      switch (how) {
        case 0: s[a].ControlPoint(g) = p; break;
        case 1:
          variadic([&](auto... j) { return &s[a].ControlPoint(j...); }, m, Ix{},
                   false)[0] = p;
          break;
        case 2: s[a].GetControlPoints()[i] = p; break;
        default: s[a].control_points[i] = p;
      }
      cp[a][i] = v;
    }
  }
  void operator()() {
    const bool small = !c.chance(1, 5);
    check(0, "default constructed spline");
    const size_t steps = 1 + c.draw(12);
    for (size_t k = 0; k < steps; k++) {
      const int a = static_cast<int>(c.draw(2)), b = 1 - a;
      const int op = k == 0 ? 0 : static_cast<int>(c.draw(10));
      std::string what = pbt::str("step ", k, " on spline ", a);
      switch (op) {
        case 0:
          construct(a, small);
          c.label("construct");
          break;
        case 1:
        case 2:
        case 3:
          if (deg[a].empty()) break;
          write(a);
          c.label("write");
          break;
        case 4: {
          const auto d = some_degrees(small);
          c.note("spline ", a, ": update degrees to ", text(d));
          changed = changed || (!deg[a].empty() && d != deg[a]);
          s[a].UpdateDegrees(arr<PD>(d));
          adopt(a);
          deg[a] = d;
          c.label("update degrees");
          break;
        }
        case 5:
          c.note("spline ", a, " = spline ", b);
          changed = changed || deg[a] != deg[b];
          s[a] = s[b];
          deg[a] = deg[b], cp[a] = cp[b], w[a] = w[b];
          c.label("assign");
          break;
        case 6: {
          c.note("swap");
          std::swap(s[0], s[1]);
          std::swap(deg[0], deg[1]);
          std::swap(cp[0], cp[1]);
          std::swap(w[0], w[1]);
          c.label("swap");
          break;
        }
        case 7: {
          c.note("spline ", a, ": assigned to itself and copied");
          S& self = s[a];
          s[a] = self;
          S copy(s[a]);
          if (!deg[a].empty()) {
            // writing to the copy
            flat(copy)[0] = flat(copy)[0] + flat(copy)[0];
            copy.UpdateDegrees(arr<PD>(vector<size_t>(PD, 1)));
          }
          c.label("copy");
          break;
        }
        case 8: {
          if (deg[a].empty() || !small) break;
          const size_t dir = c.draw(PD);
          if (deg[a][dir] > 8 || cp[a].size() > 200) break;
          c.note("spline ", a, ": elevate ", dir);
          s[a].OrderElevateAlongParametricDimension(dir);
          deg[a][dir]++;
          const auto d = deg[a];
          adopt(a);
          deg[a] = d;
          changed = true;
          c.label("elevate");
          break;
        }
        default: {
          if (deg[a].empty() || deg[b].empty() || !small) break;
          if constexpr (!R) {
            vector<size_t> d = deg[a];
            for (size_t i = 0; i < PD; i++) d[i] = std::max(d[i], deg[b][i]);
            if (count(d) > 300) break;
            c.note("spline ", a, " += spline ", b);
            s[a] += s[b];
            adopt(a);
            changed = changed || deg[a] != d;
            deg[a] = d;
            c.label("add");
          }
        }
      }
      check(a, what);
      check(b, what + ", the other spline");
    }
    size_t distinct = 0;
    std::set<size_t> seen;
    for (int a = 0; a < 2; a++)
      for (auto d : deg[a])
        if (d > 0) seen.insert(d);
    distinct = seen.size();
    c.label("pd" + std::to_string(PD));
    if (PD >= 2 && distinct >= 2 && wrote && changed) c.nontrivial();
  }
};

void property(Case& c) {
  quiet();
  pick<Kind<1, double>, Kind<2, Pt<2>>, Kind<2, double>, Kind<3, Pt<3>>,
       Kind<4, double>, Kind<5, Pt<1>>>(c, [&](auto k) {
    constexpr size_t PD = decltype(k)::pd;
    using P = typename decltype(k)::P_;
    if (c.chance(1, 2))
      Run<PD, P, true>{c, {}, {}, {}, {}}();
    else
      Run<PD, P, false>{c, {}, {}, {}, {}}();
  });
}
