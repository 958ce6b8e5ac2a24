// C18: first order automatic differentiation
#include "ad.hpp"
using namespace ad;

const char* const kRule =
    "a program of up to 24 operations (all arithmetic operators binary, in "
    "place, with scalars on either side and with the same operand twice, all "
    "supported functions, all comparisons, copies, moves) with 0-12, rarely up to "
    "1000 derivatives, fixed or run-time number, of float, double or long double; "
    "one in ten with the four basic operations on"
    " numbers of up to 1e280 (float: 1e36); every operation is compared with the exact "
    "rule applied to its operands, all other variables must stay as they are; "
    "non-trivial: at least one derivative and 3 non-linear operations";

template <class T, class Make>
void run(Case& c, size_t n, Make make) {
  using S = typename T::Scalar_;
  Program<T, S> p{c, {}, {}, n, 0, {}};
  p.extreme = c.chance(1, 10);
  if (p.extreme) c.label("extreme numbers");
  const auto scalar = [](L x, Jet& j) {
    j.v = exactly(x);
    return static_cast<S>(x);
  };
  c.label(sizeof(S) == 4 ? "float" : sizeof(S) == 8 ? "double" : "long double");
  // variables
  const size_t first = n > 6 ? c.draw(n - 3) : 0;  // only some of many variables
  for (size_t i = first; i < n && i < first + 6; i++) {
    const double x = p.plain();
    const T v = make(x, static_cast<long>(i));
    Jet want(Q(x), n, 0);
    want.g[i] = Q(1.);
    PBT_CHECK(identical(read(v), want), "variable ", i, " of value ", x, " is ",
              text(read(v)));
    PBT_CHECK(v.GetNumberOfDerivatives() == n, "number of derivatives is ",
              v.GetNumberOfDerivatives(), " instead of ", n);
    c.note("variable ", x);
    p.add(v);
  }
  {  // constant
    const double x = p.plain();
    const T v = make(x, -1);
    PBT_CHECK(identical(read(v), Jet(Q(x), n, 0)), "constant ", x, " is ",
              text(read(v)));
    c.note("constant ", x);
    p.add(v);
  }
  const size_t steps = 1 + c.draw(24);
  for (size_t k = 0; k < steps; k++) {
    p.step(scalar);
    if (c.chance(1, 20) && n > 0) {  // activation of a computed value
      const size_t i = p.pick(), a = c.draw(n);
      c.note("activate component ", a, " of ", text(p.state[i]));
      p.pool[i].SetActiveComponent(a);
      Jet want(p.state[i].v, n, 0);
      want.g[a] = Q(1.);
      PBT_CHECK(identical(read(p.pool[i]), want), "activated variable is ",
                text(read(p.pool[i])));
      p.state[i] = want;
      c.label("activate");
    }
    if (c.chance(1, 20)) {  // moves, assignment to itself, to a variable of another kind
      const size_t i = p.pick(), k2 = p.pick();
      const T& same = p.pool[i];
      p.pool[i] = same;
      p.unchanged(p.pool.size(), "assignment to itself");
      T other = make(2., n > 0 ? static_cast<long>(c.draw(n)) : -1), from(p.pool[k2]);
      if (c.chance(1, 2)) other = T();
      T moved(std::move(from));
      other = std::move(moved);
      PBT_CHECK(identical(read(other), p.state[k2]), "moved variable is ", text(read(other)));
      vector<T> list(c.draw(4), other);
      list.push_back(p.pool[i]);
      list.insert(list.begin(), p.pool[i]);
      for (size_t k = 0; k < list.size(); k++)
        PBT_CHECK(identical(read(list[k]), p.state[k == 0 || k + 1 == list.size() ? i : k2]), "entry ", k,
                  " of a list is ", text(read(list[k])));
      p.unchanged(p.pool.size(), "moves");
      c.label("move");
    }
    if (c.chance(1, 20)) {  // copies and assignments
      const size_t i = p.pick(), k2 = p.pick();
      if constexpr (std::is_constructible_v<T, S>) {  // plain numbers
        const double x = p.plain();
        const int whole = static_cast<int>(c.around(9));
        T z = p.pool[i];
        z = static_cast<S>(x);
        PBT_CHECK(identical(read(z), Jet(Q(x), n, 0)), "assigned number ", x, " gives ", text(read(z)));
        z = p.pool[i];
        z = whole;
        PBT_CHECK(identical(read(z), Jet(Q(static_cast<double>(whole)), n, 0)), "assigned number ", whole,
                  " gives ", text(read(z)));
        c.label("assign number");
      }
      T copy(p.pool[i]);
      PBT_CHECK(identical(read(copy), p.state[i]), "copy is ", text(read(copy)));
      copy += copy;
      p.pool[k2] = p.pool[i];
      p.state[k2] = p.state[i];
      p.unchanged(p.pool.size(), "assignment");
      std::ostringstream out, want;
      out << p.pool[i];
      want << static_cast<S>(p.state[i].v.v);
      PBT_CHECK(out.str() == want.str(), "printed as ", out.str(), " instead of ",
                want.str());
      c.label("assign");
    }
  }
  if (n > 0 && p.mixing >= 3) c.nontrivial();
  c.label(n > 6 ? "more than 6 derivatives" : "derivatives" + std::to_string(n));
}
template <size_t N, class S = double>
void fixed(Case& c) {
  c.label("fixed number");
  using T = AD<S, N>;
  run<T>(c, N, [&](double x, long i) {
    const S value = static_cast<S>(x);
    if (i >= 0) return T(value, static_cast<size_t>(i));
    if (c.chance(1, 2)) return T(value);
    T r;
    PBT_CHECK(identical(read(r), Jet(Q(0.), N, 0)), "default constructed value is ",
              text(read(r)));
    r = value;
    return r;
  });
}
template <class S = double>
void run_time(Case& c) {
  static const size_t many[] = {8, 16, 33, 70, 300, 1000};
  const size_t n = c.chance(1, 200) ? many[c.draw(6)] + c.draw(3) : c.draw(c.chance(1, 4) ? 12 : 5);
  c.label("run-time number");
  run<AD<S>>(c, n, [&](double x, long i) {
    const S value = static_cast<S>(x);
    if (i >= 0) return AD<S>(value, n, static_cast<size_t>(i));
    return AD<S>(value, n);
  });
}

void property(Case& c) {
  switch (c.draw(16)) {
    case 0: return fixed<1>(c);
    case 1: return fixed<2>(c);
    case 2: return fixed<3>(c);
    case 3: return fixed<5>(c);
    case 4: return fixed<4>(c);
    case 5: return fixed<8>(c);
    case 6: return c.chance(1, 8) ? fixed<20>(c) : fixed<6>(c);
    case 7: return fixed<2, float>(c);
    case 8: return fixed<3, long double>(c);
    case 9: return run_time<float>(c);
    case 10: return run_time<long double>(c);
    default: return run_time<double>(c);
  }
}
