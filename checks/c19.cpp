// C19: nested automatic differentiation
#include "ad.hpp"
using namespace ad;

const char* const kRule =
    "a program of up to 20 operations (as for first order) over 1-6 variables "
    "of nested type (outer number of derivatives fixed or given at run time), "
    "seeded in both levels or independently; every operation is compared in "
    "value, both gradients and the matrix of second derivatives with the exact "
    "rule applied to its operands; non-trivial: 3 non-linear operations";

template <size_t N, size_t M, bool Dynamic>
void run(Case& c) {
  using I = AD<double, M>;
  using T = AD<I, Dynamic ? 0 : N>;
  Program<T, I> p{c, {}, {}, N, M, {}};
  const auto outer = [&](const I& x, long i) {
    if constexpr (Dynamic)
      return i < 0 ? T(x, N) : T(x, N, static_cast<size_t>(i));
    else
      return i < 0 ? T(x) : T(x, static_cast<size_t>(i));
  };
  const auto scalar = [&](L number, Jet& j) {
    const double x = static_cast<double>(number);
    j.v = Q(x);
    for (auto& h : j.h) h = Q(0.);
    if (c.chance(1, 3)) {
      // a scalar that depends on an inner variable
      const size_t a = c.draw(M);
      j.h[a] = Q(1.);
      return I(x, a);
    }
    return I(x);
  };
  const bool together = N == M && c.chance(3, 4);
  c.label(together ? "seeded in both levels" : "seeded independently");
  for (size_t i = 0; i < std::max(N, M); i++) {
    const double x = plain(c);
    const long o = together || i < N ? static_cast<long>(i) : -1;
    const size_t in = together ? i : c.draw(M);
    const bool inner_active = together || c.chance(3, 4);
    const T v = outer(inner_active ? I(x, in) : I(x), o);
    Jet want(Q(x), N, M);
    if (o >= 0) want.g[static_cast<size_t>(o)] = Q(1.);
    if (inner_active) want.h[in] = Q(1.);
    PBT_CHECK(identical(read(v), want), "variable ", i, " is ", text(read(v)),
              " instead of ", text(want));
    c.note("variable ", text(want));
    p.add(v);
  }
  {
    const double x = plain(c);
    const T v = outer(I(x), -1);
    PBT_CHECK(identical(read(v), Jet(Q(x), N, M)), "constant is ", text(read(v)));
    p.add(v);
  }
  const size_t steps = 1 + c.draw(20);
  for (size_t k = 0; k < steps; k++) {
    p.step(scalar);
    if (c.chance(1, 20)) {
      const size_t i = p.pick(), a = c.draw(N);
      p.pool[i].SetActiveComponent(a);
      Jet want(p.state[i].v, N, M);
      want.h = p.state[i].h;
      want.g[a] = Q(1.);
      PBT_CHECK(identical(read(p.pool[i]), want), "activated variable is ",
                text(read(p.pool[i])), " instead of ", text(want));
      p.state[i] = want;
      c.label("activate");
    }
    if constexpr (!Dynamic) {
      if (c.chance(1, 10)) {  // plain numbers on the right, assignment of scalars
        const size_t i = p.pick();
        const double x = plain(c);
        if (std::abs(x) > 1e-3) {
          Jet js(Q(x), N, M);
          const int op = static_cast<int>(c.draw(4));
          const Jet want = apply(binary(op, ref::dbl(p.state[i].v), x), p.state[i], js);
          if (moderate(want)) {
            const T& a = p.pool[i];
            const T r = op == kAdd ? a + x : op == kSub ? a - x : op == kMul ? a * x : a / x;
            const std::string what = pbt::str("(", text(p.state[i]), ") ",
                                              kBinaryName[op], " ", x);
            judge(read(r), want, what);
            p.store(r, what);
            c.label("plain number");
          }
        }
        T z = p.pool[i];
        z = x;
        PBT_CHECK(identical(read(z), Jet(Q(x), N, M)), "assigned number ", x,
                  " gives ", text(read(z)));
      }
    }
  }
  if (p.mixing >= 3) c.nontrivial();
  c.label(Dynamic ? "outer run-time number" : "outer fixed number");
}

void property(Case& c) {
  switch (c.draw(9)) {
    case 0: return run<1, 1, false>(c);
    case 1: return run<2, 2, false>(c);
    case 2: return run<3, 3, false>(c);
    case 3: return run<2, 1, false>(c);
    case 4: return run<1, 3, false>(c);
    case 5: return run<2, 2, true>(c);
    case 6: return run<5, 4, false>(c);
    case 7: return run<4, 6, true>(c);
    default: return run<3, 1, true>(c);
  }
}
