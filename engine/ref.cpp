#include "ref.hpp"

#include <cstdlib>

namespace ref {
namespace {
struct Pascal {
  f128 c[640][640];
  Pascal() {
    for (int n = 0; n < 640; n++) {
      c[n][0] = c[n][n] = 1;
      for (int k = 1; k < n; k++) c[n][k] = c[n - 1][k - 1] + c[n - 1][k];
    }
  }
};
}  // namespace
f128 choose(size_t n, size_t k) {
  static const Pascal table;
  if (k > n) return 0;
  if (n >= 640) abort();
  return table.c[n][k];
}
f128 falling(size_t n, size_t k) {
  f128 r = 1;
  for (size_t i = 0; i < k; i++) r *= f128(n) - f128(i);
  return k > n ? 0 : r;
}
f128 ipow(f128 b, size_t e) {
  f128 r = 1;
  for (size_t i = 0; i < e; i++) r *= b;
  return r;
}

namespace {
f128 bern0(size_t p, size_t i, f128 t) {
  if (i > p) return 0;
  return choose(p, i) * ipow(t, i) * ipow(1 - t, p - i);
}
}  // namespace

Q bernstein(size_t p, size_t i, f128 t, size_t k, bool rounded) {
  if (k > p || i > p) return {};
  // d^k B_i^p = p!/(p-k)! sum_j (-1)^(k-j) C(k,j) B_{i-j}^{p-k}
  const f128 f = falling(p, k);
  Q r;
  for (size_t j = 0; j <= k && j <= i; j++) {
    if (i - j > p - k) continue;
    const f128 b = f * choose(k, j) * bern0(p - k, i - j, t);
    r.v += ((k - j) % 2) ? -b : b;
    r.m += absq(b);
    // t is a binary128 result with errors in the last digits; they are all that
    // is left of 1 - t next to t = 1
    if (rounded) {
      const f128 e = 0x1p-105;
      const f128 moved = f * choose(k, j) * choose(p - k, i - j) *
                         ipow(absq(t) + e * absq(t), i - j) *
                         ipow(absq(1 - t) + e, p - k - (i - j));
      r.m += 0x1p53 * (moved - absq(b));
    }
  }
  return r;
}

Q bernstein_inexact(size_t p, size_t i, const Q& t, size_t k) {
  Q r = bernstein(p, i, t.v, k);
  if (k + 1 <= p) r.m += t.m * bernstein(p, i, t.v, k + 1).m;
  // all that is left next to a multiple zero
  const f128 e = 16 * 0x1p-53 * t.m, f = falling(p, k);
  for (size_t j = 0; j <= k && j <= i; j++) {
    if (k > p || i - j > p - k) continue;
    r.m += f * choose(k, j) * choose(p - k, i - j) * (ipow(absq(t.v) + e, i - j) *
           ipow(absq(1 - t.v) + e, p - k - (i - j)) - ipow(absq(t.v), i - j) * ipow(absq(1 - t.v), p - k - (i - j))) * 0x1p53;
  }
  return r;
}

template <>
Q basis_1d(size_t p, size_t i, const Q& t, size_t k, bool exact) {
  return exact ? bernstein(p, i, t.v, k, t.m != absq(t.v)) : bernstein_inexact(p, i, t, k);
}
template <>
D basis_1d(size_t p, size_t i, const D& t, size_t k, bool exact) {
  return {basis_1d<Q>(p, i, t.v, k, exact),
          basis_1d<Q>(p, i, t.v, k + 1, exact) * t.d};
}

template <class T>
size_t Spline<T>::size() const {
  size_t n = 1;
  for (auto d : deg) n *= d + 1;
  return n;
}

vector<size_t> multi_index(const vector<size_t>& deg, size_t i) {
  vector<size_t> r(deg.size());
  for (size_t d = 0; d < deg.size(); d++) {
    r[d] = i % (deg[d] + 1);
    i /= deg[d] + 1;
  }
  return r;
}
size_t flat_index(const vector<size_t>& deg, const vector<size_t>& idx) {
  size_t r = 0;
  for (size_t d = deg.size(); d-- > 0;) r = r * (deg[d] + 1) + idx[d];
  return r;
}

template <class T>
vector<T> basis(const vector<size_t>& deg, const vector<T>& t,
                const vector<size_t>& orders, bool exact) {
  vector<T> r{T(1.)};
  for (size_t d = 0; d < deg.size(); d++) {
    vector<T> next;
    next.reserve(r.size() * (deg[d] + 1));
    for (size_t i = 0; i <= deg[d]; i++) {
      const T b = basis_1d<T>(deg[d], i, t[d], orders[d], exact);
      for (const auto& x : r) next.push_back(x * b);
    }
    r = next;
  }
  return r;
}

namespace {
bool next_order(vector<size_t>& b, const vector<size_t>& max) {
  for (size_t d = 0; d < b.size(); d++) {
    if (b[d] < max[d]) {
      b[d]++;
      return true;
    }
    b[d] = 0;
  }
  return false;
}
// Derivatives up to `orders` of the quotients num[k] / den by the Leibniz rule
// values are indexed [flat(order)] with the orders as "degrees"
template <class T>
vector<T> quotient(const vector<size_t>& orders, const vector<T>& num,
                   const vector<T>& den) {
  vector<T> r(num.size());
  vector<size_t> a(orders.size(), 0);
  do {
    const size_t fa = flat_index(orders, a);
    T x = num[fa];
    vector<size_t> b(orders.size(), 0);
    while (next_order(b, a)) {
      f128 c = 1;
      vector<size_t> rest(a);
      for (size_t d = 0; d < a.size(); d++) {
        c *= choose(a[d], b[d]);
        rest[d] -= b[d];
      }
      x = x - T(Q{c, c}) * den[flat_index(orders, b)] *
                  r[flat_index(orders, rest)];
    }
    r[fa] = x / den[0];
  } while (next_order(a, orders));
  return r;
}
template <class T>
vector<vector<T>> all_bases(const Spline<T>& s, const vector<T>& t,
                            const vector<size_t>& orders, bool exact) {
  vector<vector<T>> r;
  vector<size_t> a(orders.size(), 0);
  do {
    r.push_back(basis(s.deg, t, a, exact));
  } while (next_order(a, orders));
  return r;
}
}  // namespace

template <class T>
vector<T> deriv(const Spline<T>& s, const vector<T>& t,
                const vector<size_t>& orders, bool exact) {
  vector<T> r(s.nc);
  if (!s.rational()) {
    const auto b = basis(s.deg, t, orders, exact);
    for (size_t i = 0; i < b.size(); i++)
      for (size_t c = 0; c < s.nc; c++) r[c] = r[c] + s.at(i, c) * b[i];
    return r;
  }
  const auto bases = all_bases(s, t, orders, exact);
  vector<T> den(bases.size());
  for (size_t o = 0; o < bases.size(); o++)
    for (size_t i = 0; i < bases[o].size(); i++)
      den[o] = den[o] + s.w[i] * bases[o][i];
  for (size_t c = 0; c < s.nc; c++) {
    vector<T> num(bases.size());
    for (size_t o = 0; o < bases.size(); o++)
      for (size_t i = 0; i < bases[o].size(); i++)
        num[o] = num[o] + s.at(i, c) * bases[o][i];
    r[c] = quotient(orders, num, den).back();
  }
  return r;
}
template <class T>
vector<T> eval(const Spline<T>& s, const vector<T>& t, bool exact) {
  return deriv(s, t, vector<size_t>(s.pd(), 0), exact);
}

template <class T>
vector<T> basis_deriv(const Spline<T>& s, const vector<T>& t,
                      const vector<size_t>& orders, bool weighted,
                      bool exact) {
  if (!s.rational()) return basis(s.deg, t, orders, exact);
  const auto bases = all_bases(s, t, orders, exact);
  vector<T> den(bases.size());
  for (size_t o = 0; o < bases.size(); o++)
    for (size_t i = 0; i < bases[o].size(); i++)
      den[o] = den[o] + s.w[i] * bases[o][i];
  // derivatives of 1 / W, then the product rule for every entry
  vector<T> one(bases.size());
  one[0] = T(1.);
  const auto inverse = quotient(orders, one, den);
  vector<T> factor(bases.size());
  vector<size_t> b(orders.size(), 0);
  do {
    f128 c = 1;
    vector<size_t> rest(orders);
    for (size_t d = 0; d < b.size(); d++) {
      c *= choose(orders[d], b[d]);
      rest[d] -= b[d];
    }
    factor[flat_index(orders, b)] =
        T(Q{c, c}) * inverse[flat_index(orders, rest)];
  } while (next_order(b, orders));
  vector<T> r(s.size());
  for (size_t i = 0; i < r.size(); i++) {
    for (size_t o = 0; o < bases.size(); o++)
      r[i] = r[i] + bases[o][i] * factor[o];
    if (weighted) r[i] = r[i] * s.w[i];
  }
  return r;
}

namespace {
// Applies f to every line of values along a direction; f maps a vector of
// degree+1 values to new_deg+1 values
template <class T, class F>
vector<T> along(const vector<T>& v, const vector<size_t>& deg, size_t nc,
                size_t dir, size_t new_deg, F f) {
  vector<size_t> nd(deg);
  nd[dir] = new_deg;
  size_t total = nc;
  for (auto d : nd) total *= d + 1;
  vector<T> r(total);
  size_t stride = nc;
  for (size_t d = 0; d < dir; d++) stride *= deg[d] + 1;
  const size_t block = stride * (deg[dir] + 1), nblock = stride * (new_deg + 1);
  for (size_t o = 0; o * block < v.size(); o++)
    for (size_t i = 0; i < stride; i++) {
      vector<T> line(deg[dir] + 1);
      for (size_t k = 0; k <= deg[dir]; k++)
        line[k] = v[o * block + k * stride + i];
      line = f(line);
      for (size_t k = 0; k <= new_deg; k++)
        r[o * nblock + k * stride + i] = line[k];
    }
  return r;
}
template <class T, class F>
void along(Spline<T>& s, size_t dir, size_t new_deg, F f) {
  s.cp = along(s.cp, s.deg, s.nc, dir, new_deg, f);
  if (s.rational()) s.w = along(s.w, s.deg, 1, dir, new_deg, f);
  s.deg[dir] = new_deg;
}
}  // namespace

template <class T>
Spline<T> elevate(const Spline<T>& s, size_t dir) {
  Spline<T> r(s);
  const size_t p = s.deg[dir];
  along(r, dir, p + 1, [&](const vector<T>& c) {
    vector<T> e(p + 2);
    for (size_t i = 0; i <= p + 1; i++) {
      const f128 a = f128(i) / f128(p + 1);
      if (i > 0) e[i] = e[i] + T(Q{a, a}) * c[i - 1];
      if (i <= p) e[i] = e[i] + T(Q{1 - a, 1 - a}) * c[i];
    }
    return e;
  });
  return r;
}

template <class T>
Spline<T> diff(const Spline<T>& s, const vector<size_t>& orders) {
  if (s.rational()) abort();
  Spline<T> r(s);
  for (size_t d = 0; d < s.pd(); d++) {
    const size_t p = s.deg[d], k = orders[d];
    along(r, d, p > k ? p - k : 0, [&](const vector<T>& c) {
      if (k > p) return vector<T>{T(0.)};
      vector<T> e(p - k + 1);
      for (size_t i = 0; i + k <= p; i++)
        for (size_t j = 0; j <= k; j++) {
          const f128 f = falling(p, k) * choose(k, j);
          e[i] = e[i] + T(Q{(k - j) % 2 ? -f : f, f}) * c[i + j];
        }
      return e;
    });
  }
  return r;
}

template <class T>
Spline<T> split(const Spline<T>& s, size_t dir, const T& a, const T& b) {
  Spline<T> r(s);
  const size_t p = s.deg[dir];
  along(r, dir, p, [&](const vector<T>& c) {
    // control point i is the blossom of (a^(p-i), b^i)
    vector<T> e(p + 1);
    f128 mag = 0;
    for (const auto& x : c) {
      if constexpr (std::is_same_v<T, Q>)
        mag = x.m > mag ? x.m : mag;
      else
        mag = x.v.m > mag ? x.v.m : mag;
    }
    for (size_t i = 0; i <= p; i++) {
      vector<T> x(c);
      for (size_t l = 0; l < p; l++) {
        const T& u = l < i ? b : a;
        for (size_t k = 0; k + l < p; k++)
          x[k] = (T(1.) - u) * x[k] + u * x[k + 1];
      }
      e[i] = x[0];
      if constexpr (std::is_same_v<T, Q>) {
        e[i].m += mag * f128(p + 1);
      } else {
        f128 dm = 0;
        for (const auto& y : c) dm = y.d.m > dm ? y.d.m : dm;
        e[i].v.m += mag * f128(p + 1);
        e[i].d.m += (dm + mag * (a.d.m + b.d.m) * f128(p)) * f128(p + 1);
      }
    }
    return e;
  });
  return r;
}

template <class T>
Spline<T> add(Spline<T> a, Spline<T> b, bool subtract) {
  if (a.rational() || b.rational() || a.nc != b.nc) abort();
  for (size_t d = 0; d < a.pd(); d++) {
    while (a.deg[d] < b.deg[d]) a = elevate(a, d);
    while (b.deg[d] < a.deg[d]) b = elevate(b, d);
  }
  for (size_t i = 0; i < a.cp.size(); i++)
    a.cp[i] = subtract ? a.cp[i] - b.cp[i] : a.cp[i] + b.cp[i];
  return a;
}

template <class T>
Spline<T> mul(const Spline<T>& a, const Spline<T>& b) {
  if (a.rational() || b.rational()) abort();
  const bool dot = a.nc == b.nc;
  if (!dot && a.nc != 1 && b.nc != 1) abort();
  Spline<T> r;
  r.deg = a.deg;
  for (size_t d = 0; d < a.pd(); d++) r.deg[d] += b.deg[d];
  r.nc = dot ? 1 : a.nc > b.nc ? a.nc : b.nc;
  r.cp.assign(r.size() * r.nc, T(0.));
  auto weight = [](const vector<size_t>& deg, const vector<size_t>& i) {
    f128 f = 1;
    for (size_t d = 0; d < deg.size(); d++) f *= choose(deg[d], i[d]);
    return f;
  };
  auto scaled = [&](const Spline<T>& x) {
    auto y = x.cp;
    for (size_t i = 0; i < x.size(); i++) {
      const f128 f = weight(x.deg, multi_index(x.deg, i));
      for (size_t c = 0; c < x.nc; c++)
        y[i * x.nc + c] = T(Q{f, f}) * x.at(i, c);
    }
    return y;
  };
  const auto pa = scaled(a), pb = scaled(b);
  for (size_t i = 0; i < a.size(); i++) {
    const auto ia = multi_index(a.deg, i);
    for (size_t j = 0; j < b.size(); j++) {
      auto k = multi_index(b.deg, j);
      for (size_t d = 0; d < k.size(); d++) k[d] += ia[d];
      const size_t o = flat_index(r.deg, k);
      const size_t n = a.nc > b.nc ? a.nc : b.nc;
      for (size_t c = 0; c < n; c++) {
        T& x = r.at(o, dot ? 0 : c);
        x = x + pa[i * a.nc + (a.nc == 1 ? 0 : c)] *
                    pb[j * b.nc + (b.nc == 1 ? 0 : c)];
      }
    }
  }
  for (size_t i = 0; i < r.size(); i++) {
    const f128 f = 1 / weight(r.deg, multi_index(r.deg, i));
    for (size_t c = 0; c < r.nc; c++) r.at(i, c) = T(Q{f, f}) * r.at(i, c);
  }
  return r;
}

template <class T>
Spline<T> numerator(const Spline<T>& s) {
  Spline<T> r(s);
  r.w.clear();
  return r;
}
template <class T>
Spline<T> denominator(const Spline<T>& s) {
  Spline<T> r(s);
  r.nc = 1;
  r.cp = s.w;
  if (r.cp.empty()) r.cp.assign(s.size(), T(1.));
  r.w.clear();
  return r;
}

Spline<D> lift(const Spline<Q>& s) {
  Spline<D> r;
  r.deg = s.deg;
  r.nc = s.nc;
  for (auto& x : s.cp) r.cp.emplace_back(x);
  for (auto& x : s.w) r.w.emplace_back(x);
  return r;
}

#define INST(T)                                                               \
  template struct Spline<T>;                                                  \
  template vector<T> basis(const vector<size_t>&, const vector<T>&,           \
                           const vector<size_t>&, bool);                      \
  template vector<T> deriv(const Spline<T>&, const vector<T>&,                \
                           const vector<size_t>&, bool);                      \
  template vector<T> eval(const Spline<T>&, const vector<T>&, bool);          \
  template vector<T> basis_deriv(const Spline<T>&, const vector<T>&,          \
                                 const vector<size_t>&, bool, bool);          \
  template Spline<T> elevate(const Spline<T>&, size_t);                       \
  template Spline<T> diff(const Spline<T>&, const vector<size_t>&);           \
  template Spline<T> split(const Spline<T>&, size_t, const T&, const T&);     \
  template Spline<T> add(Spline<T>, Spline<T>, bool);                         \
  template Spline<T> mul(const Spline<T>&, const Spline<T>&);                 \
  template Spline<T> numerator(const Spline<T>&);                             \
  template Spline<T> denominator(const Spline<T>&);
INST(Q)
INST(D)
}  // namespace ref
