// C30: running out of memory
#include <cstdlib>
#include <new>
#include <thread>

#include "operations.hpp"

const char* const kRule =
    "one operation on const splines (evaluation, basis functions, derivatives, "
    "splits, arithmetic, products, compositions, sensitivities, rejected requests, "
    "export, ...) or one in-place operation (elevation, new degrees, sums, scaling, "
    "fitting, assignment, construction); in every second case it first runs with each request in turn failing; then it runs twice undisturbed, then once for every (at most 40) "
    "memory request it makes with that request failing (and all later ones in every "
    "second case), then again undisturbed: only std::bad_alloc comes out (or the "
    "right result), nothing leaks, const operands are unchanged, targets can be "
    "assigned, later results are bitwise the same; non-trivial: two or more "
    "requests failed";

namespace {
struct Memory {
  bool counting{false};
  long live{0};      // blocks that are allocated
  long requests{0};  // while counting
  long fail_at{-1};
  bool keep_failing{false};
  bool failed{false};
} memory;
void* allocate(size_t n, size_t align, bool may_throw) {
  if (memory.counting) {
    const long k = memory.requests++;
    if (memory.fail_at >= 0 && (k == memory.fail_at || (memory.keep_failing && k > memory.fail_at))) {
      memory.failed = true;
      if (may_throw) throw std::bad_alloc();
      return nullptr;
    }
  }
  n = n ? n : 1;
  void* p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n);
  if (!p) {
    if (may_throw) throw std::bad_alloc();
    return nullptr;
  }
  memory.live++;
  return p;
}
void release(void* p) {
  if (!p) return;
  memory.live--;
  std::free(p);
}
}  // namespace
void* operator new(size_t n) { return allocate(n, 0, true); }
void* operator new[](size_t n) { return allocate(n, 0, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0, false); }
void* operator new(size_t n, std::align_val_t a) { return allocate(n, static_cast<size_t>(a), true); }
void* operator new[](size_t n, std::align_val_t a) { return allocate(n, static_cast<size_t>(a), true); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }

/// Other splines of other degrees: replaces whatever the last operation left behind
void something_else() {
  const Poly<1, double> line({1}, {0., 1.});
  const Rat<2, Pt<2>> patch({1, 2}, vector<Pt<2>>(6, Pt<2>{1., 2.}), vector<double>{1., 2., 1., 1., .5, 1.});
  (void)line.Evaluate(.5);
  (void)line.ForwardEvaluate(.5);
  (void)line.EvaluateDerivative(Pt<1>{.5}, {1});
  (void)(line * line).SplitAtPosition(.5);
  (void)line.DerivativeWRTParametricDimension({1});
  (void)(line + line).OrderElevateAlongParametricDimension(0);
  (void)line.Compose(line);
  (void)patch.Evaluate(.5, .25);
  (void)patch.ForwardEvaluate(.5, .25);
  (void)patch.EvaluateDerivative(Pt<2>{.5, .25}, {1, 0});
  (void)patch.BasisFunctionsDerivatives(Pt<2>{.5, .25}, {1, 0});
  (void)(patch + patch).SplitAtPosition(.5, 1);
  (void)bezman::utils::Base64::Decode<double>(bezman::utils::Base64::Encode(vector<double>{1.}));
}

/// run() returns a Result; check() looks at the const operands
template <class F, class G>
void out_of_memory_(Case& c, const std::string& what, F run, G check) {
  Hooks::start = [] { memory.counting = true; };
  Hooks::stop = [] { memory.counting = false; };
  memory.counting = false;
  memory.fail_at = -1;
  memory.keep_failing = c.chance(1, 2);
  if (c.chance(1, 2)) {
    // the first runs already fail, before anything can be prepared for them
    c.label("cold");
    memory.keep_failing = false;
    Result got;
    for (long k = 0; k < 200; k++) {
      memory.fail_at = k;
      memory.requests = 0;
      memory.failed = false;
      try {
        got = run();
        memory.fail_at = -1;
      } catch (const std::bad_alloc&) {
        memory.fail_at = -1;
        continue;
      }
      PBT_CHECK(bitwise(got, run()), what, " after failures gives different results");
      something_else();
      PBT_CHECK(bitwise(got, run()), what, " after failures gives another result than later");
      check();
      break;
    }
  }
  const Result want = run();  // may fill caches
  memory.requests = 0;
  {
    const long before = memory.live;
    {
      const Result again = run();
      PBT_CHECK(bitwise(again, want), what, " gives another result the second time");
    }
    PBT_CHECK(memory.live == before, what, " leaks ", memory.live - before, " blocks");
  }
  const long requests = memory.requests;
  c.note(what, ": ", requests, " memory requests");
  c.label(what.substr(0, what.find(" of spline")));
  c.label(requests == 0 ? "no requests" : requests < 5 ? "1-4 requests" : requests <= 40 ? "5-40 requests" : ">40 requests");
  long failed = 0;
  for (long k = 0; k < requests && k < 40; k++) {
    memory.fail_at = requests <= 40 ? k : static_cast<long>(c.draw(static_cast<uint64_t>(requests)));
    memory.requests = 0;
    memory.failed = false;
    bool thrown = false;
    const long at = memory.fail_at, before = memory.live;
    {
      Result got;
      try {
        got = run();
      } catch (const std::bad_alloc&) {
        thrown = true;
      }
      memory.fail_at = -1;
      memory.counting = false;
      PBT_CHECK(thrown || bitwise(got, want), what, " returns another result when memory request ", at, " of ",
                requests, " fails");
      PBT_CHECK(!thrown || memory.failed, what, " reports missing memory although no request failed");
      failed += memory.failed;
    }
    PBT_CHECK(memory.live == before, what, " leaks ", memory.live - before, " blocks after memory request ",
              at, " of ", requests, " failed");
    check();
  }
  PBT_CHECK(bitwise(run(), want), what, " gives another result after running out of memory");
  check();
  if (failed > 1) c.nontrivial();
  Hooks::start = Hooks::stop = nullptr;
}

template <class F, class G>
void out_of_memory(Case& c, const std::string& what, F run, G check) {
  if (!c.chance(1, 3)) return out_of_memory_(c, what, run, check);
  // in a thread of its own
  c.label("new thread");
  std::exception_ptr e;
  std::thread([&] {
    try {
      out_of_memory_(c, what, run, check);
    } catch (...) {
      e = std::current_exception();
    }
  }).join();
  if (e) std::rethrow_exception(e);
}

template <size_t PD, class P, bool R>
void in_place(Case& c) {
  const RS a = spline(c, degrees(c, PD, R ? 4 : 8, R ? 9 : 20), ncoord<P>(), R, false);
  const RS b = spline(c, degrees(c, PD, R ? 4 : 8, R ? 9 : 20), ncoord<P>(), R, false);
  c.note("target: ", text(a));
  c.note("other: ", text(b));
  const auto first = lib<PD, P, R>(a);
  const auto other = lib<PD, P, R>(b);
  const auto fresh = lib<PD, P, R>(b);
  const size_t dir = c.draw(PD), n = 1 + c.draw(3);
  const size_t op = c.draw(11);
  const double x = number(c);
  static const char* const names[] = {"elevation in place", "addition in place", "subtraction in place", "scaling in place",
                                      "shift in place", "assignment", "move assignment", "new degrees", "fitting in place",
                                      "construction", "conversion"};
  const auto control_points = points<P>(b);
  const auto weights = weight_vector(b);
  const P p = first.ControlPoint(std::array<size_t, PD>{});
  const auto apply = [&](auto& t) {
    switch (op) {
      case 0:
        for (size_t k = 0; k < n; k++) t.OrderElevateAlongParametricDimension(dir);
        break;
      case 1:
        t += other;
        break;
      case 2:
        if constexpr (R) t = t - other;
        else t -= other;
        break;
      case 3:
        t *= x;
        break;
      case 4:
        t += p;
        break;
      case 5:
        t = other;
        break;
      case 6:
        t = first + other;
        break;
      case 7:
        if constexpr (R) {
          t = -other;
        } else {
          auto d = arr<PD>(a.deg);
          d[dir] += n;
          t.UpdateDegrees(d);
        }
        break;
      case 9:
        if constexpr (R) t = Rat<PD, P>(arr<PD>(b.deg), control_points, weights);
        else t = Poly<PD, P>(arr<PD>(b.deg), control_points);
        break;
      case 10:
        if constexpr (R) t = Rat<PD, P>(other.GetNumeratorSpline());
        else t = Rat<PD, P>(other).GetNumeratorSpline();
        break;
      default:
        if constexpr (R) t = other.SplitAtPosition(.5, dir)[1];
        else t.FitIntoUnitCube();
    }
  };
  const auto run = [&]() {
    Result r;
    r.reserve(20000);
    auto t = first;
    try {
      memory.counting = true;
      apply(t);
      memory.counting = false;
    } catch (const std::bad_alloc&) {
      memory.counting = false;
      // the target is still good for a new value
      t = fresh;
      check_same(t, b, pbt::str("target of ", names[op], " with a new value"));
      throw;
    } catch (const std::runtime_error&) {
      memory.counting = false;
      r.push_back(-1e300);
      return r;
    }
    put(r, t);
    return r;
  };
  out_of_memory(c, names[op], run, [&] {
    check_same(other, b, "operand");
    check_same(first, a, "original of the target");
  });
}

void property(Case& c) {
  quiet();
  struct Reset {
    ~Reset() {
      memory.counting = false;
      memory.fail_at = -1;
      Hooks::start = Hooks::stop = nullptr;
    }
  } reset;
  if (c.chance(1, 3)) {
    switch (c.draw(5)) {
      case 0: return in_place<1, double, false>(c);
      case 1: return in_place<1, Pt<2>, true>(c);
      case 2: return in_place<2, Pt<3>, false>(c);
      case 3: return in_place<2, double, true>(c);
      default: return in_place<3, Pt<2>, false>(c);
    }
  }
  const auto s = shared_spline(c, 0);
  const auto o = c.chance(1, 8) ? helper(c) : s->operation(c, 0);
  out_of_memory(c, o.what, o.run, [&] { s->check("spline"); });
}
