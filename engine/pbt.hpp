// Property-based testing engine of this framework.
//
// A property is a function `void property(pbt::Case&)`.  Every random decision
// is drawn from the Case as a bounded integer ("choice"), so that one generated
// case is the sequence of its choices: it can be replayed, shrunk generically
// (shorter / smaller sequences) and driven by libFuzzer bytes just as well.
//
// The runner forks workers; case k of seed S is generated from hash(S, k) and
// executed by worker k mod W in increasing order, so a run is a pure function
// of the code under test and the seed.  Crashes, failed assertions, sanitizer
// reports, non-termination (CPU time) and unexpected exceptions are failures of
// the case that was executed.  A failure is shrunk and replayed in fresh child
// processes before it is reported.
#ifndef VERIF_ENGINE_PBT_HPP
#define VERIF_ENGINE_PBT_HPP

#include <cstdint>
#include <iomanip>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
  std::string message;
};
struct Discard {};

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

class Case {
 public:
  enum Mode { kRandom, kReplay, kBytes };
  explicit Case(uint64_t seed) : mode_(kRandom), state_(seed) {}
  explicit Case(const std::vector<uint64_t>& r) : mode_(kReplay), replay_(&r) {}
  Case(const uint8_t* d, size_t n) : mode_(kBytes), data_(d), size_(n) {}

  /// Uniform choice in [0, n)
  uint64_t draw(uint64_t n) {
    uint64_t v = 0;
    if (n > 1) {
      switch (mode_) {
        case kRandom: {
          const uint64_t r = next();
          v = static_cast<uint64_t>(
              (static_cast<unsigned __int128>(r) * n) >> 64);
          break;
        }
        case kReplay:
          v = choices.size() < replay_->size() ? (*replay_)[choices.size()] : 0;
          v = v < n ? v : n - 1;
          break;
        case kBytes: {
          const int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
          for (int i = 0; i < k; i++)
            v = (v << 8) | (pos_ < size_ ? data_[pos_++] : 0);
          v %= n;
          break;
        }
      }
    }
    if (trace) {
      trace[1 + trace[0]] = v;
      trace[0]++;
    }
    choices.push_back(v);
    if (choices.size() > kMaxChoices) throw Discard{};
    return v;
  }
  bool exhausted() const { return mode_ == kBytes && pos_ >= size_; }
  /// Integer in [lo, hi]
  long range(long lo, long hi) {
    return lo + static_cast<long>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  /// Integer in [-n, n], simple values first
  long around(long n) {
    const long k = static_cast<long>(draw(2 * static_cast<uint64_t>(n) + 1));
    return k % 2 ? (k + 1) / 2 : -(k / 2);
  }
  /// true with probability num/den (false is the simple value)
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }

  void label(const std::string& l) { labels.insert(l); }
  void nontrivial() { is_nontrivial = true; }
  bool verbose{false};
  std::ostringstream log;
  template <typename... T>
  void note(const T&... t) {
    if (verbose) {
      log << std::setprecision(17);
      ((log << t), ...);
      log << "\n";
    }
  }

  static constexpr size_t kMaxChoices = 200000;
  /// Optional copy of the choices in memory that outlives a crash
  volatile uint64_t* trace{nullptr};
  std::vector<uint64_t> choices;
  std::set<std::string> labels;
  bool is_nontrivial{false};

 private:
  uint64_t next() {
    state_ += 0x9e3779b97f4a7c15ull;
    uint64_t z = state_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  Mode mode_;
  uint64_t state_{};
  const std::vector<uint64_t>* replay_{};
  const uint8_t* data_{};
  size_t size_{}, pos_{};
};

[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }
template <typename... T>
inline std::string str(const T&... t) {
  std::ostringstream o;
  o << std::setprecision(17);
  ((o << t), ...);
  return o.str();
}
#define PBT_CHECK(cond, ...)                                              \
  do {                                                                    \
    if (!(cond))                                                          \
      ::pbt::fail(::pbt::str(__VA_ARGS__, " [", #cond, "]"));             \
  } while (0)

// ---------------------------------------------------------------- provided by
// the check
}  // namespace pbt
void property(pbt::Case& c);
extern const char* const kRule;  // how cases are made, what is non-trivial
namespace pbt {

enum Outcome { kPass = 0, kFail = 10, kDiscard = 11 };

inline Outcome run_case(Case& c, std::string* message) {
  try {
    property(c);
    return kPass;
  } catch (const Fail& f) {
    if (message) *message = f.message;
    return kFail;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const std::exception& e) {
    if (message) *message = std::string("unexpected exception: ") + e.what();
    return kFail;
  } catch (...) {
    if (message) *message = "unexpected exception of unknown type";
    return kFail;
  }
}

}  // namespace pbt

#endif
