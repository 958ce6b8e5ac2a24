// C31: text of points and of automatically differentiated values
#include <cstdio>
#include <limits>

#include "ad.hpp"
#include "bezman/src/point.hpp"
using namespace gen;

const char* const kRule =
    "a point (1-9 coordinates of float, double, long double, integers or an "
    "automatic differentiation type; small, large, special and random bit patterns), a "
    "precision (0-25 digits or the default) and a stream with random formatting; "
    "the coordinates found in the text, in order, against the C library (printf), "
    "read back (exactly from the digits that suffice for that), and the same "
    "text through the stream, whatever its formatting, which stays as it was; "
    "non-trivial: two or more coordinates and not only integers";

namespace {
template <class S>
std::string printed(S x, int precision) {
  char buffer[128];
  if constexpr (std::is_integral_v<S>)
    std::snprintf(buffer, sizeof buffer, "%lld", static_cast<long long>(x));
  else
    std::snprintf(buffer, sizeof buffer, "%.*Lg", precision, static_cast<long double>(x));
  return buffer;
}
template <class S>
S any_value(Case& c, S last) {
  if constexpr (std::is_integral_v<S>) {
    switch (c.draw(3)) {
      case 0: return static_cast<S>(c.around(100));
      case 1: return last;
      default: return static_cast<S>(c.draw(~0ull));
    }
  } else {
    switch (c.draw(8)) {
      case 0: return static_cast<S>(c.around(1000));
      case 1: return last;
      case 2: return static_cast<S>(c.around(100000)) / static_cast<S>(1000);
      case 3: return static_cast<S>(sunit53(c));
      case 4: return static_cast<S>(sunit53(c)) * std::pow(static_cast<S>(10), static_cast<S>(c.around(30)));
      case 5: {
        static const S special[] = {S(0), -S(0), std::numeric_limits<S>::infinity(), -std::numeric_limits<S>::infinity(),
                                    std::numeric_limits<S>::max(), std::numeric_limits<S>::lowest(), std::numeric_limits<S>::min(),
                                    std::numeric_limits<S>::denorm_min(), std::numeric_limits<S>::epsilon(), S(999999.5), S(1e-5L), S(99999.95L), S(1) / 3};
        return special[c.draw(std::size(special))];
      }
      case 6: return std::ldexp(static_cast<S>(sunit53(c)), static_cast<int>(c.around(std::numeric_limits<S>::max_exponent)));
      default: return static_cast<S>(number(c));
    }
  }
}
/// "[a, b, c]" with any padding
std::vector<std::string> entries(const std::string& text) {
  PBT_CHECK(text.size() >= 2 && text.front() == '[' && text.back() == ']', "the text \"", text, "\" is no list in brackets");
  std::vector<std::string> r(1);
  for (size_t i = 1; i + 1 < text.size(); i++) {
    if (text[i] == ',') r.emplace_back();
    else if (text[i] != ' ') r.back() += text[i];
  }
  return r;
}
template <class S>
S parse(const std::string& s) {
  if constexpr (std::is_same_v<S, float>) return std::strtof(s.c_str(), nullptr);
  else if constexpr (std::is_same_v<S, double>) return std::strtod(s.c_str(), nullptr);
  else if constexpr (std::is_same_v<S, long double>) return std::strtold(s.c_str(), nullptr);
  else return static_cast<S>(std::strtoll(s.c_str(), nullptr, 10));
}
void random_format(Case& c, std::ostream& os) {
  if (c.chance(1, 2)) os << std::setprecision(static_cast<int>(c.draw(20)));
  switch (c.draw(4)) {
    case 0: break;
    case 1: os << std::fixed; break;
    case 2: os << std::scientific; break;
    default: os << std::showpoint;
  }
  if (c.chance(1, 3)) os << std::showpos;
  if (c.chance(1, 3)) os << std::left;
  if (c.chance(1, 4)) os << std::hex;
  if (c.chance(1, 4)) os << std::setfill('*');
}
struct Format {
  std::ios_base::fmtflags flags;
  std::streamsize precision;
  char fill;
  explicit Format(const std::ostream& o) : flags(o.flags()), precision(o.precision()), fill(o.fill()) {}
  bool operator==(const Format& f) const { return flags == f.flags && precision == f.precision && fill == f.fill; }
};

template <size_t N, class S>
void point(Case& c, const char* name) {
  using P = bezman::Point<N, S>;
  vector<S> v(N);
  S last{};
  bool fractional = false;
  for (auto& x : v) {
    last = x = any_value<S>(c, last);
    if constexpr (!std::is_integral_v<S>) fractional |= x != std::floor(x);
  }
  P p{};
  for (size_t i = 0; i < N; i++) {
    p[i] = v[i];
  }
  const int precision = static_cast<int>(c.draw(26));
  c.label(name);
  c.label(precision < 6 ? "precision 0-5" : precision <= 17 ? "precision 6-17" : "precision>17");
  if (N > 1 && fractional) c.nontrivial();
  {
    std::string list;
    for (auto& x : v) list += " " + printed(x, 21);
    c.note(name, " point", list, ", precision ", precision);
  }
  const P copy = p;
  const auto check_text = [&](const std::string& text, int digits, const char* what) {
    const auto e = entries(text);
    PBT_CHECK(e.size() == N, what, " \"", text, "\" lists ", e.size(), " coordinates instead of ", N);
    for (size_t i = 0; i < N; i++) {
      const auto want = printed(v[i], digits);
      PBT_CHECK(e[i] == want, what, " \"", text, "\" shows coordinate ", i, " as ", e[i], " instead of ", want);
      if (std::is_integral_v<S> || digits >= std::numeric_limits<S>::max_digits10) {
        const S back = parse<S>(e[i]);
        PBT_CHECK(back == v[i], what, " \"", text,
                  "\" reads back as another coordinate ", i);
      }
    }
  };
  check_text(p.toString(precision), precision, "text");
  check_text(p.toString(), 6, "text of default precision");
  std::ostringstream plain;
  plain << p;
  check_text(plain.str(), 6, "streamed text");
  PBT_CHECK(plain.str() == p.toString(), "streaming gives \"", plain.str(), "\", toString \"", p.toString(), "\"");
  std::ostringstream formatted;
  random_format(c, formatted);
  const Format before(formatted);
  formatted << "a" << p << "b" << p;
  PBT_CHECK(Format(formatted) == before, "streaming a point changes the formatting of the stream");
  PBT_CHECK(formatted.str() == "a" + plain.str() + "b" + plain.str(), "the formatting of the stream changes the text to \"",
            formatted.str(), "\"");
  check_text(p.toString(precision), precision, "repeated text");
  for (size_t i = 0; i < N; i++) PBT_CHECK(p[i] == copy[i], "the point changed");
}
/// A differentiation value is written as its value, by the format of the stream
template <class AD, class S>
void differentiated(Case& c, const char* name) {
  const S x = any_value<S>(c, S{});
  AD a(x, 0);
  std::ostringstream got, want;
  random_format(c, got);
  want.copyfmt(got);
  const auto width = static_cast<int>(c.draw(30));
  c.label(name);
  c.note(name, " ", printed(x, 21), ", width ", width);
  got << std::setw(width) << a << "|" << a;
  want << std::setw(width) << x << "|" << x;
  PBT_CHECK(got.str() == want.str(), "streaming gives \"", got.str(), "\" instead of \"", want.str(), "\"");
  PBT_CHECK(Format(got) == Format(want), "streaming a value changes the formatting of the stream");
  PBT_CHECK(a.GetValue() == x && a.GetDerivatives()[0] == 1, "the value changed");
}
}  // namespace

void property(Case& c) {
  using bezman::utils::computational_differentiation::AlgoDiffType;
  switch (c.draw(20)) {
#define POINT(i, N, T) \
  case i:              \
    return point<N, T>(c, #N " " #T);
    POINT(0, 1, double) POINT(1, 2, double) POINT(2, 3, double) POINT(3, 4, double) POINT(4, 9, double)
    POINT(5, 1, float) POINT(6, 2, float) POINT(7, 3, float) POINT(8, 2, long double) POINT(9, 3, long double)
    POINT(10, 1, int) POINT(11, 3, int) POINT(12, 2, long) POINT(13, 3, short)
    case 14: return differentiated<AlgoDiffType<double, 1>, double>(c, "differentiation");
    case 15: return differentiated<AlgoDiffType<double, 3>, double>(c, "differentiation in 3 variables");
    case 16: return differentiated<AlgoDiffType<float, 2>, float>(c, "differentiation of float");
    case 17: return differentiated<AlgoDiffType<long double, 2>, long double>(c, "differentiation of long double");
    default: {
      // points of differentiation values
      using AD = AlgoDiffType<double, 3>;
      const auto x = any_value<double>(c, 0.), y = any_value<double>(c, x), z = any_value<double>(c, y);
      const bezman::Point<3, AD> p{AD(x, 0), AD(y, 1), AD(z, 2)};
      const int precision = static_cast<int>(c.draw(26));
      c.label("point of differentiation values");
      c.note("point of differentiation values ", x, " ", y, " ", z, " precision ", precision);
      c.nontrivial();
      const double v[] = {x, y, z};
      const auto check_text = [&](const std::string& text, int digits) {
        const auto e = entries(text);
        PBT_CHECK(e.size() == 3, "text \"", text, "\" lists ", e.size(), " coordinates instead of 3");
        for (size_t i = 0; i < 3; i++)
          PBT_CHECK(e[i] == printed(v[i], digits), "text \"", text, "\" shows coordinate ", i, " as ", e[i],
                    " instead of ", printed(v[i], digits));
      };
      check_text(p.toString(precision), precision);
      std::ostringstream o;
      o << p;
      check_text(o.str(), 6);
    }
  }
}
