// C20: Base64
#include <complex>
#include <cstring>

#include "bezman/src/utils/base64.hpp"
#include "gen.hpp"
using namespace gen;

const char* const kRule =
    "a list (length 0-60, sometimes 2000, rarely 66000) of numbers of 1, 2, 4 or 8 "
    "bytes, of pairs and arrays of 3, 5, 8 or 16 bytes, or of points (dimension "
    "1-9) with random, repeated and special bit patterns; the "
    "text against an independent RFC 4648 encoder, the decoded list bit for bit, "
    "twice, interleaved with other lists and as entries of another size; non-trivial: the number of bytes is "
    "not a multiple of 3 and the list is not empty";

static std::string rfc4648(const unsigned char* d, size_t n) {
  static const char* const t =
      "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  unsigned acc = 0;
  int bits = 0;
  for (size_t i = 0; i < n; i++) {
    acc = (acc << 8) | d[i];
    bits += 8;
    while (bits >= 6) {
      bits -= 6;
      r += t[(acc >> bits) & 63];
    }
    acc &= (1u << bits) - 1;
  }
  if (bits) r += t[(acc << (6 - bits)) & 63];
  while (r.size() % 4) r += '=';
  return r;
}
template <class T>
T number_bits(Case& c, int style, T last) {
  T x{};
  uint64_t b = 0;
  switch (style == 3 ? static_cast<int>(c.draw(3)) : style) {
    case 0: b = c.draw(256); break;
    case 1: b = c.draw(1ull << 63) * 2 + c.draw(2); break;
    default:
      switch (c.draw(4)) {
        case 0: return last;
        case 1: b = 0; break;
        case 2: b = ~0ull; break;
        default: return static_cast<T>(c.around(100));
      }
  }
  std::memcpy(&x, &b, sizeof(T));
  return x;
}
template <class T, class E>
void run(Case& c, const char* type, size_t per_entry) {
  using B64 = bezman::utils::Base64;
  const bool huge = c.chance(1, 2500);
  const size_t n = huge ? (c.chance(1, 4) ? 65500 + c.draw(500) : 2000 + c.draw(58000)) : c.chance(1, 60) ? c.draw(2000) : c.draw(61);
  const int style = static_cast<int>(c.draw(4));
  const uint64_t seed = huge ? c.draw(~0ull) : 0;
  if (huge) c.label("huge list");
  std::vector<T> list(n);
  list.shrink_to_fit();
  E last{};
  std::vector<unsigned char> bytes;
  for (auto& e : list)
    for (size_t k = 0; k < per_entry; k++) {
      if (huge) {
        const uint64_t b = pbt::mix(seed + bytes.size());
        std::memcpy(&last, &b, sizeof(E));
      } else
        last = number_bits<E>(c, style, last);
      std::memcpy(reinterpret_cast<unsigned char*>(&e) + k * sizeof(E), &last, sizeof(E));
      const size_t at = bytes.size();
      bytes.resize(at + sizeof(E));
      std::memcpy(bytes.data() + at, &last, sizeof(E));
    }
  c.label(type);
  c.label("remainder " + std::to_string(bytes.size() % 3));
  if (n == 0) c.label("empty");
  if (bytes.size() % 3) c.nontrivial();
  c.note(type, " list of ", n, " entries, ", bytes.size(), " bytes");
  const std::string want = rfc4648(bytes.data(), bytes.size());
  const auto copy = list;
  const auto text_of = [](const std::string& s) {
    return s.size() > 80 ? s.substr(0, 40) + "..." + s.substr(s.size() - 40) : s;
  };
  const auto check_text = [&](const std::string& got, const char* what) {
    PBT_CHECK(got == want, what, " of ", bytes.size(), " bytes (", type,
              ") is \"", text_of(got), "\" instead of \"", text_of(want), "\"");
  };
  const auto same_bits = [&](const std::vector<T>& got, const char* what) {
    PBT_CHECK(got.size() == n, what, " has ", got.size(), " entries instead of ",
              n, " (", type, ")");
    std::vector<unsigned char> g;
    for (auto& e : got)
      for (size_t k = 0; k < per_entry; k++) {
        E x;
        std::memcpy(&x, reinterpret_cast<const unsigned char*>(&e) + k * sizeof(E), sizeof(E));
        const size_t at = g.size();
        g.resize(at + sizeof(E));
        std::memcpy(g.data() + at, &x, sizeof(E));
      }
    for (size_t i = 0; i < g.size(); i++)
      PBT_CHECK(g[i] == bytes[i], what, " (", type, ") differs in byte ", i, " of ",
                bytes.size());
  };
  std::string encoded = B64::Encode(list);
  check_text(encoded, "encoded text");
  same_bits(list, "list after encoding");
  const std::string keep = encoded;
  same_bits(B64::template Decode<T>(encoded), "decoded list");
  PBT_CHECK(encoded == keep, "the text changed while decoding");
  // the same bytes as entries of another size: all complete ones
  if (c.chance(1, 4)) {
    c.label("decoded as entries of another size");
    const auto as = [&](auto x, const char* other_type) {
      using U = decltype(x);
      const std::vector<U> got = B64::template Decode<U>(encoded);
      PBT_CHECK(got.size() == bytes.size() / sizeof(U), bytes.size(), " bytes (", type,
                ") decoded as ", other_type, " give ", got.size(), " entries");
      PBT_CHECK(got.empty() || std::memcmp(got.data(), bytes.data(), got.size() * sizeof(U)) == 0,
                "the bytes (", type, ") decoded as ", other_type, " differ");
    };
    switch (c.draw(6)) {
      case 0: as(char{}, "char"); break;
      case 1: as(uint16_t{}, "uint16_t"); break;
      case 2: as(float{}, "float"); break;
      case 3: as(double{}, "double"); break;
      case 4: as(std::array<unsigned char, 3>{}, "3 bytes"); break;
      default: as(std::array<unsigned char, 7>{}, "7 bytes");
    }
  }
  // no state: something else in between
  if (c.chance(1, 3)) {
    std::vector<unsigned char> other(c.draw(8), 255);
    (void)B64::Decode<unsigned char>(B64::Encode(other));
    check_text(B64::Encode(copy), "text of a second encoding");
    std::string exact(want.data(), want.size());
    exact.shrink_to_fit();
    same_bits(B64::template Decode<T>(exact), "list of a second decoding");
  }
}

void property(Case& c) {
  using bezman::Point;
  switch (c.draw(32)) {
#define NUMBER(i, T) \
  case i:            \
    return run<T, T>(c, #T, 1);
#define POINT(i, N, T) \
  case i:              \
    return run<Point<N, T>, T>(c, "point of " #N " " #T, N);
    NUMBER(0, unsigned char) NUMBER(1, signed char) NUMBER(2, char) NUMBER(3, short) NUMBER(4, uint16_t)
    NUMBER(5, int) NUMBER(6, unsigned) NUMBER(7, float) NUMBER(8, double) NUMBER(9, int64_t) NUMBER(10, size_t)
    POINT(11, 1, double) POINT(12, 2, double) POINT(13, 3, double) POINT(14, 3, float) POINT(15, 4, short)
    NUMBER(16, long long) NUMBER(17, wchar_t) NUMBER(18, char16_t) NUMBER(19, char32_t)
    POINT(20, 1, float) POINT(21, 2, int) POINT(22, 5, double) POINT(23, 6, unsigned char) POINT(24, 7, float)
    POINT(25, 9, double) POINT(26, 2, int64_t) POINT(27, 1, unsigned char)
    case 28:
      return run<std::complex<float>, float>(c, "complex float", 2);
    case 29:
      return run<std::complex<double>, double>(c, "complex double", 2);
    case 30:
      return run<std::array<unsigned char, 3>, unsigned char>(c, "3 bytes", 3);
    default:
      return run<std::array<unsigned char, 5>, unsigned char>(c, "5 bytes", 5);
  }
}
