// Stand-in for fast_float >= 6 on top of Ubuntu's fast_float 3.9: turns the (empty) option
// macros of the including source into 1 and adds the integer overload of from_chars.
#ifdef FASTFLOAT_ALLOWS_LEADING_PLUS
#undef FASTFLOAT_ALLOWS_LEADING_PLUS
#undef FASTFLOAT_SKIP_WHITE_SPACE
#define FASTFLOAT_ALLOWS_LEADING_PLUS 1
#define FASTFLOAT_SKIP_WHITE_SPACE 1
#define CODON_FF_RESET 1
#endif
#include "/usr/include/fast_float/fast_float.h"
#ifdef CODON_FF_RESET
#undef CODON_FF_RESET
#undef FASTFLOAT_ALLOWS_LEADING_PLUS
#undef FASTFLOAT_SKIP_WHITE_SPACE
#define FASTFLOAT_ALLOWS_LEADING_PLUS
#define FASTFLOAT_SKIP_WHITE_SPACE
#endif
#ifndef CODON_FF_INT_SHIM
#define CODON_FF_INT_SHIM
#include <limits>
#include <type_traits>
namespace fast_float {
/// fast_float 6 integer parser (leading white space and one sign allowed; base 2..36)
template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
from_chars_result from_chars(const char *first, const char *last, T &value, int base) {
  from_chars_result r;
  const char *p = first;
  auto space = [](char c) {
    return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r';
  };
  while (p != last && space(*p))
    ++p;
  if (p == last || base < 2 || base > 36) {
    r.ec = std::errc::invalid_argument;
    r.ptr = first;
    return r;
  }
  const char *begin = p;
  bool neg = *p == '-';
  if (!std::is_signed_v<T> && neg) {
    r.ec = std::errc::invalid_argument;
    r.ptr = first;
    return r;
  }
  if (*p == '-' || *p == '+')
    ++p;
  const char *digits = p;
  unsigned __int128 v = 0;
  bool over = false;
  const unsigned __int128 lim =
      (unsigned __int128)std::numeric_limits<T>::max() + (neg ? 1 : 0);
  for (; p != last; ++p) {
    int d;
    if (*p >= '0' && *p <= '9')
      d = *p - '0';
    else if (*p >= 'a' && *p <= 'z')
      d = *p - 'a' + 10;
    else if (*p >= 'A' && *p <= 'Z')
      d = *p - 'A' + 10;
    else
      break;
    if (d >= base)
      break;
    if (!over) {
      v = v * base + d;
      if (v > lim)
        over = true;
    }
  }
  if (p == digits) {
    r.ec = std::errc::invalid_argument;
    r.ptr = begin;
    return r;
  }
  r.ptr = p;
  if (over) {
    r.ec = std::errc::result_out_of_range;
    return r;
  }
  value = neg ? (T)(-(__int128)v) : (T)v;
  r.ec = std::errc();
  return r;
}
} // namespace fast_float
#endif
