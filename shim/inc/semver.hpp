// Stand-in for Neargye/semver: only what codon/dsl/plugins.cpp uses.
#pragma once
#include <array>
#include <cctype>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
namespace semver {
struct version {
  long major, minor, patch;
  constexpr version(long a = 0, long b = 1, long c = 0) : major(a), minor(b), patch(c) {}
  int compare(const version &o) const {
    if (major != o.major) return major < o.major ? -1 : 1;
    if (minor != o.minor) return minor < o.minor ? -1 : 1;
    if (patch != o.patch) return patch < o.patch ? -1 : 1;
    return 0;
  }
};
namespace range {
/// ranges are "||"-separated alternatives of space-separated comparators
inline bool satisfies(const version &ver, std::string_view s) {
  size_t i = 0;
  bool any = false, cur = true, some = false;
  auto ws = [&] { while (i < s.size() && s[i] == ' ') i++; };
  auto num = [&]() -> long {
    if (i >= s.size() || !isdigit((unsigned char)s[i]))
      throw std::invalid_argument("semver::range unexpected token.");
    long v = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0');
    return v;
  };
  ws();
  while (i < s.size()) {
    if (s.substr(i, 2) == "||") {
      if (!some) throw std::invalid_argument("semver::range unexpected token.");
      any |= cur; cur = true; some = false; i += 2; ws();
      continue;
    }
    std::string op;
    while (i < s.size() && (s[i] == '<' || s[i] == '>' || s[i] == '=')) op += s[i++];
    ws();
    version o(0, 0, 0);
    o.major = num();
    if (i >= s.size() || s[i++] != '.') throw std::invalid_argument("semver::range unexpected token.");
    o.minor = num();
    if (i >= s.size() || s[i++] != '.') throw std::invalid_argument("semver::range unexpected token.");
    o.patch = num();
    int c = ver.compare(o);
    bool r;
    if (op == "" || op == "=") r = c == 0;
    else if (op == "<") r = c < 0;
    else if (op == "<=") r = c <= 0;
    else if (op == ">") r = c > 0;
    else if (op == ">=") r = c >= 0;
    else throw std::invalid_argument("semver::range unexpected token.");
    cur &= r; some = true;
    ws();
  }
  if (!some) throw std::invalid_argument("semver::range unexpected token.");
  return any || cur;
}
} // namespace range
} // namespace semver
