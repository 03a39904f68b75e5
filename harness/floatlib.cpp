// The soft-float conversions on every input (double sources: every sign, exponent, leading mantissa
// bits and trailing pattern), against exact arithmetic.
#include "explore.h"
#include <cmath>
#include <cstdint>

using namespace mc;
extern "C" {
_Float16 mc_truncsfhf2(float);
_Float16 mc_truncdfhf2(double);
float mc_extendhfsf2(_Float16);
double mc_extendsfdf2(float);
float mc_truncdfsf2(double);
_Float16 mc_f2h_ieee(float);
float mc_h2f_ieee(_Float16);
}

template <typename T, typename U> static T bits(U x) {
  static_assert(sizeof(T) == sizeof(U));
  T t;
  memcpy(&t, &x, sizeof t);
  return t;
}

static uint16_t halfOf(double x) { // round to nearest, ties to even
  uint16_t sign = std::signbit(x) ? 0x8000 : 0;
  x = std::fabs(x);
  if (std::isnan(x))
    return sign | 0x7e00;
  if (x >= 65520.0)
    return sign | 0x7c00;
  if (x < 0x1p-26)
    return sign;
  int e = std::ilogb(x);
  if (e < -14)
    e = -14;
  double n = std::nearbyint(std::ldexp(x, 10 - e)); // at most 2048
  return sign | (uint16_t)(((e + 14) << 10) + (int)n); // carries propagate into the exponent
}

static uint64_t doubleOf(uint64_t sign, int exp, uint64_t man, int expBits, int manBits) {
  int bias = (1 << (expBits - 1)) - 1;
  uint64_t s = sign << 63;
  if (exp == (1 << expBits) - 1)
    return s | 0x7ffULL << 52 | man << (52 - manBits);
  double v = exp ? std::ldexp((double)((1ULL << manBits) + man), exp - bias - manBits)
                 : std::ldexp((double)man, 1 - bias - manBits);
  return s | bits<uint64_t>(v);
}

static void bad(const char *f, uint64_t in, uint64_t got, uint64_t want) {
  char b[200];
  snprintf(b, sizeof b, "%s:%llx", f, (unsigned long long)in);
  char d[200];
  snprintf(d, sizeof d, "%s of bits %llx gives bits %llx, exactly rounded %llx", f, (unsigned long long)in,
           (unsigned long long)got, (unsigned long long)want);
  fail(b, d);
}

// NaNs: stay NaN, quiet, same sign, leading payload bits kept
template <typename R> static bool nanOk(uint64_t in, int inMan, int inBits, R got, int outMan, bool quiet) {
  int outBits = sizeof(R) * 8;
  uint64_t g = got, inf = ((1ULL << (outBits - 1 - outMan)) - 1) << outMan, man = g & ((1ULL << outMan) - 1);
  uint64_t payload = in & ((1ULL << (inMan - 1)) - 1), want;
  want = inMan > outMan ? payload >> (inMan - outMan) : payload << (outMan - inMan);
  bool signs = (in >> (inBits - 1) & 1) == (g >> (outBits - 1) & 1);
  bool q = !quiet || (man >> (outMan - 1) & 1);
  return (g & inf) == inf && man && signs && q && (man & ((1ULL << (outMan - 1)) - 1)) == want;
}

int main(int argc, char **argv) {
  bool full = atoi(argv[1]);
  int n = atoi(argv[2]);
  return shards(n, "floatlib", [&](int shard, int total) {
    for (uint32_t h = shard; h < 0x10000; h += total) {
      count("half_to_float")++;
      auto x = bits<_Float16>((uint16_t)h);
      for (int f = 0; f < 2; f++) {
        auto g = bits<uint32_t>(f ? mc_h2f_ieee(x) : mc_extendhfsf2(x));
        if ((h & 0x7fff) > 0x7c00) {
          if (!nanOk(h, 10, 16, g, 23, false) || ((g >> 22 & 1) != (h >> 9 & 1)))
            bad("half_to_float", h, g, h);
          continue;
        }
        count("non_nan_results")++;
        auto d = bits<double>(doubleOf(h >> 15, h >> 10 & 31, h & 1023, 5, 10));
        if (g != bits<uint32_t>((float)d))
          bad("half_to_float", h, g, bits<uint32_t>((float)d));
      }
    }
    uint64_t lo = (uint64_t)shard << 32, hi = lo + (1ULL << 32);
    uint64_t finite = 0;
    for (uint64_t u = lo / total; u < hi / total; u++) {
      auto x = bits<float>((uint32_t)u);
      auto g = bits<uint16_t>(mc_truncsfhf2(x));
      auto d = bits<uint64_t>(mc_extendsfdf2(x));
      if ((u & 0x7fffffff) > 0x7f800000) {
        if (!nanOk(u, 23, 32, g, 10, true))
          bad("float_to_half", u, g, 0x7e00);
        if (!nanOk(u, 23, 32, d, 52, false) || (d >> 51 & 1) != (u >> 22 & 1))
          bad("float_to_double", u, d, 0);
        continue;
      }
      finite++;
      auto want = halfOf((double)x);
      if (g != want)
        bad("float_to_half", u, g, want);
      uint64_t wd = bits<uint64_t>((double)x);
      if (d != wd)
        bad("float_to_double", u, d, wd);
    }
    count("non_nan_results") += 2 * finite;
    count("float_to_half_and_double") += hi / total - lo / total;
    for (uint64_t u = shard; u < (1u << 20); u += total) { // the other name of the same conversion
      uint32_t v = (uint32_t)u << 12 | (u & 1 ? 0xfff : 0);
      if (bits<uint16_t>(mc_f2h_ieee(bits<float>(v))) != bits<uint16_t>(mc_truncsfhf2(bits<float>(v))))
        bad("f2h", v, 0, 1);
    }
    static const uint64_t tails[] = {0, 1, 1ULL << 39, (1ULL << 40) - 1, 1ULL << 20, (1ULL << 39) + 1, (1ULL << 39) - 1};
    for (uint64_t se = shard; se < 4096; se += total)
      for (uint64_t m = 0; m < 4096; m++)
        for (auto t : tails) {
          uint64_t u = se << 52 | m << 40 | t;
          auto x = bits<double>(u);
          auto g = bits<uint16_t>(mc_truncdfhf2(x));
          count("double_to_half")++;
          if (std::isnan(x)) {
            if (!nanOk(u, 52, 64, g, 10, true))
              bad("double_to_half", u, g, 0x7e00);
            continue;
          }
          count("non_nan_results")++;
          auto want = halfOf(x);
          if (g != want)
            bad("double_to_half", u, g, want);
        }
    // the 29 bits that are rounded away: leading 4 and trailing pattern; all leading mantissa bits
    static const uint64_t low[] = {0, 1, (1ULL << 25) - 1, 1ULL << 24, 1ULL << 13};
    unsigned topBits = full ? 12 : 8;
    for (uint64_t se = shard; se < 4096; se += total)
      for (uint64_t top = 0; top < (1u << topBits); top++)
        for (uint64_t mid = 0; mid < 32; mid++) // last kept bit and first four dropped ones
          for (auto t : low)
            for (int ones = 0; ones < 2; ones++) {
              uint64_t man = top << (52 - topBits) | mid << 25 | t;
              if (ones)
                man |= ((1ULL << (52 - topBits)) - 1) & ~((1ULL << 30) - 1);
              uint64_t u = se << 52 | man;
              auto x = bits<double>(u);
              auto g = bits<uint32_t>(mc_truncdfsf2(x));
              count("double_to_float")++;
              if (std::isnan(x)) {
                if (!nanOk(u, 52, 64, g, 23, true))
                  bad("double_to_float", u, g, 0);
                continue;
              }
              count("non_nan_results")++;
              if (g != bits<uint32_t>((float)x))
                bad("double_to_float", u, g, bits<uint32_t>((float)x));
            }
  });
}
