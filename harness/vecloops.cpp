// NumPy's compiled element-wise kernels (codon/runtime/numpy/loops.cpp, zmath.cpp): every function,
// every instruction set compiled in, every length around the vector width, every combination of
// strides, every position of every special value; and their accuracy on large input sets.
#include "explore.h"
#include <cmath>
#include <complex>
#include <cstdint>
#include <limits>
#include "hwy/highway.h"
#include "hwy/targets.h"
using namespace mc;

#define UNARY(X)                                                                                   \
  X(acos) X(acosh) X(asin) X(asinh) X(atan) X(atanh) X(cos) X(exp) X(exp2) X(expm1) X(log) X(log10) \
  X(log1p) X(log2) X(sin) X(sinh) X(tanh)
#define BINARY(X) X(atan2) X(hypot)
#define COMPLEX(X)                                                                                 \
  X(exp) X(log) X(sqrt) X(cosh) X(sinh) X(tanh) X(acosh) X(asinh) X(atanh) X(cos) X(sin) X(tan)    \
  X(acos) X(asin) X(atan)

extern "C" {
#define X(n)                                                                                       \
  void cnp_##n##_float32(const float *, size_t, float *, size_t, size_t);                          \
  void cnp_##n##_float64(const double *, size_t, double *, size_t, size_t);
UNARY(X)
#undef X
#define X(n)                                                                                       \
  void cnp_##n##_float32(const float *, size_t, const float *, size_t, float *, size_t, size_t);   \
  void cnp_##n##_float64(const double *, size_t, const double *, size_t, double *, size_t, size_t);
BINARY(X)
#undef X
#define X(n)                                                                                       \
  void cnp_c##n##f(float, float, float *);                                                         \
  float _Complex c##n##f(float _Complex);
COMPLEX(X)
#undef X
}

template <class T> using Wide = std::conditional_t<sizeof(T) == 4, double, long double>;
template <class T> using Bits = std::conditional_t<sizeof(T) == 4, int32_t, int64_t>;
template <class T> static T fromBits(uint64_t u) {
  Bits<T> b = u;
  T x;
  memcpy(&x, &b, sizeof x);
  return x;
}
template <class T> static __int128 rank(T x) {
  Bits<T> b;
  memcpy(&b, &x, sizeof b);
  return b < 0 ? (__int128)std::numeric_limits<Bits<T>>::min() - b : b;
}
// the same kind of value with the same sign, and at most n representable numbers apart
template <class T> static bool close(T got, T want, int n) {
  if (std::isnan(got) || std::isnan(want))
    return std::isnan(got) && std::isnan(want);
  if (std::isinf(got) || std::isinf(want) || got == 0 || want == 0)
    return got == want ? got != 0 || std::signbit(got) == std::signbit(want)
                       : std::isfinite(got) && std::isfinite(want) &&
                             std::fabs(got - want) <= n * std::numeric_limits<T>::denorm_min();
  auto d = rank(got) - rank(want);
  return d <= n && d >= -n;
}
static const int Ulps = 8;

template <class T> struct Unary {
  const char *name;
  void (*f)(const T *, size_t, T *, size_t, size_t);
  Wide<T> (*ref)(Wide<T>);
};
template <class T> struct Binary {
  const char *name;
  void (*f)(const T *, size_t, const T *, size_t, T *, size_t, size_t);
  Wide<T> (*ref)(Wide<T>, Wide<T>);
};
template <class T> static std::vector<Unary<T>> unaries() {
#define X(n)                                                                                       \
  [] {                                                                                             \
    if constexpr (sizeof(T) == 4)                                                                  \
      return Unary<T>{#n, cnp_##n##_float32, [](double x) { return std::n(x); }};                  \
    else                                                                                           \
      return Unary<T>{#n, cnp_##n##_float64, [](long double x) { return std::n(x); }};             \
  }(),
  return {UNARY(X)};
#undef X
}
template <class T> static std::vector<Binary<T>> binaries() {
#define X(n)                                                                                       \
  [] {                                                                                             \
    if constexpr (sizeof(T) == 4)                                                                  \
      return Binary<T>{#n, cnp_##n##_float32, [](double x, double y) { return std::n(x, y); }};    \
    else                                                                                           \
      return Binary<T>{#n, cnp_##n##_float64, [](long double x, long double y) { return std::n(x, y); }}; \
  }(),
  return {BINARY(X)};
#undef X
}

template <class T> static std::vector<T> specials() {
  T inf = std::numeric_limits<T>::infinity(), mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max(),
    dn = std::numeric_limits<T>::denorm_min(), eps = std::numeric_limits<T>::epsilon();
  std::vector<T> v;
  for (T x : {(T)0, dn, mn, eps, (T)0.3, (T)0.5, (T)1, 1 + eps, (T)1.5, (T)2, (T)3.14159265358979323846, (T)10, (T)87.5, (T)88.5,
              (T)100, (T)127.5, (T)128, (T)700, (T)709.5, (T)1000, (T)1023.5, (T)38999, (T)39001, (T)2e7, (T)3e7, (T)1e9, (T)7e9, mx / 2, mx, inf}) {
    v.push_back(x);
    v.push_back(-x);
  }
  v.push_back(std::numeric_limits<T>::quiet_NaN());
  return v;
}

template <class T> static std::string show(T x) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", (double)x);
  return b;
}

static std::string target;
// runs f over n elements laid out with the given strides (in bytes; negative: backwards)
template <class T, class Call, class Ref>
static void layout(const std::string &name, int args, const std::vector<std::vector<T>> &in, const std::vector<long> &is, long os, size_t n, bool inPlace,
                   const Call &call, const Ref &want) {
  static std::vector<unsigned char> bufs[3], before[3];
  const long pad = 64;
  T *base[3];
  for (int k = 0; k <= args; k++) {
    if (k == args && inPlace) {
      base[k] = base[0];
      continue;
    }
    long st = k < args ? is[k] : os, span = std::labs(st) * (long)n + sizeof(T);
    bufs[k].assign(span + 2 * pad, 0xA5);
    auto *p = bufs[k].data() + pad + (st < 0 && n ? (long)(n - 1) * -st : 0);
    base[k] = (T *)p;
    if (k < args)
      for (size_t i = 0; i < n; i++)
        memcpy(p + (long)i * st, &in[k][st ? i : 0], sizeof(T));
    before[k] = bufs[k];
  }
  call(base, n);
  auto where = [&](size_t i) {
    std::string s = name + "/" + target + " n=" + std::to_string(n) + " strides";
    for (auto x : is)
      s += " " + std::to_string(x);
    return s + " -> " + std::to_string(os) + (inPlace ? " in place" : "") + " element " + std::to_string(i);
  };
  count("kernel_calls")++;
  auto &ob = bufs[inPlace ? 0 : args];
  auto &oe = before[inPlace ? 0 : args];
  long off = (unsigned char *)base[args] - ob.data();
  for (size_t i = 0; i < n; i++) {
    T got;
    memcpy(&got, ob.data() + off + (long)i * os, sizeof(T));
    auto w = want(is[0] ? i : 0, args > 1 ? (is[1] ? i : 0) : 0);
    count("elements")++;
    if (!close<T>(got, (T)w, Ulps)) {
      std::string x;
      for (int k = 0; k < args; k++)
        x += show(in[k][is[k] ? i : 0]) + " ";
      fail("loop:" + name + ":" + std::to_string(args), where(i) + ": argument " + x + "gives " + show(got) + ", not " + show((T)w));
      return;
    }
    memcpy(oe.data() + off + (long)i * os, &got, sizeof(T));
  }
  for (int k = 0; k <= args; k++)
    if (!(k == args && inPlace) && bufs[k] != before[k])
      fail("bounds:" + name, where(0) + (k < args && !inPlace ? ": changes an argument" : ": writes outside of its elements"));
}

template <class T> static void layouts(int shard, int total) {
  const long S = sizeof(T);
  auto vals = specials<T>();
  size_t m = vals.size(), job = 0;
  std::vector<std::vector<T>> in(2, std::vector<T>(24));
  std::vector<Wide<T>> ref(m);
  for (auto &u : unaries<T>()) {
    for (size_t i = 0; i < m; i++)
      ref[i] = u.ref(vals[i]);
    for (size_t n = 0; n <= 21; n++) {
      if ((int)(job++ % total) != shard)
        continue;
      current(std::string(u.name) + " " + std::to_string(sizeof(T) * 8) + " n=" + std::to_string(n) + " " + target);
      for (size_t off = 0; off < m; off++) {
        for (size_t i = 0; i < n; i++)
          in[0][i] = vals[(off + i) % m];
        auto want = [&](size_t i, size_t) { return ref[(off + i) % m]; };
        auto name = u.name + std::to_string(S * 8);
        for (long is : {S, 0L, 2 * S, -S, 3 * S})
          for (long os : {S, 2 * S, -S})
            layout<T>(name, 1, in, {is}, os, n, false, [&](T **p, size_t n) { u.f(p[0], is, p[1], os, n); }, want);
        for (long is : {S, 2 * S})
          layout<T>(name, 1, in, {is}, is, n, true, [&](T **p, size_t n) { u.f(p[0], is, p[1], is, n); }, want);
      }
    }
  }
  std::vector<T> some;
  for (size_t i = 0; i < m; i += 3)
    some.push_back(vals[i]), some.push_back(vals[i ^ 1]);
  size_t k = some.size();
  for (auto &b : binaries<T>())
    for (size_t n = 0; n <= 19; n++) {
      if ((int)(job++ % total) != shard)
        continue;
      current(std::string(b.name) + " " + std::to_string(sizeof(T) * 8) + " n=" + std::to_string(n) + " " + target);
      for (size_t off = 0; off < k; off++)
        for (size_t step = 1; step < k; step += 6) {
          for (size_t i = 0; i < 24; i++) {
            in[0][i] = some[(off + i) % k];
            in[1][i] = some[(off * 7 + i * step) % k];
          }
          std::vector<Wide<T>> w(24 * 24);
          auto want = [&](size_t i, size_t j) { return b.ref(in[0][i], in[1][j]); };
          auto name = b.name + std::to_string(S * 8);
          for (long s1 : {S, 0L, 2 * S, -S})
            for (long s2 : {S, 0L, 2 * S, -S})
              for (long os : {S, 2 * S, -S})
                layout<T>(name, 2, in, {s1, s2}, os, n, false, [&](T **p, size_t n) { b.f(p[0], s1, p[1], s2, p[2], os, n); }, want);
          layout<T>(name, 2, in, {S, S}, S, n, true, [&](T **p, size_t n) { b.f(p[0], S, p[1], S, p[2], S, n); }, want);
        }
    }
}

template <class T> static std::vector<T> inputs(bool deep, int shard, int total) {
  std::vector<T> v;
  auto add = [&](T x) {
    v.push_back(x);
    v.push_back(-x);
  };
  if constexpr (sizeof(T) == 4) {
    for (uint64_t u = (uint64_t)shard * (deep ? 7 : 1009); u < 1ULL << 32; u += (uint64_t)total * (deep ? 7 : 1009))
      v.push_back(fromBits<T>(u));
    for (uint64_t e = shard; e < 256; e += total)
      for (int d = -3; d <= 3; d++)
        add(fromBits<T>((e << 23) + d));
  } else {
    int bits = deep ? 12 : 7;
    for (uint64_t e = shard; e < 2048; e += total) {
      for (uint64_t m = 0; m < 1u << bits; m++)
        for (uint64_t t : {0ULL, 0x3a5a5a5a5a5ULL})
          add(fromBits<T>(e << 52 | m << (52 - bits) | t));
      for (int d = -3; d <= 3; d++)
        add(fromBits<T>((e << 52) + d));
    }
  }
  for (int i = shard; i < 51200; i += total)
    add((T)(i / 64.0));
  // near the zeros of sine and cosine
  for (int k = shard; k < 25000; k += total) {
    T x = (T)(k * 1.57079632679489661923132169163975144L);
    for (int d = -2; d <= 2; d++)
      add(fromBits<T>((uint64_t)rank(x) + d));
  }
  // beyond what reduction by a float constant can do
  for (int k = shard; k < 20000; k += total)
    add((T)(39000.0L * std::pow(1.001L, k % 15000) * (1 + k / 15000)));
  while (v.size() % 16)
    v.push_back(T(0.25));
  return v;
}

template <class T> static void accuracy(bool deep, int shard, int total) {
  auto v = inputs<T>(deep, shard, total);
  std::vector<T> o(v.size());
  for (auto &u : unaries<T>()) {
    auto name = u.name + std::to_string(sizeof(T) * 8);
    current(name + " " + target);
    u.f(v.data(), sizeof(T), o.data(), sizeof(T), v.size());
    count("values") += v.size();
    int shown = 0;
    for (size_t i = 0; i < v.size(); i++) {
      T w = (T)u.ref(v[i]);
      if (!close<T>(o[i], w, Ulps) && shown++ < 3)
        fail("accuracy:" + name, target + ": " + name + "(" + show(v[i]) + ") = " + show(o[i]) + ", not " + show(w));
    }
  }
  std::vector<T> a, x, y;
  int lo = std::numeric_limits<T>::min_exponent - 20, hi = std::numeric_limits<T>::max_exponent;
  for (int e = lo; e < hi; e += sizeof(T) == 4 ? 2 : 15)
    for (T m : {1.0, 1.3, 1.9})
      for (int s : {1, -1})
        a.push_back(s * std::ldexp(m, e));
  for (T z : specials<T>())
    a.push_back(z);
  for (size_t i = shard; i < a.size(); i += total)
    for (T q : a)
      x.push_back(a[i]), y.push_back(q);
  while (x.size() % 16)
    x.push_back(1), y.push_back(1);
  o.resize(x.size());
  for (auto &b : binaries<T>()) {
    auto name = b.name + std::to_string(sizeof(T) * 8);
    current(name + " " + target);
    b.f(x.data(), sizeof(T), y.data(), sizeof(T), o.data(), sizeof(T), x.size());
    count("values") += x.size();
    int shown = 0;
    for (size_t i = 0; i < x.size(); i++) {
      T w = (T)b.ref(x[i], y[i]);
      if (!close<T>(o[i], w, Ulps) && shown++ < 3)
        fail("accuracy:" + name, target + ": " + name + "(" + show(x[i]) + ", " + show(y[i]) + ") = " + show(o[i]) + ", not " + show(w));
    }
  }
}

// the complex functions: both parts, against the C library
static void complexes(int shard, int total) {
  struct F {
    const char *name;
    void (*f)(float, float, float *);
    float _Complex (*ref)(float _Complex);
  };
#define X(n) {#n, cnp_c##n##f, c##n##f},
  std::vector<F> fs = {COMPLEX(X)};
#undef X
  auto vals = specials<float>();
  for (float x : {0.1f, 0.7f, 2.5f, 7.f, 30.f})
    vals.push_back(x), vals.push_back(-x);
  for (auto &f : fs)
    for (size_t i = shard; i < vals.size(); i += total)
      for (float im : vals) {
        float re = vals[i], z[4] = {42, 43, 44, 45};
        current(std::string("c") + f.name + "f " + show(re) + " " + show(im));
        f.f(re, im, z + 1);
        float _Complex a;
        __real__ a = re;
        __imag__ a = im;
        auto w = f.ref(a);
        count("complex_values")++;
        float wr = __real__ w, wi = __imag__ w;
        float mag = std::isfinite(wr) && std::isfinite(wi) ? std::hypot(wr, wi) : 0;
        auto same = [&](float g, float w) {
          return close<float>(g, w, 64) || (std::isfinite(g) && std::isfinite(w) && std::fabs(g - w) <= 4e-7f * mag);
        };
        if (!same(z[1], wr) || !same(z[2], wi))
          fail(std::string("complex:") + f.name, std::string("c") + f.name + "f(" + show(re) + ", " + show(im) + ") = " + show(z[1]) + ", " +
                                                     show(z[2]) + ", not " + show(wr) + ", " + show(wi));
        if (z[0] != 42 || z[3] != 45)
          fail(std::string("complex-bounds:") + f.name, "writes outside of the result");
      }
}

int main(int argc, char **argv) {
  bool deep = atoi(argv[1]);
  int n = atoi(argv[2]);
  return shards(n, "vecloops", [&](int shard, int total) {
    for (int64_t t : hwy::SupportedAndGeneratedTargets()) {
      hwy::SetSupportedTargetsForTest(t);
      target = hwy::TargetName(t);
      if (shard == 0) {
        sample("instruction set " + target);
        count("targets")++;
      }
      layouts<float>(shard, total);
      layouts<double>(shard, total);
      accuracy<float>(deep, shard, total);
      accuracy<double>(deep, shard, total);
    }
    complexes(shard, total);
  }, deep ? 3000 : 800);
}
