// The compiled sorts (codon/runtime/numpy/sort.cpp): every short sequence over boundary values and
// every long array made of runs, for every element type; neighbours of the array stay untouched.
#include "explore.h"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include "hwy/base.h"
using namespace mc;

extern "C" {
void cnp_sort_int16(int16_t *, int64_t);
void cnp_sort_uint16(uint16_t *, int64_t);
void cnp_sort_int32(int32_t *, int64_t);
void cnp_sort_uint32(uint32_t *, int64_t);
void cnp_sort_int64(int64_t *, int64_t);
void cnp_sort_uint64(uint64_t *, int64_t);
void cnp_sort_uint128(hwy::uint128_t *, int64_t);
void cnp_sort_float32(float *, int64_t);
void cnp_sort_float64(double *, int64_t);
}

// unsigned 128-bit numbers as the library sees them
struct Wide {
  unsigned __int128 v;
  bool operator<(const Wide &o) const { return v < o.v; }
  bool operator==(const Wide &o) const { return v == o.v; }
};
static std::string show(Wide w) { return std::to_string((uint64_t)(w.v >> 64)) + ":" + std::to_string((uint64_t)w.v); }
template <class T> static std::string show(T x) { return std::to_string(x); }

template <class T> struct Order {
  const char *name;
  void (*sort)(T *, int64_t);
  std::vector<T> alphabet;

  void one(const std::vector<T> &v, const std::string &what) {
    static std::vector<T> buf;
    const size_t pad = 8;
    T guard = alphabet[2];
    buf.assign(v.size() + 2 * pad, guard);
    std::copy(v.begin(), v.end(), buf.begin() + pad);
    sort(buf.data() + pad, v.size());
    count("native_sorts")++;
    auto want = v;
    std::sort(want.begin(), want.end());
    bool ok = !memcmp(want.data(), buf.data() + pad, v.size() * sizeof(T));
    if (!ok) // equal values with different bits (zeros) may come in any order
      ok = std::equal(want.begin(), want.end(), buf.begin() + pad);
    for (size_t i = 0; i < pad; i++)
      if (!(buf[i] == guard) || !(buf[pad + v.size() + i] == guard))
        fail(std::string("sort-bounds:") + name, what + ": writes outside of the array");
    if (!ok) {
      std::string s;
      for (size_t i = 0; i < v.size() && i < 24; i++)
        s += show(v[i]) + " ";
      s += "-> ";
      for (size_t i = 0; i < v.size() && i < 24; i++)
        s += show(buf[pad + i]) + " ";
      fail(std::string("sort:") + name, what + ": " + s);
    }
  }

  void all(bool deep, int shard, int total) {
    current(name);
    size_t k = alphabet.size(), job = 0;
    for (int n = 0; n <= (deep ? 8 : 6); n++) {
      size_t m = 1;
      for (int i = 0; i < n; i++)
        m *= k;
      for (size_t c = shard; c < m; c += total) {
        std::vector<T> v;
        size_t x = c;
        for (int i = 0; i < n; i++, x /= k)
          v.push_back(alphabet[x % k]);
        one(v, "short");
      }
    }
    int width = deep ? 20 : 16;
    for (int n = 7; n <= width; n++)
      for (size_t c = shard; c < 1ULL << n; c += total) {
        std::vector<T> v;
        for (int i = 0; i < n; i++)
          v.push_back(alphabet[c >> i & 1 ? k - 1 : 0]);
        one(v, "two values");
      }
    // every length, every mixture: i*s mod p scaled into the type, and two runs at every cut
    for (int n = 1; n <= (deep ? 1200 : 520); n++) {
      if ((int)(job++ % total) != shard)
        continue;
      for (int s = 1; s < 40; s++) {
        std::vector<T> v;
        for (int i = 0; i < n; i++)
          v.push_back(scaled((uint64_t)i * s % (s & 1 ? 1031 : 13) * 63));
        one(v, "strided");
      }
      for (int cut = 0; cut <= n; cut += std::max(1, n / 24))
        for (int kind = 0; kind < 4; kind++) {
          std::vector<T> v;
          for (int i = 0; i < n; i++)
            v.push_back(scaled((kind & 1) == (i < cut) ? i * 7 : (n - i) * (kind & 2 ? 7 : 11)));
          one(v, "runs");
        }
    }
    for (size_t n : {4096, 10007, 65536, 100003}) {
      if ((int)(job++ % total) != shard)
        continue;
      for (int s : {1, 3, 7, 4999}) {
        std::vector<T> v;
        for (size_t i = 0; i < n; i++)
          v.push_back(scaled(i * s % n));
        one(v, "long");
        for (auto &x : v)
          x = x < scaled(n / 2) ? alphabet[0] : x;
        one(v, "long, half equal");
      }
    }
  }
  static T scaled(uint64_t x) {
    if constexpr (std::is_same_v<T, Wide>)
      return {(unsigned __int128)x << 61 | (x & 3)};
    else if constexpr (std::is_floating_point_v<T>)
      return (T)((int64_t)x - 20000) / 4;
    else if constexpr (sizeof(T) == 2)
      return (T)(x * 3);
    else
      return (T)(x << (sizeof(T) * 8 - 17)) ^ (T)x;
  }
};

template <class T> static std::vector<T> numbers() {
  T mn = std::numeric_limits<T>::lowest(), mx = std::numeric_limits<T>::max();
  if constexpr (std::is_floating_point_v<T>)
    return {-std::numeric_limits<T>::infinity(), mn, (T)-1.5, (T)0, std::numeric_limits<T>::denorm_min(), mx, std::numeric_limits<T>::infinity()};
  else
    return {mn, (T)(mn + 1), (T)-1 < (T)0 ? (T)-1 : (T)(mx / 2 + 1), (T)0, (T)1, (T)256, mx};
}

int main(int argc, char **argv) {
  bool deep = atoi(argv[1]);
  int n = atoi(argv[2]);
  return shards(n, "vecsort", [&](int shard, int total) {
    Order<int16_t>{"int16", cnp_sort_int16, numbers<int16_t>()}.all(deep, shard, total);
    Order<uint16_t>{"uint16", cnp_sort_uint16, numbers<uint16_t>()}.all(deep, shard, total);
    Order<int32_t>{"int32", cnp_sort_int32, numbers<int32_t>()}.all(deep, shard, total);
    Order<uint32_t>{"uint32", cnp_sort_uint32, numbers<uint32_t>()}.all(deep, shard, total);
    Order<int64_t>{"int64", cnp_sort_int64, numbers<int64_t>()}.all(deep, shard, total);
    Order<uint64_t>{"uint64", cnp_sort_uint64, numbers<uint64_t>()}.all(deep, shard, total);
    Order<Wide>{"uint128", (void (*)(Wide *, int64_t))cnp_sort_uint128,
                {{0}, {1}, {(unsigned __int128)1 << 64}, {((unsigned __int128)1 << 64) - 1}, {(unsigned __int128)3 << 126}, {(unsigned __int128)1 << 127}, {~(unsigned __int128)0}}}
        .all(deep, shard, total);
    Order<float>{"float32", cnp_sort_float32, numbers<float>()}.all(deep, shard, total);
    Order<double>{"float64", cnp_sort_float64, numbers<double>()}.all(deep, shard, total);
  }, deep ? 3000 : 800);
}
