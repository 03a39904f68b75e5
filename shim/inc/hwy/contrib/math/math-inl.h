// Adds what hwy 1.0.7's math-inl.h lacks (Exp2, Hypot), lane by lane.
#include "/usr/include/hwy/contrib/math/math-inl.h"
#if defined(CODON_HWY_MATH_SHIM) == defined(HWY_TARGET_TOGGLE)
#ifdef CODON_HWY_MATH_SHIM
#undef CODON_HWY_MATH_SHIM
#else
#define CODON_HWY_MATH_SHIM
#endif
#include <cmath>
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
template <class D, class V> HWY_INLINE V Exp2(const D d, V x) {
  HWY_ALIGN TFromD<D> t[MaxLanes(D())];
  Store(x, d, t);
  for (size_t i = 0; i < Lanes(d); i++)
    t[i] = std::exp2(t[i]);
  return Load(d, t);
}
template <class D, class V> HWY_INLINE V Hypot(const D d, V x, V y) {
  HWY_ALIGN TFromD<D> t[MaxLanes(D())], u[MaxLanes(D())];
  Store(x, d, t);
  Store(y, d, u);
  for (size_t i = 0; i < Lanes(d); i++)
    t[i] = std::hypot(t[i], u[i]);
  return Load(d, t);
}
} // namespace HWY_NAMESPACE
} // namespace hwy
HWY_AFTER_NAMESPACE();
#endif
