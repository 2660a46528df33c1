// Digests of call outcomes and bitwise comparison of operands (shared by the history and the schedule explorations).
#pragma once
#include "ops.hpp"
template<class T> inline bool bit_same(const T& a, const T& b) {
  if (rawnan(a) || rawnan(b)) return rawnan(a) && rawnan(b);
  if constexpr (std::is_floating_point<T>::value) return a == b && std::signbit(a) == std::signbit(b);
  else return raweq(a, b);
}
template<class I> inline bool bit_same_iv(const I& a, const I& b) { return bit_same(a.lower(), b.lower()) && bit_same(a.upper(), b.upper()); }
template<class T> inline mc::u64 digest(const T& a) { if (rawnan(a)) return 0x7ff8; if (raweq(a, T(0))) return 0; return hbits(a) * 0x9e3779b97f4a7c15ull + 1; }
template<> inline mc::u64 digest<long double>(const long double& a) { if (a != a) return 0x7ff8; if (a == 0) return 0; mc::u64 r; memcpy(&r, &a, 8); unsigned short e; memcpy(&e, (const char*)&a + 8, 2); return r * 0x9e3779b97f4a7c15ull + e; }
template<class I> mc::u64 digest_call(const Call<I>& c) {
  mc::u64 h = c.k + 1;
  if (c.k != VALUE) return h;
  auto mix = [&](mc::u64 v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; };
  mix(c.r.t);
  auto iv = [&](const I& r) { if (is_empty_set(r)) mix(77); else { mix(digest(r.lower())); mix(digest(r.upper())); } };
  switch (c.r.t) { case R_IV: iv(c.r.a); break; case R_PAIR: iv(c.r.a); iv(c.r.b); break; case R_NUM: mix(digest(c.r.n)); break; case R_BOOL: mix(c.r.q); break; default: ; }
  return h | 1;
}
