#pragma once
#include "cuda_runtime.h"
struct __half_raw { unsigned short x; };
struct __half {
  unsigned short __x;
  __half() = default;
  static unsigned short enc(float f) { _Float16 v = (_Float16)f; unsigned short h; memcpy(&h, &v, 2); return h; }
  static float dec(unsigned short h) { _Float16 v; memcpy(&v, &h, 2); return (float)v; }
  __half(float f) : __x(enc(f)) {}
  __half(double f) : __x(enc((float)f)) {}
  __half(int v) : __x(enc((float)v)) {}
  __half(unsigned v) : __x(enc((float)v)) {}
  __half(long v) : __x(enc((float)v)) {}
  __half(unsigned long v) : __x(enc((float)v)) {}
  __half(long long v) : __x(enc((float)v)) {}
  __half(unsigned char v) : __x(enc((float)v)) {}
  __half(const __half_raw& r) : __x(r.x) {}
  operator float() const { return dec(__x); }
  __half& operator=(float f) { __x = enc(f); return *this; }
  __half& operator+=(const __half& b) { __x = enc(dec(__x) + dec(b.__x)); return *this; }
  __half& operator-=(const __half& b) { __x = enc(dec(__x) - dec(b.__x)); return *this; }
  __half& operator*=(const __half& b) { __x = enc(dec(__x) * dec(b.__x)); return *this; }
  __half& operator/=(const __half& b) { __x = enc(dec(__x) / dec(b.__x)); return *this; }
};
inline __half operator+(const __half& a, const __half& b) { return __half((float)a + (float)b); }
inline __half operator-(const __half& a, const __half& b) { return __half((float)a - (float)b); }
inline __half operator*(const __half& a, const __half& b) { return __half((float)a * (float)b); }
inline __half operator/(const __half& a, const __half& b) { return __half((float)a / (float)b); }
inline __half operator-(const __half& a) { return __half(-(float)a); }
inline bool operator<(const __half& a, const __half& b) { return (float)a < (float)b; }
inline bool operator>(const __half& a, const __half& b) { return (float)a > (float)b; }
inline bool operator<=(const __half& a, const __half& b) { return (float)a <= (float)b; }
inline bool operator>=(const __half& a, const __half& b) { return (float)a >= (float)b; }
inline bool operator==(const __half& a, const __half& b) { return (float)a == (float)b; }
inline bool operator!=(const __half& a, const __half& b) { return (float)a != (float)b; }
namespace std {
template <> struct numeric_limits<__half> { static constexpr bool is_specialized = true; };
}
typedef __half half;
inline float __half2float(__half h) { return h; }
inline __half __float2half(float f) { return __half(f); }
inline __half __float2half_rn(float f) { return __half(f); }
inline unsigned short __half_as_ushort(__half h) { return h.__x; }
inline short __half_as_short(__half h) { return (short)h.__x; }
inline __half __ushort_as_half(unsigned short x) { __half h; h.__x = x; return h; }
inline __half __hneg(__half a) { return -a; }
