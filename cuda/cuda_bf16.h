#pragma once
#include "cuda_runtime.h"
struct __nv_bfloat16_raw { unsigned short x; };
struct __nv_bfloat16 {
  unsigned short __x;
  __nv_bfloat16() = default;
  static unsigned short enc(float f) { unsigned u; memcpy(&u, &f, 4); if ((u & 0x7fffffffu) > 0x7f800000u) return 0x7fff; u += 0x7fffu + ((u >> 16) & 1); return (unsigned short)(u >> 16); }
  static float dec(unsigned short h) { unsigned u = (unsigned)h << 16; float f; memcpy(&f, &u, 4); return f; }
  __nv_bfloat16(float f) : __x(enc(f)) {}
  __nv_bfloat16(double f) : __x(enc((float)f)) {}
  __nv_bfloat16(int v) : __x(enc((float)v)) {}
  __nv_bfloat16(unsigned v) : __x(enc((float)v)) {}
  __nv_bfloat16(long v) : __x(enc((float)v)) {}
  __nv_bfloat16(unsigned long v) : __x(enc((float)v)) {}
  __nv_bfloat16(long long v) : __x(enc((float)v)) {}
  __nv_bfloat16(unsigned char v) : __x(enc((float)v)) {}
  __nv_bfloat16(const __nv_bfloat16_raw& r) : __x(r.x) {}
  operator float() const { return dec(__x); }
  __nv_bfloat16& operator=(float f) { __x = enc(f); return *this; }
  __nv_bfloat16& operator+=(const __nv_bfloat16& b) { __x = enc(dec(__x) + dec(b.__x)); return *this; }
  __nv_bfloat16& operator-=(const __nv_bfloat16& b) { __x = enc(dec(__x) - dec(b.__x)); return *this; }
  __nv_bfloat16& operator*=(const __nv_bfloat16& b) { __x = enc(dec(__x) * dec(b.__x)); return *this; }
  __nv_bfloat16& operator/=(const __nv_bfloat16& b) { __x = enc(dec(__x) / dec(b.__x)); return *this; }
};
inline __nv_bfloat16 operator+(const __nv_bfloat16& a, const __nv_bfloat16& b) { return __nv_bfloat16((float)a + (float)b); }
inline __nv_bfloat16 operator-(const __nv_bfloat16& a, const __nv_bfloat16& b) { return __nv_bfloat16((float)a - (float)b); }
inline __nv_bfloat16 operator*(const __nv_bfloat16& a, const __nv_bfloat16& b) { return __nv_bfloat16((float)a * (float)b); }
inline __nv_bfloat16 operator/(const __nv_bfloat16& a, const __nv_bfloat16& b) { return __nv_bfloat16((float)a / (float)b); }
inline __nv_bfloat16 operator-(const __nv_bfloat16& a) { return __nv_bfloat16(-(float)a); }
inline bool operator<(const __nv_bfloat16& a, const __nv_bfloat16& b) { return (float)a < (float)b; }
inline bool operator>(const __nv_bfloat16& a, const __nv_bfloat16& b) { return (float)a > (float)b; }
inline bool operator<=(const __nv_bfloat16& a, const __nv_bfloat16& b) { return (float)a <= (float)b; }
inline bool operator>=(const __nv_bfloat16& a, const __nv_bfloat16& b) { return (float)a >= (float)b; }
inline bool operator==(const __nv_bfloat16& a, const __nv_bfloat16& b) { return (float)a == (float)b; }
inline bool operator!=(const __nv_bfloat16& a, const __nv_bfloat16& b) { return (float)a != (float)b; }
namespace std {
template <> struct numeric_limits<__nv_bfloat16> { static constexpr bool is_specialized = true; };
}
inline float __bfloat162float(__nv_bfloat16 h) { return h; }
inline __nv_bfloat16 __float2bfloat16(float f) { return __nv_bfloat16(f); }
inline unsigned short __bfloat16_as_ushort(__nv_bfloat16 h) { return h.__x; }
