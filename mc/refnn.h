// Reference convolution, pooling and value patterns.
#pragma once
#include "refops.h"

namespace mc {
inline double get(const RT& x, int64_t n, int64_t ch, int64_t h, int64_t w) {
  if (h < 0 || w < 0 || h >= x.s[2] || w >= x.s[3]) return 0;
  return x.v[((n * x.s[1] + ch) * x.s[2] + h) * x.s[3] + w];
}
inline RT refConv(const RT& x, const RT& k, const RT* b, int64_t sh, int64_t sw, int64_t ph, int64_t pw) {
  int64_t oh = (x.s[2] + 2 * ph - k.s[2]) / sh + 1, ow = (x.s[3] + 2 * pw - k.s[3]) / sw + 1;
  RT o(Sh{x.s[0], k.s[0], oh, ow});
  int64_t p = 0;
  forEach(o.s, [&](const Sh& i) {
    double s = b ? b->v[i[1]] : 0;
    for (int64_t c = 0; c < k.s[1]; c++) for (int64_t y = 0; y < k.s[2]; y++) for (int64_t z = 0; z < k.s[3]; z++)
      s += get(x, i[0], c, i[2] * sh + y - ph, i[3] * sw + z - pw) * get(k, i[1], c, y, z);
    o.v[p++] = s;
  });
  return o;
}
inline RT refPool(const RT& x, int64_t kh, int64_t kw, int64_t sh, int64_t sw, int64_t ph, int64_t pw) {
  RT o(Sh{x.s[0], x.s[1], (x.s[2] + 2 * ph - kh) / sh + 1, (x.s[3] + 2 * pw - kw) / sw + 1});
  int64_t p = 0;
  forEach(o.s, [&](const Sh& i) {
    double m = -std::numeric_limits<double>::infinity();
    for (int64_t y = 0; y < kh; y++) for (int64_t z = 0; z < kw; z++) {
      int64_t h = i[2] * sh + y - ph, w = i[3] * sw + z - pw;
      if (h >= 0 && w >= 0 && h < x.s[2] && w < x.s[3]) m = std::max(m, get(x, i[0], i[1], h, w));
    }
    o.v[p++] = m;
  });
  return o;
}
// small odd multiples of 1/8 without symmetry
inline std::vector<double> vals(int64_t n, int salt) {
  std::vector<double> v(n);
  for (int64_t i = 0; i < n; i++) v[i] = (((i * 29 + salt * 17 + 5) % 31) - 15) * 0.125;
  return v;
}
}  // namespace mc
