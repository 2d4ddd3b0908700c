// Exact integer oracle: does the segment between the centres of two subpixels
// pass through the interior of pixel (px, py)?
#ifndef RAY_ORACLE_H_
#define RAY_ORACLE_H_
#include <set>
#include <utility>
#include <algorithm>
#include <cstdint>
inline bool SegmentCrossesPixel(int64_t bx, int64_t by, int64_t ex, int64_t ey, int64_t s, int64_t px, int64_t py) {
  const int64_t x0 = 2 * bx + 1, y0 = 2 * by + 1, x1 = 2 * ex + 1, y1 = 2 * ey + 1;
  const int64_t L = 2 * s * px, R = L + 2 * s, B = 2 * s * py, T = B + 2 * s;
  if (std::max(x0, x1) <= L || std::min(x0, x1) >= R || std::max(y0, y1) <= B || std::min(y0, y1) >= T) return false;
  if (x0 == x1 && y0 == y1) return true;
  bool pos = false, neg = false;
  for (int64_t x : {L, R}) for (int64_t y : {B, T}) {
    __int128 c = static_cast<__int128>(x1 - x0) * (y - y0) - static_cast<__int128>(y1 - y0) * (x - x0);
    if (c > 0) pos = true;
    if (c < 0) neg = true;
  }
  return pos && neg;
}
inline std::set<std::pair<int, int>> RayPixels(int64_t bx, int64_t by, int64_t ex, int64_t ey, int64_t s) {
  std::set<std::pair<int, int>> r;
  for (int64_t x = std::min(bx, ex) / s; x <= std::max(bx, ex) / s; ++x)
    for (int64_t y = std::min(by, ey) / s; y <= std::max(by, ey) / s; ++y)
      if (SegmentCrossesPixel(bx, by, ex, ey, s, x, y)) r.insert({x, y});
  return r;
}
#endif
