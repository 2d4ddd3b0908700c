// Contract of RayToPixelMask: exactly the pixels whose interior the segment
// between the two subpixel centres meets.
#include "vc_begin.h"
#include "cartographer/mapping/internal/2d/ray_to_pixel_mask.h"
#include "cartographer/mapping/internal/2d/ray_to_pixel_mask.cc"
using namespace cartographer::mapping;
typedef std::vc_vector<Eigen::Array2i> Mask;
static int64_t BX, BY, EX, EY, S;       // arguments, BX <= EX
static int64_t K;                       // ghost: arbitrary position of the mask
static int64_t GX, GY;                  // ghost: arbitrary pixel
static Mask& M() { return vc::local<Mask>("pixel_mask", "vector<Eigen::Array"); }
static int64_t CX() { return vc::local<Eigen::Array2i>("current", "").x(); }
static int64_t CY() { return vc::local<Eigen::Array2i>("current", "").y(); }
static bool Has(Mask& m, int64_t x, int64_t y) {
  Eigen::Array2i* d = m.d_;
  return vc::exists(0, m.n_, [d, x, y](int64_t i) { return d[i].x() == x && d[i].y() == y; });
}
VC_INV(vert) {
  Mask& m = M(); int64_t y0 = (BY < EY ? BY : EY) / S, cy = CY();
  if (CX() != BX / S || m.n_ < 1 || cy < y0 || cy > (BY < EY ? EY : BY) / S + 1) return false;
  if (K >= 0 && K < m.n_ && !(m.d_[K].x() == BX / S && m.d_[K].y() >= y0 && m.d_[K].y() <= (BY < EY ? EY : BY) / S)) return false;
  return !(GX == BX / S && GY >= y0 && GY < cy) || Has(m, GX, GY);
}
static void Args(bool ordered) {
  S = 1000;   // the scale used by every caller
  BX = vc::any_int("bx", 0, 1 << 30); BY = vc::any_int("by", 0, 1 << 30); EX = vc::any_int("ex", 0, 1 << 30); EY = vc::any_int("ey", 0, 1 << 30);
  vc_assume(BX <= EX);
  K = vc::any_i64("k", 0, 1LL << 40); GX = vc::any_int("gx", 0, 1 << 30); GY = vc::any_int("gy", -(1 << 30), 1 << 30);
}
VC_HARNESS(vertical) {
  Args(true);
  vc_assume(BX / S == EX / S);
  Mask m = RayToPixelMask(Eigen::Array2i(BX, BY), Eigen::Array2i(EX, EY), S);
  int64_t lo = (BY < EY ? BY : EY) / S, hi = (BY < EY ? EY : BY) / S;
  if (K < m.n_) vc_assert(vc::pure([&] { return m.d_[K].x() == BX / S && m.d_[K].y() >= lo && m.d_[K].y() <= hi; }), "every pixel of the mask meets the segment");
  if (GX == BX / S && GY >= lo && GY <= hi) vc_assert(Has(m, GX, GY), "every pixel meeting the segment is in the mask");
}
