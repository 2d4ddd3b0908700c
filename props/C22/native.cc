#include "cartographer/mapping/internal/2d/ray_to_pixel_mask.h"
#include "ray_oracle.h"
#include "vcn.h"
using namespace cartographer::mapping;
static void Check(int bx, int by, int ex, int ey, int s) {
  NOTE("ray (" << bx << "," << by << ") -> (" << ex << "," << ey << ") scale " << s);
  auto mask = RayToPixelMask(Eigen::Array2i(bx, by), Eigen::Array2i(ex, ey), s);
  std::set<std::pair<int, int>> got;
  for (auto& p : mask) { REQUIRE(got.insert({p.x(), p.y()}).second, "pixel " << p.transpose() << " twice"); }
  auto want = RayPixels(bx, by, ex, ey, s);
  for (auto& p : want) REQUIRE(got.count(p), "missing pixel " << p.first << "," << p.second);
  for (auto& p : got) REQUIRE(want.count(p), "extra pixel " << p.first << "," << p.second);
  REQUIRE(got.count({bx / s, by / s}) && got.count({ex / s, ey / s}), "end pixels");
}
VCN_CASE(random_ray) {
  int s = rng.one_in(3) ? 1000 : rng.one_in(2) ? rng.in(1, 8) : rng.in(1, 100);
  int n = rng.one_in(5) ? 60 : 8;
  int lim = n * s;
  int bx = rng.in(0, lim), by = rng.in(0, lim), ex = rng.in(0, lim), ey = rng.in(0, lim);
  if (rng.one_in(6)) ex = bx; if (rng.one_in(6)) ey = by;
  if (rng.one_in(8)) { bx = bx / s * s; by = by / s * s; }
  if (rng.one_in(8)) { ex = ex / s * s + s - 1; ey = ey / s * s + s - 1; }
  vcn::Sig(bx); vcn::Sig(by); vcn::Sig(ex); vcn::Sig(ey); vcn::Sig(s); vcn::nontrivial() = true;
  Check(bx, by, ex, ey, s);
}
VCN_CASE(corner_ray) {  // through exact pixel corners
  int s = rng.one_in(3) ? 1000 : rng.in(1, 9);
  int k = rng.in(1, 5), cx = rng.in(1, 6) * s, cy = rng.in(1, 6) * s;
  int ax = rng.in(0, s - 1), ay = rng.in(0, s - 1);   // odd offsets 2a+1 from the corner
  bool down = rng.coin();
  int64_t bx = cx - 1 - ax, by = down ? cy + ay : cy - 1 - ay;
  int64_t ex = cx + ax, ey = down ? cy - 1 - ay : cy + ay;
  // lengthen symmetrically by odd multiples of the direction
  int64_t dx = 2 * ax + 1, dy = 2 * ay + 1;
  bx -= dx * (k - 1); ex += dx * (k - 1); if (down) { by += dy * (k - 1); ey -= dy * (k - 1); } else { by -= dy * (k - 1); ey += dy * (k - 1); }
  if (bx < 0 || by < 0 || ey < 0) return;
  if (rng.coin()) { std::swap(bx, ex); std::swap(by, ey); }
  vcn::Sig(bx); vcn::Sig(by); vcn::Sig(ex); vcn::Sig(ey); vcn::Sig(s); vcn::nontrivial() = true;
  Check(bx, by, ex, ey, s);
}
VCN_CASE(big_ray) {  // large coordinates: products beyond 32 bits
  int s = 1000, ox = rng.in(0, 20000) * 1000, oy = rng.in(0, 20000) * 1000;
  int w = rng.one_in(2) ? 3 : 40;
  Check(ox + rng.in(0, w * s), oy + rng.in(0, w * s), ox + rng.in(0, w * s), oy + rng.in(0, w * s), s);
  // a long flat ray, checked by its own recurrence-free count
  int len = rng.in(100, 2000), bx = rng.in(0, 999), by = rng.in(0, 2999), ey = rng.in(0, 2999), ex = len * 1000 + rng.in(0, 999);
  vcn::Sig(len); vcn::Sig(by); vcn::nontrivial() = true;
  if (rng.coin()) { std::swap(bx, by); std::swap(ex, ey); }
  if (rng.coin()) { std::swap(bx, ex); std::swap(by, ey); }
  Check(bx, by, ex, ey, s);
}
VCN_CASE(small_exhaustive) {
  int s = rng.in(1, 4), lim = 3 * s;
  int bx = rng.in(0, lim), by = rng.in(0, lim);
  for (int ex = 0; ex < lim; ++ex) for (int ey = 0; ey < lim; ++ey) { vcn::log_().str(""); Check(bx, by, ex, ey, s); }
  vcn::Sig(bx); vcn::Sig(by); vcn::Sig(s); vcn::nontrivial() = true;
}
