#include "cartographer/common/math.h"
#include "cartographer/common/time.h"
#include "vcn.h"
using namespace cartographer;
VCN_CASE(time) {
  vcn::nontrivial() = true;
  for (int k = 0; k < 200; ++k) {
    int64_t t = rng.in(-(1LL << rng.in(1, 61)), 1LL << rng.in(1, 61));
    vcn::Sig(t);
    REQUIRE(common::ToUniversal(common::FromUniversal(t)) == t, t);
    int64_t u = rng.one_in(3) ? t + rng.in(-2, 2) : rng.in(-(1LL << 61), 1LL << 61);
    REQUIRE((common::FromUniversal(t) < common::FromUniversal(u)) == (t < u), t << " " << u);
    int64_t d = rng.in(-(1LL << rng.in(1, 49)), 1LL << rng.in(1, 49));
    REQUIRE(std::abs(common::ToSeconds(common::Duration(d)) - d * 1e-7) <= std::abs(d) * 1e-22 + 1e-9 * 1e-3 + std::abs(d * 1e-7) * 1e-15, d);
    int64_t back = common::FromSeconds(common::ToSeconds(common::Duration(d))).count();
    REQUIRE(std::abs(back - d) <= 1, d << " -> " << back);
    double s = rng.real(-1, 1) * std::pow(10., rng.in(-7, 7));
    double b = common::ToSeconds(common::FromSeconds(s));
    REQUIRE(std::abs(b - s) < 1.001e-7 + 1e-15 * std::abs(s), s << " -> " << b);
    if (s >= 0) REQUIRE(common::FromSeconds(s).count() >= 0, s);
    int64_t m = rng.in(-(1LL << 40), 1LL << 40);
    REQUIRE(common::FromMilliseconds(m).count() == m * 10000, m);
    std::chrono::steady_clock::duration sd(rng.in(0, 1LL << 50));
    REQUIRE(std::abs(common::ToSeconds(sd) - sd.count() * 1e-9) < 1e-9 + 1e-15 * sd.count(), sd.count());
    double s2 = s + rng.unit() * 1e-7;
    REQUIRE(common::FromSeconds(s) <= common::FromSeconds(s2), s << " " << s2);
    std::ostringstream os; os << common::FromUniversal(t);
    REQUIRE(os.str() == std::to_string(t), os.str());
  }
}
template <class T> static void Clamp(T v, T lo, T hi) {
  if (hi < lo) std::swap(lo, hi);
  T r = common::Clamp(v, lo, hi);
  REQUIRE(r == (v < lo ? lo : v > hi ? hi : v), v << " into " << lo << " " << hi << " -> " << r);
}
VCN_CASE(math) {
  vcn::nontrivial() = true;
  for (int k = 0; k < 200; ++k) {
    Clamp<int>(rng.in(-20, 20), rng.in(-20, 20), rng.in(-20, 20));
    Clamp<double>(rng.dyadic(-4, 4, 2), rng.dyadic(-4, 4, 2), rng.dyadic(-4, 4, 2));
    Clamp<float>(rng.dyadic(-4, 4, 2), rng.dyadic(-4, 4, 2), rng.dyadic(-4, 4, 2));
    double a = rng.one_in(3) ? rng.in(-40, 40) * M_PI / 4 + rng.real(-1e-3, 1e-3) : rng.real(-200, 200);
    if (rng.one_in(20)) a = rng.in(-9, 9) * M_PI;
    double r = common::NormalizeAngleDifference(a);
    REQUIRE(r >= -M_PI && r <= M_PI, a << " -> " << r);
    REQUIRE(std::abs(std::remainder(a - r, 2 * M_PI)) < 1e-9, a << " -> " << r);
    if (a >= -M_PI && a <= M_PI) REQUIRE(r == a, a << " -> " << r);
    float fr = common::NormalizeAngleDifference(static_cast<float>(a));
    REQUIRE(fr >= -3.1415930f && fr <= 3.1415930f && std::abs(std::remainder(a - fr, 2 * M_PI)) < 1e-3, a << " -> " << fr);
    vcn::Sig(uint64_t(a * 1000));
    double x = rng.real(-1e6, 1e6); if (rng.coin()) x = rng.in(-100000, 100000) + 0.5 * rng.in(-1, 1) + rng.in(-1, 1) * 0.01;
    REQUIRE(std::abs(common::RoundToInt(x) - x) <= 0.5 && std::abs(common::RoundToInt64(x) - x) <= 0.5, x);
    REQUIRE(common::RoundToInt(x) == std::lround(x) && common::RoundToInt64(-x) == -common::RoundToInt64(x), x);
    REQUIRE(common::RoundToInt(float(x)) == std::lround(double(float(x))), x);
    double big = std::ldexp(rng.real(-1, 1), rng.in(20, 62));
    REQUIRE(common::RoundToInt64(big) == std::llround(big) && common::RoundToInt64(float(big)) == std::llround(float(big)), big);
    double d = rng.dyadic(-8, 8, 3);
    REQUIRE(common::Pow2(d) == d * d && common::Power(d, 3) == d * d * d && common::Power(d, 0) == 1., d);
    REQUIRE(std::abs(common::DegToRad(d) - d / 57.29577951308232) < 1e-12 && std::abs(common::RadToDeg(common::DegToRad(d)) - d) < 1e-12, d);
    double z[4], w[4], p[4];
    for (int i = 0; i < 4; ++i) { z[i] = rng.dyadic(-4, 4, 3); w[i] = rng.dyadic(-4, 4, 3); }
    common::QuaternionProduct(z, w, p);
    Eigen::Quaterniond q = Eigen::Quaterniond(z[0], z[1], z[2], z[3]) * Eigen::Quaterniond(w[0], w[1], w[2], w[3]);
    REQUIRE(p[0] == q.w() && p[1] == q.x() && p[2] == q.y() && p[3] == q.z(), "quaternion product");
    double yy = rng.real(-3, 3), xx = rng.real(-3, 3);
    REQUIRE(common::atan2(Eigen::Vector2d(xx, yy)) == std::atan2(yy, xx), "atan2 of a vector");
  }
}
