#include "vcn.h"
#include <algorithm>
#include <array>
#include <cmath>
#include "cartographer/sensor/compressed_point_cloud.h"
using namespace cartographer; using namespace cartographer::sensor;
typedef std::array<long, 3> Ix;
VCN_CASE(roundtrip) {
  int n = rng.one_in(10) ? 0 : rng.one_in(6) ? rng.in(200, 3000) : rng.in(1, 40);
  int mode = rng.one_in(200) ? 5 : rng.one_in(40) ? 4 : rng.in(0, 3); vcn::Sig(mode); vcn::Sig(n > 40 ? 41 : n);
  std::vector<RangefinderPoint> pts; std::vector<Ix> want;
  auto coord = [&]() -> double {
    switch (mode) {
      case 0: return rng.real(-1, 1);
      case 1: return rng.real(-60, 60);
      case 2: return rng.in(-4, 4) * 1.024 + rng.in(-3, 3) * 0.001 + rng.in(-4, 4) * 0.0001;   // block borders
      case 3: return rng.in(-5, 5) * 0.001 + rng.in(-4, 4) * 0.0001;
      case 4: return rng.real(-900, 900);
      default: return rng.one_in(2) ? rng.real(-8000, 8000) : rng.real(-0.01, 0.01);
    }
  };
  if (mode == 5) n = std::min(n, 20);
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3f p(coord(), coord(), coord());
    if (i && rng.one_in(5)) p = pts[rng.in(0, i - 1)].position;
    if (rng.one_in(30)) p.setZero();
    pts.push_back({p});
    if (n < 50) NOTE("point " << p.x() << " " << p.y() << " " << p.z());
  }
  vcn::nontrivial() = n > 3;
  PointCloud pc(pts); CompressedPointCloud c(pc);
  REQUIRE(c.size() == pts.size() && c.empty() == pts.empty(), "size " << c.size() << " of " << pts.size());
  PointCloud back = c.Decompress();
  REQUIRE(back.size() == pts.size(), "decompressed to " << back.size() << " of " << pts.size() << " points");
  auto key = [](const Eigen::Vector3f& p) { Ix r; for (int k = 0; k < 3; ++k) r[k] = std::lround(static_cast<double>(p[k] / 0.001f)); return r; };
  auto less = [](const std::pair<Ix, Eigen::Vector3f>& a, const std::pair<Ix, Eigen::Vector3f>& b) { return a.first < b.first; };
  std::vector<std::pair<Ix, Eigen::Vector3f>> A, B;
  for (auto& p : pts) A.push_back({key(p.position), p.position});
  for (auto& p : back) B.push_back({key(p.position), p.position});
  std::stable_sort(A.begin(), A.end(), less); std::stable_sort(B.begin(), B.end(), less);
  for (size_t i = 0; i < A.size(); ++i) {
    for (int k = 0; k < 3; ++k) {
      REQUIRE(std::abs(A[i].first[k] - B[i].first[k]) == 0, "coordinate " << A[i].second[k] << " came back as " << B[i].second[k]);
      double tol = 0.00051 + std::abs(A[i].second[k]) * 1.3e-7;
      REQUIRE(std::abs(A[i].second[k] - B[i].second[k]) <= tol, "coordinate " << A[i].second[k] << " came back as " << B[i].second[k]);
    }
  }
  // order: points of one block keep their order
  size_t m = 0; for (const RangefinderPoint& p : c) { REQUIRE(m < back.size() && p.position == back[m].position, "iteration differs from Decompress at " << m); ++m; }
  REQUIRE(m == pts.size(), "iteration yields " << m << " points of " << pts.size());
  auto proto = c.ToProto(); CompressedPointCloud d(proto);
  REQUIRE(d == c && d.size() == c.size(), "proto round trip");
  PointCloud back2 = d.Decompress();
  REQUIRE(back2.size() == back.size(), "proto round trip size");
  for (size_t i = 0; i < back.size(); ++i) REQUIRE(back2[i].position == back[i].position, "proto round trip point " << i);
  // compressing twice loses nothing more
  CompressedPointCloud e(back);
  REQUIRE(mode >= 4 || e.Decompress().size() == back.size(), "second compression");
  if (n > 0) { auto q = pts; q[rng.in(0, n - 1)].position.x() += 1.f; REQUIRE(!(CompressedPointCloud(PointCloud(q)) == c), "different clouds compare equal"); q = pts; q.pop_back(); REQUIRE(!(CompressedPointCloud(PointCloud(q)) == c), "clouds of different size compare equal"); }
}
