#include "vcn.h"
#include <array>
#include <cmath>
#include <map>
#include <set>
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/probability_values.h"
using namespace cartographer; using namespace cartographer::mapping;
typedef std::array<int, 3> Ix;
static double OddsOf(double p) { return p / (1. - p); }
static double Apply(bool known, double p, double u) {
  double q = known ? OddsOf(p) * OddsOf(u) : OddsOf(u); q = q / (1. + q);
  return q < 0.1 ? 0.1 : q > 0.9 ? 0.9 : q;
}
// voxel of a point: the voxel whose centre is nearest (points are placed away from ties)
static Ix Vox(const std::array<double, 3>& p, double res) { Ix r; for (int k = 0; k < 3; ++k) r[k] = static_cast<int>(std::lround(p[k] / res)); return r; }
static Eigen::Array3i E(const Ix& i) { return Eigen::Array3i(i[0], i[1], i[2]); }
VCN_CASE(insert) {
  const float res = rng.pick(std::vector<float>{1.f, 0.5f, 0.25f, 2.f});
  proto::RangeDataInserterOptions3D o;
  o.set_hit_probability(rng.real(0.51, 0.9)); o.set_miss_probability(rng.real(0.11, 0.49));
  int nf = rng.one_in(5) ? 0 : rng.one_in(5) ? 1000 : rng.in(1, 6); o.set_num_free_space_voxels(nf);
  float thr = rng.pick(std::vector<float>{0.f, 5.f, 100.f, 3.5f}); o.set_intensity_threshold(thr);
  RangeDataInserter3D ins(o);
  HybridGrid g(res); IntensityHybridGrid ig(res);
  std::map<Ix, double> prob; std::map<Ix, std::pair<double, int>> in;
  const int scans = rng.in(1, 3), R = rng.one_in(3) ? 3 : rng.one_in(3) ? 40 : 12;
  vcn::Sig(scans); vcn::Sig(nf); NOTE("res " << res << " free " << nf << " hit " << o.hit_probability() << " miss " << o.miss_probability() << " thr " << thr);
  for (int s = 0; s < scans; ++s) {
    auto pt = [&]() { std::array<double, 3> p; for (int k = 0; k < 3; ++k) p[k] = (rng.in(-R, R) + rng.in(-45, 45) / 100.) * res; return p; };
    auto op = pt(); if (rng.one_in(3)) op = {{0, 0, 0}};
    int n = rng.one_in(8) ? 0 : rng.in(1, rng.one_in(3) ? 2 : 12);
    std::vector<std::array<double, 3>> ps; std::vector<sensor::RangefinderPoint> pts; std::vector<float> ints;
    const bool with = rng.one_in(2);
    for (int i = 0; i < n; ++i) {
      auto p = pt();
      if (rng.one_in(4) && i) { p = ps[rng.in(0, i - 1)]; }                       // the same voxel twice
      else if (rng.one_in(4) && i) { auto q = ps[rng.in(0, i - 1)]; for (int k = 0; k < 3; ++k) p[k] = op[k] + 2 * (q[k] - op[k]); for (int k = 0; k < 3; ++k) p[k] = (std::lround(p[k] / res) + .2) * res; }  // behind another return
      else if (rng.one_in(12)) p = op;
      ps.push_back(p); pts.push_back({Eigen::Vector3f(p[0], p[1], p[2])});
      ints.push_back(rng.pick(std::vector<float>{0.f, 1.f, 3.f, 3.5f, 4.f, 5.f, 99.f, 100.f, 101.f, 5.5f}));
      NOTE("return " << p[0] << " " << p[1] << " " << p[2] << " intensity " << ints.back());
    }
    NOTE("origin " << op[0] << " " << op[1] << " " << op[2] << (with ? " with intensities" : ""));
    sensor::RangeData rd; rd.origin = Eigen::Vector3f(op[0], op[1], op[2]);
    rd.returns = with ? sensor::PointCloud(pts, ints) : sensor::PointCloud(pts);
    if (rng.one_in(2)) { auto m = pt(); rd.misses = sensor::PointCloud({sensor::RangefinderPoint{Eigen::Vector3f(m[0], m[1], m[2])}}); }
    const bool use = rng.one_in(2) || with;
    // expectation
    std::set<Ix> hits, misses; const Ix ov = Vox(op, res);
    for (auto& p : ps) hits.insert(Vox(p, res));
    for (auto& p : ps) {
      Ix h = Vox(p, res); int m = 0; for (int k = 0; k < 3; ++k) m = std::max(m, std::abs(h[k] - ov[k]));
      for (int t = std::max(0, m - nf); t < m; ++t) { Ix c; for (int k = 0; k < 3; ++k) c[k] = ov[k] + static_cast<int>(std::trunc(static_cast<double>(h[k] - ov[k]) * t / m)); if (!hits.count(c)) misses.insert(c); }
    }
    for (auto& h : hits) { auto f = prob.find(h); prob[h] = Apply(f != prob.end(), f == prob.end() ? 0 : f->second, o.hit_probability()); }
    for (auto& h : misses) { auto f = prob.find(h); prob[h] = Apply(f != prob.end(), f == prob.end() ? 0 : f->second, o.miss_probability()); }
    if (use && with) for (int i = 0; i < n; ++i) if (ints[i] <= thr) { auto& x = in[Vox(ps[i], res)]; x.first += ints[i]; ++x.second; }
    vcn::nontrivial() |= misses.size() > 1 && hits.size() > 1;
    ins.Insert(rd, &g, use ? &ig : nullptr);
    size_t seen = 0;
    for (auto it : g) {
      ++seen; Ix c{{it.first.x(), it.first.y(), it.first.z()}};
      auto f = prob.find(c); REQUIRE(f != prob.end(), "voxel " << c[0] << "," << c[1] << "," << c[2] << " was updated but is neither hit nor free space");
      REQUIRE(it.second < 32768, "update marker left in voxel " << c[0] << "," << c[1] << "," << c[2]);
      REQUIRE(std::abs(g.GetProbability(it.first) - f->second) < 2e-4 * (s + 1), "voxel " << c[0] << "," << c[1] << "," << c[2] << " has probability " << g.GetProbability(it.first) << ", expected " << f->second);
    }
    REQUIRE(seen == prob.size(), seen << " voxels known, expected " << prob.size());
    for (auto& x : in) REQUIRE(std::abs(ig.GetIntensity(E(x.first)) - x.second.first / x.second.second) < 1e-3, "intensity of voxel " << x.first[0] << "," << x.first[1] << "," << x.first[2] << " is " << ig.GetIntensity(E(x.first)) << ", expected " << x.second.first / x.second.second);
    for (auto& x : prob) { auto f = in.find(x.first); REQUIRE(ig.value(E(x.first)).count == (f == in.end() ? 0 : f->second.second), "number of intensities in voxel " << x.first[0] << "," << x.first[1] << "," << x.first[2]); if (f == in.end()) REQUIRE(ig.GetIntensity(E(x.first)) == 0.f, "intensity without a return"); }
  }
}
