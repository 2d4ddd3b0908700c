#include "vcn.h"
#include <map>
#include <set>
#include "cartographer/sensor/internal/voxel_filter.h"
#include "cartographer/sensor/point_cloud.h"
using namespace cartographer; using namespace cartographer::sensor;
typedef std::array<long, 3> Cell;
static Cell CellOf(const Eigen::Vector3f& p, float res) { Eigen::Array3f i = p.array() / res; return Cell{{std::lround(i.x()), std::lround(i.y()), std::lround(i.z())}}; }
static std::vector<RangefinderPoint> Gen(vcn::Rng& rng, float res, int maxn = 40) {
  std::vector<RangefinderPoint> v; int n = rng.in(0, maxn); if (rng.one_in(15)) n = rng.in(100, 400);
  int mode = rng.in(0, 4); double span = rng.pick(std::vector<double>{1, 3, 20, 1000, 100000});
  long far = rng.one_in(4) ? 1L << rng.in(1, 19) : 0;  // keys hold cells below 2^20
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3f p;
    for (int k = 0; k < 3; ++k) {
      // stay away from voxel boundaries: cell + offset in (-0.4, 0.4)
      long c = mode == 0 ? rng.in(-1, 1) : mode == 1 ? rng.in(0, 1) * (k == 0 ? 1 : 0) : rng.in(-long(span), long(span));
      if (mode == 4 && k > 0) c = rng.in(-1, 0) * long(span) + rng.in(0, 1);
      if (far) c = rng.in(-1, 1) * far + rng.in(-1, 1);
      p[k] = (c + (std::abs(double(c)) > 5000 ? 0. : rng.real(-0.4, 0.4))) * res;
    }
    if (mode == 2 && i > 0 && rng.coin()) p = v[rng.in(0, i - 1)].position;
    v.push_back({p});
  }
  NOTE("res " << res << " n " << n << " mode " << mode << " span " << span);
  for (size_t i = 0; i < v.size() && i < 60; ++i) NOTE("  " << v[i].position.transpose());
  vcn::Sig(n); vcn::Sig(mode); vcn::nontrivial() = n > 1;
  return v;
}
// used: indices of in that survive (in order), by position and tag
template <class F> static void Judge(const std::vector<RangefinderPoint>& in, float res, size_t nout, const F& same) {
  std::set<Cell> occupied, seen; for (auto& p : in) occupied.insert(CellOf(p.position, res));
  size_t j = 0;
  for (size_t k = 0; k < nout; ++k) {
    while (j < in.size() && !same(k, j)) ++j;
    REQUIRE(j < in.size(), "output " << k << " is a point of the input, in order");
    REQUIRE(seen.insert(CellOf(in[j].position, res)).second, "a second point of the same voxel survives (input " << j << ")");
    ++j;
  }
  REQUIRE(seen.size() == occupied.size(), "every occupied voxel keeps a point: " << seen.size() << " of " << occupied.size());
}
static float Res(vcn::Rng& rng) { return rng.pick(std::vector<float>{0.05f, 0.1f, 0.25f, 0.5f, 1.f, 2.f}); }
VCN_CASE(overloads) {
  float res = Res(rng); auto v = Gen(rng, res);
  auto r = VoxelFilter(v, res);
  Judge(v, res, r.size(), [&](size_t k, size_t j) { return r[k].position == v[j].position; });
  TimedPointCloud t; for (size_t i = 0; i < v.size(); ++i) t.push_back({v[i].position, float(i)});
  auto rt = VoxelFilter(t, res);
  Judge(v, res, rt.size(), [&](size_t k, size_t j) { return rt[k].position == v[j].position && rt[k].time == t[j].time; });
  std::vector<TimedPointCloudOriginData::RangeMeasurement> m; for (size_t i = 0; i < v.size(); ++i) m.push_back({{v[i].position, float(i)}, float(i) * 2, i % 3});
  auto rm = VoxelFilter(m, res);
  Judge(v, res, rm.size(), [&](size_t k, size_t j) { return rm[k].point_time.position == v[j].position && rm[k].point_time.time == m[j].point_time.time && rm[k].intensity == m[j].intensity && rm[k].origin_index == m[j].origin_index; });
}
VCN_CASE(cloud) {
  float res = Res(rng); auto v = Gen(rng, res); bool hi = rng.coin();
  std::vector<float> in; if (hi) for (size_t i = 0; i < v.size(); ++i) in.push_back(i);
  PointCloud r = VoxelFilter(PointCloud(v, in), res);
  REQUIRE(r.intensities().size() == (hi ? r.size() : 0), "intensities in step");
  Judge(v, res, r.size(), [&](size_t k, size_t j) { return r[k].position == v[j].position && (!hi || r.intensities()[k] == in[j]); });
}
VCN_CASE(adaptive) {
  float maxlen = rng.pick(std::vector<float>{0.5f, 1.f, 4.f}); auto v = Gen(rng, rng.pick(std::vector<float>{0.05f, 0.25f, 1.f, 4.f}) , 80);
  bool hi = rng.coin(); std::vector<float> in; if (hi) for (size_t i = 0; i < v.size(); ++i) in.push_back(i);
  proto::AdaptiveVoxelFilterOptions o; o.set_max_length(maxlen); o.set_min_num_points(rng.pick(std::vector<float>{0.f, 1.f, 3.f, 10.f, 30.f, 100.f}));
  o.set_max_range(rng.pick(std::vector<float>{1.f, 5.f, 50.f, 1e6f}));
  NOTE("adaptive max_length " << maxlen << " min " << o.min_num_points() << " range " << o.max_range());
  PointCloud r = AdaptiveVoxelFilter(PointCloud(v, in), o);
  std::vector<RangefinderPoint> near; std::vector<float> nin;
  for (size_t i = 0; i < v.size(); ++i) if (v[i].position.norm() <= o.max_range()) { near.push_back(v[i]); if (hi) nin.push_back(in[i]); }
  REQUIRE(r.intensities().size() == (hi ? r.size() : 0), "intensities in step");
  size_t j = 0;
  for (size_t k = 0; k < r.size(); ++k, ++j) { while (j < near.size() && !(near[j].position == r[k].position && (!hi || nin[j] == r.intensities()[k]))) ++j; REQUIRE(j < near.size(), "result " << k << " is a point of the range-limited input, in order"); }
  if (near.size() <= o.min_num_points()) { REQUIRE(r.size() == near.size(), "a sparse cloud is untouched"); return; }
  PointCloud full = VoxelFilter(PointCloud(near, nin), maxlen);
  if (full.size() >= o.min_num_points()) { REQUIRE(r.size() == full.size() && r.points() == full.points(), "the maximal edge length is used when dense enough"); return; }
  float h = maxlen; bool dense = false; float hit = 0;
  for (; h > 1e-2f * maxlen && !dense; h /= 2.f) if (VoxelFilter(PointCloud(near, nin), h / 2.f).size() >= o.min_num_points()) { dense = true; hit = h / 2.f; }
  if (!dense) return;
  REQUIRE(r.size() >= o.min_num_points(), "enough points remain");
  // not needlessly dense: within 10 percent of an edge length that is too coarse
  float lo = hit, hi2 = 2 * hit; PointCloud best = VoxelFilter(PointCloud(near, nin), lo);
  while ((hi2 - lo) / lo > 1e-1f) { float mid = (lo + hi2) / 2.f; PointCloud c = VoxelFilter(PointCloud(near, nin), mid); if (c.size() >= o.min_num_points()) { lo = mid; best = c; } else hi2 = mid; }
  REQUIRE(r.points() == best.points(), "the edge length is the one bisected to ten percent between dense enough and too coarse: " << r.size() << " vs " << best.size());
}
