#include "vcn.h"
#include <cmath>
#include <map>
#include <memory>
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/mapping/internal/2d/tsdf_range_data_inserter_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
using namespace cartographer; using namespace cartographer::mapping;
// reference: the submaps there should be, each with a grid filled by the inserter alone
static sensor::RangeData Scan(vcn::Rng& rng, double R, bool three) {
  sensor::RangeData rd;
  auto z = [&](double v) { return three ? v : 0.; };
  rd.origin = Eigen::Vector3f(rng.real(-R, R) * .3, rng.real(-R, R) * .3, z(rng.real(-1, 1)));
  int n = rng.one_in(12) ? 0 : rng.in(1, 8);
  std::vector<sensor::RangefinderPoint> pts, ms; std::vector<float> in;
  for (int i = 0; i < n; ++i) { pts.push_back({Eigen::Vector3f(rng.real(-R, R), rng.real(-R, R), z(rng.real(-2, 2)))}); in.push_back(rng.real(0, 100)); }
  int m = rng.one_in(3) ? rng.in(1, 2) : 0;
  for (int i = 0; i < m; ++i) ms.push_back({Eigen::Vector3f(rng.real(-R, R), rng.real(-R, R), z(rng.real(-2, 2)))});
  rd.returns = three && rng.coin() ? sensor::PointCloud(pts, in) : sensor::PointCloud(pts); rd.misses = sensor::PointCloud(ms);
  return rd;
}
struct Ref2 { std::shared_ptr<const Submap2D> s; std::unique_ptr<Grid2D> g; int n; Eigen::Vector3f o; std::string frozen; };
static std::string Bytes(const Grid2D& g) { return g.ToProto().SerializeAsString(); }
VCN_CASE(active2d) {
  proto::SubmapsOptions2D o; const int N = rng.pick(std::vector<int>{1, 2, 3, 4}); o.set_num_range_data(N);
  const bool tsdf = rng.one_in(3); const float res = rng.pick(std::vector<float>{0.1f, 0.25f, 0.5f});
  o.mutable_grid_options_2d()->set_resolution(res); o.mutable_grid_options_2d()->set_grid_type(tsdf ? proto::GridOptions2D::TSDF : proto::GridOptions2D::PROBABILITY_GRID);
  auto* io = o.mutable_range_data_inserter_options();
  io->set_range_data_inserter_type(tsdf ? proto::RangeDataInserterOptions::TSDF_INSERTER_2D : proto::RangeDataInserterOptions::PROBABILITY_GRID_INSERTER_2D);
  auto* po = io->mutable_probability_grid_range_data_inserter_options_2d(); po->set_hit_probability(.6); po->set_miss_probability(.45); po->set_insert_free_space(rng.coin());
  auto* to = io->mutable_tsdf_range_data_inserter_options_2d(); to->set_truncation_distance(rng.pick(std::vector<double>{.6, 1.1})); to->set_maximum_weight(rng.pick(std::vector<double>{5., 10.})); to->set_update_free_space(rng.coin());
  to->mutable_normal_estimation_options()->set_num_normal_samples(2); to->mutable_normal_estimation_options()->set_sample_radius(.5); to->set_project_sdf_distance_to_scan_normal(false);
  to->set_update_weight_range_exponent(0); to->set_update_weight_angle_scan_normal_to_ray_kernel_bandwidth(0); to->set_update_weight_distance_cell_to_hit_kernel_bandwidth(0);
  ActiveSubmaps2D as(o);
  std::unique_ptr<RangeDataInserterInterface> ins; if (tsdf) ins.reset(new TSDFRangeDataInserter2D(*to)); else ins.reset(new ProbabilityGridRangeDataInserter2D(*po));
  ValueConversionTables tables;
  std::vector<Ref2> all; REQUIRE(as.submaps().empty(), "no submap before the first data");
  const int steps = rng.in(1, 5 * N + 2); const double R = rng.pick(std::vector<double>{2., 5., 12.}) ;
  vcn::Sig(N); vcn::Sig(steps); vcn::Sig(tsdf); NOTE("N " << N << " tsdf " << tsdf << " steps " << steps << " R " << R);
  for (int t = 0; t < steps; ++t) {
    auto rd = Scan(rng, R * (tsdf ? .4 : 1.), false);
    NOTE("scan " << t << " origin " << rd.origin.transpose() << " returns " << rd.returns.size() << " misses " << rd.misses.size());
    auto r = as.InsertRangeData(rd);
    if (t % N == 0) {
      Ref2 x; x.n = 0; x.o = rd.origin;
      MapLimits lim(res, rd.origin.head<2>().cast<double>() + .5 * 100 * res * Eigen::Vector2d::Ones(), CellLimits(100, 100));
      if (tsdf) x.g.reset(new TSDF2D(lim, to->truncation_distance(), to->maximum_weight(), &tables)); else x.g.reset(new ProbabilityGrid(lim, &tables));
      all.push_back(std::move(x));
    }
    size_t want = t < N ? 1 : 2;
    REQUIRE(r.size() == want, r.size() << " submaps returned after data " << t);
    REQUIRE(as.submaps() == r, "submaps() gives the returned submaps");
    for (size_t k = 0; k < want; ++k) {
      Ref2& x = all[all.size() - want + k];
      if (!x.s) { for (auto& y : all) REQUIRE(y.s != r[k], "a new submap is a new object"); x.s = r[k]; }
      REQUIRE(x.s == r[k], "the active submaps are the latest ones, oldest first");
      ++x.n; ins->Insert(rd, x.g.get());
      REQUIRE(x.s->local_pose().translation() == Eigen::Vector3d(x.o.x(), x.o.y(), 0.) && x.s->local_pose().rotation().coeffs() == Eigen::Quaterniond::Identity().coeffs(), "a submap is placed at the origin of its first data");
      REQUIRE(x.s->num_range_data() == x.n, "number of data " << x.s->num_range_data() << " of " << x.n);
      REQUIRE(x.s->insertion_finished() == (x.n == 2 * N), "finished exactly after twice num_range_data, " << x.n);
      if (x.n == 2 * N) x.g = x.g->ComputeCroppedGrid();
      REQUIRE(Bytes(*x.s->grid()) == Bytes(*x.g), "the submap holds exactly its data, once each, cropped when finished");
      if (x.n == 2 * N) x.frozen = x.s->ToProto(true).SerializeAsString();
    }
    for (auto& x : all) if (!x.frozen.empty()) REQUIRE(x.s->ToProto(true).SerializeAsString() == x.frozen, "a finished submap does not change");
    vcn::nontrivial() |= t > 2 * N;
  }
  // serialization
  const Ref2& x = all[rng.in(0, all.size() - 1)]; auto p = x.s->ToProto(true);
  Submap2D back(p.submap_2d(), &tables); REQUIRE(back.ToProto(true).SerializeAsString() == p.SerializeAsString(), "serialization round trip");
  REQUIRE(back.num_range_data() == x.s->num_range_data() && back.insertion_finished() == x.s->insertion_finished() && back.local_pose().translation() == x.s->local_pose().translation(), "serialization keeps the state");
  auto q = x.s->ToProto(false); REQUIRE(!q.submap_2d().has_grid() && q.submap_2d().num_range_data() == x.s->num_range_data() && q.submap_2d().finished() == x.s->insertion_finished(), "serialization without grid");
  Submap2D thin(q.submap_2d(), &tables); REQUIRE(thin.grid() == nullptr, "no grid"); thin.UpdateFromProto(p); REQUIRE(thin.ToProto(true).SerializeAsString() == p.SerializeAsString(), "update with the grid");
}
struct Ref3 { std::shared_ptr<const Submap3D> s; std::unique_ptr<HybridGrid> hi, lo; std::unique_ptr<IntensityHybridGrid> in; Eigen::VectorXf h; transform::Rigid3d pose; int n; std::string frozen; };
template <class G> static std::string Cells(const G& g) { std::ostringstream s; s.precision(9); for (auto v : g) s << v.first.transpose() << ":" << v.second << ";"; return s.str(); }
VCN_CASE(active3d) {
  proto::SubmapsOptions3D o; const int N = rng.pick(std::vector<int>{1, 2, 3}); o.set_num_range_data(N);
  const float hr = .5f, lr = 1.f; o.set_high_resolution(hr); o.set_low_resolution(lr); const double range = rng.pick(std::vector<double>{1., 3., 8., 100.}); o.set_high_resolution_max_range(range);
  auto* io = o.mutable_range_data_inserter_options(); io->set_hit_probability(.6); io->set_miss_probability(.45); io->set_num_free_space_voxels(rng.in(0, 3)); io->set_intensity_threshold(60);
  ActiveSubmaps3D as(o); RangeDataInserter3D ins(*io); std::vector<Ref3> all; const int H = rng.in(4, 12);
  const int steps = rng.in(1, 4 * N + 2); vcn::Sig(N); vcn::Sig(steps); vcn::Sig(range); NOTE("3d N " << N << " steps " << steps << " range " << range);
  for (int t = 0; t < steps; ++t) {
    auto rd = Scan(rng, 6, true); Eigen::Quaterniond q(Eigen::AngleAxisd(rng.real(-3, 3), Eigen::Vector3d(rng.real(-.2, .2), rng.real(-.2, .2), 1).normalized()));
    Eigen::VectorXf hist(H); for (int i = 0; i < H; ++i) hist(i) = rng.real(0, 2);
    auto r = as.InsertData(rd, q, hist);
    if (t % N == 0) { Ref3 x; x.n = 0; x.pose = transform::Rigid3d(rd.origin.cast<double>(), q); x.hi.reset(new HybridGrid(hr)); x.lo.reset(new HybridGrid(lr)); x.in.reset(new IntensityHybridGrid(hr)); x.h = Eigen::VectorXf::Zero(H); all.push_back(std::move(x)); }
    size_t want = t < N ? 1 : 2;
    REQUIRE(r.size() == want && as.submaps() == r, r.size() << " submaps returned after data " << t);
    for (size_t k = 0; k < want; ++k) {
      Ref3& x = all[all.size() - want + k];
      if (!x.s) { for (auto& y : all) REQUIRE(y.s != r[k], "a new submap is a new object"); x.s = r[k]; }
      REQUIRE(x.s == r[k], "the active submaps are the latest ones, oldest first");
      ++x.n;
      const auto inv = x.pose.inverse().cast<float>();
      sensor::RangeData full, near; full.origin = inv * rd.origin; near.origin = full.origin; std::vector<sensor::RangefinderPoint> a, b; std::vector<float> ai, bi;
      for (size_t i = 0; i < rd.returns.size(); ++i) {
        sensor::RangefinderPoint p{inv * rd.returns[i].position}; a.push_back(p); bool has = !rd.returns.intensities().empty(); if (has) ai.push_back(rd.returns.intensities()[i]);
        if ((p.position - full.origin).norm() <= static_cast<float>(range)) { b.push_back(p); if (has) bi.push_back(rd.returns.intensities()[i]); }
      }
      full.returns = ai.empty() ? sensor::PointCloud(a) : sensor::PointCloud(a, ai); near.returns = bi.empty() ? sensor::PointCloud(b) : sensor::PointCloud(b, bi);
      ins.Insert(near, x.hi.get(), x.in.get()); ins.Insert(full, x.lo.get(), nullptr);
      const float yaw = transform::GetYaw(x.pose.inverse().rotation() * q); x.h += scan_matching::RotationalScanMatcher::RotateHistogram(hist, yaw);
      REQUIRE((x.s->local_pose().translation() - x.pose.translation()).norm() == 0. && x.s->local_pose().rotation().coeffs() == q.coeffs() == (x.pose.rotation().coeffs() == q.coeffs()), "a submap is placed at the origin of its first data, gravity aligned");
      REQUIRE(x.s->local_pose().rotation().coeffs() == x.pose.rotation().coeffs(), "gravity aligned");
      REQUIRE(x.s->num_range_data() == x.n, "number of data " << x.s->num_range_data() << " of " << x.n);
      REQUIRE(x.s->insertion_finished() == (x.n == 2 * N), "finished exactly after twice num_range_data, " << x.n);
      REQUIRE(x.s->high_resolution_hybrid_grid().resolution() == hr && x.s->low_resolution_hybrid_grid().resolution() == lr, "resolutions");
      REQUIRE(Cells(x.s->high_resolution_hybrid_grid()) == Cells(*x.hi), "the high resolution grid holds exactly the near returns, once each");
      REQUIRE(Cells(x.s->low_resolution_hybrid_grid()) == Cells(*x.lo), "the low resolution grid holds exactly all data, once each");
      for (auto& p : a) { auto c = x.in->GetCellIndex(p.position); REQUIRE(x.s->high_resolution_intensity_hybrid_grid().GetIntensity(c) == x.in->GetIntensity(c), "intensities of the near returns"); }
      REQUIRE(x.s->rotational_scan_matcher_histogram().size() == H && (x.s->rotational_scan_matcher_histogram() - x.h).norm() <= 1e-4f, "the histogram is the sum of the rotated histograms of its data");
      if (x.n == 2 * N) x.frozen = x.s->ToProto(true).SerializeAsString();
    }
    for (auto& x : all) if (!x.frozen.empty()) REQUIRE(x.s->ToProto(true).SerializeAsString() == x.frozen, "a finished submap does not change");
    vcn::nontrivial() |= t > 2 * N;
  }
  const Ref3& x = all[rng.in(0, all.size() - 1)]; auto p = x.s->ToProto(true);
  Submap3D back(p.submap_3d()); REQUIRE(back.ToProto(true).SerializeAsString() == p.SerializeAsString(), "serialization round trip");
  REQUIRE(Cells(back.high_resolution_hybrid_grid()) == Cells(*x.hi) && Cells(back.low_resolution_hybrid_grid()) == Cells(*x.lo) && back.num_range_data() == x.n && back.insertion_finished() == x.s->insertion_finished() && (back.rotational_scan_matcher_histogram() - x.h).norm() < 1e-4f, "serialization keeps the state");
}
// many range data per submap: the life cycle alone
template <class A, class F> static void Long(int N, int steps, A& as, const F& insert) {
  typedef decltype(as.submaps()) L; std::map<const void*, int> count; std::map<const void*, typename L::value_type> keep;
  for (int t = 0; t < steps; ++t) {
    L r = insert(); REQUIRE(r.size() == (t < N ? 1u : 2u), r.size() << " submaps after data " << t);
    for (auto& s : r) { keep[s.get()] = s; int n = ++count[s.get()]; REQUIRE(s->num_range_data() == n, "counts " << s->num_range_data() << " of " << n); REQUIRE(s->insertion_finished() == (n == 2 * N), "finished after " << n); }
  }
  REQUIRE(int(keep.size()) == (steps + N - 1) / N, keep.size() << " submaps after " << steps);
}
VCN_CASE(long_life) {
  if (!rng.one_in(10)) return;
  const int N = rng.in(60, 400), steps = rng.in(N, 3 * N + 3); vcn::Sig(N); vcn::Sig(steps); vcn::nontrivial() = true; NOTE("long N " << N << " steps " << steps);
  sensor::RangeData rd{Eigen::Vector3f::Zero(), sensor::PointCloud({{Eigen::Vector3f(.3f, 0, 0)}}), {}};
  if (rng.coin()) {
    proto::SubmapsOptions2D o; o.set_num_range_data(N); o.mutable_grid_options_2d()->set_resolution(.25); o.mutable_grid_options_2d()->set_grid_type(proto::GridOptions2D::PROBABILITY_GRID);
    auto* io = o.mutable_range_data_inserter_options(); io->set_range_data_inserter_type(proto::RangeDataInserterOptions::PROBABILITY_GRID_INSERTER_2D);
    auto* po = io->mutable_probability_grid_range_data_inserter_options_2d(); po->set_hit_probability(.6); po->set_miss_probability(.45); po->set_insert_free_space(false);
    ActiveSubmaps2D as(o); Long(N, steps, as, [&] { return as.InsertRangeData(rd); });
  } else {
    proto::SubmapsOptions3D o; o.set_num_range_data(N); o.set_high_resolution(.5); o.set_low_resolution(1); o.set_high_resolution_max_range(5);
    auto* io = o.mutable_range_data_inserter_options(); io->set_hit_probability(.6); io->set_miss_probability(.45); io->set_num_free_space_voxels(0); io->set_intensity_threshold(60);
    ActiveSubmaps3D as(o); Eigen::VectorXf h = Eigen::VectorXf::Zero(4); Long(N, steps, as, [&] { return as.InsertData(rd, Eigen::Quaterniond::Identity(), h); });
  }
}
