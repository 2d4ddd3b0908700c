#include "vcn.h"
#include <map>
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/io/points_batch.h"
#include "cartographer/io/min_max_range_filtering_points_processor.h"
#include "cartographer/io/vertical_range_filtering_points_processor.h"
#include "cartographer/io/fixed_ratio_sampling_points_processor.h"
#include "cartographer/io/counting_points_processor.h"
#include "cartographer/io/outlier_removing_points_processor.h"
#include "cartographer/io/coloring_points_processor.h"
#include "cartographer/io/intensity_to_color_points_processor.h"
#include "cartographer/io/frame_id_filtering_points_processor.h"
using namespace cartographer;
using sensor::RangefinderPoint; using sensor::PointCloud; using io::PointsBatch; using io::PointsProcessor;
typedef PointsProcessor::FlushResult FR;
static Eigen::Vector3f V(vcn::Rng& r, int bits = 2, int lim = 8) { return Eigen::Vector3f(r.dyadic(-lim, lim, bits), r.dyadic(-lim, lim, bits), r.dyadic(-lim, lim, bits)); }
static std::unique_ptr<PointsBatch> Gen(vcn::Rng& rng, int maxn = 12) {
  auto b = absl::make_unique<PointsBatch>();
  int n = rng.in(0, maxn);
  if (rng.one_in(20)) n = rng.in(100, 400);
  bool hi = rng.coin(), hc = rng.coin();
  b->origin = V(rng); b->frame_id = rng.pick(std::vector<std::string>{"a", "b", "", "ab"});
  b->trajectory_id = rng.in(0, 3); b->start_time = common::FromUniversal(rng.in(0, 1000));
  int mode = rng.in(0, 3);
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3f p = V(rng, 2, mode == 0 ? 1 : 8);
    if (mode == 1 && i > 0 && rng.coin()) p = b->points.back().position;
    b->points.push_back({p});
    if (hi) b->intensities.push_back(rng.dyadic(-2, 300, 3));
    if (hc) b->colors.push_back({{float(i), float(rng.in(0, 255)), float(rng.in(0, 255))}});
  }
  NOTE("batch n=" << n << " hi=" << hi << " hc=" << hc << " frame=" << b->frame_id << " origin " << b->origin.transpose());
  for (auto& p : b->points) NOTE("  " << p.position.transpose());
  vcn::Sig(n); vcn::Sig(hi * 2 + hc); vcn::nontrivial() = n > 0;
  return b;
}
struct Recorder : public PointsProcessor {
  std::vector<std::unique_ptr<PointsBatch>> got; int flushes = 0; FR result = FR::kFinished;
  void Process(std::unique_ptr<PointsBatch> b) override { got.push_back(std::move(b)); }
  FR Flush() override { ++flushes; return result; }
};
static void Same(const PointsBatch& in, const std::vector<bool>& keep, const PointsBatch& out) {
  size_t k = 0;
  REQUIRE(out.origin == in.origin && out.frame_id == in.frame_id && out.trajectory_id == in.trajectory_id && out.start_time == in.start_time, "batch header unchanged");
  for (size_t i = 0; i < in.points.size(); ++i) if (keep[i]) {
    REQUIRE(k < out.points.size(), "point " << i << " is kept");
    REQUIRE(out.points[k].position == in.points[i].position, "kept point " << i << " at its place " << k);
    if (!in.intensities.empty()) REQUIRE(k < out.intensities.size() && out.intensities[k] == in.intensities[i], "intensity of point " << i);
    if (!in.colors.empty()) REQUIRE(k < out.colors.size() && out.colors[k] == in.colors[i], "colour of point " << i);
    ++k;
  }
  REQUIRE(out.points.size() == k, "no other point survives: " << out.points.size() << " vs " << k);
  REQUIRE(out.intensities.size() == (in.intensities.empty() ? 0 : k), "intensity column in step");
  REQUIRE(out.colors.size() == (in.colors.empty() ? 0 : k), "colour column in step");
}
VCN_CASE(copy_if_crop) {
  auto b = Gen(rng);
  PointCloud pc(b->points, b->intensities);
  float lo = rng.dyadic(-8, 8, 2), hi = rng.dyadic(-8, 8, 2); if (lo > hi && rng.coin()) std::swap(lo, hi);
  NOTE("crop " << lo << " " << hi);
  PointCloud c = sensor::CropPointCloud(pc, lo, hi);
  uint64_t mask = rng.next(); size_t calls = 0;
  PointCloud d = pc.copy_if([&](const RangefinderPoint&) { return (mask >> (calls++ % 64)) & 1; });
  REQUIRE(calls == b->points.size(), "the predicate is asked once per point");
  std::vector<bool> k1, k2; 
  for (size_t i = 0; i < b->points.size(); ++i) { float z = b->points[i].position.z(); k1.push_back(lo <= z && z <= hi); k2.push_back((mask >> (i % 64)) & 1); }
  for (auto pr : {std::make_pair(&c, &k1), std::make_pair(&d, &k2)}) {
    size_t k = 0;
    for (size_t i = 0; i < b->points.size(); ++i) if ((*pr.second)[i]) {
      REQUIRE(k < pr.first->size() && (*pr.first)[k].position == b->points[i].position, "selected point " << i);
      if (!b->intensities.empty()) REQUIRE(k < pr.first->intensities().size() && pr.first->intensities()[k] == b->intensities[i], "intensity " << i);
      ++k;
    }
    REQUIRE(pr.first->size() == k && pr.first->empty() == (k == 0), "no other point");
    REQUIRE(pr.first->intensities().size() == (b->intensities.empty() ? 0 : k), "intensities in step");
  }
}
VCN_CASE(transform) {
  auto b = Gen(rng);
  PointCloud pc(b->points, b->intensities);
  Eigen::Quaternionf q(rng.real(-1, 1), rng.real(-1, 1), rng.real(-1, 1), rng.real(-1, 1)); if (q.norm() < 0.1) q = Eigen::Quaternionf::Identity(); q.normalize();
  transform::Rigid3f t(V(rng), q);
  PointCloud r = sensor::TransformPointCloud(pc, t);
  REQUIRE(r.size() == pc.size() && r.intensities() == b->intensities, "as many points, same intensities");
  sensor::TimedPointCloud tp; for (size_t i = 0; i < b->points.size(); ++i) tp.push_back({b->points[i].position, float(rng.dyadic(-2, 2, 5))});
  sensor::TimedPointCloud tr = sensor::TransformTimedPointCloud(tp, t);
  REQUIRE(tr.size() == tp.size(), "as many timed points");
  Eigen::Matrix3f R = q.toRotationMatrix();
  for (size_t i = 0; i < r.size(); ++i) {
    Eigen::Vector3f e = R * b->points[i].position + t.translation();
    REQUIRE((r[i].position - e).norm() < 1e-4, "point " << i << " transformed");
    REQUIRE((tr[i].position - e).norm() < 1e-4 && tr[i].time == tp[i].time, "timed point " << i << " transformed, time kept");
  }
}
VCN_CASE(remove_points) {
  auto b = Gen(rng); PointsBatch in = *b;
  absl::flat_hash_set<int> s; std::vector<bool> keep(in.points.size(), true);
  int mode = rng.in(0, 3);
  for (size_t i = 0; i < in.points.size(); ++i) if (mode == 0 ? false : mode == 1 ? true : rng.coin()) { s.insert(i); keep[i] = false; }
  io::RemovePoints(s, b.get());
  Same(in, keep, *b);
}
template <class F, class K> static void Stream(vcn::Rng& rng, F& f, Recorder& rec, const K& keep) {
  int nb = rng.in(1, 3);
  for (int j = 0; j < nb; ++j) {
    auto b = Gen(rng); PointsBatch in = *b;
    f.Process(std::move(b));
    REQUIRE(rec.got.size() == size_t(j + 1), "every batch is passed on, once");
    std::vector<bool> k; for (size_t i = 0; i < in.points.size(); ++i) k.push_back(keep(in, i));
    Same(in, k, *rec.got[j]);
  }
  rec.result = rng.coin() ? FR::kFinished : FR::kRestartStream;
  REQUIRE(f.Flush() == rec.result && rec.flushes == 1, "flush is forwarded");
}
VCN_CASE(min_max_range) {
  double lo = rng.dyadic(0, 6, 2), hi = rng.dyadic(0, 12, 2);
  if (rng.one_in(3)) { lo = 3; hi = 5; } NOTE("range " << lo << " " << hi);
  Recorder rec; io::MinMaxRangeFilteringPointsProcessor f(lo, hi, &rec);
  Stream(rng, f, rec, [&](const PointsBatch& b, size_t i) { Eigen::Vector3d d = (b.points[i].position - b.origin).cast<double>(); double r = d.squaredNorm(); return lo * lo <= r && r <= hi * hi; });
}
VCN_CASE(vertical_range) {
  double lo = rng.dyadic(-8, 8, 2), hi = rng.dyadic(-8, 8, 2); if (lo > hi && rng.coin()) std::swap(lo, hi); NOTE("range " << lo << " " << hi);
  Recorder rec; io::VerticalRangeFilteringPointsProcessor f(lo, hi, &rec);
  Stream(rng, f, rec, [&](const PointsBatch& b, size_t i) { double d = b.points[i].position.z() - b.origin.z(); return lo <= d && d <= hi; });
}
VCN_CASE(fixed_ratio) {
  double ratio = rng.pick(std::vector<double>{0.25, 0.5, 0.75, 0.125, 0.625, 1. / 1024, 1023. / 1024}); NOTE("ratio " << ratio);
  Recorder rec; io::FixedRatioSamplingPointsProcessor f(ratio, &rec);
  int64_t pulses = 0, samples = 0;
  int rounds = rng.in(1, 3);
  for (int r = 0; r < rounds; ++r) {
    int nb = rng.in(0, 4);
    for (int j = 0; j < nb; ++j) {
      auto b = Gen(rng); PointsBatch in = *b; f.Process(std::move(b));
      REQUIRE(rec.got.size() == size_t(j + 1), "every batch is passed on");
      std::vector<bool> k;
      for (size_t i = 0; i < in.points.size(); ++i) { ++pulses; bool s = double(samples) / pulses < ratio; if (s) ++samples; k.push_back(s); }
      Same(in, k, *rec.got[j]);
    }
    bool restart = r + 1 < rounds; rec.result = restart ? FR::kRestartStream : FR::kFinished;
    REQUIRE(f.Flush() == rec.result, "flush result");
    // a restarted stream is sampled from the start: every pass keeps the same points
    if (restart) { pulses = samples = 0; rec.got.clear(); }
  }
}
VCN_CASE(counting_and_frames) {
  Recorder rec; io::CountingPointsProcessor f(&rec);
  Stream(rng, f, rec, [](const PointsBatch&, size_t) { return true; });
  Recorder r2; bool keep = rng.coin(); absl::flat_hash_set<std::string> s; for (auto& x : {"a", "b", ""}) if (rng.coin()) s.insert(x);
  if (s.empty()) s.insert("a");
  io::FrameIdFilteringPointsProcessor g(keep ? s : absl::flat_hash_set<std::string>(), keep ? absl::flat_hash_set<std::string>() : s, &r2);
  size_t n = 0;
  for (int j = 0; j < 4; ++j) {
    auto b = Gen(rng); PointsBatch in = *b; bool pass = (s.count(in.frame_id) > 0) == keep; g.Process(std::move(b));
    if (pass) { ++n; REQUIRE(r2.got.size() == n, "a selected frame passes"); Same(in, std::vector<bool>(in.points.size(), true), *r2.got.back()); }
    else REQUIRE(r2.got.size() == n, "another frame does not");
  }
  r2.result = rng.coin() ? FR::kFinished : FR::kRestartStream;
  REQUIRE(g.Flush() == r2.result, "flush is forwarded");
}
VCN_CASE(coloring) {
  Recorder rec; io::FloatColor col = {{0.25f, 0.5f, 0.75f}}; std::string frame = rng.pick(std::vector<std::string>{"a", "b", ""});
  io::ColoringPointsProcessor f(col, frame, &rec);
  auto b = Gen(rng); PointsBatch in = *b; f.Process(std::move(b));
  REQUIRE(rec.got.size() == 1, "passed on");
  PointsBatch& o = *rec.got[0];
  PointsBatch e = in; if (in.frame_id == frame) e.colors.assign(in.points.size(), col);
  REQUIRE(o.colors == e.colors, "one colour per point of the chosen frame, others untouched");
  o.colors = in.colors; Same(in, std::vector<bool>(in.points.size(), true), o);
  Recorder r2; float lo = rng.dyadic(0, 100, 1), hi = lo + rng.dyadic(1, 200, 1); NOTE("intensity " << lo << " " << hi);
  io::IntensityToColorPointsProcessor g(lo, hi, frame, &r2);
  b = Gen(rng); in = *b; g.Process(std::move(b));
  REQUIRE(r2.got.size() == 1, "passed on");
  PointsBatch& o2 = *r2.got[0];
  if (!in.intensities.empty() && (frame.empty() || in.frame_id == frame)) {
    REQUIRE(o2.colors.size() == in.points.size(), "one colour per point");
    for (size_t i = 0; i < in.points.size(); ++i) {
      double x = (in.intensities[i] - lo) / (hi - lo); x = x < 0 ? 0 : x > 1 ? 1 : x;
      for (int c = 0; c < 3; ++c) REQUIRE(std::abs(o2.colors[i][c] - x) < 1e-5, "gray level of point " << i);
    }
  } else REQUIRE(o2.colors == in.colors, "colours untouched");
  o2.colors = in.colors; Same(in, std::vector<bool>(in.points.size(), true), o2);
}
VCN_CASE(outliers) {
  double vs = rng.pick(std::vector<double>{0.5, 1., 2.}), limit = rng.pick(std::vector<double>{0.25, 1.25, 2.5, 3.75});
  Recorder rec; io::OutlierRemovingPointsProcessor f(vs, limit, &rec);
  NOTE("voxel " << vs << " limit " << limit);
  std::vector<PointsBatch> in; int nb = rng.in(1, 4);
  for (int j = 0; j < nb; ++j) {  // axis-aligned rays, samples well inside their voxels
    auto b = Gen(rng, 10);
    Eigen::Vector3f o(rng.in(-2, 2) * vs + vs / 8, rng.in(-2, 2) * vs - vs / 8, rng.in(-2, 2) * vs + vs / 8); b->origin = o;
    for (auto& p : b->points) { Eigen::Vector3f q = o; q[rng.in(0, 2)] += rng.in(-6, 6) * vs + vs / 4; p.position = q; }
    for (auto& p : b->points) NOTE("  ray " << o.transpose() << " -> " << p.position.transpose());
    in.push_back(*b);
  }
  auto cell = [&](const Eigen::Vector3f& p) { return std::array<long, 3>{{std::lround(p.x() / vs), std::lround(p.y() / vs), std::lround(p.z() / vs)}}; };
  std::map<std::array<long, 3>, int> hits, rays;
  for (auto& b : in) f.Process(absl::make_unique<PointsBatch>(b));
  for (auto& b : in) for (auto& p : b.points) ++hits[cell(p.position)];
  REQUIRE(rec.got.empty() && f.Flush() == FR::kRestartStream, "first pass only marks hits");
  for (auto& b : in) f.Process(absl::make_unique<PointsBatch>(b));
  for (auto& b : in) for (auto& p : b.points) {
    Eigen::Vector3f d = p.position - b.origin; float len = d.norm();
    for (float x = 0; x < len; x += vs) { auto c = cell(b.origin + (x / len) * d); if (hits.count(c)) ++rays[c]; }
  }
  REQUIRE(rec.got.empty() && f.Flush() == FR::kRestartStream, "second pass only counts rays");
  for (auto& b : in) f.Process(absl::make_unique<PointsBatch>(b));
  REQUIRE(rec.got.size() == in.size(), "third pass passes every batch on");
  for (size_t j = 0; j < in.size(); ++j) {
    std::vector<bool> k; for (auto& p : in[j].points) { auto c = cell(p.position); k.push_back((rays.count(c) ? rays[c] : 0) < limit * hits[c]); }
    Same(in[j], k, *rec.got[j]);
  }
  REQUIRE(f.Flush() == FR::kFinished && rec.flushes == 1, "finished");
}
