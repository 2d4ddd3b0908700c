SEEDS = []
def S(**k): SEEDS.append(k)
M='cartographer/mapping/'
S(id='b06', prop='C05', needs='a block of the grid that was touched but holds only default values, before a block with values', breaks='iteration stops at the first block without values and misses the rest',
  edits=[(M+'3d/hybrid_grid.h','''          nested_iterator_ = typename WrappedGrid::Iterator(**current_);
          if (!nested_iterator_.Done()) {
            break;
          }
        }
      }
    }

    int bits_;''','''          nested_iterator_ = typename WrappedGrid::Iterator(**current_);
          if (nested_iterator_.Done()) {
            AdvanceToEnd();
          }
          break;
        }
      }
    }

    int bits_;''')],
  demo=r'''
#include "cartographer/mapping/3d/hybrid_grid.h"
#include <cstdio>
using namespace cartographer::mapping;
int main() {
  HybridGridBase<int> g(1.f);
  g.mutable_value(Eigen::Array3i(-100, -100, -100));   // looked at, left at its default
  *g.mutable_value(Eigen::Array3i(5, 6, 7)) = 3;
  int n = 0; for (const auto& c : g) n += c.second == 3;
  printf("%d cells\n", n);
  return n != 1;
}
''')
S(id='b07', prop='C06', needs='a sensor queue that is finished, with data left, before the first dispatch of its trajectory', breaks='the common start time ignores finished queues, so data before it is dispatched',
  edits=[('cartographer/sensor/internal/ordered_multi_queue.cc','''      if (entry.first.trajectory_id == trajectory_id) {
        common_start_time''','''      if (entry.first.trajectory_id == trajectory_id &&
          !entry.second.finished) {
        common_start_time''')],
  demo=r'''
#include "cartographer/sensor/internal/ordered_multi_queue.h"
#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/internal/dispatchable.h"
#include <cstdio>
using namespace cartographer; using namespace cartographer::sensor;
int main() {
  OrderedMultiQueue q; std::vector<int64_t> got; QueueKey a{0, "a"}, b{0, "b"};
  for (auto& k : {a, b}) q.AddQueue(k, [&](std::unique_ptr<Data> d) { got.push_back(common::ToUniversal(d->GetTime())); });
  auto add = [&](const QueueKey& k, int64_t t) { q.Add(k, MakeDispatchable(k.sensor_id, ImuData{common::FromUniversal(t), {}, {}})); };
  add(b, 50); q.MarkQueueAsFinished(b);
  add(a, 10); add(a, 20); add(a, 60); q.MarkQueueAsFinished(a);
  for (auto t : got) printf("%d ", int(t)); printf("\n");
  return got != std::vector<int64_t>{20, 50, 60};
}
''')
S(id='b08', prop='C09', needs='a time equal to that of the last datum of a trajectory', breaks='the search by time reports the end of the trajectory',
  edits=[(M+'id.h','''    if (internal::GetTime(std::prev(trajectory.end())->second) < time) {''','''    if (!(time < internal::GetTime(std::prev(trajectory.end())->second))) {''')],
  demo=r'''
#include "cartographer/mapping/id.h"
#include <cstdio>
using namespace cartographer; using namespace cartographer::mapping;
struct D { common::Time time; };
int main() {
  MapById<NodeId, D> m; for (int t : {10, 20, 30}) m.Append(0, D{common::FromUniversal(t)});
  auto it = m.lower_bound(0, common::FromUniversal(30));
  bool ok = it != m.EndOfTrajectory(0) && it->id.node_index == 2; printf("%d\n", int(ok));
  return !ok;
}
''')
S(id='b09', prop='C10', needs='trimming the last node of a trajectory while a later trajectory has nodes', breaks='the gap ends at a node of the other trajectory, so data is kept that should go',
  edits=[('cartographer/sensor/map_by_time.h','next_it != nodes.EndOfTrajectory(trajectory_id)','next_it != nodes.end()')],
  demo=r'''
#include "cartographer/sensor/map_by_time.h"
#include <cstdio>
using namespace cartographer;
struct D { common::Time time; };
int main() {
  auto T = [](int t) { return common::FromUniversal(t); };
  sensor::MapByTime<D> m; for (int t : {1, 5, 11, 12, 40, 90}) m.Append(0, D{T(t)});
  mapping::MapById<mapping::NodeId, D> n; n.Append(0, D{T(10)}); n.Append(0, D{T(20)}); n.Append(1, D{T(50)});
  m.Trim(n, mapping::NodeId(0, 1));
  int k = 0; for (const auto& d : m.trajectory(0)) { (void)d; ++k; }
  printf("%d left\n", k);
  return k != 3;
}
''')
S(id='b10', prop='C12', needs='points more than half a million voxels from the origin', breaks='the key of a voxel has too few bits, so two far apart voxels are taken for one',
  edits=[('cartographer/sensor/internal/voxel_filter.cc','return (x << 42) + (y << 21) + z;','return (x << 40) + (y << 20) + z;')],
  demo=r'''
#include "cartographer/sensor/internal/voxel_filter.h"
#include <cstdio>
using namespace cartographer::sensor;
int main() {
  std::vector<RangefinderPoint> p = {{Eigen::Vector3f(0.f, 1.f, -524288.f)}, {Eigen::Vector3f(0.f, 0.f, 524288.f)}};
  auto r = VoxelFilter(p, 1.f);
  printf("%d points\n", int(r.size()));
  return r.size() != 2;
}
''')
S(id='b11', prop='C13', needs='two consecutive points within the same millimetre', breaks='the second point is dropped from the compressed cloud',
  edits=[('cartographer/sensor/compressed_point_cloud.cc','''    num_blocks += block->empty();
    block->push_back({raster_point, point_index});''','''    num_blocks += block->empty();
    // The same raster point again carries no information.
    if (!block->empty() && block->back().index + 1 == point_index &&
        (block->back().point == raster_point).all()) {
      --num_points_;
      continue;
    }
    block->push_back({raster_point, point_index});''')],
  demo=r'''
#include "cartographer/sensor/compressed_point_cloud.h"
#include <cstdio>
using namespace cartographer::sensor;
int main() {
  std::vector<RangefinderPoint> p = {{Eigen::Vector3f(1.f, 2.f, 3.f)}, {Eigen::Vector3f(1.0001f, 2.f, 3.f)}, {Eigen::Vector3f(-1.f, 2.f, 3.f)}};
  CompressedPointCloud c{PointCloud(p)}; int n = 0; for (const auto& q : c) { (void)q; ++n; }
  printf("%d points\n", n);
  return n != 3 || c.size() != 3;
}
''')
S(id='b12', prop='C14', needs='points before the interval are dropped from a message with intensities', breaks='the remaining points come out with the intensities of the dropped ones',
  edits=[(M+'internal/range_data_collator.cc','''      auto intensities_overlap_it =
          intensities.begin() + (overlap_begin - ranges.begin());''','''      auto intensities_overlap_it = intensities.begin();''')],
  demo=r'''
#include "cartographer/mapping/internal/range_data_collator.h"
#include <cstdio>
using namespace cartographer;
int main() {
  mapping::RangeDataCollator c({"a"}); auto T = [](double s) { return common::FromUniversal(1000000000) + common::FromSeconds(s); };
  auto P = [](float x, float t) { return sensor::TimedRangefinderPoint{Eigen::Vector3f(x, 0, 0), t}; };
  c.AddRangeData("a", sensor::TimedPointCloudData{T(1), Eigen::Vector3f::Zero(), {P(1, 0.f)}, {1.f}});
  auto r = c.AddRangeData("a", sensor::TimedPointCloudData{T(2), Eigen::Vector3f::Zero(), {P(2, -1.5f), P(3, -0.5f), P(4, 0.f)}, {2.f, 3.f, 4.f}});
  int bad = r.ranges.size() != 2; for (auto& p : r.ranges) { printf("%g %g\n", p.point_time.position.x(), p.intensity); bad |= p.intensity != p.point_time.position.x(); }
  return bad;
}
''')
S(id='b13', prop='C16', needs='a long sequence of poses each shortly after the one before', breaks='the time of a dropped pose restarts the clock, so a standing robot never gets a new node',
  edits=[(M+'internal/motion_filter.cc','''          options_.max_angle_radians()) {
    return true;''','''          options_.max_angle_radians()) {
    last_time_ = time;
    return true;''')],
  demo=r'''
#include "cartographer/mapping/internal/motion_filter.h"
#include <cstdio>
using namespace cartographer;
int main() {
  mapping::proto::MotionFilterOptions o; o.set_max_time_seconds(1.); o.set_max_distance_meters(1.); o.set_max_angle_radians(1.);
  mapping::MotionFilter f(o); int kept = 0;
  for (int i = 0; i <= 50; ++i) kept += !f.IsSimilar(common::FromUniversal(0) + common::FromSeconds(0.5 * i), transform::Rigid3d::Identity());
  printf("%d kept\n", kept);
  return kept != 17;
}
''')
S(id='b14', prop='C18', needs='the best pose lies on the upper border of the search window', breaks='branch and bound never looks at candidates on the border reached by splitting',
  edits=[(M+'internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc','''      if (candidate.x_index_offset + x_offset >
          search_parameters''','''      if (x_offset > 0 && candidate.x_index_offset + x_offset >=
          search_parameters''')],
  demo=r'''
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include <cstdio>
using namespace cartographer; using namespace cartographer::mapping;
int main() {
  ValueConversionTables t; ProbabilityGrid g(MapLimits(0.05, Eigen::Vector2d(5., 5.), CellLimits(200, 200)), &t);
  std::vector<Eigen::Vector2f> pts = {{2.025f, 0.525f}, {2.025f, 1.025f}, {0.525f, 1.525f}, {1.225f, 1.925f}, {-0.525f, 0.725f}};
  int bad = 0;
  for (int dx = 1; dx <= 8; ++dx) {
    ProbabilityGrid h(MapLimits(0.05, Eigen::Vector2d(5., 5.), CellLimits(200, 200)), &t);
    for (auto& p : pts) h.SetProbability(h.limits().GetCellIndex(p + Eigen::Vector2f(0.f, dx * 0.05f)), 0.9f);
    scan_matching::proto::FastCorrelativeScanMatcherOptions2D o; o.set_linear_search_window(dx * 0.05); o.set_angular_search_window(0.0); o.set_branch_and_bound_depth(4);
    scan_matching::FastCorrelativeScanMatcher2D m(h, o); std::vector<sensor::RangefinderPoint> v; for (auto& p : pts) v.push_back({Eigen::Vector3f(p.x(), p.y(), 0.f)});
    for (int k = 0; k < 2; ++k) {
      float s = 0.f; transform::Rigid2d e; bool f = m.Match(transform::Rigid2d::Identity(), sensor::PointCloud(v), 0.1f, &s, &e);
      if (!f || s < 0.85f) { ++bad; printf("offset %d: score %g\n", dx, s); }
    }
    ProbabilityGrid h2(MapLimits(0.05, Eigen::Vector2d(5., 5.), CellLimits(200, 200)), &t);
    for (auto& p : pts) h2.SetProbability(h2.limits().GetCellIndex(p + Eigen::Vector2f(0.f, -dx * 0.05f)), 0.9f);
    scan_matching::FastCorrelativeScanMatcher2D m2(h2, o); float s = 0.f; transform::Rigid2d e; bool f = m2.Match(transform::Rigid2d::Identity(), sensor::PointCloud(v), 0.1f, &s, &e);
    if (!f || s < 0.85f) { ++bad; printf("offset %d: score %g\n", -dx, s); }
  }
  return bad != 0;
}
''')
S(id='b15', prop='C20', needs='removing points of a batch that carries both colours and intensities', breaks='intensities are dropped together with the points when there are colours',
  edits=[('cartographer/io/points_batch.cc','''    if (!batch->colors.empty()) {
      colors.push_back(batch->colors[i]);
    }
    if (!batch->intensities.empty()) {''','''    if (!batch->colors.empty()) {
      colors.push_back(batch->colors[i]);
    } else if (!batch->intensities.empty()) {''')],
  demo=r'''
#include "cartographer/io/points_batch.h"
#include <cstdio>
using namespace cartographer::io;
int main() {
  PointsBatch b; for (int i = 0; i < 4; ++i) { b.points.push_back({Eigen::Vector3f(i, 0, 0)}); b.intensities.push_back(i); b.colors.push_back({{0.1f * i, 0.f, 0.f}}); }
  RemovePoints({1}, &b);
  printf("%d %d %d\n", int(b.points.size()), int(b.intensities.size()), int(b.colors.size()));
  return !(b.points.size() == 3 && b.intensities.size() == 3 && b.intensities[1] == 2.f && b.colors.size() == 3);
}
''')
S(id='b16', prop='C21', needs='a quaternion with a real part slightly below zero', breaks='the rotation vector is longer than half a turn although a shorter one represents the rotation',
  edits=[('cartographer/transform/transform.h','''  if (normalized_quaternion.w() < 0.) {''','''  if (normalized_quaternion.w() < -0.5) {''')],
  demo=r'''
#include "cartographer/transform/transform.h"
#include <cstdio>
using namespace cartographer::transform;
int main() {
  double a = 2 * std::acos(-0.3); Eigen::Quaterniond q(Eigen::AngleAxisd(a, Eigen::Vector3d(1, 2, -2) / 3.));
  double n = RotationQuaternionToAngleAxisVector(q).norm();
  printf("%.9g\n", n);
  return !(n <= M_PI + 1e-9);
}
''')
S(id='b17', prop='C22', needs='a ray that spans more than a thousand pixels', breaks='the products overflow 32 bits, so pixels of long rays are wrong',
  edits=[(M+'internal/2d/ray_to_pixel_mask.cc','''  const int64 dx = scaled_end.x() - scaled_begin.x();
  const int64 dy = scaled_end.y() - scaled_begin.y();
  const int64 denominator = 2 * subpixel_scale * dx;''','''  const int dx = scaled_end.x() - scaled_begin.x();
  const int dy = scaled_end.y() - scaled_begin.y();
  const int64 denominator = static_cast<int64>(2 * subpixel_scale) * dx;''')],
  demo=r'''
#include "cartographer/mapping/internal/2d/ray_to_pixel_mask.h"
#include <cstdio>
using namespace cartographer::mapping;
int main() {
  // nearly horizontal and long: every pixel column has to appear
  auto m = RayToPixelMask(Eigen::Array2i(500, 500), Eigen::Array2i(1500500, 1400500), 1000);
  size_t want = 1500 + 1400 + 1; bool ok = m.size() >= 1501 && m.size() <= want && m.front().x() == 0 && m.back().x() == 1500 && m.back().y() == 1400;
  for (size_t i = 1; ok && i < m.size(); ++i) ok = (m[i] - m[i - 1]).abs().maxCoeff() <= 1;
  printf("%d pixels, end %d %d\n", int(m.size()), m.back().x(), m.back().y());
  return !ok;
}
''')
S(id='b18', prop='C26', needs='an angle difference of more than one and a half turns', breaks='the normalized difference lies outside [-pi, pi]',
  edits=[('cartographer/common/math.h','''  while (difference > kPi) difference -= 2. * kPi;
  while (difference < -kPi) difference += 2. * kPi;''','''  if (difference > kPi) difference -= 2. * kPi;
  if (difference < -kPi) difference += 2. * kPi;''')],
  demo=r'''
#include "cartographer/common/math.h"
#include <cstdio>
int main() { double d = cartographer::common::NormalizeAngleDifference(16.); printf("%g\n", d); return !(d >= -M_PI && d <= M_PI); }
''')
S(id='b19', prop='C28', needs='a ray no longer than the number of free space voxels', breaks='the voxel of the sensor is not updated as free space',
  edits=[(M+'3d/range_data_inserter_3d.cc','for (int position = std::max(0, num_samples - num_free_space_voxels);','for (int position = std::max(1, num_samples - num_free_space_voxels);')],
  demo=r'''
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include <cstdio>
using namespace cartographer; using namespace cartographer::mapping;
int main() {
  proto::RangeDataInserterOptions3D o; o.set_hit_probability(0.7); o.set_miss_probability(0.4); o.set_num_free_space_voxels(10); o.set_intensity_threshold(100.f);
  HybridGrid g(1.f); sensor::RangeData r; r.origin = Eigen::Vector3f::Zero(); r.returns = sensor::PointCloud(std::vector<sensor::RangefinderPoint>{{Eigen::Vector3f(4.f, 1.f, 0.f)}});
  RangeDataInserter3D(o).Insert(r, &g, nullptr);
  float p = g.GetProbability(Eigen::Array3i(0, 0, 0)); printf("%g\n", p);
  return !(p > 0.39f && p < 0.41f);
}
''')
