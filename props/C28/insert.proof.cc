// Contract of RangeDataInserter3D::Insert over the contracts of HybridGrid (C05).
#include "vc_begin.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/point_cloud.cc"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.cc"
using namespace cartographer::mapping;
using namespace cartographer;
using Eigen::Array3i;
// ghost: one arbitrary voxel, its value before and now
static int GX, GY, GZ, V0, GV;
static bool IS_HIT, ON_RAY; static int64_t H0, K0, S0, FINISHES;
static const std::vc_vector<uint16>*HIT, *MISS;
static const sensor::RangeData* RD; static HybridGrid* HG; static IntensityHybridGrid* IG;
static int FREE;
// GetCellIndex (C05): a function of the point
static Array3i Cell(const Eigen::Vector3f& p) { return Array3i(vcx_ufi_r3("cx:-8192:8191", p.x(), p.y(), p.z()), vcx_ufi_r3("cy:-8192:8191", p.x(), p.y(), p.z()), vcx_ufi_r3("cz:-8192:8191", p.x(), p.y(), p.z())); }
static bool InLimits(const Eigen::Vector3f& p) { Array3i c = Cell(p); return c.x() >= -8192 && c.x() <= 8191 && c.y() >= -8192 && c.y() <= 8191 && c.z() >= -8192 && c.z() <= 8191; }
extern "C" Array3i vc_stub_index(const HybridGrid* g, const Eigen::Vector3f& p) { vc_assert(static_cast<const void*>(g) == HG || static_cast<const void*>(g) == IG, "cells of one of the two grids"); return Cell(p); }
static bool IsG(const Array3i& i) { return i.x() == GX && i.y() == GY && i.z() == GZ; }
// the samples of the segment from the origin to return i: sample s of n, the
// origin's cell plus the s/n-th part of the difference, rounded towards the origin
static int Abs(int x) { return x < 0 ? -x : x; }
static int Samples(int64_t i) {
  Array3i o = Cell(RD->origin), h = Cell(RD->returns.points_.d_[i].position);
  int a = Abs(h.x() - o.x()), b = Abs(h.y() - o.y()), c = Abs(h.z() - o.z());
  int m = a > b ? a : b; return m > c ? m : c;
}
static int Start(int64_t i) { int s = Samples(i) - FREE; return s > 0 ? s : 0; }
static int64_t J(int64_t i, int64_t s) { return i * 1048576 + s; }
static void Define(int64_t i, int64_t s, int64_t n) {
  Array3i o = Cell(RD->origin), h = Cell(RD->returns.points_.d_[i].position);
  if (s < n && s >= 0) {
    vcx_define(vcx_uf1("sx", J(i, s)) == o.x() + (h.x() - o.x()) * s / n);
    vcx_define(vcx_uf1("sy", J(i, s)) == o.y() + (h.y() - o.y()) * s / n);
    vcx_define(vcx_uf1("sz", J(i, s)) == o.z() + (h.z() - o.z()) * s / n);
  }
}
static bool SampleG(int64_t j) { return vcx_uf1("sx", j) == GX && vcx_uf1("sy", j) == GY && vcx_uf1("sz", j) == GZ; }

extern "C" bool vc_stub_apply(HybridGrid* g, const Array3i& i, const std::vc_vector<uint16>& table) {
  vc_assert(g == HG, "updates this grid");
  vc_assert(&table == HIT || &table == MISS, "one of the two tables");
  vc_assert(i.x() >= -8192 && i.x() <= 8191 && i.y() >= -8192 && i.y() <= 8191 && i.z() >= -8192 && i.z() <= 8191, "within the limits of the grid");
  if (IsG(i)) {
    if (GV >= 32768) return false;
    GV = table.d_[GV];
    vc_assume(GV >= 32769 && GV <= 65535);
    return true;
  }
  return vc::any_bool("other");
}
extern "C" void vc_stub_finish(HybridGrid* g) { vc_assert(g == HG, "this grid"); if (GV >= 32768) GV -= 32768; ++FINISHES; }
static bool Frame() { return GV >= 0 && GV <= 65535 && FINISHES == 0; }
VC_INV(hits) {
  int64_t n = vcx_iter();
  if (!Frame()) return false;
  if (!IS_HIT) return GV == V0;
  return n > H0 ? GV == HIT->d_[V0] : (GV == V0 || GV == HIT->d_[V0]);
}
VC_INV(returns) {
  int64_t n = vcx_iter();
  if (!Frame()) return false;
  if (IS_HIT) return GV == HIT->d_[V0];
  if (!ON_RAY) return GV == V0;
  return n > K0 ? GV == MISS->d_[V0] : (GV == V0 || GV == MISS->d_[V0]);
}
VC_INV(samples) {
  int64_t i = vcx_outer_iter(), s = vc::local<int>("position", "int");
  if (!Frame()) return false;
  int64_t n = vc::local<int>("num_samples", "int");
  if (s != Start(i) + vcx_iter()) return false;
  if (n != Samples(i) || n < 0 || n > 16383 || s > n) return false;
  Define(i, s, n);
  if (IS_HIT) return GV == HIT->d_[V0];
  if (!ON_RAY) return GV == V0;
  return i > K0 || (i == K0 && s > S0) ? GV == MISS->d_[V0] : (GV == V0 || GV == MISS->d_[V0]);
}
// intensities
static int64_t NADD; static double SUM; static int64_t A0; static bool A_ADDED;
extern "C" void vc_stub_add(IntensityHybridGrid* g, const Array3i& i, float x) {
  vc_assert(g == IG, "the intensity grid given");
  ++NADD;
  if (IsG(i)) SUM += x;
}
static double F(int64_t k) { return vcx_ufr1("added", k); }   // sum of the intensities of the first k returns that fall into G and are not above the threshold
static double THR;
static void DefF(int64_t k) {
  auto& p = RD->returns;
  bool in = IsG(Cell(p.points_.d_[k].position)) && !(p.intensities_.d_[k] > THR);
  vcx_define(F(k + 1) == F(k) + (in ? static_cast<double>(p.intensities_.d_[k]) : 0.));
}
VC_INV(intensities) { int64_t n = vcx_iter(); DefF(n); return SUM == F(n) && Frame(); }

static void AnyTable(const std::vc_vector<uint16>& c, const char* n) {
  auto& t = const_cast<std::vc_vector<uint16>&>(c);
  t.d_ = static_cast<uint16*>(vcx_alloc(2, n)); t.n_ = 32768;
  uint16* d = t.d_;
  vc_assume(vc::forall(0, 32768, [d](int64_t i) { return d[i] >= 32769; }));  // C04
}
static void Setup(sensor::RangeData* rd, RangeDataInserter3D* ins) {
  HG = vc::any_obj<HybridGrid>("grid"); IG = nullptr;
  RD = rd;
  rd->origin = Eigen::Vector3f(vc::any_float("ox"), vc::any_float("oy"), vc::any_float("oz"));
  auto* a = rd->returns.points_.d_ = static_cast<sensor::RangefinderPoint*>(vcx_alloc(sizeof(sensor::RangefinderPoint), "returns"));
  rd->returns.points_.n_ = vc::any_i64("nreturns", 0, 1 << 30);
  vc_assume(InLimits(rd->origin));
  vc_assume(vc::forall(0, rd->returns.points_.n_, [a](int64_t i) { return InLimits(a[i].position); }));
  AnyTable(ins->hit_table_, "hit"); AnyTable(ins->miss_table_, "miss");
  HIT = &ins->hit_table_; MISS = &ins->miss_table_;
  V0 = GV = vc::any_int("v0", 0, 32767);
  GX = vc::any_int("gx", -8192, 8191); GY = vc::any_int("gy", -8192, 8191); GZ = vc::any_int("gz", -8192, 8191);
  FINISHES = 0; IS_HIT = ON_RAY = false; H0 = K0 = S0 = 0;
  FREE = ins->options_.num_free_space_voxels();
  vc_assume(FREE >= 0 && FREE <= 1000000);
}
static void NoHit() {
  auto* a = RD->returns.points_.d_;
  vc_assume(vc::forall(0, RD->returns.points_.n_, [a](int64_t i) { return !IsG(Cell(a[i].position)); }));
}
#define OBJS sensor::RangeData rd; auto* ins = vc::any_obj<RangeDataInserter3D>("inserter"); Setup(&rd, ins)
VC_HARNESS(hit_cell) {
  OBJS;
  IS_HIT = true; ON_RAY = vc::any_bool("onray");
  H0 = vc::any_i64("h0", 0, 1 << 30); vc_assume(H0 < rd.returns.points_.n_);
  vc_assume(IsG(Cell(rd.returns.points_.d_[H0].position)));
  ins->Insert(rd, HG, nullptr);
  vc_assert(GV == HIT->d_[V0] - 32768, "a voxel with a return gets exactly one hit update");
  vc_assert(FINISHES == 1, "the update is finished once");
}
VC_HARNESS(free_cell) {
  OBJS;
  ON_RAY = true; NoHit();
  K0 = vc::any_i64("k0", 0, 1 << 30); S0 = vc::any_i64("s0", 0, 1 << 15);
  vc_assume(K0 < rd.returns.points_.n_ && S0 >= Start(K0) && S0 < Samples(K0));
  Define(K0, S0, Samples(K0));
  vc_assume(SampleG(J(K0, S0)));
  ins->Insert(rd, HG, nullptr);
  vc_assert(GV == MISS->d_[V0] - 32768, "a voxel sampled in front of a return, without a return, gets exactly one miss update");
  vc_assert(FINISHES == 1, "the update is finished once");
}
VC_HARNESS(untouched_cell) {
  OBJS;
  NoHit();
  vc_assume(vc::forall(INT64_MIN, INT64_MAX, [](int64_t j) { return !SampleG(j); }));
  ins->Insert(rd, HG, nullptr);
  vc_assert(GV == V0, "any other voxel keeps its value");
  vc_assert(FINISHES == 1, "the update is finished once");
}
VC_HARNESS(intensity_cell) {
  OBJS;
  IG = vc::any_obj<IntensityHybridGrid>("intensities");
  auto& p = rd.returns;
  p.intensities_.d_ = static_cast<float*>(vcx_alloc(4, "int")); p.intensities_.n_ = vc::any_bool("with") ? p.points_.n_ : 0;
  NADD = 0; SUM = 0; THR = ins->options_.intensity_threshold();
  IS_HIT = true; H0 = 0; vc_assume(p.points_.n_ > 0 && IsG(Cell(p.points_.d_[0].position)));
  vcx_define(F(0) == 0.);
  ins->Insert(rd, HG, IG);
  vc_assert(SUM == (p.intensities_.n_ > 0 ? F(p.points_.n_) : 0.), "exactly the intensities up to the threshold are added, in the voxels of their returns");
}
// constructor: each table is computed from the odds of its own option
static uint16 *T1, *T2; static double O1, O2; static int NT;
extern "C" float vc_stub_odds(float p) { return static_cast<float>(vcx_ufr_r1("odds", p)); }
extern "C" void vc_stub_table(std::vc_vector<uint16>* out, float odds) {
  auto* d = static_cast<uint16*>(vcx_alloc(2, "t")); d[0] = vc::any_int("t0", 0, 65535);
  out->d_ = d; out->n_ = 32768;
  if (NT == 0) { T1 = d; O1 = odds; } else { T2 = d; O2 = odds; }
  ++NT;
}
extern "C" void vc_stub_copy(proto::RangeDataInserterOptions3D* t, const proto::RangeDataInserterOptions3D& o) { t->_impl_.hit_probability_ = o.hit_probability(); t->_impl_.miss_probability_ = o.miss_probability(); t->_impl_.num_free_space_voxels_ = o.num_free_space_voxels(); t->_impl_.intensity_threshold_ = o.intensity_threshold(); }
VC_HARNESS(constructor) {
  NT = 0;
  auto* o = vc::any_obj<proto::RangeDataInserterOptions3D>("options");
  auto& ins = *new RangeDataInserter3D(*o);
  vc_assert(NT == 2, "two tables");
  double h = vcx_ufr_r1("odds", static_cast<float>(o->hit_probability())), m = vcx_ufr_r1("odds", static_cast<float>(o->miss_probability()));
  vc_assert(ins.hit_table_.d_ == T1 && ins.miss_table_.d_ == T2 && O1 == h && O2 == m || ins.hit_table_.d_ == T2 && ins.miss_table_.d_ == T1 && O2 == h && O1 == m, "the hit table applies the odds of the hit probability, the miss table those of the miss probability");
}
