// Contract of ProbabilityGridRangeDataInserter2D::Insert over the contracts of
// ApplyLookupTable, FinishUpdate (grid.proof.cc), GrowLimits (C02) and
// RayToPixelMask (C22).
#include "vc_begin.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/point_cloud.cc"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.cc"
using namespace cartographer::mapping;
using namespace cartographer;

// ghost: one arbitrary cell, its initial and current value
static int GX, GY, V0, GV;
static bool IS_HIT, ON_RAY; static int64_t H0, K0, P0, CALLS, FINISHES;
static int BX, BY, EX, EY;     // arguments of the K0-th ray
static const std::vc_vector<uint16>*HIT, *MISS;
static const sensor::RangeData* RD; static ProbabilityGrid* PG; static MapLimits* LIM;

// GetCellIndex by contract (C03): a function of the limits and the point; a
// point strictly inside the limits has an index inside them.
static Eigen::Array2i SubIndex(const Eigen::Vector3f& p) {
  return Eigen::Array2i(vcx_ufi_r2("subx", p.x(), p.y()), vcx_ufi_r2("suby", p.x(), p.y()));
}
extern "C" Eigen::Array2i vc_stub_index(const MapLimits* l, const Eigen::Vector2f& p) {
  vc_assert(l->resolution() * 1000 == LIM->resolution() && l->max() == LIM->max() && l->cell_limits().num_x_cells == 1000 * LIM->cell_limits().num_x_cells &&
            l->cell_limits().num_y_cells == 1000 * LIM->cell_limits().num_y_cells, "indices are taken in the superscaled limits of the grown grid");
  return Eigen::Array2i(vcx_ufi_r2("subx", p.x(), p.y()), vcx_ufi_r2("suby", p.x(), p.y()));
}
static bool Inside(const Eigen::Vector3f& p) {
  int64_t x = vcx_ufi_r2("subx", p.x(), p.y()), y = vcx_ufi_r2("suby", p.x(), p.y());
  return x >= 0 && y >= 0 && x < 1000LL * LIM->cell_limits().num_x_cells && y < 1000LL * LIM->cell_limits().num_y_cells;
}
static bool HitsG(const Eigen::Vector3f& p) { Eigen::Array2i i = SubIndex(p); return i.x() / 1000 == GX && i.y() / 1000 == GY; }

extern "C" bool vc_stub_apply(ProbabilityGrid* g, const Eigen::Array2i& i, const std::vc_vector<uint16>& table) {
  vc_assert(g->limits().Contains(i), "ApplyLookupTable requires a cell of the grid");
  vc_assert(&table == HIT || &table == MISS, "one of the two tables");
  if (i.x() == GX && i.y() == GY) {
    if (GV >= 32768) return false;
    GV = table.d_[GV];
    vc_assume(GV >= 32769 && GV <= 65535);
    return true;
  }
  return vc::any_bool("other");
}
extern "C" void vc_stub_finish(Grid2D*) { if (GV >= 32768) GV -= 32768; ++FINISHES; }
// GrowAsNeeded (its own contract is proved below): the limits now strictly contain every point
extern "C" void vc_stub_grow(const sensor::RangeData& rd, ProbabilityGrid* g) {
  vc_assert(g == PG && &rd == RD, "grows this grid for this data");
}
extern "C" void vc_stub_ray(std::vc_vector<Eigen::Array2i>* out, const Eigen::Array2i& begin, const Eigen::Array2i& end, int scale) {
  vc_assert(scale == 1000, "subpixel scale of the mask is that of the end points");
  Eigen::Array2i* d = static_cast<Eigen::Array2i*>(vcx_alloc(8, "ray"));
  new (out) std::vc_vector<Eigen::Array2i>();
  out->d_ = d; out->n_ = vc::any_i64("raylen", 0, 1 << 30);
  int nx = PG->limits().cell_limits().num_x_cells, ny = PG->limits().cell_limits().num_y_cells;
  vc_assume(vc::forall(0, out->n_, [d, nx, ny](int64_t p) { return d[p].x() >= 0 && d[p].y() >= 0 && d[p].x() < nx && d[p].y() < ny; }));
  int gx = GX, gy = GY;
  if (!ON_RAY) vc_assume(vc::forall(0, out->n_, [d, gx, gy](int64_t p) { return d[p].x() != gx || d[p].y() != gy; }));
  else if (CALLS == K0) { vc_assume(P0 < out->n_); vc_assume(d[P0].x() == GX && d[P0].y() == GY); }
  if (CALLS == K0) { BX = begin.x(); BY = begin.y(); EX = end.x(); EY = end.y(); }
  ++CALLS;
}
static bool Frame() {  // things no loop changes
  return PG->limits().resolution() == LIM->resolution() && GV >= 0 && GV <= 65535;
}
VC_INV(hits) {
  auto& e = vc::local<std::vc_vector<Eigen::Array2i>>("ends", "vector<Eigen::Array");
  int64_t n = vcx_iter();
  if (!Frame() || CALLS != 0 || e.n_ != n) return false;
  if (n > K0) { Eigen::Array2i s = SubIndex(RD->returns.points_.d_[K0].position); if (e.d_[K0].x() != s.x() || e.d_[K0].y() != s.y()) return false; }
  if (!IS_HIT) return GV == V0;
  return n > H0 ? GV == HIT->d_[V0] : (GV == V0 || GV == HIT->d_[V0]);
}
static bool RayDone(int64_t calls) {
  return !(calls > K0) || (BX == SubIndex(RD->origin).x() && BY == SubIndex(RD->origin).y());
}
static bool RayTarget(int64_t calls) {
  if (!(calls > K0)) return true;
  int64_t nr = RD->returns.points_.n_;
  Eigen::Array2i s = SubIndex(K0 < nr ? RD->returns.points_.d_[K0].position : RD->misses.points_.d_[K0 - nr].position);
  return EX == s.x() && EY == s.y();
}
static bool Value(int64_t calls) {
  if (IS_HIT) return GV == HIT->d_[V0];
  if (!ON_RAY) return GV == V0;
  return calls > K0 ? GV == MISS->d_[V0] : (GV == V0 || GV == MISS->d_[V0]);
}
VC_INV(ends) { return Frame() && CALLS == vcx_iter() && RayDone(CALLS) && RayTarget(CALLS) && Value(CALLS); }
VC_INV(misses) { return Frame() && CALLS == RD->returns.points_.n_ + vcx_iter() && RayDone(CALLS) && RayTarget(CALLS) && Value(CALLS); }
VC_INV(ray) {
  if (!Frame() || CALLS < 1) return false;
  if (IS_HIT) return GV == HIT->d_[V0];
  if (!ON_RAY) return GV == V0;
  return CALLS - 1 > K0 || (CALLS - 1 == K0 && vcx_iter() > P0) ? GV == MISS->d_[V0] : (GV == V0 || GV == MISS->d_[V0]);
}
static std::vc_vector<uint16>* AnyTable(const char* n) {
  auto* t = new std::vc_vector<uint16>();
  t->d_ = static_cast<uint16*>(vcx_alloc(2, n)); t->n_ = 32768;
  uint16* d = t->d_;
  vc_assume(vc::forall(0, 32768, [d](int64_t i) { return d[i] >= 32769; }));
  return t;
}
static void Setup(sensor::RangeData* rd, ProbabilityGridRangeDataInserter2D* ins) {
  PG = vc::any_obj<ProbabilityGrid>("grid");
  double r = vc::any_real("resolution"); vc_assume(r > 0.);
  LIM = new MapLimits(r, Eigen::Vector2d(vc::any_real("mx"), vc::any_real("my")), CellLimits(vc::any_int("nx", 1, 1 << 20), vc::any_int("ny", 1, 1 << 20)));
  PG->limits_ = *LIM;
  RD = rd;
  rd->origin = Eigen::Vector3f(vc::any_float("ox"), vc::any_float("oy"), vc::any_float("oz"));
  rd->returns.points_.d_ = static_cast<sensor::RangefinderPoint*>(vcx_alloc(sizeof(sensor::RangefinderPoint), "returns"));
  rd->returns.points_.n_ = vc::any_i64("nreturns", 0, 1 << 30);
  rd->misses.points_.d_ = static_cast<sensor::RangefinderPoint*>(vcx_alloc(sizeof(sensor::RangefinderPoint), "misses"));
  rd->misses.points_.n_ = vc::any_i64("nmisses", 0, 1 << 30);
  auto *a = rd->returns.points_.d_, *b = rd->misses.points_.d_;
  vc_assume(Inside(rd->origin));
  vc_assume(vc::forall(0, rd->returns.points_.n_, [a](int64_t i) { return Inside(a[i].position); }));
  vc_assume(vc::forall(0, rd->misses.points_.n_, [b](int64_t i) { return Inside(b[i].position); }));
  HIT = AnyTable("hit"); MISS = AnyTable("miss");
  auto& ht = const_cast<std::vc_vector<uint16>&>(ins->hit_table_); auto& mt = const_cast<std::vc_vector<uint16>&>(ins->miss_table_);
  ht.d_ = HIT->d_; ht.n_ = 32768; mt.d_ = MISS->d_; mt.n_ = 32768;
  HIT = &ins->hit_table_; MISS = &ins->miss_table_;
  V0 = GV = vc::any_int("v0", 0, 32767);
  GX = vc::any_int("gx", 0, 1 << 20); GY = vc::any_int("gy", 0, 1 << 20);
  vc_assume(GX < LIM->cell_limits().num_x_cells && GY < LIM->cell_limits().num_y_cells);
  CALLS = 0; FINISHES = 0; IS_HIT = ON_RAY = false;
  H0 = 0; K0 = vc::any_i64("k0", 0, 1LL << 32); P0 = vc::any_i64("p0", 0, 1 << 30);
}
static bool InsertFreeSpace(ProbabilityGridRangeDataInserter2D* i) { return i->options_.insert_free_space(); }
static void NoHit() {
  auto* a = RD->returns.points_.d_;
  vc_assume(vc::forall(0, RD->returns.points_.n_, [a](int64_t i) { return !HitsG(a[i].position); }));
}
#define OBJS sensor::RangeData rd; auto* ins = vc::any_obj<ProbabilityGridRangeDataInserter2D>("inserter"); Setup(&rd, ins)
// a cell containing at least one return gets the hit update exactly once, whatever else crosses it
VC_HARNESS(hit_cell) {
  OBJS;
  IS_HIT = true; ON_RAY = vc::any_bool("onray");
  H0 = vc::any_i64("h0", 0, 1 << 30); vc_assume(H0 < rd.returns.points_.n_);
  vc_assume(HitsG(rd.returns.points_.d_[H0].position));
  ins->ProbabilityGridRangeDataInserter2D::Insert(rd, PG);
  vc_assert(GV == HIT->d_[V0] - 32768, "a cell with a return gets exactly one hit update");
  vc_assert(FINISHES == 1, "the update is finished");
}
VC_HARNESS(free_cell) {
  OBJS;
  ON_RAY = true; NoHit();
  bool fs = InsertFreeSpace(ins);
  ins->ProbabilityGridRangeDataInserter2D::Insert(rd, PG);
  int64_t total = fs ? rd.returns.points_.n_ + rd.misses.points_.n_ : 0;
  vc_assert(CALLS == total, "one ray per return and per miss, none if free space is not inserted");
  if (K0 < total) {
    vc_assert(GV == MISS->d_[V0] - 32768, "a cell on a ray and without return gets exactly one miss update");
    vc_assert(RayDone(CALLS), "the ray starts at the origin");
    vc_assert(RayTarget(CALLS), "the ray ends at its return or miss");
  }
}
VC_HARNESS(untouched_cell) {
  OBJS;
  NoHit();
  ins->ProbabilityGridRangeDataInserter2D::Insert(rd, PG);
  vc_assert(GV == V0, "any other cell keeps its value");
  vc_assert(FINISHES == 1, "the update is finished");
}
