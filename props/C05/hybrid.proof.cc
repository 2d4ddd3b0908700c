// Contracts of HybridGridBase / HybridGrid / IntensityHybridGrid on top of the container contracts.
#include "vc_begin.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
using namespace cartographer::mapping;
using cartographer::uint16;
using Eigen::Array3i;
static Array3i AnyIndex(const char* x, const char* y, const char* z, int lo, int hi) { return Array3i(vc::any_int(x, lo, hi), vc::any_int(y, lo, hi), vc::any_int(z, lo, hi)); }
static bool Same(const Array3i& a, const Array3i& b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }
using Base = HybridGridBase<uint16>;

static HybridGrid& Raw() {
  auto* g = vc::any_obj<HybridGrid>("grid");
  float res = vc::any_float("resolution"); vc_assume(res > 0.f);
  const_cast<float&>(g->resolution_) = res;
  return *g;
}
VC_HARNESS(cell_centre) {
  HybridGrid& g = Raw();
  Array3i a = AnyIndex("x", "y", "z", -8192, 8191);
  Eigen::Vector3f c = g.GetCenterOfCell(a);
  Array3i b = g.GetCellIndex(c);
  vc_assert(Same(a, b), "the centre of a cell lies in the cell");
}
VC_HARNESS(cell_of_point) {
  HybridGrid& g = Raw();
  Eigen::Vector3f p(vc::any_float("px"), vc::any_float("py"), vc::any_float("pz"));
  double r = g.resolution();
  vc_assume(p.x() <= 8192. * r && p.x() >= -8192. * r && p.y() <= 8192. * r && p.y() >= -8192. * r && p.z() <= 8192. * r && p.z() >= -8192. * r);
  Array3i a = g.GetCellIndex(p);
  Eigen::Vector3f c = g.GetCenterOfCell(a);
  double h = 0.5 * r;
  vc_assert(double(p.x()) - c.x() <= h && double(p.x()) - c.x() >= -h, "a point is within half a cell of its cell's centre (x)");
  vc_assert(double(p.y()) - c.y() <= h && double(p.y()) - c.y() >= -h, "a point is within half a cell of its cell's centre (y)");
  vc_assert(double(p.z()) - c.z() <= h && double(p.z()) - c.z() >= -h, "a point is within half a cell of its cell's centre (z)");
}
VC_HARNESS(octant) {
  int i = vc::any_int("i", 0, 7);
  Array3i a = Base::GetOctant(i);
  vc_assert(a.x() == i % 2 && a.y() == i / 2 % 2 && a.z() == i / 4, "the eight octants, each once");
}
// --- updates. By the container contracts (grid.proof.cc) mutable_value(index)
// returns the address of the cell's own storage: distinct cells, distinct addresses.
static uint16** CELLP;                 // address of every cell (ghost), by cell number
static const int64_t LIST = 1LL << 50; // the pending list shares the ghost array, so that its entries are cell addresses
static HybridGrid* HG;
static int64_t CellNo(const Array3i& i) { return ((static_cast<int64_t>(i.z()) + 8192) * 16384 + (i.y() + 8192)) * 16384 + (i.x() + 8192); }
static uint16** PEND;
extern "C" uint16* vc_stub_mutable(void* g, const Array3i& index) { return CELLP[CellNo(index)]; }
static HybridGrid& AnyHybrid() {
  HybridGrid& g = Raw();
  PEND = static_cast<uint16**>(vcx_alloc(8, "cells"));
  CELLP = PEND + LIST;
  g.update_indices_.d_ = PEND;
  g.update_indices_.n_ = vc::any_i64("npending", 0, 1 << 30);
  HG = &g;
  return g;
}
static bool Pending(int64_t g, int64_t pos, bool marked) {
  auto& u = HG->update_indices_;
  uint16* p = CELLP[g];
  if (p == nullptr) return false;
  if (marked != (*p >= kUpdateMarker)) return false;
  if (marked && !(pos >= 0 && pos < u.n_ && PEND[pos] == p)) return false;
  return vc::forall(0, u.n_, [p, pos, marked](int64_t q) { return !(PEND[q] == p) || (marked && q == pos); });
}
static std::vc_vector<uint16>* AnyTable() {
  auto* t = new std::vc_vector<uint16>();
  t->d_ = static_cast<uint16*>(vcx_alloc(2, "table")); t->n_ = 32768;
  uint16* d = t->d_;
  vc_assume(vc::forall(0, 32768, [d](int64_t i) { return d[i] >= 32769; }));  // postcondition of ComputeLookupTable... (C04)
  return t;
}
static int64_t G, POS, N0; static int V0; static bool MARKED;
VC_HARNESS(apply) {
  HybridGrid& g = AnyHybrid();
  Array3i f = AnyIndex("fx", "fy", "fz", -8192, 8191), h = AnyIndex("gx", "gy", "gz", -8192, 8191);
  int64_t F = CellNo(f); G = CellNo(h);
  vc_assume(Same(f, h) || CELLP[F] != CELLP[G]);
  POS = vc::any_i64("pos"); MARKED = vc::any_bool("marked");
  vc_assume(vc::pure([] { return Pending(G, POS, MARKED); }));
  vc_assume(CELLP[F] != nullptr);
  int oldF = *CELLP[F], oldG = *CELLP[G];
  int64_t oldn = g.update_indices_.n_;
  auto* t = AnyTable();
  bool r = g.ApplyLookupTable(f, *t);
  vc_assert(r == (oldF < kUpdateMarker), "updates exactly the cells not yet updated");
  vc_assert(*CELLP[F] == (oldF < kUpdateMarker ? t->d_[oldF] : oldF), "the new value is the table entry of the old value, once");
  vc_assert(Same(f, h) || *CELLP[G] == oldG, "no other cell changes");
  bool nm = *CELLP[G] >= kUpdateMarker;
  int64_t np = MARKED ? POS : oldn;
  vc_assert(vc::pure([np, nm] { return Pending(G, np, nm); }), "marked iff pending exactly once");
}
VC_INV(finish) {
  int64_t n = HG->update_indices_.n_;
  if (HG->update_indices_.d_ != PEND || n < 0 || n > N0) return false;
  return *CELLP[G] == (MARKED && n <= POS ? V0 - 32768 : V0);
}
VC_HARNESS(finish) {
  HybridGrid& g = AnyHybrid();
  G = vc::any_i64("G", 0, 1LL << 39);
  POS = vc::any_i64("pos"); MARKED = vc::any_bool("marked");
  vc_assume(vc::pure([] { return Pending(G, POS, MARKED); }));
  vc_assume(vc::forall(0, g.update_indices_.n_, [](int64_t q) { return PEND[q] != nullptr; }));
  V0 = *CELLP[G]; N0 = g.update_indices_.n_;
  g.FinishUpdate();
  vc_assert(g.update_indices_.empty(), "nothing pending");
  vc_assert(*CELLP[G] == (V0 >= 32768 ? V0 - 32768 : V0), "the marker is removed and nothing else changes");
}
VC_HARNESS(set_probability) {
  HybridGrid& g = AnyHybrid();
  Array3i f = AnyIndex("fx", "fy", "fz", -8192, 8191), h = AnyIndex("gx", "gy", "gz", -8192, 8191);
  int64_t F = CellNo(f); G = CellNo(h);
  vc_assume(Same(f, h) || CELLP[F] != CELLP[G]);
  vc_assume(CELLP[F] != nullptr && CELLP[G] != nullptr);
  int oldG = *CELLP[G];
  float p = vc::any_float("p");
  g.SetProbability(f, p);
  vc_assert(*CELLP[F] == ProbabilityToValue(p), "the value set");
  vc_assert(*CELLP[F] >= 1 && *CELLP[F] <= 32767, "a set cell is known and not marked");
  vc_assert(Same(f, h) || *CELLP[G] == oldG, "no other cell changes");
}
// --- intensities: the cell's value is the average of what was added
static AverageIntensityData** ICELL;
extern "C" AverageIntensityData* vc_stub_imutable(void* g, const Array3i& index) { return ICELL[CellNo(index)]; }
extern "C" AverageIntensityData vc_stub_ivalue(void* g, const Array3i& index) { return *ICELL[CellNo(index)]; }
VC_HARNESS(intensity) {
  auto& g = *vc::any_obj<IntensityHybridGrid>("grid");
  ICELL = static_cast<AverageIntensityData**>(vcx_alloc(8, "cells"));
  Array3i f = AnyIndex("fx", "fy", "fz", -8192, 8191), h = AnyIndex("gx", "gy", "gz", -8192, 8191);
  int64_t F = CellNo(f), H = CellNo(h);
  vc_assume(Same(f, h) || ICELL[F] != ICELL[H]);
  vc_assume(ICELL[F] != nullptr && ICELL[H] != nullptr);
  int n = ICELL[F]->count; double s = ICELL[F]->sum;
  vc_assume(n >= 0 && n < (1 << 30));
  int nh = ICELL[H]->count; double sh = ICELL[H]->sum;
  float x = vc::any_float("x");
  g.AddIntensity(f, x);
  vc_assert(ICELL[F]->count == n + 1 && ICELL[F]->sum == s + x, "count and sum");
  vc_assert(Same(f, h) || (ICELL[H]->count == nh && ICELL[H]->sum == sh), "no other cell changes");
  float a = g.GetIntensity(f);
  vc_assert(double(a) * (n + 1) == s + x, "the average of what was added");
}
