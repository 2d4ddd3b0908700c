// Voxel filters: exactly one point per occupied voxel, whatever the random
// choices; the adaptive filter's postcondition over that contract.
#include "vc_begin.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/point_cloud.cc"
#include "cartographer/sensor/internal/voxel_filter.h"
#include "cartographer/sensor/internal/voxel_filter.cc"
using namespace cartographer;
using sensor::RangefinderPoint; using sensor::TimedRangefinderPoint; using sensor::PointCloud;
#define VECP std::vc_vector<RangefinderPoint>
#define VECF std::vc_vector<float>
#define VECB std::vc_vector<bool>
typedef absl::vc_flat_hash_map<uint64_t, std::pair<int, int>> Map;

static RangefinderPoint* P; static float* I; static bool HASI; static int64_t N, G, H; static float RES; static bool* KEEP;
static int64_t Key(const Eigen::Vector3f& p) { return vcx_ufi_r3("voxel", p.x(), p.y(), p.z()); }
static int64_t KeyAt(int64_t i) { return Key(P[i].position); }
// GetVoxelCellIndex by contract: a function of the point (proved injective on voxels below)
extern "C" uint64_t vc_stub_key(const Eigen::Vector3f& p, float res) { vc_assert(res == RES, "at the requested resolution"); return Key(p); }
struct Dist { int a, b; };
extern "C" int vc_stub_dist(Dist* d, void*) { vc_assert(d->a <= d->b, "the distribution is not empty"); int r = vc::any_int("random"); vc_assume(r >= d->a && r <= d->b); return r; }
static void Points() {
  N = vc::any_i64("n", 0, 1LL << 30); G = vc::any_i64("g", 0, 1LL << 30); H = vc::any_i64("h", 0, 1LL << 30);
  P = static_cast<RangefinderPoint*>(vcx_alloc(sizeof(RangefinderPoint), "points"));
  I = static_cast<float*>(vcx_alloc(sizeof(float), "intensities"));
  KEEP = static_cast<bool*>(vcx_alloc(1, "keep"));
  HASI = vc::any_bool("hasi"); RES = vc::any_float("resolution"); vc_assume(RES > 0.f);
  vc_assume(P[G].position.x() == P[G].position.x() && P[G].position.y() == P[G].position.y() && P[G].position.z() == P[G].position.z());
}
// the map describes the first i points
static bool MapOk(const Map& m, int64_t i) {
  auto* e = m.e_; auto* pos = m.pos_;
  if (!(m.n_ >= 0 && m.n_ <= i)) return false;
  if (!vc::forall(0, m.n_, [e, pos, i](int64_t p) {
    return pos[static_cast<int64_t>(e[p].first)] == p && e[p].second.first >= 1 && e[p].second.first <= i && e[p].second.second >= 0 && e[p].second.second < i &&
           KeyAt(e[p].second.second) == static_cast<int64_t>(e[p].first); })) return false;
  int64_t n = m.n_;
  if (!vc::forall(INT64_MIN, INT64_MAX, [e, pos, n](int64_t k) { return pos[k] >= -1 && pos[k] < n && vc_implies(pos[k] >= 0, static_cast<int64_t>(e[pos[k]].first) == k); })) return false;
  int64_t kg = pos[KeyAt(G)], kh = pos[KeyAt(H)];
  if (!(kg >= -1 && kg < m.n_ && kh >= -1 && kh < m.n_)) return false;
  if (!(vc_implies(kg >= 0, static_cast<int64_t>(e[kg].first) == KeyAt(G)) && vc_implies(kh >= 0, static_cast<int64_t>(e[kh].first) == KeyAt(H)))) return false;
  return vc_implies(G < i, kg >= 0) && vc_implies(H < i, kh >= 0);
}
VC_INV(count) { return vcx_iter() <= N && MapOk(vc::local<Map>("voxel_count_and_point_index", "hash_map"), vcx_iter()); }
static bool UsedOk(const Map& m, const bool* d, int64_t x, int64_t k) {
  int64_t p = m.pos_[KeyAt(x)];
  return d[x] == (p >= 0 && p < k && m.e_[p].second.second == x);
}
VC_INV(mark) {
  auto& m = vc::local<Map>("voxel_count_and_point_index", "hash_map");
  auto& u = vc::local<VECB>("points_used", "vector<bool");
  int64_t k = vcx_iter();
  if (!(k <= m.n_ && u.n_ == N && MapOk(m, N))) return false;
  if (!(UsedOk(m, u.d_, G, k) && UsedOk(m, u.d_, H, k))) return false;
  // the representative of G's voxel is marked once its entry has been visited
  int64_t p = m.pos_[KeyAt(G)];
  return vc_implies(p >= 0 && p < k, u.d_[m.e_[p].second.second]);
}
VC_HARNESS(one_per_voxel) {
  Points();
  VECP v; v.d_ = P; v.n_ = N;
  VECB used = sensor::RandomizedVoxelFilterIndices(v, RES, [](const RangefinderPoint& p) { return p.position; });
  vc_assert(used.n_ == N, "one flag per point");
  auto* d = used.d_;
  if (G < N && H < N && KeyAt(G) == KeyAt(H) && d[G] && d[H]) vc_assert(G == H, "at most one point per voxel");
  if (G < N) vc_assert(vc::exists(0, N, [d](int64_t j) { return d[j] && KeyAt(j) == KeyAt(G); }), "at least one point per occupied voxel");
}
// voxels are told apart: equal keys mean equal rounded coordinates
static bool In(double v, int b) { return v > -(1 << b) + 1 && v < (1 << b) - 1; }
VC_HARNESS(key_injective) {
  float res = vc::any_float("res"); vc_assume(res > 0.f);
  Eigen::Vector3f p(vc::any_float("px"), vc::any_float("py"), vc::any_float("pz")), q(vc::any_float("qx"), vc::any_float("qy"), vc::any_float("qz"));
  int64_t a[3], b[3];
  for (int i = 0; i < 3; ++i) { vc_assume(In(p[i] / res, 20) && In(q[i] / res, 20)); a[i] = common::RoundToInt(p[i] / res); b[i] = common::RoundToInt(q[i] / res); }
  uint64_t kp = sensor::GetVoxelCellIndex(p, res), kq = sensor::GetVoxelCellIndex(q, res);
  vc_assert((kp == kq) == (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]), "voxel keys are equal exactly for points of the same voxel");
}
// --- the filters: selection by the flags, as in C20
static bool BYRANGE; static float MAXR;
static bool Keep(int64_t i) { return BYRANGE ? P[i].position.norm() <= MAXR : KEEP[i]; }
static int64_t rank(int64_t i) { return vcx_uf1("rank", i); }
static void DefRank(int64_t i) {
  vcx_define(rank(0) == 0);
  vcx_define(vc_implies(i >= 0, rank(i + 1) == rank(i) + (Keep(i) ? 1 : 0)));
  vcx_define(vc_implies(i >= 1, rank(i) == rank(i - 1) + (Keep(i - 1) ? 1 : 0)));
}
static bool SameP(const RangefinderPoint& a, const RangefinderPoint& b) { return a.position.x() == b.position.x() && a.position.y() == b.position.y() && a.position.z() == b.position.z(); }
static bool Ranks(int64_t i) {
  DefRank(i); DefRank(G);
  return i >= 0 && i <= N && rank(i) >= 0 && rank(i) <= i && vc_implies(G < i, rank(G) >= 0 && rank(G) <= G && rank(G + 1) <= rank(i));
}
static bool Sel(int64_t i, const VECP& p) { return Ranks(i) && p.n_ == rank(i) && vc_implies(G < i && Keep(G), SameP(p.d_[rank(G)], P[G])); }
static bool SelI(int64_t i, const VECF& p) { return Ranks(i) && p.n_ == rank(i) && vc_implies(G < i && Keep(G), p.d_[rank(G)] == I[G]); }
extern "C" void vc_stub_indices(VECB* out, const VECP& v, float res) {
  vc_assert(v.d_ == P && v.n_ == N && res == RES, "flags of this cloud at this resolution");
  new (out) VECB(); out->d_ = KEEP; out->n_ = N;
}
VC_INV(points) { return Sel(vcx_iter(), vc::local<VECP>("filtered_points", "vector<cartographer::sensor::Ran")); }
VC_INV(intens) { if (!HASI) return vcx_iter() == 0 && vc::local<VECF>("filtered_intensities", "vector<float").n_ == 0 && Sel(N, vc::local<VECP>("filtered_points", "vector<cartographer::sensor::Ran")); return SelI(vcx_iter(), vc::local<VECF>("filtered_intensities", "vector<float")) && Sel(N, vc::local<VECP>("filtered_points", "vector<cartographer::sensor::Ran")); }
VC_INV(results) { return Sel(vcx_iter(), vc::local<VECP>("results", "vector<cartographer::sensor::Ran")); }
VC_HARNESS(filter_cloud) {
  Points(); vc_assume(vc_implies(HASI, N > 0));
  PointCloud pc; pc.points_.d_ = P; pc.points_.n_ = N; pc.intensities_.d_ = I; pc.intensities_.n_ = HASI ? N : 0;
  PointCloud r = sensor::VoxelFilter(pc, RES);
  DefRank(N); DefRank(G);
  vc_assert(r.points_.n_ == rank(N) && r.intensities_.n_ == (HASI ? rank(N) : 0), "exactly the flagged points");
  if (G < N && KEEP[G]) {
    vc_assert(SameP(r.points_.d_[rank(G)], P[G]), "flagged points kept in order");
    if (HASI) vc_assert(r.intensities_.d_[rank(G)] == I[G], "with their intensities");
  }
}
VC_HARNESS(filter_points) {
  Points();
  VECP v; v.d_ = P; v.n_ = N;
  VECP r = sensor::VoxelFilter(v, RES);
  DefRank(N); DefRank(G);
  vc_assert(r.n_ == rank(N), "exactly the flagged points");
  if (G < N && KEEP[G]) vc_assert(SameP(r.d_[rank(G)], P[G]), "flagged points kept in order");
}
// --- adaptive filter. A filtered cloud is identified by the edge length in its first element.
static float MAXLEN, MINP;
static int64_t Size(double len) { return vcx_ufi_r1("filtered_size", len); }
extern "C" void vc_stub_filter(PointCloud* out, const PointCloud& pc, float len) {
  vc_assert(pc.points_.d_ == P && pc.points_.n_ == N, "the range-limited cloud is filtered");
  vc_assert(len > 0.f && len <= MAXLEN, "with an edge length up to the maximum");
  new (out) PointCloud();
  out->points_.d_ = static_cast<RangefinderPoint*>(vcx_alloc(sizeof(RangefinderPoint), "filtered"));
  out->points_.d_[0].position = Eigen::Vector3f(len, 0.f, 0.f);
  out->points_.n_ = Size(len); vc_assume(out->points_.n_ >= 0 && out->points_.n_ <= N);
}
VC_INV(search) {
  auto& r = vc::local<PointCloud>("result", "");
  float lo = vc::local<float>("low_length", "^float$"), hi = vc::local<float>("high_length", "^float$");
  return lo > 0.f && lo < hi && hi <= MAXLEN && r.points_.n_ == Size(lo) && Size(lo) >= MINP && Size(hi) < MINP && r.points_.d_[0].position.x() == lo;
}
VC_HARNESS(adaptive) {
  Points();
  auto* o = vc::any_obj<sensor::proto::AdaptiveVoxelFilterOptions>("options");
  MAXLEN = o->max_length(); MINP = o->min_num_points();
  vc_assume(MAXLEN > 0.f && MINP >= 0.f);
  PointCloud pc; pc.points_.d_ = P; pc.points_.n_ = N; pc.intensities_.n_ = 0;
  PointCloud r = sensor::AdaptivelyVoxelFiltered(*o, pc);
  int64_t n = r.points_.n_;
  if (N <= MINP) { vc_assert(n == N && vc_implies(G < N, SameP(r.points_.d_[G], P[G])), "a sparse cloud is returned as it is"); return; }
  float L = r.points_.d_[0].position.x();
  vc_assert(n == Size(L) && L > 0.f && L <= MAXLEN, "the result is the cloud filtered with some edge length");
  if (Size(MAXLEN) >= MINP) { vc_assert(L == MAXLEN, "the maximal edge length is used if it leaves enough points"); return; }
  vc_assert(L < MAXLEN, "otherwise a smaller one");
  float l1 = MAXLEN / 2.f, l2 = l1 / 2.f, l3 = l2 / 2.f, l4 = l3 / 2.f, l5 = l4 / 2.f, l6 = l5 / 2.f, l7 = l6 / 2.f;
  bool dense = Size(l1) >= MINP || Size(l2) >= MINP || Size(l3) >= MINP || Size(l4) >= MINP || Size(l5) >= MINP || Size(l6) >= MINP || Size(l7) >= MINP;
  vc_assert(vc_implies(dense, n >= MINP), "enough points remain if halving the edge length can reach it");
}
// --- range limit
VC_INV(near_plain) { return BYRANGE && !HASI && Sel(vcx_iter(), vc::local<VECP>("points", "vector<cartographer::sensor::Ran")); }
VC_INV(near_with) { return BYRANGE && HASI && Sel(vcx_iter(), vc::local<VECP>("points", "vector<cartographer::sensor::Ran")) && SelI(vcx_iter(), vc::local<VECF>("intensities", "vector<float")); }
VC_HARNESS(range_limit) {
  Points(); vc_assume(vc_implies(HASI, N > 0));
  BYRANGE = true; MAXR = vc::any_float("maxr");
  PointCloud pc; pc.points_.d_ = P; pc.points_.n_ = N; pc.intensities_.d_ = I; pc.intensities_.n_ = HASI ? N : 0;
  PointCloud r = sensor::FilterByMaxRange(pc, MAXR);
  DefRank(N); DefRank(G);
  vc_assert(r.points_.n_ == rank(N) && r.intensities_.n_ == (HASI ? rank(N) : 0), "exactly the points within range");
  if (G < N && Keep(G)) {
    vc_assert(SameP(r.points_.d_[rank(G)], P[G]), "kept in order");
    if (HASI) vc_assert(r.intensities_.d_[rank(G)] == I[G], "with their intensities");
  }
}
static const PointCloud* IN; static const sensor::proto::AdaptiveVoxelFilterOptions* OPT; static int STAGE;
extern "C" void vc_stub_near(PointCloud* out, const PointCloud& pc, float r) {
  vc_assert(&pc == IN && r == OPT->max_range() && STAGE == 0, "the cloud is limited to the configured range first");
  new (out) PointCloud(); out->points_.n_ = 12345; STAGE = 1;
}
extern "C" void vc_stub_adaptive(PointCloud* out, const sensor::proto::AdaptiveVoxelFilterOptions& o, const PointCloud& pc) {
  vc_assert(&o == OPT && pc.points_.n_ == 12345 && STAGE == 1, "then filtered adaptively");
  new (out) PointCloud(); out->points_.n_ = 54321; STAGE = 2;
}
VC_HARNESS(adaptive_filter) {
  PointCloud pc; IN = &pc; STAGE = 0;
  auto* o = vc::any_obj<sensor::proto::AdaptiveVoxelFilterOptions>("options"); OPT = o;
  PointCloud r = sensor::AdaptiveVoxelFilter(pc, *o);
  vc_assert(STAGE == 2 && r.points_.n_ == 54321, "and returned");
}
