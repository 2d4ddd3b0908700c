// Contract of ActiveSubmaps3D::InsertData as a transition on its state invariant,
// over the contract of Submap3D::InsertData (harness insert) and of
// RangeDataInserter3D::Insert (C28), TransformRangeData (C20), copy_if (C20).
#include "vc_begin.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/range_data.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/3d/submap_3d.cc"
using namespace cartographer::mapping;
using namespace cartographer;
static ActiveSubmaps3D* AS; static const sensor::RangeData* RD; static const Eigen::Quaterniond* Q; static const Eigen::VectorXf* HIST;
static Submap3D *A, *B; static int64_t IA, IB, IC; static int CREATED;
static int N, C0, C1; static float* F0; static int64_t FN;
// Submap3D::InsertData by contract
extern "C" void vc_stub_insert(Submap3D* s, const sensor::RangeData& rd, const RangeDataInserter3D& ins, float range, const Eigen::Quaterniond& q, const Eigen::VectorXf& h) {
  vc_assert(!s->insertion_finished(), "a finished submap takes no more data");
  vc_assert(&rd == RD && &ins == &AS->range_data_inserter_ && &q == Q && &h == HIST && range == static_cast<float>(AS->options_.high_resolution_max_range()), "the data given is inserted, with the configured inserter and range");
  if (s == A) ++IA; else if (s == B) ++IB; else ++IC;
  s->num_range_data_ = s->num_range_data_ + 1;
}
extern "C" void vc_stub_ctor(Submap3D* s, float high, float low, const transform::Rigid3d& pose, const Eigen::VectorXf& h) {
  vc_assert(h.data() == F0 && h.size() == FN && h.size() == HIST->size(), "an empty histogram of the size of the scan's");
  vc_assert(high == static_cast<float>(AS->options_.high_resolution()) && low == static_cast<float>(AS->options_.low_resolution()), "the configured resolutions");
  vc_assert(pose.translation().x() == RD->origin.x() && pose.translation().y() == RD->origin.y() && pose.translation().z() == RD->origin.z(), "a new submap is placed at the origin of the data");
  vc_assert(pose.rotation().w() == Q->w() && pose.rotation().x() == Q->x() && pose.rotation().y() == Q->y() && pose.rotation().z() == Q->z(), "and gravity aligned");
  ++CREATED; s->num_range_data_ = 0; s->insertion_finished_ = false;
}
extern "C" void vc_stub_fill(float* b, float* e, const float& v) { vc_assert(v == 0.f, "a new histogram is empty"); F0 = b; FN = e - b; }
static void Setup(int64_t n) {
  AS = vc::any_obj<ActiveSubmaps3D>("active");
  A = vc::any_obj<Submap3D>("a"); B = vc::any_obj<Submap3D>("b");
  N = AS->options_.num_range_data(); vc_assume(N >= 1 && N <= 1000000000);
  IA = IB = IC = 0; CREATED = 0;
  AS->submaps_.d_ = static_cast<std::shared_ptr<Submap3D>*>(vcx_alloc(sizeof(std::shared_ptr<Submap3D>), "submaps")); AS->submaps_.n_ = n;
  C0 = A->num_range_data_; C1 = B->num_range_data_;
  Q = new Eigen::Quaterniond(vc::any_real("q"), vc::any_real("q"), vc::any_real("q"), vc::any_real("q"));
  HIST = vc::any_obj<Eigen::VectorXf>("hist"); F0 = nullptr; FN = 0; vc_assume(HIST->size() >= 1 && HIST->size() <= 1000000);
}
static bool Inv1(Submap3D* a) { return a->num_range_data() >= 1 && a->num_range_data() <= N && !a->insertion_finished(); }
static bool Inv2(Submap3D* a, Submap3D* b) {
  return b->num_range_data() >= 1 && b->num_range_data() <= N && !b->insertion_finished() && a->num_range_data() == b->num_range_data() + N &&
         a->insertion_finished() == (a->num_range_data() == 2 * N);
}
static std::shared_ptr<Submap3D>* D() { return AS->submaps_.d_; }
static bool Fresh(Submap3D* s) { return s->num_range_data() == 1 && !s->insertion_finished(); }
static void Returned(const std::vector<std::shared_ptr<const Submap3D>>& r) {
  vc_assert(r.n_ == AS->submaps_.n_, "all active submaps are returned");
  vc_assert(r.d_[0].p_ == D()[0].p_ && (r.n_ < 2 || r.d_[1].p_ == D()[1].p_), "oldest first");
}
#define RDATA auto* rd = vc::any_obj<sensor::RangeData>("rd"); RD = rd; rd->origin = Eigen::Vector3f(vc::any_float("ox"), vc::any_float("oy"), vc::any_float("oz"))
VC_HARNESS(first) {
  Setup(0); RDATA;
  auto r = AS->InsertData(*rd, *Q, *HIST);
  vc_assert(AS->submaps_.n_ == 1 && CREATED == 1, "the first data starts the first submap");
  vc_assert(Fresh(D()[0].p_) && IC == 1 && IA == 0 && IB == 0, "which holds exactly this data");
  vc_assert(Inv1(D()[0].p_), "state invariant"); Returned(r);
}
VC_HARNESS(one) {
  Setup(1); RDATA; D()[0].p_ = A; vc_assume(Inv1(A));
  auto r = AS->InsertData(*rd, *Q, *HIST);
  vc_assert(IA == 1 && A->num_range_data() == C0 + 1, "the data is inserted exactly once into the active submap");
  vc_assert(D()[0].p_ == A, "the old submap stays first");
  if (C0 == N) {
    vc_assert(AS->submaps_.n_ == 2 && CREATED == 1 && Fresh(D()[1].p_) && IC == 1, "a new submap starts once the previous holds num_range_data");
    vc_assert(Inv2(A, D()[1].p_), "state invariant");
  } else {
    vc_assert(AS->submaps_.n_ == 1 && CREATED == 0 && IC == 0 && Inv1(A), "otherwise there is still one submap");
  }
  Returned(r);
}
VC_HARNESS(two) {
  Setup(2); RDATA; D()[0].p_ = A; D()[1].p_ = B; vc_assume(Inv2(A, B));
  const bool full = C1 == N, was = A->insertion_finished();
  auto *ha = A->high_resolution_hybrid_grid_.p_, *la = A->low_resolution_hybrid_grid_.p_; auto* ib = B->high_resolution_intensity_hybrid_grid_.p_;
  auto r = AS->InsertData(*rd, *Q, *HIST);
  vc_assert(AS->submaps_.n_ == 2, "two active submaps");
  vc_assert(IB == 1 && B->num_range_data() == C1 + 1, "the data is inserted exactly once into the newer submap");
  vc_assert(A->high_resolution_hybrid_grid_.p_ == ha && A->low_resolution_hybrid_grid_.p_ == la && B->high_resolution_intensity_hybrid_grid_.p_ == ib, "submaps keep their grids");
  if (full) {
    vc_assert(was && IA == 0 && A->num_range_data() == C0 && A->insertion_finished(), "the finished submap is dropped unchanged");
    vc_assert(CREATED == 1 && D()[0].p_ == B && Fresh(D()[1].p_) && IC == 1, "a new submap starts once the previous holds num_range_data");
  } else {
    vc_assert(CREATED == 0 && IC == 0 && D()[0].p_ == A && D()[1].p_ == B, "the same two submaps stay active");
    vc_assert(IA == 1 && A->num_range_data() == C0 + 1, "the data is inserted exactly once into the older submap");
  }
  vc_assert(Inv2(D()[0].p_, D()[1].p_), "state invariant");
  Returned(r);
}
