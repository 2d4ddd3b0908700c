// Contract of ActiveSubmaps2D::InsertRangeData as a transition on its state
// invariant, over the contract of RangeDataInserterInterface::Insert (C01) and
// of Grid2D::ComputeCroppedGrid (C02).
#include "vc_begin.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/range_data.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/2d/submap_2d.cc"
using namespace cartographer::mapping;
using namespace cartographer;
static ActiveSubmaps2D* AS; static const sensor::RangeData* RD;
static Submap2D *A, *B; static Grid2D *GA, *GB, *GC, *CROP; static int64_t IA, IB, IC, CROPS; static int CREATED;
static RangeDataInserterInterface* INS; static Grid2D* CROPPED;
extern "C" void vc_stub_insert(RangeDataInserterInterface* i, const sensor::RangeData& rd, Grid2D* g) {
  vc_assert(i == INS, "the inserter of the options");
  vc_assert(&rd == RD, "the data given is inserted");
  vc_assert(g == GA || g == GB || g == GC, "into the grid of an active submap");
  vc_assert(CROPS == 0, "a submap takes no more data once it is finished");
  if (g == GA) ++IA; else if (g == GB) ++IB; else ++IC;
}
extern "C" void vc_stub_crop(std::unique_ptr<Grid2D>* out, Grid2D* g) { CROPPED = g; ++CROPS; out->p_ = CROP; }
extern "C" void vc_stub_create(std::unique_ptr<GridInterface>* out, ActiveSubmaps2D*, const Eigen::Vector2f& o) {
  vc_assert(o.x() == RD->origin.x() && o.y() == RD->origin.y(), "a new submap is placed at the origin of the data");
  ++CREATED; out->p_ = GC;
}
static int N, C0, C1; static int64_t CNT;
static void Setup(int64_t n) {
  AS = vc::any_obj<ActiveSubmaps2D>("active");
  A = vc::any_obj<Submap2D>("a"); B = vc::any_obj<Submap2D>("b");
  GA = vc::any_obj<Grid2D>("ga"); GB = vc::any_obj<Grid2D>("gb"); GC = vc::any_obj<Grid2D>("gc"); CROP = vc::any_obj<Grid2D>("crop");
  INS = vc::any_obj<RangeDataInserterInterface>("ins"); AS->range_data_inserter_.p_ = INS;
  A->grid_.p_ = GA; B->grid_.p_ = GB;
  N = AS->options_.num_range_data(); vc_assume(N >= 1 && N <= 1000000000);
  IA = IB = IC = CROPS = 0; CREATED = 0; CROPPED = nullptr; CNT = n;
  AS->submaps_.d_ = static_cast<std::shared_ptr<Submap2D>*>(vcx_alloc(sizeof(std::shared_ptr<Submap2D>), "submaps")); AS->submaps_.n_ = n;
  C0 = A->num_range_data_; C1 = B->num_range_data_;
}
// state invariant
static bool Inv1(Submap2D* a) { return a->num_range_data() >= 1 && a->num_range_data() <= N && !a->insertion_finished() && a->grid_.p_ != nullptr; }
static bool Inv2(Submap2D* a, Submap2D* b) {
  return b->num_range_data() >= 1 && b->num_range_data() <= N && !b->insertion_finished() && a->num_range_data() == b->num_range_data() + N &&
         a->insertion_finished() == (a->num_range_data() == 2 * N) && a->grid_.p_ != nullptr && b->grid_.p_ != nullptr;
}
static std::shared_ptr<Submap2D>* D() { return AS->submaps_.d_; }
static bool Fresh(Submap2D* s) {
  return s->num_range_data() == 1 && !s->insertion_finished() && s->grid_.p_ == GC && s->local_pose().translation().x() == RD->origin.x() &&
         s->local_pose().translation().y() == RD->origin.y() && s->local_pose().translation().z() == 0.;
}
static void Returned(const std::vector<std::shared_ptr<const Submap2D>>& r) {
  vc_assert(r.n_ == AS->submaps_.n_, "all active submaps are returned");
  vc_assert(r.d_[0].p_ == D()[0].p_ && (r.n_ < 2 || r.d_[1].p_ == D()[1].p_), "oldest first");
}
#define RDATA auto* rd = vc::any_obj<sensor::RangeData>("rd"); RD = rd
VC_HARNESS(first) {
  Setup(0); RDATA;
  auto r = AS->InsertRangeData(*rd);
  vc_assert(AS->submaps_.n_ == 1 && CREATED == 1, "the first data starts the first submap");
  vc_assert(Fresh(D()[0].p_) && IC == 1 && IA == 0 && IB == 0, "which holds exactly this data");
  vc_assert(Inv1(D()[0].p_) && CROPS == 0, "state invariant"); Returned(r);
}
VC_HARNESS(one) {
  Setup(1); RDATA; D()[0].p_ = A; vc_assume(Inv1(A));
  auto r = AS->InsertRangeData(*rd);
  vc_assert(IA == 1 && A->num_range_data() == C0 + 1, "the data is inserted exactly once into the active submap");
  vc_assert(D()[0].p_ == A, "the old submap stays first");
  if (C0 == N) {
    vc_assert(AS->submaps_.n_ == 2 && CREATED == 1 && Fresh(D()[1].p_) && IC == 1, "a new submap starts once the previous holds num_range_data");
    vc_assert(Inv2(A, D()[1].p_), "state invariant");
    vc_assert(A->insertion_finished() ? CROPS == 1 && CROPPED == GA && A->grid_.p_ == CROP : CROPS == 0 && A->grid_.p_ == GA, "a finished submap is cropped, others keep their grid");
  } else {
    vc_assert(AS->submaps_.n_ == 1 && CREATED == 0 && IC == 0 && CROPS == 0 && Inv1(A), "otherwise there is still one submap");
  }
  Returned(r);
}
VC_HARNESS(two) {
  Setup(2); RDATA; D()[0].p_ = A; D()[1].p_ = B; vc_assume(Inv2(A, B));
  const bool full = C1 == N, was = A->insertion_finished();
  auto r = AS->InsertRangeData(*rd);
  vc_assert(AS->submaps_.n_ == 2, "two active submaps");
  vc_assert(IB == 1 && B->num_range_data() == C1 + 1, "the data is inserted exactly once into the newer submap");
  if (full) {
    vc_assert(was && IA == 0 && A->num_range_data() == C0 && A->grid_.p_ == GA && A->insertion_finished(), "the finished submap is dropped unchanged");
    vc_assert(CREATED == 1 && D()[0].p_ == B && Fresh(D()[1].p_) && IC == 1, "a new submap starts once the previous holds num_range_data");
    vc_assert(B->insertion_finished() ? CROPS == 1 && CROPPED == GB && B->grid_.p_ == CROP : CROPS == 0 && B->grid_.p_ == GB, "a finished submap is cropped, others keep their grid");
  } else {
    vc_assert(CREATED == 0 && IC == 0 && D()[0].p_ == A && D()[1].p_ == B, "the same two submaps stay active");
    vc_assert(IA == 1 && A->num_range_data() == C0 + 1, "the data is inserted exactly once into the older submap");
    vc_assert(B->grid_.p_ == GB, "the newer keeps its grid");
    vc_assert(A->insertion_finished() ? CROPS == 1 && CROPPED == GA && A->grid_.p_ == CROP : CROPS == 0 && A->grid_.p_ == GA, "a finished submap is cropped, others keep their grid");
  }
  vc_assert(Inv2(D()[0].p_, D()[1].p_), "state invariant");
  Returned(r);
}
