// Contracts of CompressedPointCloud, over the contract of the hybrid grid (C05:
// a map from block coordinates to lists, iterated once per non-empty block).
#include "vc_begin.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/point_cloud.cc"
#include "cartographer/sensor/compressed_point_cloud.h"
#include "cartographer/sensor/compressed_point_cloud.cc"
using namespace cartographer;
using namespace cartographer::sensor;
using Eigen::Array3i;
struct RP { Array3i point; int index; };
typedef std::vc_vector<RP> Block;
typedef CompressedPointCloud CPC;
typedef CompressedPointCloud::ConstIterator It;
// ghost: one arbitrary point K0, its block G, its place in the list of its block
static Block *BG, *OTHER; static int64_t GX, GY, GZ, K0, POS0, CALLS, OCC; static const PointCloud* PC; static CPC* C;
static int64_t NEMPTY;  // blocks used so far
static int64_t R0X, R0Y, R0Z;
static int64_t Raster(float c) { return std::lround(c / 0.001f); }
static int64_t Div(int64_t r) { return r >> 10; }
static int64_t Rem(int64_t r) { return r & 1023; }
extern "C" Block* vc_stub_block(void* grid, const Array3i& i) {
  const int64_t call = CALLS++;
  if (call == K0) { vc_assert(i.x() == GX && i.y() == GY && i.z() == GZ, "each point goes to the block of its coordinates"); POS0 = BG->n_; NEMPTY += BG->n_ == 0; return BG; }
  if (i.x() == GX && i.y() == GY && i.z() == GZ) { NEMPTY += BG->n_ == 0; return BG; }
  OTHER->n_ = vc::any_i64("others", 0, 1 << 30);
  NEMPTY += OTHER->n_ == 0;
  return OTHER;
}
VC_INV(distribute) {
  int64_t n = vcx_iter();
  if (CALLS != n || BG->n_ < 0 || BG->n_ > n || NEMPTY < 0 || NEMPTY > n || vc::local<int>("num_blocks", "int") != NEMPTY) return false;
  if (n <= K0) return true;
  return POS0 >= 0 && POS0 < BG->n_ && BG->d_[POS0].point.x() == R0X && BG->d_[POS0].point.y() == R0Y && BG->d_[POS0].point.z() == R0Z;
}
// the iterator over the blocks
static int64_t NB, B0, AT, H0; 
extern "C" void vc_stub_iter(void* it, void* grid) { AT = 0; vc_assume(NB == NEMPTY); }  // C05: one visit per non-empty block
extern "C" bool vc_stub_done(void* it) { return AT >= NB; }
extern "C" void vc_stub_next(void* it) { ++AT; }
extern "C" Block* vc_stub_value(void* it) {
  if (AT == B0) { H0 = C->point_data_.n_; return BG; }
  OTHER->n_ = vc::any_i64("others2", 1, 1 << 30);
  return OTHER;
}
extern "C" Array3i vc_stub_cell(void* it) { return AT == B0 ? Array3i(GX, GY, GZ) : Array3i(vc::any_int("bx", -8192, 8191), vc::any_int("by", -8192, 8191), vc::any_int("bz", -8192, 8191)); }
static bool Written(int64_t upto) {
  auto& d = C->point_data_;
  return d.d_[H0] == BG->n_ && d.d_[H0 + 1] == GX && d.d_[H0 + 2] == GY && d.d_[H0 + 3] == GZ && (upto <= POS0 || d.d_[H0 + 4 + POS0] == (R0Z * 1024 + R0Y) * 1024 + R0X);
}
VC_INV(blocks) {
  int64_t b = vcx_iter();
  auto& d = C->point_data_;
  if (AT != b || b > NB || d.n_ < 0 || d.n_ > b * ((1 << 30) + 4) || vc::local<int>("num_blocks", "int") != NB - b) return false;
  if (b > B0) return H0 >= 0 && H0 < (INT64_C(1) << 61) && H0 + 4 + BG->n_ <= d.n_ && Written(BG->n_);
  return true;
}
VC_INV(points) {
  int64_t j = vcx_iter();
  auto& d = C->point_data_;
  if (d.n_ > AT * ((1 << 30) + 4) + 4 + j) return false;
  if (AT == B0) return H0 >= 0 && H0 < (INT64_C(1) << 61) && d.n_ == H0 + 4 + j && Written(j);
  if (AT > B0) return H0 >= 0 && H0 < (INT64_C(1) << 61) && H0 + 4 + BG->n_ <= d.n_ && Written(BG->n_);
  return d.n_ >= 0;
}
static bool Small(const Eigen::Vector3f& p) { return p.x() < 8388.f && p.x() > -8388.f && p.y() < 8388.f && p.y() > -8388.f && p.z() < 8388.f && p.z() > -8388.f; }
VC_HARNESS(encode) {
  auto* pc = new PointCloud(); PC = pc;
  auto* a = pc->points_.d_ = static_cast<RangefinderPoint*>(vcx_alloc(sizeof(RangefinderPoint), "points"));
  pc->points_.n_ = vc::any_i64("n", 1, 1 << 30);
  K0 = vc::any_i64("k0", 0, 1 << 30); vc_assume(K0 < pc->points_.n_);
  vc_assume(vc::forall(0, pc->points_.n_, [a](int64_t i) { return Small(a[i].position); }));
  vc_assume(Small(a[K0].position));
  int64_t x = Raster(a[K0].position.x()), y = Raster(a[K0].position.y()), z = Raster(a[K0].position.z());
  GX = Div(x); GY = Div(y); GZ = Div(z); R0X = Rem(x); R0Y = Rem(y); R0Z = Rem(z);
  BG = vc::any_obj<Block>("bg"); new (BG) Block(); OTHER = vc::any_obj<Block>("other"); new (OTHER) Block(); NEMPTY = 0;
  CALLS = 0; POS0 = 0; H0 = 0;
  NB = vc::any_i64("nb", 1, 1 << 30); B0 = vc::any_i64("b0", 0, 1 << 30); vc_assume(B0 < NB);
  C = vc::any_obj<CPC>("cloud");
  new (C) CPC(*pc);
  vc_assert(C->num_points_ == pc->points_.n_, "the number of points is kept");
  vc_assert(H0 >= 0 && Written(BG->n_), "block header and the point's code in its place");
}
// decoding: the iterator stands after point j of the block starting at OFF
static int* DATA;
struct Pt { int64_t x, y, z; };
static Pt AnyCode(int64_t at, const char* n) {   // any code the encoder writes
  Pt p{vc::any_i64("x", 0, 1023), vc::any_i64("y", 0, 1023), vc::any_i64("z", 0, 1023)};
  vc_assume(DATA[at] == (p.z * 1024 + p.y) * 1024 + p.x);
  return p;
}
static Pt AnyHeader(int64_t off) {
  vc_assume(DATA[off] >= 1 && DATA[off] <= (1 << 30));
  Pt b{vc::any_i64("bx", -8192, 8191), vc::any_i64("by", -8192, 8191), vc::any_i64("bz", -8192, 8191)};
  vc_assume(DATA[off + 1] == b.x && DATA[off + 2] == b.y && DATA[off + 3] == b.z);
  return b;
}
static void Is(const It& it, const Pt& b, const Pt& p) {
  vc_assert(it.current_point_.x() == static_cast<float>(b.x * 1024 + p.x) * 0.001f, "x is the coded coordinate");
  vc_assert(it.current_point_.y() == static_cast<float>(b.y * 1024 + p.y) * 0.001f, "y is the coded coordinate");
  vc_assert(it.current_point_.z() == static_cast<float>(b.z * 1024 + p.z) * 0.001f, "z is the coded coordinate");
}
static CPC* AnyCloud() {
  CPC* c = vc::any_obj<CPC>("cloud");
  DATA = c->point_data_.d_ = static_cast<int*>(vcx_alloc(4, "data"));
  DATA[0] = vc::any_int("d0", INT32_MIN, INT32_MAX);
  c->point_data_.n_ = vc::any_i64("size", 0, INT64_C(1) << 40);
  c->num_points_ = vc::any_i64("num", 0, 1 << 30);
  return c;
}
VC_HARNESS(begin) {
  CPC* c = AnyCloud(); vc_assume(c->num_points_ > 0);
  Pt b = AnyHeader(0), p = AnyCode(4, "p");
  It it = c->begin();
  Is(it, b, p);
  vc_assert(it.remaining_points_ == c->num_points_ && it.input_ == DATA + 5 && it.remaining_points_in_current_block_ == DATA[0] - 1, "at the first point of the first block");
  RangefinderPoint q = *it;
  vc_assert(q.position.x() == it.current_point_.x() && q.position.y() == it.current_point_.y() && q.position.z() == it.current_point_.z(), "dereferencing gives the current point");
  vc_assert(it != c->end(), "not at the end");
}
VC_HARNESS(begin_empty) {
  CPC* c = AnyCloud(); vc_assume(c->num_points_ == 0);
  vc_assert(!(c->begin() != c->end()), "nothing to iterate");
  vc_assert(c->empty() && c->size() == 0, "empty");
}
VC_HARNESS(step) {
  CPC* c = AnyCloud();
  It& it = *vc::any_obj<It>("it");
  int64_t off = vc::any_i64("off", 0, INT64_C(1) << 40);
  Pt b = AnyHeader(off);
  int64_t s = DATA[off], j = vc::any_i64("j", 0, 1 << 30); vc_assume(j < s);
  it.compressed_point_cloud_ = c; it.remaining_points_ = vc::any_i64("left", 1, 1 << 30); it.remaining_points_in_current_block_ = s - j - 1;
  it.current_block_coordinates_ = Eigen::Vector3i(b.x * 1024, b.y * 1024, b.z * 1024);
  it.current_point_ = Eigen::Vector3f(vc::any_float("px"), vc::any_float("py"), vc::any_float("pz"));
  it.input_ = DATA + (off + 4 + j + 1);
  int64_t left = it.remaining_points_;
  if (left == 1) { ++it; vc_assert(it.remaining_points_ == 0 && !(it != c->end()), "the end is reached after the last point"); return; }
  if (j + 1 < s) {
    Pt p = AnyCode(off + 4 + j + 1, "p");
    ++it; Is(it, b, p);
    vc_assert(it.input_ == DATA + (off + 4 + j + 2) && it.remaining_points_in_current_block_ == s - j - 2, "next point of the block");
    vc_assert(it.current_block_coordinates_.x() == b.x * 1024 && it.current_block_coordinates_.y() == b.y * 1024 && it.current_block_coordinates_.z() == b.z * 1024, "same block");
  } else {
    int64_t off2 = off + 4 + s;
    Pt b2 = AnyHeader(off2); Pt p = AnyCode(off2 + 4, "p");
    ++it; Is(it, b2, p);
    vc_assert(it.input_ == DATA + (off2 + 5) && it.remaining_points_in_current_block_ == DATA[off2] - 1, "first point of the next block");
    vc_assert(it.current_block_coordinates_.x() == b2.x * 1024 && it.current_block_coordinates_.y() == b2.y * 1024 && it.current_block_coordinates_.z() == b2.z * 1024, "next block");
  }
  vc_assert(it.remaining_points_ == left - 1, "one point less");
  vc_assert(it != c->end(), "not yet at the end");
}
// the code of a point determines it up to half the precision
VC_HARNESS(precision) {
  float f = vc::any_float("coordinate"); vc_assume(f < 8388.f && f > -8388.f);
  int64_t r = Raster(f);
  double back = static_cast<float>(Div(r) * 1024 + Rem(r)) * 0.001f, d = back - f;
  vc_assert(d <= 0.0005 * 1.0001 && d >= -0.0005 * 1.0001, "a decoded coordinate is within half a millimetre");
}
VC_HARNESS(equality) {
  CPC* c = AnyCloud(); CPC* e = vc::any_obj<CPC>("other");
  e->point_data_.d_ = static_cast<int*>(vcx_alloc(4, "data2")); e->point_data_.n_ = vc::any_i64("size2", 0, INT64_C(1) << 40); e->num_points_ = vc::any_i64("num2", 0, 1 << 30);
  e->point_data_.d_[0] = vc::any_int("e0", INT32_MIN, INT32_MAX);
  int *a = DATA, *b = e->point_data_.d_; int64_t n = c->point_data_.n_;
  bool same = n == e->point_data_.n_ && c->num_points_ == e->num_points_ && vc::forall(0, n, [a, b](int64_t i) { return a[i] == b[i]; });
  vc_assert((*c == *e) == same, "equal exactly if the data are");
}
// Decompress, over the contract of ReadNextPoint (above): the points in the iterator's order
static int64_t N, G0;
static float F0(const char* n, int64_t i) { return vcx_ufr1(n, i); }
extern "C" void vc_stub_read(It* it) {
  int64_t i = N - it->remaining_points_;
  vc_assert(it->remaining_points_ > 0, "reads only while points remain");
  it->current_point_ = Eigen::Vector3f(F0("px", i), F0("py", i), F0("pz", i));
}
static bool Same(const RangefinderPoint& p, int64_t i) { return p.position.x() == F0("px", i) && p.position.y() == F0("py", i) && p.position.z() == F0("pz", i); }
VC_INV(decompress) {
  int64_t k = vcx_iter();
  auto& r = vc::local<PointCloud>("decompressed", "");
  auto& it = vc::local<It>("~^__begin", "ConstIterator");
  if (r.points_.n_ != k || r.intensities_.n_ != 0 || k > N || it.remaining_points_ != N - k || it.compressed_point_cloud_ != C) return false;
  if (k < N && !Same(RangefinderPoint{it.current_point_}, k)) return false;
  return G0 >= k || Same(r.points_.d_[G0], G0);
}
VC_HARNESS(decompress_) {
  C = AnyCloud(); N = C->num_points_; G0 = vc::any_i64("g", 0, 1 << 30); vc_assume(G0 < N);
  PointCloud r = C->Decompress();
  vc_assert(r.points_.n_ == N && r.intensities_.n_ == 0, "as many points as were compressed");
  vc_assert(Same(r.points_.d_[G0], G0), "each the point of its place");
}
