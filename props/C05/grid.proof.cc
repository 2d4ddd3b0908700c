// Contracts of the 3D grid containers: FlatGrid, NestedGrid, DynamicGrid.
#include "vc_begin.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
using namespace cartographer::mapping;
using cartographer::uint16;
using Flat = FlatGrid<uint16, 3>;
using Nested = NestedGrid<Flat, 3>;
using Dynamic = DynamicGrid<Nested>;
using Eigen::Array3i;

static Array3i AnyIndex(const char* x, const char* y, const char* z, int lo, int hi) { return Array3i(vc::any_int(x, lo, hi), vc::any_int(y, lo, hi), vc::any_int(z, lo, hi)); }
static bool Same(const Array3i& a, const Array3i& b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }

static int Bits() {  // every admissible number of bits, as separate cases
  int b = vc::any_int("bits", 1, 8);
  switch (b) { case 1: return 1; case 2: return 2; case 3: return 3; case 4: return 4; case 5: return 5; case 6: return 6; case 7: return 7; default: return 8; }
}
VC_HARNESS(flat_index) {
  int bits = Bits(), n = 1 << bits;
  Array3i a = AnyIndex("ax", "ay", "az", 0, 255);
  vc_assume(a.x() < n && a.y() < n && a.z() < n);
  int f = ToFlatIndex(a, bits);
  vc_assert(f >= 0 && f < (1 << (3 * bits)), "the flat index is in range");
  vc_assert(Same(To3DIndex(f, bits), a), "the flat index determines the cell");
}
VC_HARNESS(flat_index_back) {
  int bits = Bits(), n = 1 << bits;
  int f = vc::any_int("f", 0, (1 << 24) - 1);
  vc_assume(f < (1 << (3 * bits)));
  Array3i a = To3DIndex(f, bits);
  vc_assert(a.x() >= 0 && a.x() < n && a.y() >= 0 && a.y() < n && a.z() >= 0 && a.z() < n, "the cell is in range");
  vc_assert(ToFlatIndex(a, bits) == f, "every flat index is the index of its cell");
}
static Flat* FG;
static int64_t K;
VC_INV(fill) {
  int64_t i = vcx_iter();
  return i >= 0 && i <= 512 && (K >= i || FG->cells_[K] == 0);
}
VC_HARNESS(flat_new) {
  FG = vc::any_obj<Flat>("flat");
  K = vc::any_i64("k", 0, 511);
  vc_assume(FG->cells_[K] == FG->cells_[K]);
  new (FG) Flat();
  vc_assert(FG->cells_[K] == 0, "every cell of a new grid has the default value");
}
VC_HARNESS(flat_write) {
  Flat& g = *vc::any_obj<Flat>("flat");
  Array3i a = AnyIndex("ax", "ay", "az", 0, 7), b = AnyIndex("bx", "by", "bz", 0, 7);
  int old = g.value(b);
  int v = vc::any_int("v", 0, 65535);
  *g.mutable_value(a) = v;
  vc_assert(g.value(a) == v, "a cell reads back what was written");
  vc_assert(Same(a, b) || g.value(b) == old, "no other cell changes");
}
extern "C" void vc_stub_flat_ctor(Flat* f) { __builtin_memset(static_cast<void*>(f), 0, sizeof(Flat)); }

// unique ownership, for the two cells concerned
static bool Owned(const Nested& g, int64_t a, int64_t b) {
  return a == b || g.meta_cells_[a].p_ == nullptr || g.meta_cells_[a].p_ != g.meta_cells_[b].p_;
}
VC_HARNESS(nested_write) {
  Nested& g = *vc::any_obj<Nested>("nested");
  Array3i a = AnyIndex("ax", "ay", "az", 0, 63), b = AnyIndex("bx", "by", "bz", 0, 63);
  int64_t fa = ToFlatIndex(Array3i(a.x() / 8, a.y() / 8, a.z() / 8), 3), fb = ToFlatIndex(Array3i(b.x() / 8, b.y() / 8, b.z() / 8), 3);
  vc_assume(Owned(g, fa, fb));
  int old = g.value(b), olda = g.value(a);
  int v = vc::any_int("v", 0, 65535);
  uint16* c = g.mutable_value(a);
  vc_assert(*c == olda, "the cell still has its value");
  *c = v;
  vc_assert(g.value(a) == v, "a cell reads back what was written");
  vc_assert(Same(a, b) || g.value(b) == old, "no other cell changes");
  vc_assert(Owned(g, fa, fb), "cells do not share storage");
}

static Dynamic* DG;
static Dynamic& AnyDynamic(int bits) {
  Dynamic* g = vc::any_obj<Dynamic>("grid");
  g->bits_ = bits;
  g->meta_cells_.n_ = 1LL << (3 * bits);
  g->meta_cells_.d_ = static_cast<std::vc_unique_ptr<Nested>*>(vcx_alloc(8, "meta"));
  DG = g;
  return *g;
}
// place of a cell: its meta cell and the cell inside it
static bool InRange(const Dynamic& g, const Array3i& a) { int h = 32 << g.bits_; return a.x() >= -h && a.x() < h && a.y() >= -h && a.y() < h && a.z() >= -h && a.z() < h; }
static int64_t Meta(const Dynamic& g, const Array3i& a) { int h = 32 << g.bits_; return ToFlatIndex(Array3i((a.x() + h) / 64, (a.y() + h) / 64, (a.z() + h) / 64), g.bits_); }
static int64_t Inner(const Dynamic& g, const Array3i& a) { int h = 32 << g.bits_; return ToFlatIndex(Array3i((a.x() + h) % 64 / 8, (a.y() + h) % 64 / 8, (a.z() + h) % 64 / 8), 3); }
// no two cells share a nested grid or a flat grid (unique ownership), for the two cells a and b
static bool Owned2(const Dynamic& g, const Array3i& a, const Array3i& b) {
  if (!InRange(g, a) || !InRange(g, b)) return true;
  int64_t ma = Meta(g, a), mb = Meta(g, b);
  Nested *pa = g.meta_cells_.d_[ma].p_, *pb = g.meta_cells_.d_[mb].p_;
  if (pa == nullptr || pb == nullptr) return true;
  if (ma != mb && pa == pb) return false;
  int64_t ia = Inner(g, a), ib = Inner(g, b);
  if (ma == mb && ia == ib) return true;
  Flat *qa = pa->meta_cells_[ia].p_, *qb = pb->meta_cells_[ib].p_;
  return qa == nullptr || qa != qb;
}
static Array3i A, B;
static int VA, VB, BITS;   // the values of A and B at entry
static bool Entry() { return DG->value(B) == VB && DG->value(A) == VA && Owned2(*DG, A, B); }
extern "C" void vc_stub_grow(Dynamic* g) {   // contract of Grow(), see harness grow
  vcx_assert(g->bits_ <= 7, "CHECK new_bits <= 8");
  g->bits_ += 1;
  g->meta_cells_.n_ *= 8;
  g->meta_cells_.d_ = static_cast<std::vc_unique_ptr<Nested>*>(vcx_alloc(8, "meta"));
  vc_assume(vc::pure([] { return Entry(); }));
}
// the recursive call: by induction on 8 - bits it meets the contract below, with respect to the values at its entry
extern "C" uint16* vc_stub_again(Dynamic* g, const Array3i& index) {
  vcx_assert(g->bits_ == BITS + 1 && Same(index, A), "the same cell in a larger grid");
  vcx_assert(vc::pure([] { return Entry(); }), "growing changes no value");
  vcx_assume(false);
  return nullptr;
}
VC_HARNESS(dynamic_write) {
  Dynamic& g = AnyDynamic(BITS = Bits());
  A = AnyIndex("ax", "ay", "az", -8192, 8191); B = AnyIndex("bx", "by", "bz", -(1 << 30), 1 << 30);
  VA = vc::any_int("va", 0, 65535); VB = vc::any_int("vb", 0, 65535);
  vc_assume(vc::pure([] { return Entry(); }));
  int v = vc::any_int("v", 0, 65535);
  uint16* c = g.mutable_value(A);
  vc_assert(*c == VA, "the cell still has its value");
  *c = v;
  vc_assert(vc::pure([v] { return DG->value(A) == v; }), "a cell reads back what was written");
  vc_assert(vc::pure([] { return Same(A, B) || DG->value(B) == VB; }), "no other cell changes");
  vc_assert(vc::pure([] { return Owned2(*DG, A, B); }), "cells do not share storage");
}

// Grow(): one arbitrary cell N of the doubled table of nested grids
static Array3i N; static Nested* P0; static std::vc_unique_ptr<Nested>* OLD; static std::vc_unique_ptr<Nested>* NEW;
static bool Core() { int n = 1 << BITS, o = n / 2; return N.x() >= o && N.x() < o + n && N.y() >= o && N.y() < o + n && N.z() >= o && N.z() < o + n; }
static int64_t OldIndex() { int n = 1 << BITS, o = n / 2; return ((static_cast<int64_t>(N.z()) - o) * n + (N.y() - o)) * n + (N.x() - o); }
static int64_t NewIndex() { int64_t n = 2 << BITS; return (N.z() * n + N.y()) * n + N.x(); }
static bool Moved(int64_t z, int64_t y, int64_t x) {
  auto& nm = vc::local<std::vc_vector<std::vc_unique_ptr<Nested>>>("new_meta_cells_", "vector<std::unique_ptr");
  int n = 1 << BITS, o = n / 2;
  if (nm.n_ != 1LL << (3 * BITS + 3) || DG->bits_ != BITS || DG->meta_cells_.d_ != OLD || DG->meta_cells_.n_ != 1LL << (3 * BITS)) return false;
  if (!(z >= 0 && z <= n && y >= 0 && y <= n && x >= 0 && x <= n)) return false;
  if (!Core()) return nm.d_[NewIndex()].p_ == nullptr;
  int64_t gz = N.z() - o, gy = N.y() - o, gx = N.x() - o;
  bool done = gz < z || (gz == z && (gy < y || (gy == y && gx < x)));
  return done ? nm.d_[NewIndex()].p_ == P0 : (nm.d_[NewIndex()].p_ == nullptr && OLD[OldIndex()].p_ == P0);
}
VC_INV(gz) { return Moved(vcx_iter(), 0, 0); }
VC_INV(gy) { return Moved(vc::local<int64_t>("z", "int"), vcx_iter(), 0); }
VC_INV(gx) { return Moved(vc::local<int64_t>("z", "int"), vc::local<int64_t>("y", "int"), vcx_iter()); }
VC_HARNESS(grow) {
  Dynamic& g = AnyDynamic(BITS = Bits());
  vc_assume(BITS <= 7);
  OLD = g.meta_cells_.d_;
  N = AnyIndex("nx", "ny", "nz", 0, 255);
  int n = 1 << BITS, o = n / 2;
  vc_assume(N.x() < 2 * n && N.y() < 2 * n && N.z() < 2 * n);
  P0 = nullptr;
  if (Core()) P0 = OLD[OldIndex()].p_;
  g.Grow();
  vc_assert(g.bits_ == BITS + 1, "the grid doubles");
  vc_assert(g.meta_cells_.n_ == 1LL << (3 * BITS + 3), "room for every cell");
  vc_assert(g.meta_cells_.d_[NewIndex()].p_ == P0, "every nested grid is at its place, the rest is empty");
}

// iteration over a flat grid: in index order, over exactly the cells with a value
static int64_t S0, GI;   // first cell looked at; an arbitrary cell
VC_INV(skip) { int64_t i = S0 + vcx_iter(); return i <= 512 && (!(GI >= S0 && GI < i) || FG->cells_[GI] == 0); }
VC_HARNESS(flat_iterate) {
  FG = vc::any_obj<Flat>("flat"); GI = vc::any_i64("gi", 0, 511); S0 = 0;
  vc_assume(FG->cells_[GI] == vc::any_int("gv", 0, 65535));
  Flat::Iterator it(*FG);
  int64_t i = it.current_ - FG->cells_.data();
  vc_assert(i >= 0 && i <= 512 && (it.Done() == (i == 512)), "at a cell or done");
  vc_assert(GI >= i || FG->cells_[GI] == 0, "no cell with a value is skipped");
  if (!it.Done()) {
    vc_assert(FG->cells_[i] != 0, "only cells with a value are visited");
    vc_assert(it.GetValue() == FG->value(it.GetCellIndex()), "the index is that of the value");
  }
}
VC_HARNESS(flat_next) {
  FG = vc::any_obj<Flat>("flat"); GI = vc::any_i64("gi", 0, 511);
  int64_t p = vc::any_i64("p", 0, 511); S0 = p + 1;
  vc_assume(FG->cells_[GI] == vc::any_int("gv", 0, 65535));
  Flat::Iterator it;
  it.current_ = FG->cells_.data() + p; it.end_ = FG->cells_.data() + 512;
  it.Next();
  int64_t i = it.current_ - FG->cells_.data();
  vc_assert(i > p && i <= 512 && (it.Done() == (i == 512)), "moves on");
  vc_assert(GI >= i || GI <= p || FG->cells_[GI] == 0, "no cell with a value is skipped");
  if (!it.Done()) {
    vc_assert(FG->cells_[i] != 0, "only cells with a value are visited");
    vc_assert(it.GetValue() == FG->value(it.GetCellIndex()), "the index is that of the value");
  }
}
