// SlidingWindowMaximum: the deque holds the suffix maxima of the window.
#include "vc_begin.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc"
using namespace cartographer::mapping::scan_matching;
// ghost: the window is the sequence W(LO), ..., W(HI - 1); POS[i] is the place in it of deque entry i
static int64_t LO, HI; static int64_t* POS; static SlidingWindowMaximum* S;
static float W(int64_t j) { return vcx_ufr1("W", j); }
struct St { int64_t b, e; float* d; };
static St State() { auto& q = S->non_ascending_maxima_; return St{q.b_, q.e_, q.d_}; }
static int64_t* NXT;   // the deque entry that stands for a place of the window
static bool Entries(int64_t b, int64_t e, int64_t lo, int64_t hi) {
  float* d = S->non_ascending_maxima_.d_; int64_t* pos = POS;
  return vc::forall(b, e, [=](int64_t i) { return pos[i] >= lo && pos[i] < hi && d[i] == W(pos[i]); }) &&
         vc::forall(b, e, [=](int64_t i) { return vc::forall(b, e, [=](int64_t k) { return !(i < k) || (pos[i] < pos[k] && d[i] >= d[k]); }); });
}
// every window value: stood for by the first entry at or behind it, smaller than it if not itself kept
static bool Covered(int64_t b, int64_t e, int64_t lo, int64_t hi) {
  float* d = S->non_ascending_maxima_.d_; int64_t *pos = POS, *nxt = NXT;
  return vc::forall(lo, hi, [=](int64_t j) { int64_t n = nxt[j]; return n >= b && n < e && j <= pos[n] && (n == b || pos[n - 1] < j) && (j == pos[n] || W(j) < d[n]); });
}
static bool Inv(int64_t lo, int64_t hi) {
  St s = State(); int64_t b = s.b, e = s.e;
  return lo <= hi && b <= e && (lo == hi) == (b == e) && Entries(b, e, lo, hi) && Covered(b, e, lo, hi);
}
static void Setup() {
  S = vc::any_obj<SlidingWindowMaximum>("window");
  auto& q = S->non_ascending_maxima_; q.d_ = static_cast<float*>(vcx_alloc(4, "deque")); q.d_[0] = vc::any_float("d0");
  q.b_ = vc::any_i64("b", 0, 1 << 30); q.e_ = vc::any_i64("e", 0, 1 << 30);
  POS = static_cast<int64_t*>(vcx_alloc(8, "pos")); POS[0] = vc::any_i64("p0", -(1 << 30), 1 << 30);
  NXT = static_cast<int64_t*>(vcx_alloc(8, "nxt")); NXT[0] = vc::any_i64("n0", -(1 << 30), 1 << 30);
  LO = vc::any_i64("lo", -(1 << 30), 1 << 30); HI = vc::any_i64("hi", -(1 << 30), 1 << 30);
  vc_assume(Inv(LO, HI));
}
static int64_t B0, E0; static float V;
VC_INV(add) {
  St s = State(); int64_t e0 = E0; float *d = s.d, v = V;
  return s.b == B0 && s.e <= E0 && s.e >= B0 && vc::forall(s.e, e0, [=](int64_t i) { return d[i] < v; });
}
VC_HARNESS(add_value) {
  Setup(); B0 = State().b; E0 = State().e; V = W(HI);
  S->AddValue(V);
  const int64_t at = State().e - 1; POS[at] = HI;
  int64_t *old = NXT, hi = HI, *now = NXT = static_cast<int64_t*>(vcx_alloc(8, "nxt2")); NXT[0] = vc::any_i64("n1", -(1 << 30), 1 << 30);
  vc_assume(vc::forall(INT64_MIN, INT64_MAX, [=](int64_t j) { return now[j] == (j < hi && old[j] < at ? old[j] : at); }));   // ghost update
  vc_assert(State().b == B0, "the front stays");
  vc_assert(Inv(LO, HI + 1), "the window grows by the value");
}
VC_HARNESS(remove_value) {
  Setup(); vc_assume(LO < HI);
  S->RemoveValue(W(LO));
  vc_assert(Inv(LO + 1, HI), "the window loses its first value");
}
VC_HARNESS(maximum) {
  Setup(); vc_assume(LO < HI);
  float m = S->GetMaximum(); int64_t j = vc::any_i64("j", -(1 << 30), 1 << 30); vc_assume(j >= LO && j < HI);
  vc_assert(m >= W(j), "no value of the window is above the maximum");
  vc_assert(m == W(POS[State().b]) && POS[State().b] >= LO && POS[State().b] < HI, "the maximum is a value of the window");
}
VC_HARNESS(fresh) {
  S = new SlidingWindowMaximum(); POS = static_cast<int64_t*>(vcx_alloc(8, "pos")); POS[0] = 0; NXT = POS;
  vc_assert(Inv(0, 0), "a new window is empty");
  Setup(); vc_assume(LO == HI);
  S->CheckIsEmpty();
}
