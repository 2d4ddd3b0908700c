// Contracts of the probability <-> 16-bit value conversions.
#include "vc_begin.h"
#include "cartographer/mapping/probability_values.h"
#include "cartographer/mapping/probability_values.cc"
using namespace cartographer::mapping;
using cartographer::uint16;

// specification: value v (1..32767) stands for lo + (v-1)(hi-lo)/32766
static double Decode(int64_t v, double lo, double hi) { return lo + (v - 1) * (hi - lo) / 32766.; }
static const std::vc_vector<float>* T;
static double LO, HI, UNK;
static int64_t G;  // ghost: one arbitrary table index

// after repeat*32768 + value pushes the arbitrary entry G is right if it was pushed
VC_INV(table) {
  auto& r = vc::local<std::vc_unique_ptr<std::vc_vector<float>>>("result", "vector<float");
  int64_t n = r->n_;
  if (n != vc::local<int64_t>("repeat", "int") * 32768 + vcx_iter() || vcx_iter() > 32768) return false;
  if (!(G < n)) return true;
  int64_t v = G % 32768;
  return v == 0 ? r->d_[G] == UNK : r->d_[G] == Decode(v, LO, HI);
}
static void CheckTable(const std::vc_vector<float>& t) {
  vc_assert(t.size() == 65536, "table covers every 16-bit value");
  int64_t v = G % 32768;
  if (v == 0) vc_assert(t[G] == UNK, "unknown decodes to the unknown result");
  else {
    vc_assert(t[G] == Decode(v, LO, HI), "decoded value");
    vc_assert(t[G] >= LO && t[G] <= HI, "decoded value within the bounds");
  }
}
VC_HARNESS(precompute_probability) {
  G = vc::any_i64("G", 0, 65535); LO = kMinProbability; HI = kMaxProbability; UNK = kMinProbability;
  auto t = PrecomputeValueToProbability();
  CheckTable(*t);
}
VC_HARNESS(precompute_cost) {
  G = vc::any_i64("G", 0, 65535); LO = kMinCorrespondenceCost; HI = kMaxCorrespondenceCost; UNK = kMaxCorrespondenceCost;
  auto t = PrecomputeValueToCorrespondenceCost();
  CheckTable(*t);
}
// A table satisfying the contract proved above, for the clients below.
static std::vc_vector<float>* TableByContract(double lo, double hi, double unk, const char* name) {
  auto* t = new std::vc_vector<float>();
  t->d_ = static_cast<float*>(vcx_alloc(sizeof(float), name));
  t->n_ = 65536;
  float* d = t->d_;
  vc_assume(vc::forall(0, 65536, [d, lo, hi, unk](int64_t i) { int64_t v = i % 32768; return d[i] == (v == 0 ? unk : Decode(v, lo, hi)); }));
  return t;
}
static void InstallTables() {
  const_cast<const std::vc_vector<float>*&>(kValueToProbability) = TableByContract(kMinProbability, kMaxProbability, kMinProbability, "tp");
  const_cast<const std::vc_vector<float>*&>(kValueToCorrespondenceCost) = TableByContract(kMinCorrespondenceCost, kMaxCorrespondenceCost, kMaxCorrespondenceCost, "tc");
}
VC_HARNESS(to_value_range) {
  float p = vc::any_float("p"), lo = vc::any_float("lo"), hi = vc::any_float("hi");
  vc_assume(lo < hi);
  uint16 v = BoundedFloatToValue(p, lo, hi);
  vc_assert(v >= 1 && v <= 32767, "value in [1, 32767]");
  double back = Decode(v, lo, hi);
  double c = p < lo ? lo : p > hi ? hi : p;
  double step = (hi - lo) / 32766.;
  vc_assert(2. * (back - c) <= step && 2. * (c - back) <= step, "quantisation error at most half a step");
}
VC_HARNESS(to_value_monotone) {
  float p = vc::any_float("p"), q = vc::any_float("q");
  vc_assume(p <= q);
  vc_assert(ProbabilityToValue(p) <= ProbabilityToValue(q), "probability to value is monotone");
  vc_assert(CorrespondenceCostToValue(p) <= CorrespondenceCostToValue(q), "cost to value is monotone");
}
VC_HARNESS(round_trip) {
  InstallTables();
  int v = vc::any_int("v", 1, 32767);
  bool m = vc::any_bool("marker");
  uint16 w = v + (m ? kUpdateMarker : 0);
  vc_assert(ProbabilityToValue(ValueToProbability(w)) == v, "probability value survives decode/encode, with or without marker");
  vc_assert(CorrespondenceCostToValue(ValueToCorrespondenceCost(w)) == v, "cost value survives decode/encode, with or without marker");
}
VC_HARNESS(mirror) {
  InstallTables();
  int v = vc::any_int("v", 0, 65535);
  vc_assume(v != kUpdateMarker);
  uint16 c = ProbabilityValueToCorrespondenceCostValue(v);
  uint16 p = CorrespondenceCostValueToProbabilityValue(c);
  vc_assert(p == v, "probability -> cost -> probability is the identity");
  vc_assert((c == 0) == (v == 0), "unknown maps to unknown");
  vc_assert((c >= kUpdateMarker) == (v >= kUpdateMarker), "update marker is carried");
  uint16 c2 = ProbabilityValueToCorrespondenceCostValue(CorrespondenceCostValueToProbabilityValue(v));
  vc_assert(c2 == v, "cost -> probability -> cost is the identity");
}
// Update tables. ODDS > 0; entry 0 is the first observation of an unknown cell.
static float ODDS; static bool COST;
static double Post(double p) { double o = ODDS * (p / (1. - p)); return o / (o + 1.); }
static bool EntryOk(uint16 e, int64_t cell) {
  if (!(e >= 32769 && e <= 65535)) return false;
  double p = cell == 0 ? ODDS / (ODDS + 1.) : COST ? Post(1. - (*kValueToCorrespondenceCost)[cell]) : Post((*kValueToProbability)[cell]);
  return COST ? e - 32768 == CorrespondenceCostToValue(1.f - static_cast<float>(p)) : e - 32768 == ProbabilityToValue(static_cast<float>(p));
}
VC_INV(odds) {
  auto& r = vc::local<std::vc_vector<uint16>>("result", "vector<");
  if (vcx_iter() > 32767) return false;
  if (r.n_ != vcx_iter() + 1) return false;
  if (!(G < r.n_)) return true;
  return EntryOk(r.d_[G], G);
}
static void LookupContract(const std::vc_vector<uint16>& t) {
  vc_assert(t.size() == 32768, "one entry per value");
  vc_assert(EntryOk(t[G], G), "entry is the Bayes update of the decoded value, clamped, with the update marker set");
  if (G > 0) {
    int nv = t[G] - 32768;
    // a hit (odds >= 1) never lowers occupancy, a miss (odds <= 1) never raises it
    if (ODDS >= 1.f) vc_assert(COST ? nv <= G : nv >= G, "a hit never lowers the probability");
    if (ODDS <= 1.f) vc_assert(COST ? nv >= G : nv <= G, "a miss never raises the probability");
  }
}
VC_HARNESS(apply_odds) {
  InstallTables();
  ODDS = vc::any_float("odds"); vc_assume(ODDS > 0.f); COST = false;
  G = vc::any_i64("G", 0, 32767);
  LookupContract(ComputeLookupTableToApplyOdds(ODDS));
}
VC_HARNESS(apply_cost_odds) {
  InstallTables();
  ODDS = vc::any_float("odds"); vc_assume(ODDS > 0.f); COST = true;
  G = vc::any_i64("G", 0, 32767);
  LookupContract(ComputeLookupTableToApplyCorrespondenceCostOdds(ODDS));
}
VC_HARNESS(odds_inverse) {
  float p = vc::any_float("p"); vc_assume(p >= 0.f && p < 1.f);
  vc_assert(ProbabilityFromOdds(Odds(p)) == p, "odds and probability are inverse");
}
