#include "cartographer/mapping/probability_values.h"
#include "cartographer/mapping/value_conversion_tables.h"
#include "cartographer/mapping/internal/2d/tsd_value_converter.h"
#include "vcn.h"
using namespace cartographer::mapping;
using cartographer::uint16;
static double Decode(int v, double lo, double hi) { return lo + (v - 1) * (hi - lo) / 32766.; }
static bool Near(double a, double b, double e) { return std::abs(a - b) <= e; }
VCN_CASE(value) {
  int v = rng.in(0, 32767); bool m = rng.coin();
  if (rng.one_in(20)) v = rng.coin() ? 32767 : rng.in(0, 2);
  NOTE("value " << v << " marker " << m);
  vcn::Sig(v); vcn::Sig(m); vcn::nontrivial() = true;
  uint16 w = v + (m ? kUpdateMarker : 0);
  double p = ValueToProbability(w), c = ValueToCorrespondenceCost(w);
  REQUIRE(p >= kMinProbability - 1e-6 && p <= kMaxProbability + 1e-6 && c >= kMinCorrespondenceCost - 1e-6 && c <= kMaxCorrespondenceCost + 1e-6, p << " " << c);
  if (v == 0) { REQUIRE(p == kMinProbability && c == kMaxCorrespondenceCost, "unknown"); }
  else {
    REQUIRE(Near(p, Decode(v, kMinProbability, kMaxProbability), 1e-6), p);
    REQUIRE(Near(c, Decode(v, kMinCorrespondenceCost, kMaxCorrespondenceCost), 1e-6), c);
    REQUIRE(ProbabilityToValue(p) == v, ProbabilityToValue(p));
    REQUIRE(CorrespondenceCostToValue(c) == v, CorrespondenceCostToValue(c));
  }
  if (v > 0 || !m) {
    uint16 a = ProbabilityValueToCorrespondenceCostValue(w), b = CorrespondenceCostValueToProbabilityValue(w);
    REQUIRE(CorrespondenceCostValueToProbabilityValue(a) == w, a);
    REQUIRE(ProbabilityValueToCorrespondenceCostValue(b) == w, b);
    REQUIRE((a == 0) == (v == 0) && (b == 0) == (v == 0) && (a >= kUpdateMarker) == m && (b >= kUpdateMarker) == m, a << " " << b);
    if (v) { REQUIRE(a - (m ? 32768 : 0) == 32768 - v && b - (m ? 32768 : 0) == 32768 - v, "mirror image"); }
  }
}
VCN_CASE(encode) {
  float p = rng.one_in(4) ? rng.real(-2, 3) : rng.real(0.05, 0.95), q = rng.one_in(3) ? p + rng.real(0, 1e-4) : rng.real(p, 1.2);
  if (rng.one_in(30)) p = kMinProbability; if (rng.one_in(30)) q = kMaxProbability;
  if (q < p) std::swap(p, q);
  NOTE(p << " " << q);
  vcn::Sig(uint64_t(p * 1e6)); vcn::nontrivial() = true;
  uint16 a = ProbabilityToValue(p), b = ProbabilityToValue(q), c = CorrespondenceCostToValue(p), d = CorrespondenceCostToValue(q);
  for (uint16 x : {a, b, c, d}) REQUIRE(x >= 1 && x <= 32767, x);
  REQUIRE(a <= b && c <= d, "monotone");
  double cp = std::min<double>(std::max<double>(p, kMinProbability), kMaxProbability);
  REQUIRE(Near(ValueToProbability(a), cp, 0.8 / 65532 + 1e-6), "quantisation");
  REQUIRE(Near(ValueToCorrespondenceCost(c), cp, 0.8 / 65532 + 1e-6), "quantisation");
  if (p > 0.01 && p < 0.99) REQUIRE(Near(ProbabilityFromOdds(Odds(p)), p, 1e-5), "odds");
}
VCN_CASE(odds_tables) {
  float pr = rng.coin() ? rng.real(0.5, 0.99) : rng.real(0.01, 0.5);
  if (rng.one_in(6)) pr = rng.coin() ? 0.999f : 0.001f;
  float odds = Odds(pr);
  NOTE("odds " << odds);
  vcn::Sig(uint64_t(pr * 1e6)); vcn::nontrivial() = true;
  auto t = ComputeLookupTableToApplyOdds(odds), u = ComputeLookupTableToApplyCorrespondenceCostOdds(odds);
  REQUIRE(t.size() == 32768 && u.size() == 32768, "size");
  for (int v = 0; v < 32768; ++v) {
    REQUIRE(t[v] >= 32769 && u[v] >= 32769, "marker at " << v);
    int a = t[v] - 32768, b = u[v] - 32768;
    double p = v ? ValueToProbability(v) : 0.5, q = v ? 1. - ValueToCorrespondenceCost(v) : 0.5;
    auto post = [&](double x) { double o = odds * (v ? x / (1 - x) : 1.); double r = o / (o + 1); return std::min<double>(std::max<double>(r, kMinProbability), kMaxProbability); };
    REQUIRE(Near(Decode(a, kMinProbability, kMaxProbability), post(p), 0.8 / 65532 + 3e-6), "posterior of " << v << " is " << a);
    REQUIRE(Near(1. - Decode(b, kMinCorrespondenceCost, kMaxCorrespondenceCost), post(q), 0.8 / 65532 + 3e-6), "cost posterior of " << v << " is " << b);
    if (v) {
      // one value of slack: IEEE rounding of the posterior
      if (odds >= 1) REQUIRE(a >= v - (odds < 1.01f) && b <= v + (odds < 1.01f), "hit lowers " << v);
      if (odds <= 1) REQUIRE(a <= v + (odds > .99f) && b >= v - (odds > .99f), "miss raises " << v);
    }
    if (v > 1) REQUIRE(t[v] >= t[v - 1] && u[v] >= u[v - 1], "monotone at " << v);
  }
}
VCN_CASE(tables) {
  ValueConversionTables tables;
  struct K { float u, lo, hi; const std::vector<float>* t; };
  std::vector<K> ks;
  int n = rng.in(1, 4);
  for (int i = 0; i < n; ++i) {
    float lo = rng.dyadic(-4, 4, 3), hi = lo + rng.dyadic(1, 6, 3), u = rng.one_in(3) ? hi : rng.one_in(2) ? lo : rng.dyadic(-9, 9, 3);
    if (i && rng.coin()) { lo = ks[0].lo; if (rng.coin()) hi = ks[0].hi; if (hi <= lo) hi = lo + 1; }
    if (i && rng.coin()) {  // almost, or in all but one component, the bounds of an earlier table
      const K& o = ks[rng.in(0, i - 1)]; u = o.u; lo = o.lo; hi = o.hi;
      float d = std::ldexp(1.f, -int(rng.in(1, 16)));
      switch (rng.in(0, 2)) { case 0: u += d; break; case 1: lo -= d; break; default: hi += d; }
    }
    NOTE("table unknown " << u << " in [" << lo << "," << hi << "]");
    vcn::Sig(uint64_t(u * 64)); vcn::Sig(uint64_t(hi * 64)); vcn::nontrivial() = true;
    ks.push_back({u, lo, hi, tables.GetConversionTable(u, lo, hi)});
  }
  for (auto& k : ks) {
    REQUIRE(tables.GetConversionTable(k.u, k.lo, k.hi) == k.t, "same bounds give the same table");
    REQUIRE(k.t->size() == 65536, k.t->size());
    for (int j = 0; j < 400; ++j) {
      int i = j < 4 ? (int[]){0, 32768, 65535, 32767}[j] : rng.in(0, 65535), v = i & 32767;
      double e = v ? Decode(v, k.lo, k.hi) : k.u;
      REQUIRE(Near((*k.t)[i], e, 2e-6 * (1 + std::abs(e))), "entry " << i << " is " << (*k.t)[i] << " expected " << e);
    }
  }
}
VCN_CASE(tsd) {
  float mt = rng.dyadic(0, 3, 4) + 0.0625f, mw = rng.one_in(3) ? 1000.f * rng.in(1, 10) : rng.dyadic(0, 200, 2) + 0.25f;
  NOTE("max_tsd " << mt << " max_weight " << mw);
  vcn::Sig(uint64_t(mt * 64)); vcn::Sig(uint64_t(mw * 64)); vcn::nontrivial() = true;
  ValueConversionTables tables;
  TSDValueConverter c(mt, mw, &tables);
  REQUIRE(c.ValueToTSD(0) == -mt && c.ValueToWeight(0) == 0.f && c.ValueToTSD(32768) == -mt && c.ValueToWeight(32768) == 0.f, "unknown");
  REQUIRE(c.getMaxTSD() == mt && c.getMinTSD() == -mt && c.getMaxWeight() == mw && c.getMinWeight() == 0.f, "getters");
  for (int j = 0; j < 400; ++j) {
    int v = j == 0 ? 1 : j == 1 ? 32767 : rng.in(1, 32767); uint16 w = v + (rng.coin() ? 32768 : 0);
    REQUIRE(Near(c.ValueToTSD(w), Decode(v, -mt, mt), 1e-5 * mt) && Near(c.ValueToWeight(w), Decode(v, 0, mw), 1e-5 * mw), "decode " << w);
    REQUIRE(c.TSDToValue(c.ValueToTSD(w)) == v && c.WeightToValue(c.ValueToWeight(w)) == v, "round trip " << w);
    float x = rng.real(-1.5 * mt, 1.5 * mt), y = rng.real(-0.2 * mw, 1.3 * mw);
    uint16 a = c.TSDToValue(x), b = c.WeightToValue(y);
    REQUIRE(a >= 1 && a <= 32767 && b >= 1 && b <= 32767, a << " " << b);
    double cx = std::min(std::max(x, -mt), mt), cy = std::min(std::max(y, 0.f), mw);
    REQUIRE(Near(c.ValueToTSD(a), cx, mt / 32766. + 1e-5 * mt) && Near(c.ValueToWeight(b), cy, mw / 65532. + 1e-5 * mw), "error " << x << " " << y);
  }
}
