// Contracts of ValueConversionTables (table construction) and TSDValueConverter.
#include "vc_begin.h"
#include "cartographer/mapping/value_conversion_tables.h"
// The lookup cache (std::map) is library code: only the table construction
// behind it is under contract here; the cache is covered by the native run.
#include "cartographer/mapping/value_conversion_tables.cc"
#include "cartographer/mapping/internal/2d/tsd_value_converter.h"
#include "cartographer/mapping/internal/2d/tsd_value_converter.cc"
using namespace cartographer::mapping;
using cartographer::uint16;
static double Decode(int64_t v, double lo, double hi) { return lo + (v - 1) * (hi - lo) / 32766.; }
static double LO, HI, UNK;
static int64_t G;
VC_INV(table) {
  auto& r = vc::local<std::vc_unique_ptr<std::vc_vector<float>>>("result", "vector<float");
  int64_t n = r->n_;
  if (n != vcx_iter() || vcx_iter() > 65536) return false;
  if (!(G < n)) return true;
  int64_t v = G % 32768;
  return v == 0 ? r->d_[G] == UNK : r->d_[G] == Decode(v, LO, HI);
}
VC_HARNESS(precompute) {
  G = vc::any_i64("G", 0, 65535); LO = vc::any_float("lo"); HI = vc::any_float("hi"); UNK = vc::any_float("unknown");
  vc_assume(LO < HI);
  auto t = PrecomputeValueToBoundedFloat(0, UNK, LO, HI);
  vc_assert(t->size() == 65536, "table covers every 16-bit value");
  int64_t v = G % 32768;
  vc_assert((*t)[G] == (v == 0 ? UNK : Decode(v, LO, HI)), "decoded value, with or without marker");
  vc_assert(vc_implies(v != 0, (*t)[G] >= LO && (*t)[G] <= HI), "within the bounds");
}
// contract used for GetConversionTable by its clients (table part proved above)
extern "C" const std::vc_vector<float>* vc_stub_table(ValueConversionTables*, float unk, float lo, float hi) {
  auto* t = new std::vc_vector<float>();
  t->d_ = static_cast<float*>(vcx_alloc(sizeof(float), "table"));
  t->n_ = 65536;
  float* d = t->d_;
  double u = unk, l = lo, h = hi;
  vc_assume(vc::forall(0, 65536, [d, u, l, h](int64_t i) { int64_t v = i % 32768; return d[i] == (v == 0 ? u : Decode(v, l, h)); }));
  return t;
}
VC_HARNESS(tsd) {
  float mt = vc::any_float("max_tsd"), mw = vc::any_float("max_weight");
  vc_assume(mt > 0.f && mw > 0.f);
  ValueConversionTables* tables = vc::any_obj<ValueConversionTables>("tables");
  TSDValueConverter c(mt, mw, tables);
  float x = vc::any_float("x");
  int v = vc::any_int("v", 1, 32767);
  bool m = vc::any_bool("marker");
  uint16 w = v + (m ? 32768 : 0);
  vc_assert(c.TSDToValue(c.ValueToTSD(w)) == v, "distance value survives decode/encode");
  vc_assert(c.WeightToValue(c.ValueToWeight(w)) == v, "weight value survives decode/encode");
  uint16 a = c.TSDToValue(x), b = c.WeightToValue(x);
  vc_assert(a >= 1 && a <= 32767 && b >= 1 && b <= 32767, "encoded values in [1, 32767]");
  double t = c.ValueToTSD(a), cx = x < -mt ? -mt : x > mt ? mt : x;
  vc_assert((t - cx) * 32766. <= mt && (cx - t) * 32766. <= mt, "distance error at most half a step");
  double u = c.ValueToWeight(b), cw = x < 0.f ? 0.f : x > mw ? mw : x;
  vc_assert((u - cw) * 65532. <= mw && (cw - u) * 65532. <= mw, "weight error at most half a step");
  vc_assert(c.ValueToTSD(m ? 32768 : 0) == -mt && c.ValueToWeight(m ? 32768 : 0) == 0.f, "unknown decodes to the minimum");
}
