#include "cartographer/common/fixed_ratio_sampler.h"
#include "vcn.h"
using cartographer::common::FixedRatioSampler;
VCN_CASE(prefix_ratio) {
  const int den = rng.in(1, 400), num = rng.in(0, den);
  double ratio = rng.coin() ? double(num) / den : rng.unit();
  if (rng.one_in(8)) ratio = 1.;
  if (rng.one_in(16)) ratio = 0.;
  const int64_t n = rng.one_in(300) ? 3000000 : rng.one_in(50) ? rng.in(100000, 300000) : rng.in(1, 3000);
  NOTE("ratio " << ratio << " pulses " << n);
  vcn::Sig(num); vcn::Sig(den); vcn::nontrivial() = ratio > 0;
  FixedRatioSampler s(ratio);
  int64_t kept = 0;
  for (int64_t i = 1; i <= n; ++i) {
    kept += s.Pulse();
    REQUIRE(kept >= ratio * i - 1e-6, "too few after pulse " << i << ": " << kept);
    REQUIRE(kept < ratio * i + 1 + 1e-6, "too many after pulse " << i << ": " << kept);
  }
}
