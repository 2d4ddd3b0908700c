#include "vc_begin.h"
#include "cartographer/common/fixed_ratio_sampler.h"
#include "cartographer/common/fixed_ratio_sampler.cc"
using cartographer::common::FixedRatioSampler;
VC_HARNESS(sampler_step) {
  double ratio = vc::any_real("ratio");
  vc_assume(ratio >= 0. && ratio <= 1.);
  FixedRatioSampler s(ratio);
  s.num_pulses_ = vc::any_i64("pulses", 0, 1LL << 50);
  s.num_samples_ = vc::any_i64("samples", 0, 1LL << 50);
  vc_assume(s.num_samples_ <= s.num_pulses_);
  vc_assume(s.num_samples_ < ratio * s.num_pulses_ + 1. && s.num_samples_ > ratio * s.num_pulses_ - 1.);
  vc_assume(vc_implies(s.num_pulses_ == 0, s.num_samples_ == 0));
  vc_assume(s.num_samples_ >= ratio * s.num_pulses_);
  int64_t before = s.num_samples_, pb = s.num_pulses_;
  bool r = s.Pulse();
  vc_assert(s.num_samples_ == before + (r ? 1 : 0), "count");
  vc_assert(s.num_pulses_ == pb + 1, "pulse count");
  vc_assert(s.num_samples_ >= ratio * s.num_pulses_ && s.num_samples_ < ratio * s.num_pulses_ + 1., "ratio kept");
}
