// The sample of a quantile estimator: sorted, every value in it was observed, weights add up to the observations.
#pragma once
#include "env.h"
#include "prometheus/detail/ckms_quantiles.h"
using prometheus::detail::CKMSQuantiles;
typedef CKMSQuantiles::Item Item; typedef std::vector<Item> Sample;
namespace ckms {
static bool observed(double v) { return __v_fn_bool("observed", __v_d_bits(v), 0); }
static bool value_ok(double v) { return v == v && observed(v); }
// how many observations stand before place k of the sample: the witness that the weights add up. Each loop head has
// its own (an era); what a step makes of it is stated where the step is checked.
static long era, era_size;
static long upto(size_t k) { return __v_fn_i64("weight", (long)k, era); }
static void assume_weights(const CKMSQuantiles& q) {
  const Sample& s = q.sample_; ++era; era_size = (long)s.size();
  __v_assume(upto(0) == 0); __v_assume(upto(s.size()) == (long)q.count_); assume_all(0, s.size(), [&](size_t k) { return s[k].g >= 1 && upto(k + 1) == upto(k) + s[k].g; });
}
// the weights add up by w
template <class W> static void check_weights(const CKMSQuantiles& q, W w) {
  const Sample& s = q.sample_;
  check(w(0) == 0, "weights: nothing before the first"); check(w(s.size()) == (long)q.count_, "the weights of the sample add up to the observations");
  check_all(0, s.size(), [&](size_t k) { return s[k].g >= 1 && w(k + 1) == w(k) + s[k].g; }, "each weight of the sample is the number of observations it stands for");
}
static void assume_sample(const CKMSQuantiles& q) {
  const Sample& s = q.sample_;
  assume_pairs(0, s.size(), [&](size_t i, size_t j) { return s[i].value <= s[j].value; });
  assume_all(0, s.size(), [&](size_t i) { return value_ok(s[i].value); });
}
static void check_sample(const CKMSQuantiles& q) {
  const Sample& s = q.sample_;
  if (__v_fork()) { size_t i = __v_skolem(0, s.size()); size_t j = __v_skolem(i + 1, s.size()); __v_assert(s[i].value <= s[j].value, "the sample is sorted"); __v_stop(); }
  check_all(0, s.size(), [&](size_t i) { return value_ok(s[i].value); }, "every value of the sample was observed");
}
static void assume_buffer(const CKMSQuantiles& q) { __v_assume(q.buffer_.v_.size() == 500); __v_assume(q.buffer_count_ <= 500); assume_all(0, q.buffer_count_, [&](size_t i) { return value_ok(q.buffer_.v_[i]); }); }
}
