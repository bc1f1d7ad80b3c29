#include "ckms.h"
#include <cmath>
using namespace ckms;
// contracts of the steps, each shown in C06b: the batch goes into the sample, the sample stays what it has to be
static int batches, presses; static size_t left_in;
static void become(CKMSQuantiles& q, size_t count) { __v_fresh_vec(&q.sample_, sizeof(Item)); q.count_ = count; assume_sample(q); assume_weights(q); }
bool ct_batch(CKMSQuantiles* q) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles11insertBatchEv");
bool ct_batch(CKMSQuantiles* p) {
  CKMSQuantiles& q = *p; ++batches; size_t n = q.buffer_count_; left_in = n;
  check(n <= 500, "the buffer holds what is inserted"); check_all(0, n, [&](size_t i) { return value_ok(q.buffer_.v_[i]); }, "every value of the buffer was observed"); check_sample(q);
  if (n == 0) return false;
  become(q, q.count_ + n); q.buffer_count_ = 0; return true;
}
void ct_compress(CKMSQuantiles* q) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles8compressEv");
void ct_compress(CKMSQuantiles* p) { ++presses; check_sample(*p); size_t n = p->sample_.size(); become(*p, p->count_); __v_assume((p->sample_.size() == 0) == (n == 0)); }
double ct_error(CKMSQuantiles* q, int rank) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles14allowableErrorEi"); double ct_error(CKMSQuantiles* q, int rank) { return __v_fresh_double(); }
// get walks along the sample
typedef Sample::iterator It;
bool inv_get(int mode, CKMSQuantiles& self, It& it, It& prev, It& cur) __asm__("__inv_0__ZN10prometheus6detail13CKMSQuantiles3getEd");
static size_t at;
bool inv_get(int mode, CKMSQuantiles& self, It& it, It& prev, It& cur) {
  Sample& s = self.sample_;
  if (mode == 0) { at = __v_fresh_u64(); __v_assume(at >= 1 && at <= s.size()); it = s.begin() + at; cur = s.begin() + (at - 1); prev = cur; return true; }
  if (mode == 1) { size_t k = it - s.begin(); check(k >= 1 && k <= s.size(), "inv: the walk stays in the sample"); check(cur == s.begin() + (k - 1), "inv: the item before"); }
  return true;
}
static CKMSQuantiles& an_estimator() { CKMSQuantiles& q = any<CKMSQuantiles>("q"); __v_assume((long)q.count_ >= 0 && (long)q.buffer_count_ >= 0); assume_sample(q); assume_buffer(q); assume_weights(q); return q; }
static size_t total(const CKMSQuantiles& q) { return q.count_ + q.buffer_count_; }
// what every operation leaves: a sorted sample of observed values that stands for count_ of them, the others in the buffer
static void check_estimator(CKMSQuantiles& q) {
  check_soft(q.buffer_count_ < 500, "there is room in the buffer for the next value"); check(q.buffer_.v_.size() == 500, "the buffer stays");
  check_sample(q); check_weights(q, [&](size_t k) { return upto(k); });
  check_all(0, q.buffer_count_, [&](size_t i) { return value_ok(q.buffer_.v_[i]); }, "every value waiting in the buffer was observed");
}
ENTRY(t_insert) {
  CKMSQuantiles& q = an_estimator(); __v_assume(q.buffer_count_ < 500); double v = __v_any_double("value"); __v_assume(value_ok(v)); size_t n = total(q);
  q.insert(v);
  check(total(q) == n + 1, "an insertion counts once"); check_estimator(q);
}
// a value in the buffer stays until the batch takes it
ENTRY(t_kept) {
  CKMSQuantiles& q = an_estimator(); __v_assume(q.buffer_count_ < 499); double v = __v_any_double("value"); __v_assume(value_ok(v)); size_t n = q.buffer_count_; const std::vector<double> b = q.buffer_.v_;
  q.insert(v);
  check(batches == 0 ? q.buffer_count_ == n + 1 && same(q.buffer_.v_[n], v) : left_in == n + 1, "the value waits in the buffer");
  check_all(0, n, [&](size_t i) { return batches || same(q.buffer_.v_[i], b[i]); }, "the other values wait, too");
}
ENTRY(t_get) {
  CKMSQuantiles& q = an_estimator(); __v_assume(q.buffer_count_ < 500); double r = __v_any_double("rank"); size_t n = total(q);
  const long e0 = era; induct(q.sample_.size(), [&](size_t k) { return __v_fn_i64("weight", (long)k, e0) >= (long)k; }, "lemma: weights of at least one");
  double e = q.get(r);
  check(n == 0 || value_ok(e), "an estimate is one of the observed values"); check(n != 0 || e != e, "without observations the estimate is NaN"); check(total(q) == n, "asking does not change the count"); check_estimator(q);
}
ENTRY(t_reset) {
  CKMSQuantiles& q = any<CKMSQuantiles>("q"); __v_assume(q.buffer_.v_.size() == 500 && (long)q.count_ >= 0 && (long)q.buffer_count_ >= 0);
  q.reset();
  check(total(q) == 0 && q.count_ == 0, "an emptied estimator counts nothing"); check(q.sample_.size() == 0, "an emptied estimator has no sample"); check(q.buffer_.v_.size() == 500, "the buffer stays");
}
ENTRY(t_make) {
  const std::vector<CKMSQuantiles::Quantile>& qs = any<std::vector<CKMSQuantiles::Quantile> >("quantiles");
  CKMSQuantiles q(qs);
  check(total(q) == 0 && q.sample_.size() == 0, "an estimator starts empty"); check(q.buffer_.v_.size() == 500, "an estimator has a buffer"); check(&q.quantiles_.get() == &qs, "an estimator keeps the quantiles it is asked for");
}
