#include "ckms.h"
using namespace ckms;
double ct_error(CKMSQuantiles* q, int rank) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles14allowableErrorEi"); double ct_error(CKMSQuantiles* q, int rank) { return __v_fresh_double(); }
static long count0;
static void havoc_sample(CKMSQuantiles& q) { __v_fresh_vec(&q.sample_, sizeof(Item)); q.count_ = __v_fresh_u64(); }
// insertBatch: for each buffered value, in order
bool inv_outer(int mode, CKMSQuantiles& self, size_t& start, size_t& idx, size_t& item, size_t& i) __asm__("__inv_0__ZN10prometheus6detail13CKMSQuantiles11insertBatchEv");
bool inv_outer(int mode, CKMSQuantiles& self, size_t& start, size_t& idx, size_t& item, size_t& i) {
  Sample& s = self.sample_; std::vector<double>& b = self.buffer_.v_;
  if (mode == 0) { havoc_sample(self); return true; }
  if (mode == 1) {
    check(start <= i && i <= self.buffer_count_, "inv: the values before i are in the sample");
    check(item < s.size() && idx == item + 1, "inv: the place of the last insertion");
    check(item == 0 || i == self.buffer_count_ || s[item].value <= b[i], "inv: the next value goes behind it");
    check_sample(self);
    // an item of weight one is now at item, or (at the start) nothing changed
    size_t at = item; check_weights(self, [&](size_t k) { return (long)s.size() == era_size ? upto(k) : k <= at ? upto(k) : upto(k - 1) + 1; });
    check(self.count_ == count0 + i, "each value is counted once");
  } else {
    assume_weights(self); __v_assume(self.count_ == count0 + i);
    __v_assume(start <= i && i <= self.buffer_count_); __v_assume(item < s.size() && idx == item + 1); __v_assume(item == 0 || i == self.buffer_count_ || s[item].value <= b[i]); assume_sample(self);
  }
  return true;
}
bool inv_inner(int mode, CKMSQuantiles& self, size_t& idx, size_t& item, double& v) __asm__("__inv_1__ZN10prometheus6detail13CKMSQuantiles11insertBatchEv");
bool inv_inner(int mode, CKMSQuantiles& self, size_t& idx, size_t& item, double& v) {
  Sample& s = self.sample_;
  if (mode == 0) return true;
  if (mode == 1) { check(item < s.size() && idx == item + 1, "inv: the search looks at an item of the sample"); check(item == 0 || s[item - 1].value <= v, "inv: the items before are not larger"); }
  else { __v_assume(item < s.size() && idx == item + 1); __v_assume(item == 0 || s[item - 1].value <= v); }
  return true;
}
bool inv_compress(int mode, CKMSQuantiles& self, size_t& idx, size_t& prev, size_t& next) __asm__("__inv_0__ZN10prometheus6detail13CKMSQuantiles8compressEv");
bool inv_compress(int mode, CKMSQuantiles& self, size_t& idx, size_t& prev, size_t& next) {
  Sample& s = self.sample_;
  if (mode == 0) { __v_fresh_vec(&s, sizeof(Item)); return true; }
  if (mode == 1) { check(s.size() >= 1 && next <= s.size() && idx == next + 1, "inv: neighbours of the sample"); check_sample(self);
    // the item at prev is gone and the one behind it has its weight too, or nothing changed
    if ((long)s.size() == era_size) check_weights(self, [&](size_t k) { return upto(k); });
    else { size_t at = prev; check_weights(self, [&](size_t k) { return k <= at ? upto(k) : upto(k + 1); }); } }
  else { assume_weights(self); __v_assume(s.size() >= 1 && next <= s.size() && idx == next + 1); assume_sample(self); }
  return true;
}
static CKMSQuantiles& an_estimator() { CKMSQuantiles& q = any<CKMSQuantiles>("q"); __v_assume((long)q.count_ >= 0 && (long)q.buffer_count_ >= 0); assume_sample(q); assume_buffer(q); assume_weights(q); count0 = (long)q.count_; return q; }
ENTRY(t_batch) {
  CKMSQuantiles& q = an_estimator(); size_t n = q.buffer_count_;
  bool r = q.insertBatch();
  check(r == (n != 0), "a batch is inserted if there is one"); check(q.buffer_count_ == 0, "the buffer is empty afterwards"); check(q.buffer_.v_.size() == 500, "the buffer stays");
  check_sample(q); check_weights(q, [&](size_t k) { return upto(k); }); check(q.count_ == count0 + n, "the whole batch is counted");
}
ENTRY(t_compress) {
  CKMSQuantiles& q = an_estimator(); size_t n = q.sample_.size(); bool was = q.buffer_count_; size_t c = q.count_;
  q.compress();
  check_sample(q); check_weights(q, [&](size_t k) { return upto(k); }); check((q.sample_.size() == 0) == (n == 0), "compressing does not lose everything"); check(q.count_ == c, "compressing does not change the count");
}
