#include "hist.h"
#include <limits>
ENTRY(t_observe) {
  Any a = any_histogram(); double v = __v_any_double("v");
  size_t idx = bucket_of(*a.b, v);
  a.h->Observe(v);
  unchanged_boundaries(a);
  check_all(0, a.n + 1, [&](size_t i) { return same(count_of(*a.h, i), (double)((*a.c)[i] + (i == idx ? 1 : 0))); }, "Observe counts the value in its own bucket only");
  check(same(sum_of(*a.h), a.sum + v), "Observe adds the value to the sum");
  check(__v_locks_held() == 0, "no lock stays held");
}
ENTRY(t_collect) {
  Any a = any_histogram();
  ClientMetric m = a.h->Collect();
  auto& H = m.histogram;
  check(H.bucket.size() == a.n + 1, "one bucket per boundary and one +Inf bucket");
  check_all(0, a.n, [&](size_t i) { return same(H.bucket[i].upper_bound, (*a.b)[i]); }, "the boundaries are listed in order");
  check(same(H.bucket[a.n].upper_bound, std::numeric_limits<double>::infinity()), "the last bucket is +Inf");
  check_all(0, a.n + 1, [&](size_t i) { return H.bucket[i].cumulative_count == total(*a.c, i + 1); }, "a cumulative count is the sum of the counts up to its boundary");
  check_all(0, a.n, [&](size_t i) { return H.bucket[i].cumulative_count <= H.bucket[i + 1].cumulative_count; }, "cumulative counts never decrease");
  check(H.sample_count == H.bucket[a.n].cumulative_count, "the last cumulative count equals the sample count");
  check(same(H.sample_sum, a.sum), "the reported sum is the sum");
  unchanged_boundaries(a);
  check_all(0, a.n + 1, [&](size_t i) { return same(count_of(*a.h, i), (double)(*a.c)[i]); }, "Collect changes no bucket");
  check(same(sum_of(*a.h), a.sum), "Collect does not change the sum");
  check(__v_locks_held() == 0, "no lock stays held");
}
// lemma (the induction step over histories): observing v raises the cumulative count of bucket i by one iff
// v is at most its boundary, for every i, and the +Inf bucket always
ENTRY(t_history_step) {
  Any a = any_histogram(); double v = __v_any_double("v"); const V& b = *a.b; C& c = *a.c;
  size_t idx = bucket_of(b, v);
  C d(c.size(), 0); for (size_t i = 0; i < c.size(); ++i) d[i] = c[i] + (i == idx ? 1 : 0);
  induct(a.n + 1, [&](size_t i) { return total(d, i) == total(c, i) + (i > idx ? 1 : 0); }, "raising one count raises every later cumulative count");
  check_all(0, a.n, [&](size_t i) { return (i >= idx) == (v <= b[i]); }, "a value is at most the boundaries from its bucket on");
  check_all(0, a.n, [&](size_t i) { return total(d, i + 1) == total(c, i + 1) + (v <= b[i] ? 1 : 0); }, "the cumulative count of a bucket grows by one iff the value is at most its boundary");
  check(total(d, a.n + 1) == total(c, a.n + 1) + 1, "the +Inf bucket counts every observation");
}
// observe then collect, on the code itself
ENTRY(t_observe_collect) {
  Any a = any_histogram(); double v = __v_any_double("v"); const V& b = *a.b; C& c = *a.c;
  size_t idx = bucket_of(b, v);
  C d(c.size(), 0); for (size_t i = 0; i < c.size(); ++i) d[i] = c[i] + (i == idx ? 1 : 0);
  a.h->Observe(v);
  ClientMetric m = a.h->Collect();
  induct(a.n + 1, [&](size_t i) { return i == 0 || m.histogram.bucket[i - 1].cumulative_count == total(d, i); }, "the collection after an observation counts it");
}
ENTRY(t_reset) {
  Any a = any_histogram();
  a.h->Reset();
  unchanged_boundaries(a);
  check_all(0, a.n + 1, [&](size_t i) { return same(count_of(*a.h, i), 0.0); }, "Reset returns every bucket to zero");
  check(same(sum_of(*a.h), 0.0), "Reset returns the sum to zero");
  check(__v_locks_held() == 0, "no lock stays held");
}
