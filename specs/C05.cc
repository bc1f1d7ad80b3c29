#include "env.h"
#define private public
#include "prometheus/summary.h"
#include "prometheus/client_metric.h"
#undef private
using namespace prometheus;
typedef detail::CKMSQuantiles::Quantile Q; typedef std::vector<Q> Qs; typedef detail::TimeWindowQuantiles Window;
// contract of the window of quantiles (decided as C07): insert takes one value, get answers for one rank and
// both may move the window on; recorded here
static int inserts, made; static const void* insert_into; static double insert_value; static const void* made_of; static long made_age; static int made_buckets; static const void* made_at;
void ct_insert(Window* w, double v) __asm__("__ct__ZN10prometheus6detail19TimeWindowQuantiles6insertEd");
void ct_insert(Window* w, double v) { ++inserts; insert_into = w; insert_value = v; check(__v_locks_held() == 1, "the window is used under the lock"); }
double ct_get(const Window* w, double q) __asm__("__ct__ZNK10prometheus6detail19TimeWindowQuantiles3getEd");
double ct_get(const Window* w, double q) { check(__v_locks_held() == 1, "the window is used under the lock"); return __v_fn_double("estimate", __v_ref(w), __v_d_bits(q)); }
void ct_make(Window* w, const Qs& q, std::chrono::nanoseconds age, int buckets) __asm__("__ct__ZN10prometheus6detail19TimeWindowQuantilesC1ERKSt6vectorINS0_13CKMSQuantiles8QuantileESaIS4_EENSt6chrono8durationIlSt5ratioILl1ELl1000000000EEEEi");
void ct_make(Window* w, const Qs& q, std::chrono::nanoseconds age, int buckets) { ++made; made_at = w; made_of = &q; made_age = age.count(); made_buckets = buckets; }
static Summary& a_summary(const Qs& q, unsigned long& n, double& sum) { Summary& s = any<Summary>("summary"); new ((void*)&s.quantiles_) Qs(q); n = __v_any_u64("count"); sum = __v_any_double("sum"); s.count_ = n; s.sum_ = sum; return s; }
ENTRY(t_observe) {
  const Qs& q = any<Qs>("quantiles"); unsigned long n; double sum; Summary& s = a_summary(q, n, sum); double v = __v_any_double("value");
  s.Observe(v);
  check(s.count_ == n + 1, "an observation raises the count by one"); check(same(s.sum_, sum + v), "an observation adds its value to the sum");
  check(inserts == 1 && insert_into == (const void*)&s.quantile_values_ && same(insert_value, v), "an observation is given to the window exactly once"); check(__v_locks_held() == 0, "no lock stays held");
  check_vec(s.quantiles_, q, "the configured quantiles never change");
}
ENTRY(t_collect) {
  const Qs& q = any<Qs>("quantiles"); unsigned long n; double sum; Summary& s = a_summary(q, n, sum);
  ClientMetric m = s.Collect(); auto& S = m.summary;
  check(S.sample_count == n, "the count reported is the number of observations"); check(same(S.sample_sum, sum), "the sum reported is the sum of the observations");
  check(S.quantile.size() == q.size(), "one entry per configured quantile");
  check_all(0, q.size(), [&](size_t i) { return same(S.quantile[i].quantile, q[i].quantile); }, "entries come in configuration order with their rank");
  check_all(0, q.size(), [&](size_t i) { return same(S.quantile[i].value, __v_fn_double("estimate", __v_ref(&s.quantile_values_), __v_d_bits(q[i].quantile))); }, "each entry has the estimate for its rank");
  check(s.count_ == n && same(s.sum_, sum) && inserts == 0, "collecting changes no count and no sum"); check_vec(s.quantiles_, q, "the configured quantiles never change"); check(__v_locks_held() == 0, "no lock stays held");
  check(m.label.size() == 0 && m.timestamp_ms == 0, "Collect adds no label or timestamp");
}
static void fresh(Summary& s, const Qs& q, long age, int buckets) {
  check_vec(s.quantiles_, q, "the configured quantiles are kept"); check(s.count_ == 0 && same(s.sum_, 0.0), "a new summary has no observations");
  check(made == 1 && made_at == (const void*)&s.quantile_values_ && made_of == (const void*)&s.quantiles_, "one window over the configured quantiles"); check(made_age == age * 1000000 && made_buckets == buckets, "the window has the age and the buckets asked for");
}
ENTRY(t_make) { const Qs& q = any<Qs>("quantiles"); long age = __v_any_i64("age"); __v_assume(age >= 0 && age < (1L << 43)); int b = __v_any_i32("buckets"); Summary s(q, std::chrono::milliseconds(age), b); fresh(s, q, age, b); }
ENTRY(t_make_moved) { const Qs& q = any<Qs>("quantiles"); Qs c(q); long age = __v_any_i64("age"); __v_assume(age >= 0 && age < (1L << 43)); int b = __v_any_i32("buckets"); Summary s(std::move(c), std::chrono::milliseconds(age), b); fresh(s, q, age, b); }
ENTRY(t_make_default) { const Qs& q = any<Qs>("quantiles"); Summary s(q); fresh(s, q, 60000, 5); }
ENTRY(t_quantile) { double q = __v_any_double("rank"), e = __v_any_double("error"); Q x(q, e); check(same(x.quantile, q) && same(x.error, e), "a configured quantile keeps its rank and error"); }
