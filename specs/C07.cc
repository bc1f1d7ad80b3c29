#define ENV_NOW
static long clock_now;
extern "C" long __v_now(int c) { return c == 0 ? clock_now : 0; }
#include "env.h"
#define private public
#include "prometheus/detail/time_window_quantiles.h"
#undef private
using namespace prometheus; using detail::CKMSQuantiles; typedef detail::TimeWindowQuantiles Window; typedef std::vector<CKMSQuantiles> Buckets;
// contracts of one estimator (its contents are decided as C06): every call is recorded by the identity of the
// estimator, which an arbitrary window carries in count_
static std::vector<size_t> resets, inserts; static std::vector<double> values; static double asked; static size_t asked_at; static int asks;
void ct_reset(CKMSQuantiles* c) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles5resetEv");
void ct_reset(CKMSQuantiles* c) { check(inserts.empty(), "the window moves on before it takes a value"); resets.push_back(c->count_); }
void ct_insert(CKMSQuantiles* c, double v) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles6insertEd");
void ct_insert(CKMSQuantiles* c, double v) { inserts.push_back(c->count_); values.push_back(v); }
double ct_get(CKMSQuantiles* c, double q) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles3getEd");
double ct_get(CKMSQuantiles* c, double q) { ++asks; asked = q; asked_at = c->count_; return __v_fn_double("estimate", (long)c->count_, __v_d_bits(q)); }
struct Old { size_t n, cur; long last, interval, now; };
static Window& a_window(Old& o) {
  Window& w = any<Window>("window"); Buckets& b = w.ckms_quantiles_; size_t n = b.size(); __v_assume(n >= 1);
  for (size_t i = 0; i < n; ++i) b[i].count_ = i;
  o.n = n; o.cur = w.current_bucket_; __v_assume((long)o.cur >= 0 && o.cur < n); o.last = w.last_rotation_.time_since_epoch().count(); o.interval = w.rotation_interval_.count(); __v_assume(o.interval > 0);
  clock_now = __v_any_i64("now"); o.now = clock_now; __v_assume(o.last >= 0 && o.last <= clock_now && clock_now < (1L << 60) && o.interval < (1L << 60));
  return w;
}
static size_t next(size_t c, size_t n) { return c + 1 >= n ? 0 : c + 1; }
// the window has moved on by one bucket per interval that passed, resetting each it left
static void moved(Window& w, const Old& o) {
  size_t r = resets.size(); long left = o.now - o.last - (long)r * o.interval;
  check(left >= 0, "the window moves on only by intervals that passed"); check(left <= o.interval, "the window moves on by every interval that passed");
  check(w.last_rotation_.time_since_epoch().count() == o.last + (long)r * o.interval, "the time of the last step is kept");
  check(r == 0 || resets[0] == o.cur, "the oldest bucket is reset first");
  check_all(0, r, [&](size_t i) { return i == 0 || resets[i] == next(resets[i - 1], o.n); }, "buckets are reset in cyclic order");
  check(w.current_bucket_ == (r == 0 ? o.cur : next(resets[r - 1], o.n)), "the current bucket is the one after the last that was reset");
  check(w.ckms_quantiles_.size() == o.n && w.rotation_interval_.count() == o.interval, "the number of buckets and the interval never change"); check(w.current_bucket_ < o.n, "the current bucket exists");
}
ENTRY(t_insert) {
  Old o; Window& w = a_window(o); double v = __v_any_double("value");
  w.insert(v);
  moved(w, o); check(inserts.size() == o.n, "a value is given once to each bucket"); check_all(0, o.n, [&](size_t i) { return inserts[i] == i && same(values[i], v); }, "a value is given to every bucket"); check(asks == 0, "no estimate is made");
}
ENTRY(t_get) {
  Old o; Window& w = a_window(o); double q = __v_any_double("rank");
  double e = w.get(q);
  moved(w, o); check(inserts.size() == 0, "asking inserts nothing"); check(asks == 1 && same(asked, q) && asked_at == w.current_bucket_, "the oldest bucket is asked for the rank"); check(same(e, __v_fn_double("estimate", (long)w.current_bucket_, __v_d_bits(q))), "the estimate of the oldest bucket is reported");
}
ENTRY(t_make) {
  const std::vector<CKMSQuantiles::Quantile>& q = any<std::vector<CKMSQuantiles::Quantile> >("quantiles"); long age = __v_any_i64("age"); int n = __v_any_i32("buckets"); __v_assume(n >= 1 && age >= n); clock_now = __v_any_i64("now");
  Window w(q, std::chrono::nanoseconds(age), n);
  check(w.ckms_quantiles_.size() == (size_t)n, "a window has the number of buckets asked for"); check(w.rotation_interval_.count() == age / n, "the interval is the age divided by the number of buckets"); check(w.rotation_interval_.count() > 0, "the interval is positive");
  check(w.current_bucket_ == 0 && w.last_rotation_.time_since_epoch().count() == clock_now, "a window starts now with its first bucket"); check(&w.quantiles_ == &q, "a window keeps the quantiles asked for");
  check_all(0, n, [&](size_t i) { return w.ckms_quantiles_[i].count_ == 0 && w.ckms_quantiles_[i].sample_.size() == 0 && w.ckms_quantiles_[i].buffer_count_ == 0; }, "every bucket starts empty");
  check_all(0, n, [&](size_t i) { return &w.ckms_quantiles_[i].quantiles_.get() == &q; }, "every bucket estimates the quantiles asked for");
}
// lemmas: what these contracts mean for a history of insertions and estimates.
// A bucket holds the values inserted since it was last reset (insert gives each value to all buckets). Let step
// be the number of steps so far, and since the step that last reset a bucket: the bucket that is n - 1 - i places
// before the current one was last reset in step - i, which each step preserves.
static long place(long b, long cur, long n) { return b >= cur ? b - cur : b - cur + n; }
ENTRY(t_step) {
  long n = __v_any_i64("n"), cur = __v_any_i64("cur"), step = __v_any_i64("step"), b = __v_any_i64("b"), since = __v_any_i64("since");
  __v_assume(n >= 1 && n < (1L << 40) && 0 <= cur && cur < n && 0 <= b && b < n && 0 <= step && step < (1L << 40) && since == step - n + 1 + place(b, cur, n));
  long since2 = b == cur ? step + 1 : since;
  check(since2 == step + 1 - n + 1 + place(b, (long)next(cur, n), n), "each step keeps the age of every bucket");
  check(cur != b || since == step - n + 1, "the current bucket is the oldest");
}
// an observation at time t is in step s, an estimate at time u in step s + d; the estimate is that of the current
// bucket, which holds what was inserted in steps from s + d - n + 1 on
ENTRY(t_window) {
  long n = __v_any_i64("n"), I = __v_any_i64("interval"), t = __v_any_i64("t"), u = __v_any_i64("u"), last = __v_any_i64("last"), d = __v_any_i64("d");
  __v_assume(n >= 1 && n < (1L << 30) && I > 0 && I < (1L << 30) && 0 <= d && d < (1L << 30) && 0 <= last && last < (1L << 60) && t < (1L << 61) && u < (1L << 61));
  __v_assume(0 <= t - last && t - last <= I && 0 <= u - (last + d * I) && u - (last + d * I) <= I);
  if (d <= n - 1) check(u - t <= n * I, "an estimate reflects nothing older than the maximum age"); else check(u - t >= (n - 1) * I, "an estimate reflects everything younger than the maximum age less one interval");
}
