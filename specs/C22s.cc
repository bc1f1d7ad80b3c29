#define ENV_NOW
static long clock_now;
extern "C" long __v_now(int c) { return clock_now; }
#include "env.h"
#include "guard.h"
#include "prometheus/summary.h"
#include "prometheus/client_metric.h"
using namespace prometheus; using detail::CKMSQuantiles;
// contracts of one estimator (decided as C06): it touches its own contents
static size_t touch(CKMSQuantiles* c) { return c->count_; }
void ct_reset(CKMSQuantiles* c) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles5resetEv"); void ct_reset(CKMSQuantiles* c) { touch(c); }
void ct_insert(CKMSQuantiles* c, double v) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles6insertEd"); void ct_insert(CKMSQuantiles* c, double v) { touch(c); }
double ct_get(CKMSQuantiles* c, double q) __asm__("__ct__ZN10prometheus6detail13CKMSQuantiles3getEd"); double ct_get(CKMSQuantiles* c, double q) { touch(c); return __v_fresh_double(); }
static Summary& guarded() {
  Summary& s = any<Summary>("summary"); detail::TimeWindowQuantiles& w = s.quantile_values_; __v_assume(w.ckms_quantiles_.size() >= 1 && (long)w.current_bucket_ >= 0 && w.current_bucket_ < w.ckms_quantiles_.size() && w.rotation_interval_.count() > 0);
  clock_now = __v_any_i64("now"); __v_assume(w.last_rotation_.time_since_epoch().count() >= 0 && w.last_rotation_.time_since_epoch().count() <= clock_now && clock_now < (1L << 60) && w.rotation_interval_.count() < (1L << 60));
  mutable_state(s, s.count_, s.mutex_, "Summary::count_"); mutable_state(s, s.sum_, s.mutex_, "Summary::sum_"); mutable_state(s, w.ckms_quantiles_, s.mutex_, "the age buckets"); mutable_state(s, w.current_bucket_, s.mutex_, "the current age bucket"); mutable_state(s, w.last_rotation_, s.mutex_, "the time of the last step");
  fixed_state(s.quantiles_, "Summary::quantiles_"); fixed_state(w.rotation_interval_, "the rotation interval");
  return s;
}
ENTRY(t_observe) { Summary& s = guarded(); s.Observe(__v_any_double("value")); released(); }
ENTRY(t_collect) { Summary& s = guarded(); s.Collect(); released(); }
