#include "hist.h"
#include "guard.h"
static Any guarded() {
  Any a = any_histogram(); Histogram& h = *a.h;
  fixed_state(h.bucket_boundaries_, "Histogram::bucket_boundaries_"); fixed_shape(h.bucket_counts_, "Histogram::bucket_counts_");
  mutable_elements(h.bucket_counts_, h.mutex_, "the counts of a histogram"); mutable_state(h, h.sum_, h.mutex_, "Histogram::sum_");
  return a;
}
ENTRY(t_observe) { Any a = guarded(); a.h->Observe(__v_any_double("value")); released(); }
ENTRY(t_observe_multiple) { Any a = guarded(); std::vector<double>& inc = any<std::vector<double> >("increments"); bool threw = false; try { a.h->ObserveMultiple(inc, __v_any_double("sum")); } catch (const std::exception&) { threw = true; } released(); if (threw) __v_reach("threw"); else __v_reach("done"); }
ENTRY(t_reset) { Any a = guarded(); a.h->Reset(); released(); }
ENTRY(t_collect) { Any a = guarded(); a.h->Collect(); released(); }
