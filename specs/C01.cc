#include "atomic.h"
static void inc1(bool o) { double b; Counter& c = any_counter(b); begin(o); c.Increment(); one_add(c.gauge_, 1.0, "Increment adds one in a single indivisible step"); if (!o) check(same(c.gauge_.value_.v_, b + 1.0), "Increment adds exactly one"); }
static void inc(bool o) {
  double b; Counter& c = any_counter(b); double v = __v_any_double("v"); begin(o);
  c.Increment(v);
  if (v < 0) { check(ev_n == 0, "a negative increment updates nothing"); if (!o) check(same(c.gauge_.value_.v_, b), "a negative increment changes nothing"); }
  else { one_add(c.gauge_, v, "Increment adds its amount in a single indivisible step"); if (!o) check(same(c.gauge_.value_.v_, b + v), "Increment adds exactly its amount"); }
}
static void reset(bool o) { double b; Counter& c = any_counter(b); begin(o); c.Reset(); one_store(c.gauge_, 0.0, "Reset stores zero in a single indivisible step"); }
static void read(bool o) {
  double b; Counter& c = any_counter(b); begin(o);
  double v = c.Value();
  check(ev_n == 0, "Value updates nothing"); check(same(v, c.gauge_.value_.v_), "Value reports the current value"); if (!o) check(same(v, b), "Value changes nothing");
}
static void collect(bool o) {
  double b; Counter& c = any_counter(b); begin(o);
  ClientMetric m = c.Collect();
  check(ev_n == 0, "Collect updates nothing"); check(same(m.counter.value, c.gauge_.value_.v_), "Collect reports the current value"); if (!o) check(same(m.counter.value, b), "Collect changes nothing");
  check(m.label.size() == 0 && m.timestamp_ms == 0, "Collect adds no label or timestamp"); check(__v_locks_held() == 0, "no lock stays held");
}
ENTRY(t_increment_one) { inc1(false); }
ENTRY(t_increment_one_concurrent) { inc1(true); }
ENTRY(t_increment) { inc(false); }
ENTRY(t_increment_concurrent) { inc(true); }
ENTRY(t_reset) { reset(false); }
ENTRY(t_reset_concurrent) { reset(true); }
ENTRY(t_value) { read(false); }
ENTRY(t_value_concurrent) { read(true); }
ENTRY(t_collect) { collect(false); }
ENTRY(t_collect_concurrent) { collect(true); }
ENTRY(t_initial) { begin(false); Counter c; check(same(c.gauge_.value_.v_, 0.0), "a new counter is zero"); }
