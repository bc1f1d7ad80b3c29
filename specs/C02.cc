#define ENV_NOW
#include "atomic.h"
static long clock_reading; static int clock_reads;
extern "C" long __v_now(int clock) { check(clock == 2, "the wall clock is read"); clock_reads++; return clock_reading; }
#include <ctime>
static void inc1(bool o) { double b; Gauge& g = any_gauge(b); begin(o); g.Increment(); one_add(g, 1.0, "Increment adds one in a single indivisible step"); if (!o) check(same(g.value_.v_, b + 1.0), "Increment adds exactly one"); }
static void inc(bool o) { double b; Gauge& g = any_gauge(b); double v = __v_any_double("v"); begin(o); g.Increment(v); one_add(g, v, "Increment adds its amount in a single indivisible step"); if (!o) check(same(g.value_.v_, b + v), "Increment adds exactly its amount"); }
static void dec1(bool o) { double b; Gauge& g = any_gauge(b); begin(o); g.Decrement(); one_add(g, -1.0, "Decrement subtracts one in a single indivisible step"); if (!o) check(same(g.value_.v_, b + -1.0), "Decrement subtracts exactly one"); }
static void dec(bool o) { double b; Gauge& g = any_gauge(b); double v = __v_any_double("v"); begin(o); g.Decrement(v); one_add(g, -v, "Decrement subtracts its amount in a single indivisible step"); if (!o) check(same(g.value_.v_, b + -v), "Decrement subtracts exactly its amount"); }
static void set(bool o) { double b; Gauge& g = any_gauge(b); double v = __v_any_double("v"); begin(o); g.Set(v); one_store(g, v, "Set stores its amount in a single indivisible step"); }
static void now(bool o) { double b; Gauge& g = any_gauge(b); begin(o); clock_reading = __v_any_i64("now"); clock_reads = 0; g.SetToCurrentTime(); check(clock_reads == 1, "SetToCurrentTime reads the clock once"); one_store(g, (double)clock_reading, "SetToCurrentTime stores the wall-clock seconds in a single indivisible step"); }
static void read(bool o) {
  double b; Gauge& g = any_gauge(b); begin(o);
  double v = g.Value();
  check(ev_n == 0, "Value updates nothing"); check(same(v, g.value_.v_), "Value reports the current value"); if (!o) check(same(v, b), "Value changes nothing");
}
static void collect(bool o) {
  double b; Gauge& g = any_gauge(b); begin(o);
  ClientMetric m = g.Collect();
  check(ev_n == 0, "Collect updates nothing"); check(same(m.gauge.value, g.value_.v_), "Collect reports the current value"); if (!o) check(same(m.gauge.value, b), "Collect changes nothing");
  check(m.label.size() == 0 && m.timestamp_ms == 0, "Collect adds no label or timestamp"); check(__v_locks_held() == 0, "no lock stays held");
}
ENTRY(t_increment_one) { inc1(false); }
ENTRY(t_increment_one_concurrent) { inc1(true); }
ENTRY(t_increment) { inc(false); }
ENTRY(t_increment_concurrent) { inc(true); }
ENTRY(t_decrement_one) { dec1(false); }
ENTRY(t_decrement_one_concurrent) { dec1(true); }
ENTRY(t_decrement) { dec(false); }
ENTRY(t_decrement_concurrent) { dec(true); }
ENTRY(t_set) { set(false); }
ENTRY(t_set_concurrent) { set(true); }
ENTRY(t_set_to_current_time) { now(false); }
ENTRY(t_set_to_current_time_concurrent) { now(true); }
ENTRY(t_value) { read(false); }
ENTRY(t_value_concurrent) { read(true); }
ENTRY(t_collect) { collect(false); }
ENTRY(t_collect_concurrent) { collect(true); }
ENTRY(t_initial) { begin(false); double v = __v_any_double("v"); Gauge z; check(same(z.value_.v_, 0.0), "a new gauge is zero"); Gauge g(v); check(same(g.value_.v_, v), "a new gauge has its initial value"); }
