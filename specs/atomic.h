// Atomic updates: every access to the value is an event; in interference mode other threads may have
// changed the value just before each of them, so an operation proved here is one indivisible step
// under every schedule.
#pragma once
#define ENV_ATOMIC
static int ev_n; static int ev_kind; static const void* ev_obj; static double ev_before, ev_after; static bool others;
extern "C" void __v_atomic_event(const void* o, int kind, double before, double after) { ev_n++; ev_kind = kind; ev_obj = o; ev_before = before; ev_after = after; }
extern "C" bool __v_interference() { return others; }
#include "env.h"
#define private public
#include "prometheus/gauge.h"
#include "prometheus/counter.h"
#include "prometheus/client_metric.h"
#undef private
#include <type_traits>
using namespace prometheus;
static void begin(bool interference) { ev_n = 0; ev_kind = 0; ev_obj = nullptr; others = interference; }
// exactly one event on the value of g: an indivisible read-modify-write taking x to x + d
static void one_add(const Gauge& g, double d, const char* what) {
  check(ev_n == 1, what); check(ev_obj == (const void*)&g.value_, what); check(ev_kind == 2, what); check(same(ev_after, ev_before + d), what); check(same(g.value_.v_, ev_after), what); check(__v_locks_held() == 0, "no lock stays held");
}
// exactly one event on the value of g: a store of d
static void one_store(const Gauge& g, double d, const char* what) {
  check(ev_n == 1, what); check(ev_obj == (const void*)&g.value_, what); check(same(ev_after, d), what); check(same(g.value_.v_, d), what); check(__v_locks_held() == 0, "no lock stays held");
}
static Gauge& any_gauge(double& before) { Gauge& g = any<Gauge>("g"); before = __v_any_double("value"); g.value_.v_ = before; return g; }
static Counter& any_counter(double& before) { Counter& c = any<Counter>("c"); before = __v_any_double("value"); c.gauge_.value_.v_ = before; return c; }
