#include "family.h"
#include "guard.h"
// contract of T::Collect (decided per metric type elsewhere): a sample determined by the metric
#define CT(T, m) ClientMetric ct_##T(const T* t) __asm__("__ct__ZNK10prometheus" m "7CollectEv"); ClientMetric ct_##T(const T* t) { ClientMetric c; __v_fn_obj(&c, sizeof(ClientMetric), "sample", __v_ref(t), 0); new (&c.label) std::vector<ClientMetric::Label>(); return c; }
CT(Counter, "7Counter") CT(Gauge, "5Gauge") CT(Histogram, "9Histogram") CT(Info, "4Info") CT(Summary, "7Summary")
template <class T> static Family<T>& guarded() {
  Family<T>& f = any<Family<T> >("family"); Fam<T>::sane(f);
  mutable_state(f, f.metrics_, f.mutex_, "Family::metrics_"); fixed_state(f.name_, "Family::name_"); fixed_state(f.help_, "Family::help_"); fixed_state(f.constant_labels_, "Family::constant_labels_");
  return f;
}
template <class T> static void add() { Family<T>& f = guarded<T>(); const Labels& l = any<Labels>("labels"); bool threw = false; try { f.Add(l, std::unique_ptr<T>((T*)__v_any_heap("metric"))); } catch (const std::exception&) { threw = true; } released(); if (threw) __v_reach("threw"); else __v_reach("added"); }
template <class T> static void remove() { Family<T>& f = guarded<T>(); f.Remove((T*)__v_any_heap("metric")); released(); }
template <class T> static void has() { Family<T>& f = guarded<T>(); f.Has(any<Labels>("labels")); released(); }
template <class T> static void collect() { Family<T>& f = guarded<T>(); f.Family<T>::Collect(); released(); }
template <class T> static void names() { Family<T>& f = guarded<T>(); f.GetName(); f.GetConstantLabels(); released(); }
#define ALL(F) ENTRY(t_##F##_counter) { F<Counter>(); } ENTRY(t_##F##_gauge) { F<Gauge>(); } ENTRY(t_##F##_histogram) { F<Histogram>(); } ENTRY(t_##F##_info) { F<Info>(); } ENTRY(t_##F##_summary) { F<Summary>(); }
ALL(add) ALL(remove) ALL(has) ALL(collect) ALL(names)
