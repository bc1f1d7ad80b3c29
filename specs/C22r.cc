#include "registry.h"
#include "guard.h"
// contracts: the Family constructor (C09) accepts or throws, Family::Collect (C10) gives some list or throws
template <class T> static void make(Family<T>* f, const std::string& n, const std::string& h, const Labels& l) {
  if (__v_fn_bool("rejected", __v_strid(&n), __v_vecid(&l, sizeof(Labels::value_type)))) throw std::invalid_argument("rejected");
  new ((void*)&f->name_) std::string(n); new ((void*)&f->help_) std::string(h); new ((void*)&f->constant_labels_) Labels(l);
}
#define CT(T, m) void ct_##T(Family<T>* f, const std::string& n, const std::string& h, const Labels& l) __asm__("__ct__ZN10prometheus6FamilyINS_" m "EEC1ERKSsS4_RKSt3mapISsSsSt4lessISsESaISt4pairIS3_SsEEE"); void ct_##T(Family<T>* f, const std::string& n, const std::string& h, const Labels& l) { make(f, n, h, l); }
CT(Counter, "7Counter") CT(Gauge, "5Gauge") CT(Histogram, "9Histogram") CT(Info, "4Info") CT(Summary, "7Summary")
typedef std::vector<MetricFamily> Families;
extern "C" void __v_virtual_2(Families* r, const void* c) { if (__v_fn_bool("throws", __v_ref(c), 0)) throw std::runtime_error("collect"); __v_fn_vec(r, "collected", __v_ref(c), 0, sizeof(MetricFamily)); }
static Registry& guarded() {
  Registry& r = a_registry(); std::mutex& m = r.mutex_;
  mutable_state(r, r.counters_, m, "Registry::counters_"); mutable_state(r, r.gauges_, m, "Registry::gauges_"); mutable_state(r, r.histograms_, m, "Registry::histograms_"); mutable_state(r, r.infos_, m, "Registry::infos_"); mutable_state(r, r.summaries_, m, "Registry::summaries_");
  fixed_state(r.insert_behavior_, "Registry::insert_behavior_");
  return r;
}
template <class T> static void add() { Registry& r = guarded(); bool threw = false; try { r.Add<T>(any<std::string>("name"), any<std::string>("help"), any<Labels>("labels")); } catch (const std::exception&) { threw = true; } released(); if (threw) __v_reach("threw"); else __v_reach("added"); }
template <class T> static void remove() { Registry& r = guarded(); r.Remove(*(Family<T>*)__v_any_heap("family")); released(); }
#define ALL(F) ENTRY(t_##F##_counter) { F<Counter>(); } ENTRY(t_##F##_gauge) { F<Gauge>(); } ENTRY(t_##F##_histogram) { F<Histogram>(); } ENTRY(t_##F##_info) { F<Info>(); } ENTRY(t_##F##_summary) { F<Summary>(); }
ALL(add) ALL(remove)
ENTRY(t_collect) { Registry& r = guarded(); bool threw = false; try { r.Registry::Collect(); } catch (const std::exception&) { threw = true; } released(); if (threw) __v_reach("threw"); else __v_reach("collected"); }
