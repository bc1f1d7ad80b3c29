#include "family.h"
// contract of T::Collect (decided per metric type elsewhere): a sample determined by the metric, without labels
template <class T> static ClientMetric sample(const T* m) { ClientMetric c; __v_fn_obj(&c, sizeof(ClientMetric), "sample", __v_ref(m), 0); new (&c.label) std::vector<ClientMetric::Label>(); return c; }
#define CT(T, m) ClientMetric ct_##T(const T* t) __asm__("__ct__ZNK10prometheus" m "7CollectEv"); ClientMetric ct_##T(const T* t) { return sample(t); }
CT(Counter, "7Counter") CT(Gauge, "5Gauge") CT(Histogram, "9Histogram") CT(Info, "4Info") CT(Summary, "7Summary")
static void put(std::vector<ClientMetric::Label>& to, const Labels& l) { for (auto& p : l) { ClientMetric::Label x; x.name = p.first; x.value = p.second; to.push_back(x); } }
template <class T> static void add(std::vector<ClientMetric>& w, const T* m, const Labels& fixed, const Labels& own) { ClientMetric c = sample(m); put(c.label, fixed); put(c.label, own); w.push_back(c); }
template <class T> static void collect() {
  Family<T>& f = any<Family<T> >("family"); Fam<T>::sane(f); const Labels& q = any<Labels>("query"); T* before = Fam<T>::find(f.metrics_, q); size_t n = f.metrics_.size();
  std::string name = f.name_, help = f.help_; Labels fixed = f.constant_labels_; std::vector<ClientMetric> want;
  for (size_t i = 0; i < n; ++i) add(want, f.metrics_.__at(i)->second.get(), fixed, f.metrics_.__at(i)->first);
  std::vector<MetricFamily> got = f.Family<T>::Collect();
  if (n == 0) check(got.size() == 0, "an empty family yields nothing");
  else {
    __v_reach("collected"); check(got.size() == 1, "a family yields one record");
    check_eq(got[0].name, name, "the record has the family's name"); check_eq(got[0].help, help, "the record has the family's help"); check(got[0].type == T::metric_type, "the record has the family's type");
    check(got[0].metric.size() == n, "one sample per label set");
    if (__v_fork()) {
      size_t i = __v_skolem(0, n); std::vector<ClientMetric::Label>& l = got[0].metric[i].label; const Labels& own = f.metrics_.__at(i)->first; check(l.size() == fixed.size() + own.size(), "a sample has the constant labels and its own");
      if (__v_fork()) { size_t j = __v_skolem(0, fixed.size()); check(l[j].name == fixed.__at(j)->first && l[j].value == fixed.__at(j)->second, "a sample carries the constant labels first"); __v_stop(); }
      size_t j = __v_skolem(0, own.size()), k = fixed.size() + j; check(l[k].name == own.__at(j)->first && l[k].value == own.__at(j)->second, "a sample carries its own labels then"); __v_stop();
    }
    check_vec(got[0].metric, want, "each sample is that of its metric with the constant labels followed by its own");
  }
  check(f.metrics_.size() == n, "collecting changes nothing"); check(Fam<T>::find(f.metrics_, q) == before, "collecting changes nothing");
  check(__v_locks_held() == 0, "no lock stays held");
}
ENTRY(t_counter) { collect<Counter>(); }
ENTRY(t_gauge) { collect<Gauge>(); }
ENTRY(t_histogram) { collect<Histogram>(); }
ENTRY(t_info) { collect<Info>(); }
ENTRY(t_summary) { collect<Summary>(); }
