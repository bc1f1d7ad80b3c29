#include "family.h"
template <class T> static bool bad(const Family<T>& f, const Labels& l) { for (auto& p : l) { if (!label_ok(p.first, T::metric_type)) return true; if (has_name(f.constant_labels_, p.first)) return true; } return false; }
enum Case { KNOWN, REJECTED, NEW };
template <class T, Case c> static void add() {
  Family<T>& f = any<Family<T> >("family"); Fam<T>::sane(f); const Labels& labels = any<Labels>("labels"); const Labels& q = any<Labels>("query");
  T* fresh = (T*)__v_any_heap("metric"); T* old = Fam<T>::find(f.metrics_, labels); T* before = Fam<T>::find(f.metrics_, q); size_t n = f.metrics_.size();
  bool reject = bad(f, labels), same = q == labels;
  // a label set that is present was accepted when it was added
  __v_assume((old != nullptr) == (c == KNOWN)); __v_assume(reject == (c == REJECTED));
  bool threw = false; T* got = nullptr; try { got = &f.Add(labels, std::unique_ptr<T>(fresh)); } catch (const std::exception&) { threw = true; }
  check(threw == reject, "a label set is rejected exactly when a name in it is invalid or a constant label");
  T* now = Fam<T>::find(f.metrics_, q);
  if (c == NEW) {
    if (!threw) { __v_reach("added"); check(got == fresh, "adding a new label set returns the new metric"); }
    check(f.metrics_.size() == n + 1, "exactly one metric is added");
    if (same) { check(now == fresh, "the new metric has the labels asked for"); } else { check(now == before, "adding a metric leaves all others"); }
  } else {
    if (c == KNOWN && !threw) { __v_reach("known"); check(got == old, "adding a known label set returns the same metric"); }
    check(f.metrics_.size() == n, "the family is left unchanged"); check(now == before, "the family is left unchanged");
  }
  check(__v_locks_held() == 0, "no lock stays held");
}
template <class T> static void known() { add<T, KNOWN>(); }
template <class T> static void rejected() { add<T, REJECTED>(); }
template <class T> static void added() { add<T, NEW>(); }
template <class T> static void remove() {
  Family<T>& f = any<Family<T> >("family"); Fam<T>::sane(f); const Labels& q = any<Labels>("query"); T* gone = (T*)__v_any_heap("metric");
  T* before = Fam<T>::find(f.metrics_, q); size_t n = f.metrics_.size(); bool member = false; for (size_t i = 0; i < n; ++i) if (f.metrics_.__at(i)->second.get() == gone) { member = true; break; }
  f.Remove(gone);
  check(f.metrics_.size() == n - (member ? 1 : 0), "removing removes exactly one metric, none when it is unknown");
  T* now = Fam<T>::find(f.metrics_, q); check(now == (before == gone ? nullptr : before), "exactly the metric removed disappears");
  check(__v_locks_held() == 0, "no lock stays held");
}
template <class T> static void has() { Family<T>& f = any<Family<T> >("family"); const Labels& q = any<Labels>("query"); Fam<T>::sane(f); T* m = Fam<T>::find(f.metrics_, q); check(f.Has(q) == (m != nullptr), "Has reports exactly the label sets present"); check(__v_locks_held() == 0, "no lock stays held"); }
template <class T> static void make() {
  const std::string& name = any<std::string>("name"); const std::string& help = any<std::string>("help"); const Labels& l = any<Labels>("labels");
  bool ok = name_ok(name); if (ok) for (auto& p : l) if (!label_ok(p.first, T::metric_type)) { ok = false; break; }
  bool threw = false; Family<T>* f = nullptr; try { f = new Family<T>(name, help, l); } catch (const std::exception&) { threw = true; }
  check(threw == !ok, "a family is made exactly when its name and constant label names are valid");
  if (!threw) { __v_reach("made"); check_eq(f->GetName(), name, "the family has the name asked for"); check_eq(f->help_, help, "the family has the help asked for"); check(f->GetConstantLabels() == l, "the family has the constant labels asked for"); check(f->metrics_.size() == 0, "a new family has no metrics"); }
}
#define ALL(F) ENTRY(t_##F##_counter) { F<Counter>(); } ENTRY(t_##F##_gauge) { F<Gauge>(); } ENTRY(t_##F##_histogram) { F<Histogram>(); } ENTRY(t_##F##_info) { F<Info>(); } ENTRY(t_##F##_summary) { F<Summary>(); }
ALL(known) ALL(rejected) ALL(added) ALL(remove) ALL(has) ALL(make)
// the same labels always hash to the same value, or the table would lose them
ENTRY(t_hash) { const Labels& a = any<Labels>("a"); Labels b(a); detail::LabelHasher h; size_t x = h(a); detail::LabelHasher g; check(x == g(b), "equal label sets have equal hashes"); }
// what a metric is made from reaches it
ENTRY(t_args) { Family<Gauge>& f = any<Family<Gauge> >("family"); Fam<Gauge>::sane(f); const Labels& l = any<Labels>("labels"); double v = any<double>("value"); __v_assume(Fam<Gauge>::find(f.metrics_, l) == nullptr && !bad(f, l)); Gauge& g = f.Add(l, v); double w = g.Value(); check(same(v, w), "a new metric is made from the arguments given"); check(Fam<Gauge>::find(f.metrics_, l) == &g, "the new metric has the labels asked for"); }
