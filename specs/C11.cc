#include "registry.h"
// contract of the family constructor (decided as C09): it rejects the name and labels, or keeps them
static bool rejected(const std::string& n, const Labels& l) { return __v_fn_bool("rejected", __v_strid(&n), __v_vecid(&l, sizeof(Labels::value_type))); }
template <class T> static void make(Family<T>* f, const std::string& n, const std::string& h, const Labels& l) {
  if (rejected(n, l)) throw std::invalid_argument("rejected");
  new ((void*)&f->name_) std::string(n); new ((void*)&f->help_) std::string(h); new ((void*)&f->constant_labels_) Labels(l);
}
#define CT(T, m) void ct_##T(Family<T>* f, const std::string& n, const std::string& h, const Labels& l) __asm__("__ct__ZN10prometheus6FamilyINS_" m "EEC1ERKSsS4_RKSt3mapISsSsSt4lessISsESaISt4pairIS3_SsEEE"); void ct_##T(Family<T>* f, const std::string& n, const std::string& h, const Labels& l) { make(f, n, h, l); }
CT(Counter, "7Counter") CT(Gauge, "5Gauge") CT(Histogram, "9Histogram") CT(Info, "4Info") CT(Summary, "7Summary")
template <class T, class A, class B, class C, class D> static void add() {
  Registry& r = a_registry(); const std::string& name = any<std::string>("name"); const std::string& help = any<std::string>("help"); const Labels& labels = any<Labels>("labels");
  std::vector<std::unique_ptr<Family<T> > >& fs = of<T>(r); assume_pairs(0, fs.size(), [&](size_t i, size_t j) { return !(fs[i]->name_ == fs[j]->name_); });
  All old = all(r); bool merge = r.insert_behavior_ == Registry::InsertBehavior::Merge;
  bool other = named<A>(r, name) || named<B>(r, name) || named<C>(r, name) || named<D>(r, name);
  Family<T>* known = nullptr; for (size_t i = 0; i < fs.size(); ++i) if (fs[i]->name_ == name) { known = fs[i].get(); break; }
  bool threw = false; Family<T>* got = nullptr;
  try { got = &r.Add<T>(name, help, labels); } catch (const std::exception&) { threw = true; }
  if (other) check(threw, "a name used by another metric type is rejected");
  else if (known) { bool join = merge && known->constant_labels_ == labels; check(threw == !join, "a known name is accepted exactly in merge mode with equal constant labels"); check(threw || got == known, "registering a known name returns the existing family"); }
  else check(threw == rejected(name, labels), "a new name is accepted when its family can be made");
  if (!threw && !known) {
    __v_reach("added"); check_eq(got->name_, name, "the new family has the name asked for"); check_eq(got->help_, help, "the new family has the help asked for"); check(got->constant_labels_ == labels, "the new family has the labels asked for");
    pick<T>(old).push_back(got);
  }
  same_all(all(r), old, "exactly the new family is added, none when rejected or known"); check(__v_locks_held() == 0, "no lock stays held");
}
ENTRY(t_counter) { add<Counter, Gauge, Histogram, Info, Summary>(); }
ENTRY(t_gauge) { add<Gauge, Counter, Histogram, Info, Summary>(); }
ENTRY(t_histogram) { add<Histogram, Counter, Gauge, Info, Summary>(); }
ENTRY(t_info) { add<Info, Counter, Gauge, Histogram, Summary>(); }
ENTRY(t_summary) { add<Summary, Counter, Gauge, Histogram, Info>(); }
