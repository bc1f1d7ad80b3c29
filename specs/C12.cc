#include "registry.h"
template <class T> static void remove() {
  Registry& r = a_registry(); std::vector<std::unique_ptr<Family<T> > >& fs = of<T>(r);
  assume_pairs(0, fs.size(), [&](size_t i, size_t j) { return __v_ref(fs[i].get()) != __v_ref(fs[j].get()); });
  assume_pairs(0, fs.size(), [&](size_t i, size_t j) { return !(fs[i]->name_ == fs[j]->name_); });
  Family<T>& f = *(Family<T>*)__v_any_heap("family"); std::string name = f.name_;
  All old = all(r); Ps& mine = pick<T>(old); size_t at = 0; for (; at < mine.size(); ++at) if (mine[at] == &f) break;
  bool member = at < mine.size(); Ps want; for (size_t i = 0; i < at; ++i) want.push_back(mine[i]); for (size_t i = at + 1; i < mine.size(); ++i) want.push_back(mine[i]);
  bool said = r.Remove(f);
  check(said == member, "removing succeeds exactly when the family belongs to the registry");
  if (member) { __v_reach("removed"); mine = want; }
  same_all(all(r), old, "exactly the family removed disappears and the order of the rest is kept");
  if (member) { std::vector<std::unique_ptr<Family<T> > >& now = of<T>(r); check_all(0, now.size(), [&](size_t i) { return !(now[i]->name_ == name); }, "the name can be registered again"); }
  check(__v_locks_held() == 0, "no lock stays held");
}
ENTRY(t_counter) { remove<Counter>(); }
ENTRY(t_gauge) { remove<Gauge>(); }
ENTRY(t_histogram) { remove<Histogram>(); }
ENTRY(t_info) { remove<Info>(); }
ENTRY(t_summary) { remove<Summary>(); }
