#include "registry.h"
typedef std::vector<MetricFamily> Families;
// contract of Family::Collect (decided by C10.cc): a list of families determined by the family
static Families collected(const void* c) { Families f; __v_fn_vec(&f, "collected", __v_ref(c), 0, sizeof(MetricFamily)); return f; }
extern "C" void __v_virtual_2(Families* r, const void* c) { __v_fn_vec(r, "collected", __v_ref(c), 0, sizeof(MetricFamily)); }
template <class T> static void put(Families& w, Registry& r) { std::vector<std::unique_ptr<Family<T> > >& fs = of<T>(r); for (size_t i = 0; i < fs.size(); ++i) { Families f = collected(fs[i].get()); w.insert(w.end(), f.begin(), f.end()); } }
ENTRY(t_registry) {
  Registry& r = a_registry(); All old = all(r); Families w; put<Counter>(w, r); put<Gauge>(w, r); put<Histogram>(w, r); put<Info>(w, r); put<Summary>(w, r);
  Families got = r.Registry::Collect(); check(got.size() == w.size(), "as many families as all collections have together"); check_vec(got, w, "the collections of all families, each exactly once");
  same_all(all(r), old, "collecting changes nothing"); check(__v_locks_held() == 0, "no lock stays held");
}
