#define ENV_ALIVE
#include "env.h"
#include "metrics_collector.h"
#include "prometheus/collectable.h"
using namespace prometheus;
extern "C" bool __v_alive(const void* p) { return p && __v_fn_bool("alive", __v_ref(p), 0); }
typedef std::vector<MetricFamily> Families;
extern "C" void __v_virtual_2(Families* r, const Collectable* c) { check(__v_alive(c), "only live objects are collected"); __v_fn_vec(r, "collected", __v_ref(c), 0, sizeof(MetricFamily)); }
ENTRY(t_collect) {
  std::vector<std::weak_ptr<Collectable> >& cs = any<std::vector<std::weak_ptr<Collectable> > >("collectables");
  Families got = detail::CollectMetrics(cs), want;
  for (size_t i = 0; i < cs.size(); ++i) if (__v_alive(cs[i].p_)) { Families f; __v_fn_vec(&f, "collected", __v_ref(cs[i].p_), 0, sizeof(MetricFamily)); want.insert(want.end(), f.begin(), f.end()); }
  check_vec(got, want, "a scrape collects every live collectable in registration order");
}
