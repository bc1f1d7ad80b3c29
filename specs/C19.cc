#define ENV_ALIVE
#include "env.h"
#include "handler.h"
using namespace prometheus; using detail::MetricsHandler;
extern "C" bool __v_alive(const void* p) { return p && __v_fn_bool("alive", __v_ref(p), 0); }
typedef std::weak_ptr<Collectable> W; typedef std::vector<W> Ws;
static W one(const char* n) { W w; w.p_ = (Collectable*)__v_any_heap(n); return w; }
ENTRY(t_register) {
  MetricsHandler& h = any<MetricsHandler>("handler"); Ws old = h.collectables_; W w = one("collectable"); if (__v_any_bool("already gone")) w.p_ = nullptr;
  h.RegisterCollectable(w);
  Ws want, got; for (size_t i = 0; i < old.size(); ++i) if (__v_alive(old[i].p_)) want.push_back(old[i]);
  Ws& now = h.collectables_; for (size_t i = 0; i < now.size(); ++i) if (__v_alive(now[i].p_)) got.push_back(now[i]);
  if (__v_alive(w.p_)) { want.push_back(w); __v_reach("registered"); }
  check_vec(got, want, "registering appends the collectable and drops at most expired entries"); check(__v_locks_held() == 0, "no lock stays held");
}
ENTRY(t_remove) {
  MetricsHandler& h = any<MetricsHandler>("handler"); Ws old = h.collectables_; W w = one("collectable"); if (__v_any_bool("already gone")) w.p_ = nullptr;
  h.RemoveCollectable(w);
  Ws want, got; for (size_t i = 0; i < old.size(); ++i) if (__v_alive(old[i].p_) && old[i].p_ != w.p_) want.push_back(old[i]);
  Ws& now = h.collectables_; for (size_t i = 0; i < now.size(); ++i) if (__v_alive(now[i].p_)) got.push_back(now[i]);
  check_vec(got, want, "removing removes every entry of the collectable and no other live one"); check(__v_locks_held() == 0, "no lock stays held");
}
