#include "exposer.h"
static void named(int op) {
  Exposer& x = an_exposer(); const std::string& uri = any<std::string>("uri"); std::weak_ptr<Collectable> c; c.p_ = (Collectable*)__v_any_heap("collectable");
  std::vector<Endpoint*> old; for (size_t i = 0; i < x.endpoints_.size(); ++i) old.push_back(x.endpoints_[i].get());
  MetricsHandler* want = nullptr; bool known = false; for (size_t i = 0; i < old.size(); ++i) if (old[i]->uri_ == uri) { known = true; want = old[i]->metrics_handler_.get(); break; }
  if (op == 0) x.RegisterCollectable(c, uri); else x.RemoveCollectable(c, uri);
  std::vector<Endpoint*> now; for (size_t i = 0; i < x.endpoints_.size(); ++i) now.push_back(x.endpoints_[i].get());
  if (known) { __v_reach("known"); check_vec(now, old, "a URI that has an endpoint keeps it, and no endpoint is created"); check(adds == 0, "no handler is installed"); check(at == want, "the call goes to the endpoint of its URI"); check(op == 0 ? regs == 1 : regs == 0, "the collectable is registered once"); }
  else { __v_reach("new"); check(now.size() == old.size() + 1, "a new URI gets exactly one endpoint"); Endpoint* e = now[old.size()]; check_eq(e->uri_, uri, "a new endpoint has the URI asked for"); old.push_back(e); check_vec(now, old, "the other endpoints stay"); check(at == e->metrics_handler_.get(), "the call goes to the endpoint of its URI");
    check(adds == 1 && served == (CivetHandler*)e->metrics_handler_.get(), "the new endpoint's handler is installed once"); check_eq(*add_uri, uri, "the handler serves the URI asked for"); check(op == 0 ? regs == 2 : regs == 1, "a new endpoint registers its own metrics, then the collectable"); }
  check(what == c.p_, "the collectable named is the one affected"); check(op == 0 ? unregs == 0 : unregs == 1, "only what was asked for is removed"); check(auth_adds == 0 && auth_removes == 0 && removes == 0, "nothing is withdrawn"); check(__v_locks_held() == 0, "no lock stays held");
}
ENTRY(t_register_at) { named(0); }
ENTRY(t_remove_at) { named(1); }
static Endpoint& an_endpoint() { Endpoint& e = any<Endpoint>("endpoint"); begin(&e.server_); *add_uri = e.uri_; if (__v_any_bool("guarded")) { new (&e.auth_handler_) std::unique_ptr<BasicAuthHandler>((BasicAuthHandler*)__v_any_heap("old handler")); guarding = e.auth_handler_.get(); *auth_uri = e.uri_; } else new (&e.auth_handler_) std::unique_ptr<BasicAuthHandler>(); return e; }
ENTRY(t_auth) {
  Endpoint& e = an_endpoint(); bool had = guarding != nullptr; Cb cb; std::string realm = any<std::string>("realm");
  e.RegisterAuth(cb, realm);
  check(auth_adds == 1, "the new handler is installed"); check_eq(*auth_uri, e.uri_, "the handler guards the endpoint's URI"); check(guarding != nullptr && guarding == e.auth_handler_.get(), "the installed handler is the one kept alive"); check(destroyed == (had ? 1 : 0), "the old handler is destroyed"); check(auth_removes == 0, "the URI is never left open");
}
ENTRY(t_gone) {
  Endpoint& e = an_endpoint(); bool had = guarding != nullptr; served = e.metrics_handler_.get();
  e.~Endpoint();
  check(removes == 1 && served == nullptr, "the endpoint's handler is withdrawn"); check(auth_removes == (had ? 1 : 0) && guarding == nullptr, "the endpoint's authentication is withdrawn");
}
