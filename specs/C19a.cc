#include "exposer.h"
// contract of Endpoint::RegisterAuth (decided in C19e.cc): recorded
static int auths; static Endpoint* guarded; static std::string* realm_;
void ct_auth(Endpoint* e, Cb, const std::string& r) __asm__("__ct__ZN10prometheus6detail8Endpoint12RegisterAuthESt8functionIFbRKSsS4_EES4_"); void ct_auth(Endpoint* e, Cb, const std::string& r) { auths++; guarded = e; realm_ = new std::string(r); }
ENTRY(t_auth_at) {
  Exposer& x = an_exposer(); const std::string& uri = any<std::string>("uri"); const std::string& realm = any<std::string>("realm"); Cb cb;
  std::vector<Endpoint*> old; for (size_t i = 0; i < x.endpoints_.size(); ++i) old.push_back(x.endpoints_[i].get());
  bool known = false; for (size_t i = 0; i < old.size(); ++i) if (old[i]->uri_ == uri) { known = true; break; }
  x.RegisterAuth(cb, realm, uri);
  std::vector<Endpoint*> now; for (size_t i = 0; i < x.endpoints_.size(); ++i) now.push_back(x.endpoints_[i].get());
  if (!known) { check(now.size() == old.size() + 1, "a new URI gets exactly one endpoint"); Endpoint* e = now[old.size()]; check_eq(e->uri_, uri, "a new endpoint has the URI asked for"); old.push_back(e); }
  check_vec(now, old, "the other endpoints stay"); check(auths == 1, "one handler is installed"); check_eq(guarded->uri_, uri, "the endpoint of the URI is guarded"); check_eq(*realm_, realm, "the realm is passed on"); check(unregs == 0 && removes == 0 && auth_removes == 0 && regs == (known ? 0 : 1), "no collectable is affected"); check(__v_locks_held() == 0, "no lock stays held");
}
