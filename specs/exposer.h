// The exposer as the contracts see it: web server, handlers and registries are recorded.
#pragma once
#include "env.h"
#include <functional>
#include "prometheus/exposer.h"
#include "endpoint.h"
#include "handler.h"
using namespace prometheus; using detail::Endpoint; using detail::MetricsHandler;
typedef std::function<bool(const std::string&, const std::string&)> Cb;
// the web server records which handler serves which URI
static int adds, removes, auth_adds, auth_removes, destroyed; static std::string *add_uri, *auth_uri; static CivetServer* server_; static CivetHandler* served; static CivetAuthHandler* guarding;
static void begin(CivetServer* s) { adds = removes = auth_adds = auth_removes = destroyed = 0; server_ = s; served = nullptr; guarding = nullptr; add_uri = new std::string; auth_uri = new std::string; }
void ct_add(CivetServer* s, const std::string& u, CivetHandler* h) __asm__("__ct__ZN11CivetServer10addHandlerERKSsP12CivetHandler"); void ct_add(CivetServer* s, const std::string& u, CivetHandler* h) { check(s == server_, "the exposer's own server is used"); adds++; *add_uri = u; served = h; }
void ct_rem(CivetServer* s, const std::string& u) __asm__("__ct__ZN11CivetServer13removeHandlerERKSs"); void ct_rem(CivetServer* s, const std::string& u) { check(s == server_, "the exposer's own server is used"); removes++; check(u == *add_uri, "the endpoint's own URI is withdrawn"); served = nullptr; }
void ct_aadd(CivetServer* s, const std::string& u, CivetAuthHandler* h) __asm__("__ct__ZN11CivetServer14addAuthHandlerERKSsP16CivetAuthHandler"); void ct_aadd(CivetServer* s, const std::string& u, CivetAuthHandler* h) { check(s == server_, "the exposer's own server is used"); auth_adds++; *auth_uri = u; guarding = h; }
void ct_arem(CivetServer* s, const std::string& u) __asm__("__ct__ZN11CivetServer17removeAuthHandlerERKSs"); void ct_arem(CivetServer* s, const std::string& u) { check(s == server_, "the exposer's own server is used"); auth_removes++; check(u == *auth_uri, "the endpoint's own URI is withdrawn"); guarding = nullptr; }
// contracts of MetricsHandler (decided in C19.cc): recorded
static int regs, unregs; static MetricsHandler* at; static Collectable* what;
void ct_reg(MetricsHandler* h, const std::weak_ptr<Collectable>& c) __asm__("__ct__ZN10prometheus6detail14MetricsHandler19RegisterCollectableERKSt8weak_ptrINS_11CollectableEE"); void ct_reg(MetricsHandler* h, const std::weak_ptr<Collectable>& c) { regs++; at = h; what = c.p_; }
void ct_unreg(MetricsHandler* h, const std::weak_ptr<Collectable>& c) __asm__("__ct__ZN10prometheus6detail14MetricsHandler17RemoveCollectableERKSt8weak_ptrINS_11CollectableEE"); void ct_unreg(MetricsHandler* h, const std::weak_ptr<Collectable>& c) { unregs++; at = h; what = c.p_; }
void ct_mh(MetricsHandler* h, Registry&) __asm__("__ct__ZN10prometheus6detail14MetricsHandlerC1ERNS_8RegistryE"); void ct_mh(MetricsHandler* h, Registry&) { *(void**)h = __v_any_heap("handler table"); }
void ct_r(Registry* r, Registry::InsertBehavior) __asm__("__ct__ZN10prometheus8RegistryC1ENS0_14InsertBehaviorE"); void ct_r(Registry* r, Registry::InsertBehavior) {}
void ct_ba(BasicAuthHandler* h, Cb, std::string) __asm__("__ct__ZN10prometheus16BasicAuthHandlerC1ESt8functionIFbRKSsS3_EESs"); void ct_ba(BasicAuthHandler* h, Cb, std::string) { *(void**)h = __v_any_heap("handler table"); }
extern "C" void __v_virtual_1(void* h) { destroyed++; check((void*)guarding != h && (void*)served != h, "a handler is withdrawn before it is destroyed"); }
static CivetServer* server(const char* n) { return (CivetServer*)__v_any_heap(n); }
// one exposer with any number of endpoints, no two with one URI, each on the exposer's server
typedef std::vector<std::unique_ptr<Endpoint> > Es;
static Exposer& an_exposer() {
  Exposer& x = any<Exposer>("exposer"); CivetServer* s = server("server"); new (&x.server_) std::unique_ptr<CivetServer>(s); begin(s); regs = unregs = 0;
  Es& es = x.endpoints_; assume_all(0, es.size(), [&](size_t i) { return es[i].get() != nullptr && &es[i]->server_ == s; }); assume_pairs(0, es.size(), [&](size_t i, size_t j) { return !(es[i]->uri_ == es[j]->uri_); });
  return x;
}
// the functions of the web server under contract exist whether or not the code still calls them
void uses(CivetServer* s, const std::string& u, CivetHandler* h, CivetAuthHandler* a) { s->addHandler(u, h); s->removeHandler(u); s->addAuthHandler(u, a); s->removeAuthHandler(u); }
