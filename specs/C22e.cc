#include "exposer.h"
#include "guard.h"
// contract of Endpoint::RegisterAuth (decided in C19e.cc)
static Exposer* x_; static void under_lock() { check(__v_holds(&x_->mutex_), "an endpoint is only used while the exposer's lock is held"); }
void ct_auth(Endpoint* e, Cb, const std::string& r) __asm__("__ct__ZN10prometheus6detail8Endpoint12RegisterAuthESt8functionIFbRKSsS4_EES4_"); void ct_auth(Endpoint* e, Cb, const std::string& r) { under_lock(); if (__v_any_bool("throws")) throw std::runtime_error("auth"); }
void ct_ereg(Endpoint* e, const std::weak_ptr<Collectable>&) __asm__("__ct__ZN10prometheus6detail8Endpoint19RegisterCollectableERKSt8weak_ptrINS_11CollectableEE"); void ct_ereg(Endpoint* e, const std::weak_ptr<Collectable>&) { under_lock(); if (__v_any_bool("throws")) throw std::runtime_error("register"); }
void ct_erem(Endpoint* e, const std::weak_ptr<Collectable>&) __asm__("__ct__ZN10prometheus6detail8Endpoint17RemoveCollectableERKSt8weak_ptrINS_11CollectableEE"); void ct_erem(Endpoint* e, const std::weak_ptr<Collectable>&) { under_lock(); if (__v_any_bool("throws")) throw std::runtime_error("remove"); }
static Exposer& guarded() { Exposer& x = an_exposer(); x_ = &x; mutable_state(x, x.endpoints_, x.mutex_, "Exposer::endpoints_"); fixed_state(x.server_, "Exposer::server_"); return x; }
static std::weak_ptr<Collectable> one() { std::weak_ptr<Collectable> c; c.p_ = (Collectable*)__v_any_heap("collectable"); return c; }
ENTRY(t_register) { Exposer& x = guarded(); bool threw = false; try { x.RegisterCollectable(one(), any<std::string>("uri")); } catch (const std::exception&) { threw = true; } released(); if (threw) __v_reach("threw"); else __v_reach("done"); }
ENTRY(t_remove) { Exposer& x = guarded(); bool threw = false; try { x.RemoveCollectable(one(), any<std::string>("uri")); } catch (const std::exception&) { threw = true; } released(); if (threw) __v_reach("threw"); else __v_reach("done"); }
ENTRY(t_auth) { Exposer& x = guarded(); Cb cb; bool threw = false; try { x.RegisterAuth(cb, any<std::string>("realm"), any<std::string>("uri")); } catch (const std::exception&) { threw = true; } released(); if (threw) __v_reach("threw"); else __v_reach("done"); }
