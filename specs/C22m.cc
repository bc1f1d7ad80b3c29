#define ENV_ALIVE
#include "civet.h"
#include "guard.h"
#include <vector>
#include <stdexcept>
#include "handler.h"
#include "prometheus/text_serializer.h"
using namespace prometheus; using detail::MetricsHandler;
extern "C" bool __v_alive(const void* p) { return p && __v_fn_bool("alive", __v_ref(p), 0); }
typedef std::vector<MetricFamily> Families;
// contracts: Collect gives some list of families or throws; Serialize (C14) and the compressor (C18) some text;
// the endpoint's own metrics (C01, C05) have locks of their own
extern "C" void __v_virtual_2(Families* r, const Collectable* c) { if (__v_fn_bool("throws", __v_ref(c), 0)) throw std::runtime_error("collect"); __v_fn_vec(r, "collected", __v_ref(c), 0, sizeof(MetricFamily)); }
std::string ct_serialize(const Serializer*, const Families& f) __asm__("__ct__ZNK10prometheus10Serializer9SerializeERKSt6vectorINS_12MetricFamilyESaIS2_EE");
std::string ct_serialize(const Serializer*, const Families& f) { std::string r; __v_fn_str(&r, "text", __v_vecid(&f, sizeof(MetricFamily)), 0); return r; }
extern "C" int deflateInit2_(void*, int, int, int, int, int, const char*, int) { return -4; }
extern "C" int deflate(void*, int) { return -2; }
extern "C" int deflateEnd(void*) { return 0; }
void ct_inc(Counter* c) __asm__("__ct__ZN10prometheus7Counter9IncrementEv"); void ct_inc(Counter* c) {}
void ct_add(Counter* c, double v) __asm__("__ct__ZN10prometheus7Counter9IncrementEd"); void ct_add(Counter* c, double v) {}
void ct_observe(Summary* s, double) __asm__("__ct__ZN10prometheus7Summary7ObserveEd"); void ct_observe(Summary* s, double) {}
static MetricsHandler& guarded() {
  MetricsHandler& h = any<MetricsHandler>("handler"); mutable_state(h, h.collectables_, h.collectables_mutex_, "MetricsHandler::collectables_");
  fixed_state(h.bytes_transferred_, "the byte counter of an endpoint"); fixed_state(h.num_scrapes_, "the scrape counter of an endpoint"); fixed_state(h.request_latencies_, "the latencies of an endpoint");
  return h;
}
static std::weak_ptr<Collectable> one() { std::weak_ptr<Collectable> w; w.p_ = __v_any_bool("already gone") ? nullptr : (Collectable*)__v_any_heap("collectable"); return w; }
ENTRY(t_register) { MetricsHandler& h = guarded(); h.RegisterCollectable(one()); released(); }
ENTRY(t_remove) { MetricsHandler& h = guarded(); h.RemoveCollectable(one()); released(); }
ENTRY(t_scrape) {
  MetricsHandler& h = guarded(); std::string& enc = any<std::string>("encodings"); __v_nonul(&enc); web::request("accept-encoding", false, enc);
  bool threw = false; try { h.MetricsHandler::handleGet(nullptr, web::conn()); } catch (const std::exception&) { threw = true; } released(); if (threw) __v_reach("threw"); else __v_reach("answered");
}
