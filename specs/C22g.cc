#define ENV_ALIVE
#include "env.h"
#include "guard.h"
#include <functional>
#include <stdexcept>
#define CURL_DISABLE_TYPECHECK
#include "prometheus/gateway.h"
#include "prometheus/collectable.h"
#include "prometheus/metric_family.h"
#include "prometheus/text_serializer.h"
#include "curl_wrapper.h"
#include <sstream>
#include "label_encoder.h"

using namespace prometheus; using detail::CurlWrapper; using detail::HttpMethod;
extern "C" bool __v_alive(const void* p) { return p && __v_fn_bool("alive", __v_ref(p), 0); }
typedef std::vector<MetricFamily> Families;
// contracts: Collect gives some list of families or throws, Serialize (C14) some text, a request (C21) any status or throws
extern "C" void __v_virtual_2(Families* r, const Collectable* c) { if (__v_fn_bool("throws", __v_ref(c), 0)) throw std::runtime_error("collect"); __v_fn_vec(r, "collected", __v_ref(c), 0, sizeof(MetricFamily)); }
std::string ct_serialize(const Serializer*, const Families& f) __asm__("__ct__ZNK10prometheus10Serializer9SerializeERKSt6vectorINS_12MetricFamilyESaIS2_EE");
std::string ct_serialize(const Serializer*, const Families& f) { std::string r; __v_fn_str(&r, "text", __v_vecid(&f, sizeof(MetricFamily)), 0); return r; }
int ct_request(CurlWrapper* w, HttpMethod m, const std::string& uri, const std::string& body) __asm__("__ct__ZN10prometheus6detail11CurlWrapper18performHttpRequestENS0_10HttpMethodERKSsS4_");
int ct_request(CurlWrapper* w, HttpMethod m, const std::string& uri, const std::string& body) { return __v_fn_i32("status", __v_strid(&uri), __v_strid(&body)); }
bool ct_header(CurlWrapper* w, const std::string& h) __asm__("__ct__ZN10prometheus6detail11CurlWrapper13addHttpHeaderERKSs"); bool ct_header(CurlWrapper* w, const std::string& h) { return __v_any_bool("added"); }
// contract of base64url_encode (C15): a function of its argument
std::string ct_b64(const std::string& v) __asm__("__ct__ZN10prometheus6detail16base64url_encodeERKSs"); std::string ct_b64(const std::string& v) { std::string r; __v_fn_str(&r, "base64url", __v_strid(&v), 0); return r; }
static Gateway& guarded() {
  Gateway& g = any<Gateway>("gateway"); new (&g.curlWrapper_) std::unique_ptr<CurlWrapper>((CurlWrapper*)__v_any_heap("curl"));
  mutable_state(g, g.collectables_, g.mutex_, "Gateway::collectables_"); fixed_state(g.jobUri_, "Gateway::jobUri_"); fixed_state(g.labels_, "Gateway::labels_"); fixed_state(g.curlWrapper_, "Gateway::curlWrapper_");
  return g;
}
template <class F> static void op(F f) { Gateway& g = guarded(); bool threw = false; try { f(g); } catch (const std::exception&) { threw = true; } released(); if (threw) __v_reach("threw"); else __v_reach("done"); }
static std::weak_ptr<Collectable> one() { std::weak_ptr<Collectable> w; w.p_ = (Collectable*)__v_any_heap("collectable"); return w; }
ENTRY(t_register) { op([](Gateway& g) { g.RegisterCollectable(one(), nullptr); }); }
ENTRY(t_register_labels) { op([](Gateway& g) { g.RegisterCollectable(one(), &any<Labels>("labels")); }); }
ENTRY(t_push) { op([](Gateway& g) { g.Push(); }); }
ENTRY(t_push_add) { op([](Gateway& g) { g.PushAdd(); }); }
ENTRY(t_async_push) { op([](Gateway& g) { g.AsyncPush().get(); }); }
ENTRY(t_async_push_add) { op([](Gateway& g) { g.AsyncPushAdd().get(); }); }
ENTRY(t_delete) { op([](Gateway& g) { g.Delete(); }); }
ENTRY(t_delete_instance) { op([](Gateway& g) { g.DeleteForInstance(); }); }
ENTRY(t_async_delete) { op([](Gateway& g) { g.AsyncDelete().get(); }); }
ENTRY(t_async_delete_instance) { op([](Gateway& g) { g.AsyncDeleteForInstance().get(); }); }
ENTRY(t_header) { op([](Gateway& g) { g.AddHttpHeader(any<std::string>("header")); }); }
