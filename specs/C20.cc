#define ENV_ALIVE
#include "env.h"
#include <functional>
#define CURL_DISABLE_TYPECHECK
#include "prometheus/gateway.h"
#include "prometheus/collectable.h"
#include "prometheus/metric_family.h"
#include "prometheus/text_serializer.h"
#include "curl_wrapper.h"
using namespace prometheus; using detail::CurlWrapper; using detail::HttpMethod;
extern "C" bool __v_alive(const void* p) { return p && __v_fn_bool("alive", __v_ref(p), 0); }
typedef std::vector<MetricFamily> Families;
// contract of Collect: some list of families per collectable; of Serialize: a function of that list
extern "C" void __v_virtual_2(Families* r, const Collectable* c) { check(__v_alive(c), "only live objects are collected"); __v_fn_vec(r, "collected", __v_ref(c), 0, sizeof(MetricFamily)); }
std::string ct_serialize(const Serializer*, const Families& f) __asm__("__ct__ZNK10prometheus10Serializer9SerializeERKSt6vectorINS_12MetricFamilyESaIS2_EE");
std::string ct_serialize(const Serializer*, const Families& f) { std::string r; __v_fn_str(&r, "text", __v_vecid(&f, sizeof(MetricFamily)), 0); return r; }
// contract of performHttpRequest (proved as C21): sends one request, returns any status
struct Log { std::vector<std::string> urls, bodies; std::vector<int> methods; int n; };
static Log* log_;
static int status(int k) { return __v_fn_i32("status", k, 0); }
int ct_request(CurlWrapper* w, HttpMethod m, const std::string& uri, const std::string& body) __asm__("__ct__ZN10prometheus6detail11CurlWrapper18performHttpRequestENS0_10HttpMethodERKSsS4_");
int ct_request(CurlWrapper* w, HttpMethod m, const std::string& uri, const std::string& body) { log_->urls.push_back(uri); log_->bodies.push_back(body); log_->methods.push_back((int)m); return status(log_->n++); }

struct Any { Gateway* g; std::string job, labels; };
static Any a_gateway() {
  Any a; a.g = &any<Gateway>("gateway"); new (&a.g->curlWrapper_) std::unique_ptr<CurlWrapper>((CurlWrapper*)__v_any_heap("curl"));
  a.job = a.g->jobUri_; a.labels = a.g->labels_; log_ = new Log; log_->n = 0; return a;
}
static bool bad(int s) { return s < 100 || s >= 400; }
typedef std::pair<std::weak_ptr<Collectable>, std::string> Entry;
static std::string text(const Collectable* c) { Families f; __v_fn_vec(&f, "collected", __v_ref(c), 0, sizeof(MetricFamily)); std::string r; __v_fn_str(&r, "text", __v_vecid(&f, sizeof(MetricFamily)), 0); return r; }
static void want(Log& w, const Any& a, const Entry& e, int method) { w.urls.push_back(a.job + a.labels + e.second); w.bodies.push_back(text(e.first.p_)); w.methods.push_back(method); w.n++; }
// the requests a synchronous push sends, and what it returns
static int reference(const Any& a, const std::vector<Entry>& es, int method, Log& w) {
  w.n = 0;
  for (size_t i = 0; i < es.size(); ++i) { if (!__v_alive(es[i].first.p_)) continue; want(w, a, es[i], method); int s = status(w.n - 1); if (bad(s)) return s; }
  return 200;
}
static void same_log(const Log& w) {
  check(log_->n == w.n, "one request per live collectable");
  check_vec(log_->urls, w.urls, "each request goes to its own URL, in registration order"); check_vec(log_->bodies, w.bodies, "each request carries exactly its collectable's serialised metrics"); check_vec(log_->methods, w.methods, "each request has the method of the call");
  check(__v_locks_held() == 0, "no lock stays held");
}
static void sync(int method, bool add) {
  Any a = a_gateway(); std::vector<Entry> es = a.g->collectables_; Log w;
  int want = reference(a, es, method, w);
  int r = add ? a.g->PushAdd() : a.g->Push();
  check(r == want, "a push returns 200 or the status of the first failure"); same_log(w);
}
ENTRY(t_push) { sync((int)HttpMethod::Post, false); }
ENTRY(t_push_add) { sync((int)HttpMethod::Put, true); }
static void async(int method, bool add) {
  Any a = a_gateway(); std::vector<Entry> es = a.g->collectables_; Log w; w.n = 0;
  for (size_t i = 0; i < es.size(); ++i) { if (!__v_alive(es[i].first.p_)) continue; want(w, a, es[i], method); }
  int r = add ? a.g->AsyncPushAdd().get() : a.g->AsyncPush().get();
  same_log(w);
  bool anybad = false, isone = false; for (int k = 0; k < w.n; ++k) { if (bad(status(k))) anybad = true; if (bad(status(k)) && status(k) == r) isone = true; }
  if (anybad) check(isone, "an asynchronous push returns the status of a failed request if any failed"); else check(r == 200, "an asynchronous push returns 200 if all succeeded");
}
ENTRY(t_async_push) { async((int)HttpMethod::Post, false); }
ENTRY(t_async_push_add) { async((int)HttpMethod::Put, true); }
static void del(bool instance, bool as) {
  Any a = a_gateway(); Log w; w.n = 1; w.urls.push_back(instance ? a.job + a.labels : a.job); w.bodies.push_back(std::string()); w.methods.push_back((int)HttpMethod::Delete);
  int r = as ? (instance ? a.g->AsyncDeleteForInstance().get() : a.g->AsyncDelete().get()) : instance ? a.g->DeleteForInstance() : a.g->Delete();
  check(r == status(0), "a delete returns the status of its request"); same_log(w);
}
ENTRY(t_delete) { del(false, false); } ENTRY(t_delete_instance) { del(true, false); } ENTRY(t_async_delete) { del(false, true); } ENTRY(t_async_delete_instance) { del(true, true); }
