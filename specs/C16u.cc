#include "env.h"
#include <functional>
#include <sstream>
#define CURL_DISABLE_TYPECHECK
#include "prometheus/gateway.h"
#include "prometheus/collectable.h"
#include "prometheus/metric_family.h"
#include "prometheus/text_serializer.h"
#include "label_encoder.h"
#include "curl_wrapper.h"
using namespace prometheus; using detail::CurlWrapper; using detail::HttpMethod;
typedef std::vector<MetricFamily> Families;
extern "C" void __v_virtual_2(Families* r, const Collectable* c) { new (r) Families(); }
std::string ct_serialize(const Serializer*, const Families& f) __asm__("__ct__ZNK10prometheus10Serializer9SerializeERKSt6vectorINS_12MetricFamilyESaIS2_EE");
std::string ct_serialize(const Serializer*, const Families& f) { return std::string(); }
// the connection: only the URL asked for matters here
static std::string* asked; static int requests;
void ct_curl(CurlWrapper*, std::function<void(CURL*)>) __asm__("__ct__ZN10prometheus6detail11CurlWrapperC1ESt8functionIFvPvEE");
void ct_curl(CurlWrapper* w, std::function<void(CURL*)>) { new (&w->presetupCurl_) std::function<void(CURL*)>(); }
void ct_uncurl(CurlWrapper*) __asm__("__ct__ZN10prometheus6detail11CurlWrapperD1Ev");
void ct_uncurl(CurlWrapper*) {}
int ct_request(CurlWrapper* w, HttpMethod m, const std::string& uri, const std::string& body) __asm__("__ct__ZN10prometheus6detail11CurlWrapper18performHttpRequestENS0_10HttpMethodERKSsS4_");
int ct_request(CurlWrapper* w, HttpMethod m, const std::string& uri, const std::string& body) { *asked = uri; ++requests; return 200; }

// contract of base64url_encode (decided as C15): a function of its argument
static std::string b64url(const std::string& v) { std::string r; __v_fn_str(&r, "base64url", __v_strid(&v), 0); return r; }
std::string ct_b64(const std::string& v) __asm__("__ct__ZN10prometheus6detail16base64url_encodeERKSs");
std::string ct_b64(const std::string& v) { return b64url(v); }
#include "segment.h"
static std::string path(const Labels& ls) { std::string r; for (const auto& l : ls) segment(r, l.first, l.second); return r; }
static std::string jobpath(const std::string& url, const std::string& job) { std::string r = url; if (!url.empty() && url[url.size() - 1] != '/') r += "/"; r += "metrics"; segment(r, "job", job); return r; }
static void urls(Gateway& g, const std::string& jobp, const std::string& labelp) {
  asked = new std::string; requests = 0;
  g.Delete(); check(requests == 1, "one request"); check_eq(*asked, jobp, "the job URL is the base URL, the metrics path and the job");
  g.DeleteForInstance(); check(requests == 2, "one request"); check_eq(*asked, jobp + labelp, "the labels follow in order");
}
ENTRY(t_url) {
  std::string &url = any<std::string>("url"), &job = any<std::string>("job"); Labels& ls = any<Labels>("labels");
  Gateway g(url, std::function<void(CURL*)>(), job, ls);
  urls(g, jobpath(url, job), path(ls));
}
ENTRY(t_host_port) {
  std::string &host = any<std::string>("host"), &port = any<std::string>("port"), &job = any<std::string>("job"); Labels& ls = any<Labels>("labels");
  Gateway g(host, port, job, ls);
  urls(g, jobpath(host + ":" + port, job), path(ls));
}
ENTRY(t_host_port_setup) {
  std::string &host = any<std::string>("host"), &port = any<std::string>("port"), &job = any<std::string>("job"); Labels& ls = any<Labels>("labels");
  Gateway g(host, port, std::function<void(CURL*)>(), job, ls);
  urls(g, jobpath(host + ":" + port, job), path(ls));
}
static void registered(bool with) {
  std::string &url = any<std::string>("url"), &job = any<std::string>("job"); Labels& ls = any<Labels>("labels"); Labels& own = any<Labels>("own labels");
  Gateway g(url, std::function<void(CURL*)>(), job, ls);
  std::shared_ptr<Collectable> c((Collectable*)__v_any_heap("collectable"));
  if (with) g.RegisterCollectable(c, &own); else g.RegisterCollectable(c);
  asked = new std::string; requests = 0;
  g.Push(); check(requests == 1, "one request per collectable");
  std::string want = jobpath(url, job) + path(ls); if (with) want += path(own);
  check_eq(*asked, want, "a push goes to the job URL followed by the labels of the gateway and of the collectable");
}
ENTRY(t_register) { registered(false); }
ENTRY(t_register_labels) { registered(true); }
