#include "curl.h"
#include "guard.h"
#include <functional>
#include "curl_wrapper.h"
using namespace prometheus::detail;
// every use of the handle and of the header list is checked to lie in one critical section (curl.h)
static CurlWrapper& guarded(bool pre, long& called) {
  crl::setup(); CurlWrapper& w = any<CurlWrapper>("wrapper");
  if (pre) new (&w.presetupCurl_) std::function<void(CURL*)>([&called](CURL* c) { ++called; curl_easy_setopt(c, CURLOPT_TIMEOUT, __v_any_i64("own timeout")); }); else new (&w.presetupCurl_) std::function<void(CURL*)>();
  w.curl_ = (CURL*)&crl::a_handle(); w.optHttpHeader_ = crl::a_list(); crl::owner = &w; crl::owner_size = sizeof(CurlWrapper);
  mutable_state(w, w.optHttpHeader_, w.mutex_, "CurlWrapper::optHttpHeader_"); fixed_state(w.curl_, "CurlWrapper::curl_"); fixed_state(w.presetupCurl_, "CurlWrapper::presetupCurl_");
  return w;
}
static void request(HttpMethod m, bool pre, bool with_body) { long called = 0; CurlWrapper& w = guarded(pre, called); std::string& uri = any<std::string>("uri"); __v_nonul(&uri); std::string& body = any<std::string>("body"); __v_assume(body.size() < (1ul << 62)); if (with_body) { __v_assume(!body.empty()); w.performHttpRequest(m, uri, body); } else w.performHttpRequest(m, uri); released(); }
ENTRY(t_post) { request(HttpMethod::Post, true, true); }
ENTRY(t_put) { request(HttpMethod::Put, true, true); }
ENTRY(t_delete) { request(HttpMethod::Delete, true, false); }
ENTRY(t_plain) { request(HttpMethod::Post, false, true); }
ENTRY(t_delete_plain) { request(HttpMethod::Delete, false, false); }
ENTRY(t_header) { long called = 0; CurlWrapper& w = guarded(false, called); std::string& hd = any<std::string>("header"); __v_nonul(&hd); crl::append_fails = __v_any_bool("append fails"); w.addHttpHeader(hd); released(); }
