#include "curl.h"
#include <functional>
#include "curl_wrapper.h"
using namespace prometheus::detail;
// a wrapper after any history of requests: arbitrary handle state, arbitrary headers
static CurlWrapper& a_wrapper(bool pre, bool& called) {
  crl::setup(); CurlWrapper& w = any<CurlWrapper>("wrapper");
  if (pre) new (&w.presetupCurl_) std::function<void(CURL*)>([&called](CURL* c) { called = true; curl_easy_setopt(c, CURLOPT_TIMEOUT, __v_any_i64("own timeout")); curl_easy_setopt(c, CURLOPT_HTTPAUTH, 7L); curl_easy_setopt(c, CURLOPT_USERPWD, "user:pass"); });
  else new (&w.presetupCurl_) std::function<void(CURL*)>();
  w.curl_ = (CURL*)&crl::a_handle(); w.optHttpHeader_ = crl::a_list();
  crl::owner = &w; crl::owner_size = sizeof(CurlWrapper);
  return w;
}
static void request2(HttpMethod m, const char* name, bool with_body, bool pre) {
  bool called = false; CurlWrapper* w = &a_wrapper(pre, called);
  std::string& uri = any<std::string>("uri"); std::string& body = any<std::string>("body"); __v_nonul(&uri); std::vector<std::string> headers = *crl::content[0]; std::string uri0 = uri, body0 = body;
  __v_assume(body.size() < (1ul << 62));
  if (with_body) __v_assume(!body.empty());
  int r = with_body ? w->performHttpRequest(m, uri, body) : w->performHttpRequest(m, uri);
  check(crl::transfers == 1, "one transfer per request");
  check_eq(*crl::sent->url, uri0, "the request has exactly its own URL");
  check_eq(*crl::sent->method, name, "the request has the method asked for");
  check_eq(*crl::sent->body, with_body ? body0 : std::string(), "the request carries exactly its own body bytes");
  check(crl::list_no(crl::sent->headers) == 0 && crl::sent->headers == w->optHttpHeader_, "the request carries the configured headers");
  check_vec(*crl::content[0], headers, "a request does not change the headers");
  check(called == pre, "the configured setup is applied to every request");
  if (pre) { check(crl::sent->timeout == __v_any_i64("own timeout") && crl::sent->auth == 7, "the configured setup reaches the transfer"); check_eq(*crl::sent->userpwd, "user:pass", "the configured credentials are sent"); }
  else { check(crl::sent->timeout == 0 && crl::sent->auth == 0, "nothing of an earlier request leaks into it"); check_eq(*crl::sent->userpwd, "", "no stale credentials are sent"); }
  if (crl::rc) check(r < 0, "a failed transfer gives a negative number"); else check(r == crl::status, "the response code is returned");
  check(__v_locks_held() == 0, "no lock stays held");
}
static void request(HttpMethod m, const char* name, bool with_body) { if (__v_any_bool("presetup")) request2(m, name, with_body, true); else request2(m, name, with_body, false); }
ENTRY(t_post) { request(HttpMethod::Post, "POST", true); }
ENTRY(t_put) { request(HttpMethod::Put, "PUT", true); }
ENTRY(t_delete) { request(HttpMethod::Delete, "DELETE", true); }
ENTRY(t_post_empty) { request(HttpMethod::Post, "POST", false); }
ENTRY(t_put_empty) { request(HttpMethod::Put, "PUT", false); }
ENTRY(t_delete_empty) { request(HttpMethod::Delete, "DELETE", false); }
ENTRY(t_header) {
  bool called = false; CurlWrapper& w = a_wrapper(false, called); std::string& hd = any<std::string>("header"); __v_nonul(&hd); std::vector<std::string> before = *crl::content[0]; curl_slist* l = w.optHttpHeader_; CURL* c = w.curl_;
  crl::append_fails = __v_any_bool("append fails");
  bool r = w.addHttpHeader(hd);
  check(r == !crl::append_fails, "adding a header reports whether it succeeded");
  check(w.optHttpHeader_ == l && crl::freed == 0 && w.curl_ == c, "the list of headers stays in use");
  if (!crl::append_fails) before.push_back(hd);
  check_vec(*crl::content[0], before, "a header is added at the end, one that fails changes nothing");
  check(__v_locks_held() == 0, "no lock stays held");
}
ENTRY(t_construct) {
  crl::setup(); CurlWrapper w((std::function<void(CURL*)>()));
  check(w.curl_ == (CURL*)crl::h, "a new wrapper has its own handle");check(crl::nlists == 1, "a new wrapper has one list of headers"); check(w.optHttpHeader_ == crl::lists[0], "a new wrapper has its own headers");
  check(crl::content[0]->size() == 1, "a new wrapper sends the content type");
  check((*crl::content[0])[0].find("Content-Type: text/plain") == 0, "a new wrapper sends the content type");
}
