// libcurl, replaced by a recorder
#pragma once
#define CURL_DISABLE_TYPECHECK
#include <curl/curl.h>
#include <stdarg.h>
#include <atomic>
#include <mutex>
#include <string>
#include <vector>
#include <thread>
#include <chrono>
namespace fc {
struct Req { std::string url, method, body; bool hasbody; std::vector<std::string> headers; std::string userpwd; long timeout, httpauth; int perform_no; };
struct H { std::string url; bool url_set = false; std::string custom; bool has_custom = false; bool nobody = false; int req = 0; const char* fields = nullptr; std::string copied; bool has_copied = false; long long size = -1; curl_slist* hdr = nullptr; std::string userpwd; long timeout = 0, httpauth = 0; std::atomic<int> busy{0}; long status = 0; std::string useragent; bool dirty = false; };
static std::mutex mu; static std::vector<Req> log; static std::vector<std::pair<CURLcode, long>> plan; static size_t plan_i = 0; static std::atomic<int> overlaps{0}, fail_append{0}, inits{0}, cleanups{0}, lists_freed{0}, setopt_while_busy{0}, unreset{0}; static std::atomic<int> delay_us{0}; static std::function<std::pair<CURLcode, long>(const Req&)> decide; static int fail_at = -1;
}
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
CURL* curl_easy_init(void) { ++fc::inits; return (CURL*)new fc::H; }
CURL* curl_easy_duphandle(CURL* c) { fc::H* o = (fc::H*)c; fc::H* n = new fc::H; n->url = o->url; n->url_set = o->url_set; return (CURL*)n; }
void curl_easy_cleanup(CURL* c) { ++fc::cleanups; delete (fc::H*)c; }
void curl_easy_reset(CURL* c) { fc::H* h = (fc::H*)c; if (h->busy) ++fc::overlaps; h->url.clear(); h->url_set = false; h->custom.clear(); h->has_custom = h->nobody = false; h->req = 0; h->fields = nullptr; h->has_copied = false; h->size = -1; h->hdr = nullptr; h->userpwd.clear(); h->timeout = h->httpauth = 0; h->useragent.clear(); h->dirty = false; }
#undef curl_easy_setopt
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  fc::H* h = (fc::H*)c; if (h->busy) ++fc::overlaps; va_list a; va_start(a, o);
  switch (o) {
    case CURLOPT_URL: { const char* p = va_arg(a, const char*); h->url = p ? p : ""; h->url_set = true; break; }
    case CURLOPT_HTTPHEADER: h->hdr = va_arg(a, curl_slist*); break;
    case CURLOPT_POSTFIELDS: h->fields = va_arg(a, const char*); h->has_copied = false; h->req = 1; break;
    case CURLOPT_COPYPOSTFIELDS: { const char* p = va_arg(a, const char*); h->has_copied = p != nullptr; if (p) { if (h->size >= 0) h->copied.assign(p, h->size); else h->copied = p; } h->req = 1; h->fields = p ? h->copied.data() : nullptr; break; }
    case CURLOPT_POSTFIELDSIZE: h->size = va_arg(a, long); break;
    case CURLOPT_POSTFIELDSIZE_LARGE: h->size = va_arg(a, curl_off_t); break;
    case CURLOPT_POST: if (va_arg(a, long)) { h->req = 1; h->nobody = false; } else h->req = 0; break;
    case CURLOPT_UPLOAD: case CURLOPT_PUT: if (va_arg(a, long)) { h->req = 2; h->nobody = false; } else h->req = 0; break;
    case CURLOPT_NOBODY: h->nobody = va_arg(a, long) != 0; if (h->nobody) h->req = 3; else if (h->req == 3) h->req = 0; break;
    case CURLOPT_HTTPGET: if (va_arg(a, long)) { h->req = 0; h->nobody = false; } break;
    case CURLOPT_CUSTOMREQUEST: { const char* p = va_arg(a, const char*); h->has_custom = p != nullptr; h->custom = p ? p : ""; break; }
    case CURLOPT_USERPWD: { const char* p = va_arg(a, const char*); h->userpwd = p ? p : ""; break; }
    case CURLOPT_HTTPAUTH: h->httpauth = va_arg(a, long); break;
    case CURLOPT_TIMEOUT: h->timeout = va_arg(a, long); break;
    case CURLOPT_USERAGENT: { const char* p = va_arg(a, const char*); h->useragent = p ? p : ""; break; }
    default: break;
  }
  va_end(a); return CURLE_OK; }
CURLcode curl_easy_perform(CURL* c) {
  fc::H* h = (fc::H*)c; if (h->busy.exchange(1)) ++fc::overlaps;
  fc::Req r; r.url = h->url; r.method = h->has_custom ? h->custom : h->req == 2 ? "PUT" : h->req == 3 ? "HEAD" : h->req == 1 ? "POST" : "GET"; r.hasbody = h->fields != nullptr;
  if (h->nobody || h->req == 0 || h->req == 3) {} else if (h->fields) r.body = h->size >= 0 ? std::string(h->fields, h->size) : std::string(h->fields); else if (h->size) r.body = "<whatever the read callback supplies>"; for (curl_slist* l = h->hdr; l; l = l->next) r.headers.push_back(l->data); r.userpwd = h->userpwd; r.timeout = h->timeout; r.httpauth = h->httpauth;
  if (fc::delay_us) std::this_thread::sleep_for(std::chrono::microseconds(fc::delay_us.load()));
  CURLcode rc = CURLE_OK; h->status = 200;
  { std::lock_guard<std::mutex> l(fc::mu); r.perform_no = (int)fc::log.size(); fc::log.push_back(r); if (fc::decide) { auto p = fc::decide(r); rc = p.first; h->status = p.second; } else if (fc::plan_i < fc::plan.size()) { rc = fc::plan[fc::plan_i].first; h->status = fc::plan[fc::plan_i].second; ++fc::plan_i; } }
  h->busy = 0; return rc; }
#undef curl_easy_getinfo
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) { fc::H* h = (fc::H*)c; if (h->busy) ++fc::overlaps; va_list a; va_start(a, i); if (i == CURLINFO_RESPONSE_CODE) *va_arg(a, long*) = h->status; va_end(a); return CURLE_OK; }
curl_slist* curl_slist_append(curl_slist* l, const char* s) { if (fc::fail_append) return nullptr; curl_slist* n = new curl_slist; n->data = strdup(s); n->next = nullptr; if (!l) return n; curl_slist* e = l; while (e->next) e = e->next; e->next = n; return l; }
void curl_slist_free_all(curl_slist* l) { while (l) { curl_slist* n = l->next; free(l->data); l->data = nullptr; delete l; l = n; } }
const char* curl_easy_strerror(CURLcode) { return "error"; }
}
