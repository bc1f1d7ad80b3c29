// libcurl as the contracts see it: a handle is the options set since its last reset, a transfer records what it
// would send, its outcome is arbitrary.
#pragma once
#include "env.h"
#define CURL_DISABLE_TYPECHECK
#include <curl/curl.h>
namespace crl {
enum { GET, POST, PUT, HEAD };
// what one transfer sends
struct Request { std::string* url; std::string* method; std::string* body; curl_slist* headers; long timeout; std::string* userpwd; long auth; };
struct Handle { bool has_url, has_custom, nobody, has_fields, has_user; int req; const char* fields; long size; curl_slist* headers; long timeout, auth; std::string* url; std::string* custom; std::string* user; };
static Handle* h; static Request* sent; static long transfers; static int rc; static long status;
static const void* owner; static size_t owner_size; static long section;   // the object whose lock protects the handle
static curl_slist* lists[4]; static std::vector<std::string>* content[4]; static int nlists, freed; static bool append_fails;
static void use(CURL* c) {
  check(c == (CURL*)h, "the transfer handle is the wrapper's own");
  if (owner) { long s = __v_section(owner, owner_size); check(s != 0, "the handle is only used while its lock is held"); check(section == 0 || s == section, "a request is one critical section"); section = s; }
}
static void clear() { h->has_url = h->has_custom = h->nobody = h->has_fields = h->has_user = false; h->req = GET; h->fields = nullptr; h->size = -1; h->headers = nullptr; h->timeout = h->auth = 0; }
static void setup() { transfers = 0; sent = new Request; owner = nullptr; section = 0; nlists = 0; freed = 0; append_fails = false; rc = __v_any_i32("curl result"); __v_assume(rc >= 0 && rc < 1000); status = __v_any_i32("response code"); }
static int list_no(const curl_slist* l) { for (int i = 0; i < nlists; ++i) if (l == lists[i]) return i; return -1; }
static curl_slist* a_list() { content[nlists] = &any<std::vector<std::string>>("headers"); lists[nlists] = new curl_slist; return lists[nlists++]; }
static Handle& a_handle() {   // a handle in any state an earlier request may have left
  h = new Handle; h->has_url = __v_any_bool("url set"); h->has_custom = __v_any_bool("custom set"); h->req = __v_any_i32("request kind"); h->nobody = __v_any_bool("nobody"); h->has_fields = __v_any_bool("fields set"); h->has_user = __v_any_bool("user set");
  h->fields = "stale"; h->size = __v_any_i64("size"); h->headers = nullptr; h->timeout = __v_any_i64("timeout"); h->auth = __v_any_i64("auth"); h->url = new std::string("stale"); h->custom = new std::string("STALE"); h->user = new std::string("stale"); return *h;
}
}
#undef curl_easy_setopt
#undef curl_easy_getinfo
extern "C" {
CURLcode curl_global_init(long) { return CURLE_OK; }
void curl_global_cleanup(void) {}
CURL* curl_easy_init(void) { return (CURL*)&crl::a_handle(); }
void curl_easy_cleanup(CURL* c) {}
void curl_easy_reset(CURL* c) { crl::use(c); crl::clear(); }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
  crl::use(c); crl::Handle* h = crl::h;
  switch (o) {
    case CURLOPT_URL: { const char* p = (const char*)__v_va_ptr(0); h->has_url = p != nullptr; if (p) h->url = new std::string(p); break; }
    case CURLOPT_HTTPHEADER: h->headers = (curl_slist*)__v_va_ptr(0); break;
    case CURLOPT_POSTFIELDS: { const char* p = (const char*)__v_va_ptr(0); h->fields = p; h->has_fields = p != nullptr; h->req = crl::POST; break; }
    case CURLOPT_POSTFIELDSIZE: case CURLOPT_POSTFIELDSIZE_LARGE: h->size = __v_va_i64(0); break;
    case CURLOPT_POST: if (__v_va_i64(0)) { h->req = crl::POST; h->nobody = false; } else h->req = crl::GET; break;
    case CURLOPT_UPLOAD: if (__v_va_i64(0)) { h->req = crl::PUT; h->nobody = false; } else h->req = crl::GET; break;
    case CURLOPT_NOBODY: h->nobody = __v_va_i64(0) != 0; if (h->nobody) h->req = crl::HEAD; else if (h->req == crl::HEAD) h->req = crl::GET; break;
    case CURLOPT_HTTPGET: if (__v_va_i64(0)) { h->req = crl::GET; h->nobody = false; } break;
    case CURLOPT_CUSTOMREQUEST: { const char* p = (const char*)__v_va_ptr(0); h->has_custom = p != nullptr; if (p) h->custom = new std::string(p); break; }
    case CURLOPT_USERPWD: { const char* p = (const char*)__v_va_ptr(0); h->has_user = p != nullptr; if (p) h->user = new std::string(p); break; }
    case CURLOPT_HTTPAUTH: h->auth = __v_va_i64(0); break;
    case CURLOPT_TIMEOUT: h->timeout = __v_va_i64(0); break;
    case CURLOPT_COPYPOSTFIELDS: __v_limit("COPYPOSTFIELDS is not in the libcurl contract"); break;
    default: break;
  }
  return CURLE_OK;
}
CURLcode curl_easy_perform(CURL* c) {
  crl::use(c); crl::Handle* h = crl::h; crl::Request* r = crl::sent; crl::transfers++;
  r->url = h->has_url ? new std::string(*h->url) : new std::string;
  r->method = h->has_custom ? new std::string(*h->custom) : new std::string(h->req == crl::PUT ? "PUT" : h->req == crl::HEAD ? "HEAD" : h->req == crl::POST ? "POST" : "GET");
  if (h->nobody || h->req == crl::GET || h->req == crl::HEAD) r->body = new std::string; else if (h->req == crl::PUT || !h->has_fields) r->body = h->size != 0 ? new std::string("<whatever the read callback supplies>") : new std::string; else if (h->size >= 0) r->body = new std::string(h->fields, (size_t)h->size); else r->body = new std::string(h->fields);
  r->headers = h->headers; r->timeout = h->timeout; r->auth = h->auth; r->userpwd = h->has_user ? new std::string(*h->user) : new std::string;
  return (CURLcode)crl::rc;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) { crl::use(c); if (i == CURLINFO_RESPONSE_CODE) *(long*)__v_va_ptr(0) = crl::status; else __v_limit("getinfo"); return CURLE_OK; }
curl_slist* curl_slist_append(curl_slist* l, const char* s) {
  if (crl::append_fails) return nullptr;
  int i = crl::list_no(l);
  if (!l) { i = crl::nlists++; crl::content[i] = new std::vector<std::string>; crl::lists[i] = new curl_slist; } else { check(i >= 0, "a header is appended to the list of headers"); if (crl::owner) check(__v_section(crl::owner, crl::owner_size) != 0, "the headers are only changed while the lock is held"); }
  crl::content[i]->push_back(std::string(s)); return crl::lists[i];
}
void curl_slist_free_all(curl_slist* l) { if (l) crl::freed++; }
const char* curl_easy_strerror(CURLcode) { return "error"; }
}
