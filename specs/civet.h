// The web server as the contracts see it: it hands out request headers and records what is written.
#pragma once
#include "env.h"
#include "CivetServer.h"
namespace web {
static char conn_; static mg_connection* conn() { return (mg_connection*)&conn_; }
static const char* hdr_name; static bool hdr_present; static std::string* hdr_value; static int hdr_reads;
static std::string* out;            // everything written on the connection, in order
static int writes;
static bool ieq(const char* a, const char* b) { for (; *a && *b; ++a, ++b) { char x = *a, y = *b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return false; } return *a == *b; }
// a request with at most the one header that matters
static void request(const char* name, bool present, std::string& value) { out = new std::string; writes = 0; hdr_reads = 0; hdr_name = name; hdr_present = present; hdr_value = &value; }
}
extern "C" const char* mg_get_header(const mg_connection* c, const char* n) {
  check(c == web::conn(), "the request's own headers are read"); web::hdr_reads++;
  if (!web::ieq(n, web::hdr_name) || !web::hdr_present) return nullptr;
  return web::hdr_value->c_str();
}
extern "C" int mg_write(mg_connection* c, const void* b, size_t n) { check(c == web::conn(), "the response goes to the request's connection"); web::out->append((const char*)b, n); web::writes++; return (int)n; }
extern "C" int mg_printf(mg_connection* c, const char* f, ...) {
  check(c == web::conn(), "the response goes to the request's connection");
  int a = 0;
  for (; *f; ++f) {
    if (*f != '%') { web::out->push_back(*f); continue; }
    ++f;
    while (*f == 'l' || *f == 'z') ++f;
    if (*f == '%') web::out->push_back('%');
    else if (*f == 's') web::out->append((const char*)__v_va_ptr(a++));
    else if (*f == 'u' || *f == 'd') { std::string t; __v_fmt_int(&t, __v_va_i64(a++)); web::out->append(t); }
    else __v_limit("unsupported format directive");
  }
  web::writes++; return 0;
}
