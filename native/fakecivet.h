// civetweb, replaced by a recorder
#pragma once
#include <map>
#include <mutex>
#include <cstdarg>
#include <string>
#include <vector>
#include <memory>
#include "CivetServer.h"
struct mg_connection { std::map<std::string, std::string> req; std::string out; int writes = 0; };
namespace cv { static std::map<std::string, CivetHandler*> handlers; static std::map<std::string, CivetAuthHandler*> auths; static std::vector<std::string> log; static std::recursive_mutex mu; }
extern "C" {
static int ieq(const char* a, const char* b) { for (; *a && *b; ++a, ++b) if (tolower(*a) != tolower(*b)) return 0; return *a == *b; }
const char* mg_get_header(const struct mg_connection* c, const char* n) { for (auto& p : c->req) if (ieq(p.first.c_str(), n)) return p.second.c_str(); return nullptr; }
int mg_write(struct mg_connection* c, const void* b, size_t n) { c->out.append((const char*)b, n); ++c->writes; return (int)n; }
int mg_printf(struct mg_connection* c, const char* f, ...) { va_list a; va_start(a, f); va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, a); va_end(a); std::vector<char> v(n + 1); vsnprintf(v.data(), n + 1, f, b); va_end(b); c->out.append(v.data(), n); ++c->writes; return n; }
int mg_send_http_ok(struct mg_connection* c, const char* t, long long n) { std::string s = "HTTP/1.1 200 OK\r\nContent-Type: " + std::string(t) + "\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n"; c->out += s; return 0; }
int mg_send_http_error(struct mg_connection* c, int s, const char* f, ...) { char b[1000]; va_list a; va_start(a, f); vsnprintf(b, 1000, f, a); va_end(a); c->out += "HTTP/1.1 " + std::to_string(s) + " Error\r\nContent-Length: " + std::to_string(strlen(b)) + "\r\n\r\n" + b; return 0; }
}
CivetServer::CivetServer(const char**, const CivetCallbacks*, const void*) : context(nullptr), UserContext(nullptr) { cv::log.push_back("server"); }
CivetServer::CivetServer(const std::vector<std::string>&, const CivetCallbacks*, const void*) : context(nullptr), UserContext(nullptr) { cv::log.push_back("server"); }
CivetServer::~CivetServer() { cv::log.push_back("~server"); }
void CivetServer::close() {}
void CivetServer::addHandler(const std::string& u, CivetHandler* h) { std::lock_guard<std::recursive_mutex> l(cv::mu); cv::log.push_back("add " + u); cv::handlers[u] = h; }
void CivetServer::removeHandler(const std::string& u) { std::lock_guard<std::recursive_mutex> l(cv::mu); cv::log.push_back("remove " + u); cv::handlers.erase(u); }
void CivetServer::addAuthHandler(const std::string& u, CivetAuthHandler* h) { std::lock_guard<std::recursive_mutex> l(cv::mu); cv::log.push_back("addauth " + u); cv::auths[u] = h; }
void CivetServer::removeAuthHandler(const std::string& u) { std::lock_guard<std::recursive_mutex> l(cv::mu); cv::log.push_back("removeauth " + u); cv::auths.erase(u); }
std::vector<int> CivetServer::getListeningPorts() { return {1}; }
// an HTTP response taken apart
struct Resp { bool ok = false; std::string status; std::vector<std::pair<std::string, std::string>> hdr; std::string body; const std::string* get(const char* n) const { for (auto& p : hdr) if (ieq(p.first.c_str(), n)) return &p.second; return nullptr; } int count(const char* n) const { int k = 0; for (auto& p : hdr) k += ieq(p.first.c_str(), n); return k; } };
inline Resp parse(const std::string& o) { Resp r; size_t e = o.find("\r\n\r\n"); if (e == std::string::npos) return r; std::string h = o.substr(0, e + 2); r.body = o.substr(e + 4); size_t p = h.find("\r\n"); r.status = h.substr(0, p); p += 2; while (p < h.size()) { size_t q = h.find("\r\n", p); std::string l = h.substr(p, q - p); p = q + 2; size_t c = l.find(':'); if (c == std::string::npos) return r; size_t v = c + 1; while (v < l.size() && l[v] == ' ') ++v; r.hdr.push_back({l.substr(0, c), l.substr(v)}); } r.ok = true; return r; }
