#include "civet.h"
#include "basic_auth.h"
#include "prometheus/detail/base64.h"
#include <stdexcept>
using namespace prometheus;
// contract of base64_decode (proved as C15): it throws exactly on what is not base64, else returns the decoded bytes
static bool valid64(const std::string& s) { return __v_fn_bool("base64.valid", __v_strid(&s), 0); }
static void decode64(std::string& r, const std::string& s) { __v_fn_str(&r, "base64.decode", __v_strid(&s), 0); }
std::string ct_decode(const std::string& s) __asm__("__ct__ZN10prometheus6detail13base64_decodeERKSs");
std::string ct_decode(const std::string& s) { if (!valid64(s)) throw std::runtime_error("not base64"); std::string r; decode64(r, s); return r; }

struct Call { int n; std::string* user; std::string* password; bool answer; };
static size_t colon(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == ':') return i; return s.size(); }
static void setup(BasicAuthHandler& h, std::string& realm, Call& call) {
  call.n = 0; call.user = new std::string; call.password = new std::string; call.answer = __v_any_bool("answer");
  new (&h) BasicAuthHandler([&call](const std::string& u, const std::string& p) { call.n++; *call.user = u; *call.password = p; return call.answer; }, realm);
}
static std::string refusal(const std::string& realm) { return std::string("HTTP/1.1 401 Unauthorized\r\nWWW-Authenticate: Basic realm=\"") + realm.c_str() + "\"\r\nConnection: close\r\nContent-Length: 0\r\n\r\n"; }
static void refused(bool ok, const Call& call, const std::string& realm, int calls) {
  check(!ok, "the request is refused"); check(call.n == calls, "the callback is not consulted for a missing or malformed header");
  check_eq_soft(*web::out, refusal(realm), "a refusal is one complete 401 response carrying the realm");
}
ENTRY(t_no_header) {
  std::string& realm = any<std::string>("realm"); std::string& v = any<std::string>("header"); __v_nonul(&realm); Call call; BasicAuthHandler& h = any<BasicAuthHandler>("handler"); setup(h, realm, call);
  web::request("Authorization", false, v);
  bool ok = h.authorize(nullptr, web::conn());
  refused(ok, call, realm, 0);
}
ENTRY(t_header) {
  std::string& realm = any<std::string>("realm"); std::string& v = any<std::string>("header"); __v_nonul(&v); __v_nonul(&realm); Call call; BasicAuthHandler& h = any<BasicAuthHandler>("handler"); setup(h, realm, call);
  web::request("Authorization", true, v);
  bool ok = h.authorize(nullptr, web::conn());
  bool prefix = v.size() >= 6 && v[0] == 'B' && v[1] == 'a' && v[2] == 's' && v[3] == 'i' && v[4] == 'c' && v[5] == ' ';
  if (!prefix) { refused(ok, call, realm, 0); return; }
  std::string b(v, 6);
  if (!valid64(b)) { refused(ok, call, realm, 0); return; }
  std::string d; decode64(d, b);
  size_t c = colon(d);
  if (c == d.size()) { refused(ok, call, realm, 0); return; }
  check(call.n == 1, "the callback is called exactly once");
  check_eq(*call.user, std::string(d, 0, c), "the user name is the text before the first colon");
  check_eq(*call.password, std::string(d, c + 1), "the password is everything after the first colon");
  if (!call.answer) { refused(ok, call, realm, 1); return; }
  __v_reach("approved"); check(ok, "an approved request is admitted"); check(web::out->size() == 0 && web::writes == 0, "an admitted request is not answered here");
}
static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
// the shape of a refusal, on one realm
ENTRY(t_refusal) {
  std::string realm = "R e"; std::string v; Call call; BasicAuthHandler& h = any<BasicAuthHandler>("handler"); setup(h, realm, call);
  web::request("Authorization", false, v);
  check(!h.authorize(nullptr, web::conn()), "a request without the header is refused");
  const std::string& o = *web::out;
  check(o.find("HTTP/1.1 401 ") == 0 && o.find("HTTP/", 1) == std::string::npos, "exactly one 401 response is sent");
  check(has(o, "\r\nWWW-Authenticate: Basic realm=\"R e\"\r\n"), "the response carries the realm");
  check(o.size() >= 4 && o.find("\r\n\r\n") == o.size() - 4 && has(o, "\r\nContent-Length: 0\r\n"), "the response is complete");
}
