#include "h.h"
#include "fakecivet.h"
#include "b64.h"
#include "basic_auth.h"
using namespace prometheus;
struct Call { std::string u, p; };
static void one(bool has, const std::string& header, const std::string& realm, bool answer) {
  std::vector<Call> calls; BasicAuthHandler hnd([&](const std::string& u, const std::string& p) { calls.push_back({u, p}); return answer; }, realm);
  mg_connection c; if (has) c.req["Authorization"] = header; if (coin(3)) c.req["X-Other"] = "Basic eDp5"; std::string id = std::string(has ? "header " + show(header) : "no header") + " realm " + show(realm) + (answer ? " callback true" : " callback false"); now(id);
  // the header value as C string
  std::string hv = header.c_str(); bool good = false; std::string u, p;
  if (has && hv.compare(0, 6, "Basic ") == 0) { std::string b = hv.substr(6); int pad = spec::spec_pad(b); if (pad >= 0) { std::string d = spec::spec_decode(b, pad); size_t k = d.find(':'); if (k != std::string::npos) { good = true; u = d.substr(0, k); p = d.substr(k + 1); } } }
  bool r = hnd.authorize(nullptr, &c);
  if (!expect(r == (good && answer), "a request is admitted iff the header is well formed and the callback approves", id + (r ? " admitted" : " refused"))) return;
  if (!expect(calls.size() == (good ? 1u : 0u), "the callback is called exactly once, and only for a well formed header", id + " calls " + std::to_string(calls.size()))) return;
  if (good && !expect(calls[0].u == u && calls[0].p == p, "the callback gets the user name before the first colon and the password after it", id + " got " + show(calls[0].u) + " " + show(calls[0].p))) return;
  if (r) { expect(c.out.empty(), "nothing is written for an admitted request", id); return; }
  Resp q = parse(c.out); if (!expect(q.ok && q.status.compare(0, 12, "HTTP/1.1 401") == 0, "a refused request gets one complete 401 response", id + " wrote " + show(c.out))) return;
  const std::string* l = q.get("Content-Length"); size_t n = l ? (size_t)atol(l->c_str()) : 0; if (!expect(q.count("Content-Length") <= 1 && q.body.size() == n, "a refused request gets exactly one complete 401 response", id + " wrote " + show(c.out))) return;
  const std::string* w = q.get("WWW-Authenticate"); expect(w && q.count("WWW-Authenticate") == 1 && *w == "Basic realm=\"" + realm + "\"", "the 401 response carries the realm", id + " wrote " + show(c.out));
}
static std::string basic(const std::string& cred) { return "Basic " + spec::spec_encode(cred, false); }
void run() {
  const char* realms[] = {"realm", "", "my realm", "100%d", "a%sb%%", "%n"}; 
  for (const char* r : realms) for (int a = 0; a < 2; ++a) {
    one(false, "", r, a); for (const char* hd : {"", "Basic", "Basic ", "basic eDp5", "BASIC eDp5", "Basic  eDp5", " Basic eDp5", "Basic eDp5 ", "Basic\teDp5", "Bearer eDp5", "Digest Basic eDp5", "Basic eDp", "Basic ====", "Basic =", "Basic eD=5", "Basic eDp5=", "Basic eHk=", "Basicx eDp5", "eDp5", "Basic Og==", "Basic e-p5", "Basic e_p5", "Basic eDp5\n"}) one(true, hd, r, a);
    for (const char* cr : {"u:p", ":", "u:", ":p", "u:p:q", "u::", "::", "up", "", "u", "user name:pass word"}) one(true, basic(cr), r, a);
    one(true, basic(std::string("u\0v:p\0q", 7)), r, a); one(true, basic(std::string("\0:", 2)), r, a); one(true, basic(std::string("uv\0", 3)), r, a);
  }
  for (int i = 0; i < 256; ++i) { std::string s(1, (char)i); one(true, basic("u" + s + ":p"), "r", i & 1); one(true, basic("u:p" + s), "r", 1); one(true, "Basic eDp" + s, "r", 1); one(true, s + "asic eDp5", "r", 1); one(true, "Basic" + s + "eDp5", "r", 1); }
  for (long i = 0; i < (h::thorough ? 400000 : 40000) && !h::fails; ++i) { std::string hd = basic(h::str(coin(20) ? 3000 : 10, "user:pass:", !coin(3))); if (coin(4)) hd[below(hd.size())] = 1 + below(255); one(!coin(20), coin(10) ? h::str(14, "Basic eDp5=", false) : hd, coin() ? "realm" : h::str(8, "re%lm d", false), below(3)); }
}
